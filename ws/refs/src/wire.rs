//! The byte format events and results are exchanged in.
use crate::misc::{MatchStatus, ReplacementType};
use crate::path::{Path, PathSegment};
use std::borrow::Cow;
use std::collections::BTreeMap;

pub struct RuleMatch {
    pub rule_index: usize,
    pub path: Path<'static>,
    pub replacement_type: ReplacementType,
    pub start_index: usize,
    pub end_index_exclusive: usize,
    pub shift_offset: isize,
    pub match_value: Option<String>,
    pub match_status: MatchStatus,
}

pub struct VisitStringResult<'s, 'a> {
    pub might_mutate: bool,
    pub path: &'s Path<'a>,
}

pub trait EventVisitor<'a> {
    fn push_segment(&mut self, segment: PathSegment<'a>);
    fn pop_segment(&mut self);
    fn visit_string<'s>(&'s mut self, value: &str) -> VisitStringResult<'s, 'a>;
}

pub struct BinaryEvent {
    bytes: Vec<u8>,
    pub storage: BTreeMap<Path<'static>, (bool, String)>,
    strings_are_valid_utf8: bool,
}

fn number(bytes: &[u8], at: usize) -> usize {
    u32::from_be_bytes(bytes[at..at + 4].try_into().unwrap()) as usize
}

fn text(bytes: &[u8], valid: bool) -> Cow<'_, str> {
    match valid {
        true => Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(bytes) }),
        false => String::from_utf8_lossy(bytes),
    }
}

pub fn visit_event<'a>(e: &'a mut BinaryEvent, visitor: &mut impl EventVisitor<'a>) {
    let mut i = 0;
    while i < e.bytes.len() {
        let tag = e.bytes[i];
        if tag == 2 {
            visitor.pop_segment();
            i += 1;
            continue;
        }
        let n = number(&e.bytes, i + 1);
        i += 5;
        if tag == 1 {
            visitor.push_segment(PathSegment::Index(n));
            continue;
        }
        let s = text(&e.bytes[i..i + n], e.strings_are_valid_utf8);
        i += n;
        if tag == 0 {
            visitor.push_segment(PathSegment::Field(s));
        } else if tag == 3 {
            let r = visitor.visit_string(&s);
            if r.might_mutate && !e.storage.contains_key(r.path) {
                e.storage.insert(r.path.into_static(), (false, s.to_string()));
            }
        } else {
            panic!();
        }
    }
}

pub fn visit_string_mut(e: &mut BinaryEvent, path: &Path, mut visit: impl FnMut(&mut String) -> bool) {
    let entry = e.storage.get_mut(&path.into_static()).unwrap();
    entry.0 = visit(&mut entry.1);
}

fn be(out: &mut Vec<u8>, n: u32) {
    out.extend(n.to_be_bytes());
}

fn blob(out: &mut Vec<u8>, b: &[u8]) {
    be(out, b.len() as u32);
    out.extend(b);
}

pub fn encode_response(storage: &BTreeMap<Path, (bool, String)>, matches: &[RuleMatch]) -> Option<Vec<u8>> {
    if matches.len() == 0 {
        return None;
    }
    let mut out = Vec::new();
    for (path, entry) in storage.iter() {
        if !entry.0 {
            continue;
        }
        out.push(4);
        for s in path.segments.iter() {
            if let PathSegment::Index(i) = s {
                out.push(1);
                be(&mut out, *i as u32);
            } else if let PathSegment::Field(f) = s {
                out.push(0);
                blob(&mut out, f.as_bytes());
            }
        }
        out.push(3);
        blob(&mut out, entry.1.as_bytes());
    }
    for m in matches.iter() {
        out.push(5);
        be(&mut out, m.rule_index as u32);
        blob(&mut out, m.path.to_string().as_bytes());
        blob(&mut out, m.replacement_type.to_string().as_bytes());
        be(&mut out, m.start_index as u32);
        be(&mut out, m.end_index_exclusive as u32);
        be(&mut out, m.shift_offset as u32);
    }
    Some(out)
}

impl std::fmt::Display for Path<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        crate::misc::path_fmt(self, f)
    }
}

impl std::fmt::Display for ReplacementType {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        crate::misc::replacement_fmt(self, f)
    }
}

pub mod made {
    use super::Path;
    use std::collections::BTreeMap;
    use std::marker::PhantomData;
    pub struct BinaryEvent<E> {
        bytes: Vec<u8>,
        pub storage: BTreeMap<Path<'static>, (bool, String)>,
        strings_are_valid_utf8: bool,
        _phantom: PhantomData<E>,
    }
    pub fn new_event<E>(bytes: Vec<u8>, valid: bool) -> BinaryEvent<E> {
        BinaryEvent { bytes, storage: BTreeMap::new(), strings_are_valid_utf8: valid, _phantom: PhantomData::default() }
    }
}
