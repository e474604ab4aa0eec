//! Paths and their standardised form.
use std::borrow::Cow;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Path<'a> {
    pub segments: Vec<PathSegment<'a>>,
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum PathSegment<'a> {
    Field(Cow<'a, str>),
    Index(usize),
}

pub fn clone_path<'a>(p: Path<'a>) -> Path<'a> {
    p
}
pub fn clone_segment<'a>(s: PathSegment<'a>) -> PathSegment<'a> {
    s
}
pub fn eq_path(a: &Path, b: &Path) -> bool {
    a.segments == b.segments
}
pub fn eq_segment(a: &PathSegment, b: &PathSegment) -> bool {
    match (a, b) {
        (PathSegment::Field(x), PathSegment::Field(y)) => x == y,
        (PathSegment::Index(x), PathSegment::Index(y)) => x == y,
        _ => false,
    }
}
pub fn cmp_path(a: &Path, b: &Path) -> std::cmp::Ordering {
    a.segments.cmp(&b.segments)
}
pub fn cmp_segment(a: &PathSegment, b: &PathSegment) -> std::cmp::Ordering {
    match (a, b) {
        (PathSegment::Field(x), PathSegment::Field(y)) => x.cmp(y),
        (PathSegment::Index(x), PathSegment::Index(y)) => x.cmp(y),
        (PathSegment::Field(_), PathSegment::Index(_)) => std::cmp::Ordering::Less,
        (PathSegment::Index(_), PathSegment::Field(_)) => std::cmp::Ordering::Greater,
    }
}
pub fn from_segments(segments: Vec<PathSegment>) -> Path {
    Path { segments }
}
pub fn from_text(s: &str) -> PathSegment {
    PathSegment::Field(Cow::Borrowed(s))
}
pub fn from_number(i: usize) -> PathSegment<'static> {
    PathSegment::Index(i)
}

const LINKS: [char; 5] = ['-', '_', '.', ' ', '/'];

fn sep(c: char) -> bool {
    LINKS.contains(&c)
}

fn upper(c: char) -> bool {
    !sep(c) && c.is_ascii_uppercase()
}

/// The standardised form of a keyword or path segment, one character at a time.
pub fn standardize_path_chars<F: FnMut(&char)>(characters: &str, mut push_character: F) {
    let mut it = characters.chars();
    let first = match it.next() {
        None => return,
        Some(c) => c,
    };
    push_character(&first);
    let n = characters.chars().count();
    let mut before = first;
    let mut pos = 0;
    for c in it {
        let last = pos + 2 == n;
        pos += 1;
        if !last && upper(c) && !sep(before) && !upper(before) {
            push_character(&'.');
        }
        if !last && sep(c) && !sep(before) {
            push_character(&'.');
        } else {
            push_character(&c);
        }
        before = c;
    }
}

fn one_case(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_lowercase()) || s.chars().all(|c| c.is_ascii_uppercase())
}

impl<'a> Path<'a> {
    pub fn root() -> Self {
        Path { segments: Vec::new() }
    }

    pub fn into_static(&self) -> Path<'static> {
        let mut out = Vec::new();
        for s in &self.segments {
            out.push(s.into_static());
        }
        Path { segments: out }
    }

    pub fn len(&self) -> usize {
        self.segments.len()
    }

    pub fn is_empty(&self) -> bool {
        self.segments.len() == 0
    }

    pub fn starts_with(&self, prefix: &Path) -> bool {
        prefix.segments.len() <= self.segments.len() && prefix.segments.iter().zip(self.segments.iter()).all(|(a, b)| a == b)
    }

    pub fn sanitize(&self) -> String {
        let mut out = String::new();
        for (i, s) in self.segments.iter().enumerate() {
            let f = match s {
                PathSegment::Index(_) => continue,
                PathSegment::Field(f) => f,
            };
            if i > 0 {
                out.push('.');
            }
            if one_case(f) {
                out.push_str(&f.to_ascii_lowercase());
            } else {
                standardize_path_chars(f, |c| out.push(c.to_ascii_lowercase()));
            }
        }
        out
    }
}

impl<'a> PathSegment<'a> {
    pub fn into_static(&self) -> PathSegment<'static> {
        match self {
            PathSegment::Index(i) => PathSegment::Index(*i),
            PathSegment::Field(f) => PathSegment::Field(Cow::Owned(f.to_string())),
        }
    }

    pub fn is_index(&self) -> bool {
        match self {
            PathSegment::Index(_) => true,
            PathSegment::Field(_) => false,
        }
    }

    pub fn length(&self) -> usize {
        match self {
            PathSegment::Index(_) => 0,
            PathSegment::Field(f) => f.len(),
        }
    }

    pub fn sanitize(&self) -> Option<Cow<'a, str>> {
        let f = match self {
            PathSegment::Index(_) => return None,
            PathSegment::Field(f) => f,
        };
        if f.chars().all(|c| c.is_ascii_lowercase()) {
            return Some(f.clone());
        }
        if f.chars().all(|c| c.is_ascii_uppercase()) {
            return Some(Cow::Owned(f.to_ascii_lowercase()));
        }
        let mut out = String::new();
        standardize_path_chars(f, |c| out.push(c.to_ascii_lowercase()));
        Some(Cow::Owned(out))
    }
}
