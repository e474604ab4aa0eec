S, E, PA, RM = ["sds/src/" + x for x in ("match_validation/match_status.rs", "encoding.rs", "path.rs", "rule_match.rs")]
ORD = "#[derive(Debug, PartialEq, PartialOrd, Ord, Eq, Clone)]\npub enum MatchStatus {\n    NotChecked,\n    NotAvailable,\n    Invalid,\n    Error(String),\n    Valid,\n}"
M = [
 ("ms-ge", "ok", S, "new_status > *self", "new_status >= *self && self != &MatchStatus::Valid"),
 ("ms-swap", "C20", S, "    Invalid,\n    Error(String),", "    Error(String),\n    Invalid,"),
 ("ms-err", "C20", S, "if new_status > *self {", "if !matches!(self, MatchStatus::Error(_)) && new_status > *self || new_status == MatchStatus::Valid && false {"),
 ("ms-err2", "C20", S, "if new_status > *self {", "if new_status > *self || (matches!(new_status, MatchStatus::Error(_)) && matches!(self, MatchStatus::Error(_))) {"),
 ("ms-ord", "C20", S, ORD, ORD.replace("PartialOrd, Ord, ", "") + """
impl PartialOrd for MatchStatus {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for MatchStatus {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        fn rank(s: &MatchStatus) -> u8 {
            match s {
                MatchStatus::NotChecked => 0,
                MatchStatus::NotAvailable => 1,
                MatchStatus::Invalid => 2,
                MatchStatus::Error(_) => 3,
                MatchStatus::Valid => 4,
            }
        }
        rank(self).cmp(&rank(other))
    }
}"""),
 ("ms-ord-ok", "ok", S, ORD, ORD.replace("PartialOrd, Ord, ", "") + """
impl PartialOrd for MatchStatus {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for MatchStatus {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        fn rank(s: &MatchStatus) -> u8 {
            match s {
                MatchStatus::NotChecked => 0,
                MatchStatus::NotAvailable => 1,
                MatchStatus::Invalid => 2,
                MatchStatus::Error(_) => 3,
                MatchStatus::Valid => 4,
            }
        }
        match (self, other) {
            (MatchStatus::Error(a), MatchStatus::Error(b)) => a.cmp(b),
            _ => rank(self).cmp(&rank(other)),
        }
    }
}"""),
 ("ms-max-ok", "ok", S, "        if new_status > *self {\n            *self = new_status;\n        }", "        let current = std::mem::replace(self, MatchStatus::NotChecked);\n        *self = current.max(new_status);"),
 ("ms-le-ok", "ok", S, "        if new_status > *self {\n            *self = new_status;\n        }", "        if new_status <= *self {\n            return;\n        }\n        *self = new_status;"),
 ("ms-match-ok", "ok", S, "        if new_status > *self {\n            *self = new_status;\n        }", "        match new_status.cmp(self) {\n            std::cmp::Ordering::Greater => *self = new_status,\n            _ => {}\n        }"),
]
B = "sds-bindings-utils/src/binary_encoding.rs"
FLD = """                    let field = if self.strings_are_valid_utf8 {
                        Cow::from(unsafe {
                            std::str::from_utf8_unchecked(&self.bytes[index..(index + len)])
                        })
                    } else {
                        String::from_utf8_lossy(&self.bytes[index..(index + len)])
                    };
"""
CNT = FLD.replace("let field", "let content")
INS = """                    if visit_result.might_mutate && !self.storage.contains_key(&visit_result.path) {
                        self.storage.insert(
                            visit_result.path.into_static(),
                            (false, content.to_string()),
                        );
                    }"""
M += [
 ("bin-le", "C15", B, """                1 => {
                    // push index
                    let segment_index =
                        u32::from_be_bytes(""", """                1 => {
                    // push index
                    let segment_index =
                        u32::from_le_bytes("""),
 ("bin-idx4", "C15", B, "                    index += 5;\n                    visitor.push_segment(PathSegment::Index(segment_index));", "                    index += 5;\n                    visitor.push_segment(PathSegment::Index(segment_index & 0xffff));"),
 ("bin-dup", "C15", B, "visit_result.might_mutate && !self.storage.contains_key(&visit_result.path)", "visit_result.might_mutate"),
 ("bin-always", "C15", B, "visit_result.might_mutate && !self.storage", "!content.is_empty() && !self.storage"),
 ("bin-true", "C15", B, "(false, content.to_string()),", "(true, content.to_string()),"),
 ("bin-unchecked", "C15", B, FLD, FLD.replace("if self.strings_are_valid_utf8 {", "if self.strings_are_valid_utf8 || len < 4 {")),
 ("bin-mut", "C15", B, "content.0 = was_mutated;", "content.0 = was_mutated && !content.1.is_empty();"),
 ("bin-mut2", "C15", B, "content.0 = was_mutated;", "content.0 = true; let _ = was_mutated;"),
 ("bin-skip", "C15", B, "                _ => panic!(\"invalid encoded content\"),", "                _ => index += 1,"),
 ("enc-empty", "C16", B, "    if matches.is_empty() {", "    if matches.is_empty() || storage.len() > 1000 {"),
 ("enc-mutated", "C16", B, "        if *mutated {", "        if *mutated || content.is_empty() {"),
 ("enc-end", "C16", B, "out.extend((rule_match.end_index_exclusive as u32).to_be_bytes());\n    out.extend((rule_match.shift_offset as u32).to_be_bytes());", "out.extend((rule_match.shift_offset as u32).to_be_bytes());\n    out.extend((rule_match.end_index_exclusive as u32).to_be_bytes());"),
 ("enc-u16", "C16", B, "(rule_match.rule_index as u32)", "(rule_match.rule_index as u16 as u32)"),
 ("enc-abs", "C16", B, "(rule_match.shift_offset as u32)", "(rule_match.shift_offset.unsigned_abs() as u32)"),
 ("enc-chars", "C16", B, "fn encode_bytes(out: &mut Vec<u8>, bytes: &[u8]) {\n    out.extend((bytes.len() as u32).to_be_bytes());", "fn encode_bytes(out: &mut Vec<u8>, bytes: &[u8]) {\n    out.extend((String::from_utf8_lossy(bytes).chars().count() as u32).to_be_bytes());"),
 ("enc-idx", "C16", B, "                out.push(1);", "                out.push(2);"),
 ("enc-tag3", "C16", B, "    out.push(3);\n", ""),
 ("disp-dot", "C16", PA, "if i != 0 {\n                        write!", "if i > 1 {\n                        write!"),
 ("disp-idx", "C16", PA, 'write!(f, "[{}]", i)?;', 'write!(f, "[{}]", i + 1)?;'),
 ("disp-rt", "C16", RM, 'ReplacementType::PartialStart => write!(f, "partial_beginning")', 'ReplacementType::PartialStart => write!(f, "partial_start")'),
 ("bin-entry-ok", "ok", B, INS, """                    if !visit_result.might_mutate {
                        continue;
                    }
                    let owned = visit_result.path.into_static();
                    if !self.storage.contains_key(&owned) {
                        self.storage.insert(owned, (false, content.into_owned()));
                    }"""),
 ("bin-entry2-ok", "ok", B, INS, """                    if visit_result.might_mutate {
                        self.storage
                            .entry(visit_result.path.into_static())
                            .or_insert_with(|| (false, content.to_string()));
                    }"""),
 ("bin-mutline-ok", "ok", B, """        let content = self.storage.get_mut(&path.into_static()).unwrap();
        let was_mutated = visit(&mut content.1);

        // Mark the string as mutated (can be used for perf optimizations)
        content.0 = was_mutated;""", """        let (mutated, content) = self.storage.get_mut(&path.into_static()).unwrap();
        *mutated = visit(content);"""),
 ("bin-lenfn-ok", "ok", B, """                    let len =
                        u32::from_be_bytes(self.bytes[index + 1..index + 5].try_into().unwrap())
                            as usize;
                    index += 5;

                    let field""", """                    let len = read_u32(&self.bytes, index + 1);
                    index += 5;

                    let field""", B, "/// Encode a result to a byte array", """fn read_u32(bytes: &[u8], at: usize) -> usize {
    let mut word = [0; 4];
    word.copy_from_slice(&bytes[at..at + 4]);
    u32::from_be_bytes(word) as usize
}

/// Encode a result to a byte array"""),
 ("enc-iter-ok", "ok", B, """    for (path, (mutated, content)) in storage {
        if *mutated {
            encode_mutation(&mut out, path, content);
        }
    }""", """    storage
        .iter()
        .filter(|(_, (mutated, _))| *mutated)
        .for_each(|(path, (_, content))| encode_mutation(&mut out, path, content));"""),
 ("enc-slice-ok", "ok", B, "out.extend((rule_match.start_index as u32).to_be_bytes());", "out.extend_from_slice(&(rule_match.start_index as u32).to_be_bytes());"),
 ("enc-foreach-ok", "ok", B, "    for rule_match in matches {\n        encode_match(&mut out, rule_match);\n    }", "    matches.iter().for_each(|m| encode_match(&mut out, m));"),
 ("enc-cap-ok", "ok", B, "let mut out = vec![];", "let mut out = Vec::with_capacity(matches.len() * 32);"),
 ("disp-ws-ok", "ok", PA, 'write!(f, ".")?;\n                    }\n                    write!(f, "{}", field)?;', 'f.write_str(".")?;\n                    }\n                    f.write_str(field)?;'),
 ("disp-rt-ok", "ok", RM, """        match self {
            ReplacementType::None => write!(f, "none"),
            ReplacementType::Placeholder => write!(f, "placeholder"),
            ReplacementType::Hash => write!(f, "hash"),
            ReplacementType::PartialStart => write!(f, "partial_beginning"),
            ReplacementType::PartialEnd => write!(f, "partial_end"),
        }""", """        let name = match self {
            ReplacementType::None => "none",
            ReplacementType::Placeholder => "placeholder",
            ReplacementType::Hash => "hash",
            ReplacementType::PartialStart => "partial_beginning",
            ReplacementType::PartialEnd => "partial_end",
        };
        f.write_str(name)"""),
]
