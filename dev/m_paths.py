PA = "sds/src/path.rs"
PK = "sds/src/proximity_keywords/mod.rs"
M = [
 # bugs
 ("sw-len", "C09", PA, "if prefix.len() > self.len() {", "if prefix.len() > self.len() + 1 {"),
 ("sw-len2", "C09", PA, "if prefix.len() > self.len() {", "if prefix.len() >= self.len() && !prefix.is_empty() && self.len() > 3 {"),
 ("sw-skip", "C09", PA, "self.segments.iter()) {\n            if a != b {", "self.segments.iter()) {\n            if a != b && !a.is_index() {"),
 ("sw-skip1", "C09", PA, "prefix.segments.iter().zip(self.segments.iter())", "prefix.segments.iter().zip(self.segments.iter()).take(8)"),
 ("static-idx", "C09", PA, "PathSegment::Index(i) => PathSegment::Index(*i),", "PathSegment::Index(i) => PathSegment::Index(*i & 0xffff),"),
 ("static-trim", "C09", PA, "Cow::Owned(cow.as_ref().to_owned())", "Cow::Owned(cow.trim_end().to_owned())"),
 ("static-filter", "C09", PA, "self.segments.iter().map(PathSegment::into_static).collect()", "self.segments.iter().filter(|s| s.is_index() || s.length() > 0).map(PathSegment::into_static).collect()"),
 ("san-i", "C26", PA, "if i != 0 {\n                    sanitized_path", "if !sanitized_path.is_empty() {\n                    sanitized_path"),
 ("san-lower", "C26", PA, "                    standardize_path_chars(field, |c| {\n                        sanitized_path.push(c.to_ascii_lowercase());", "                    standardize_path_chars(field, |c| {\n                        sanitized_path.push(*c);"),
 ("san-lower2", "C26", PA, "Some(Cow::Owned(field.to_ascii_lowercase()))", "Some(Cow::Owned(field.to_lowercase()))"),
 ("san-bypass", "C26", PA, "BypassStandardizePathResult::BypassAndAllLowercase => Some(field.clone()),\n                BypassStandardizePathResult::BypassAndAllUppercase => {\n                    Some(Cow::Owned(field.to_ascii_lowercase()))", "BypassStandardizePathResult::BypassAndAllUppercase => Some(field.clone()),\n                BypassStandardizePathResult::BypassAndAllLowercase => {\n                    Some(Cow::Owned(field.to_ascii_lowercase()))"),
 ("std-last", "C26", PK, "let is_last_char = i == kw_length - 2;", "let is_last_char = i == kw_length - 1;"),
 ("std-prev", "C26", PK, "            (_, _, CharType::Separator) => {\n                push_character(&UNIFIED_LINK_CHAR);\n            }\n        }\n\n        previous = current;", "            (_, _, CharType::Separator) => {\n                push_character(&UNIFIED_LINK_CHAR);\n                continue;\n            }\n        }\n\n        previous = current;"),
 ("std-bytes", "C26", PK, "let kw_length = characters.chars().count();", "let kw_length = characters.len();"),
 ("std-sep", "C26", PK, "(_, CharType::Separator, _) => {\n                push_character(&current);", "(_, CharType::Separator, _) => {\n                push_character(&UNIFIED_LINK_CHAR);"),
 ("byp-alpha-ok", "ok", PK, "if !is_lower && !is_upper {\n            return", "if !is_lower && !is_upper && !char.is_ascii_digit() {\n            return"),
 ("link-chars", "C26", PK, "&['-', '_', '.', ' ', '/'];", "&['-', '_', '.', ' '];"),
 # refactors
 ("sw-all-ok", "ok", PA, """        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", "        self.segments.iter().zip(&prefix.segments).all(|(a, b)| b == a)"),
 ("sw-slice-ok", "ok", PA, """        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", "        self.segments[..prefix.segments.len()] == prefix.segments[..]"),
 ("sw-std-ok", "ok", PA, """        if prefix.len() > self.len() {
            // the prefix is longer than the path
            return false;
        }

        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", "        self.segments.starts_with(&prefix.segments)"),
 ("sw-idx-ok", "ok", PA, """        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        for i in 0..prefix.segments.len() {
            if self.segments[i] != prefix.segments[i] { return false; }
        }
        true"""),
 ("sw-while-ok", "ok", PA, """        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        let mut i = 0;
        while i < prefix.segments.len() {
            if self.segments[i] != prefix.segments[i] { return false; }
            i += 1;
        }
        true"""),
 ("static-loop-ok", "ok", PA, """        Path {
            segments: self.segments.iter().map(PathSegment::into_static).collect(),
        }""", """        let mut segments = Vec::with_capacity(self.segments.len());
        for s in self.segments.iter() {
            segments.push(match s {
                PathSegment::Index(i) => PathSegment::Index(*i),
                PathSegment::Field(f) => PathSegment::Field(f.to_string().into()),
            });
        }
        Path { segments }"""),
 ("san-for-ok", "ok", PA, """        self.segments.iter().enumerate().for_each(|(i, segment)| {
            if let PathSegment::Field(field) = segment {
                if i != 0 {
                    sanitized_path.push(UNIFIED_LINK_CHAR);
                }
""", """        for (i, segment) in self.segments.iter().enumerate() {
            if let PathSegment::Field(field) = segment {
                if i > 0 {
                    sanitized_path.push_str(".");
                }
""", PA, """            }
        });

        sanitized_path""", """            }
        }

        sanitized_path"""),
 ("san-match-ok", "ok", PA, """                if should_bypass_standardize_path(field) != BypassStandardizePathResult::NoBypass {
                    sanitized_path.push_str(field.to_ascii_lowercase().as_str())
                } else {
                    standardize_path_chars(field, |c| {
                        sanitized_path.push(c.to_ascii_lowercase());
                    });
                }""", """                match should_bypass_standardize_path(field) {
                    BypassStandardizePathResult::NoBypass => standardize_path_chars(field, |c| {
                        sanitized_path.push(c.to_ascii_lowercase());
                    }),
                    _ => sanitized_path += &field.to_ascii_lowercase(),
                }"""),
 ("std-if-ok", "ok", PK, """        match (is_last_char, prev_char, current_char) {
            // The last character is simply pushed
            (true, _, _) => {
                push_character(&current);
            }
            // Regular character is simply pushed
            (_, _, CharType::Regular) => {
                push_character(&current);
            }
            // Character coming after a separator is pushed
            (_, CharType::Separator, _) => {
                push_character(&current);
            }
            // Uppercase after an uppercase is pushed
            (_, CharType::Uppercase, CharType::Uppercase) => {
                push_character(&current);
            }
            (_, CharType::Regular, CharType::Uppercase) => {""", """        match (is_last_char, prev_char, current_char) {
            (true, _, _) | (_, _, CharType::Regular) | (_, CharType::Separator, _) | (_, CharType::Uppercase, CharType::Uppercase) => {
                push_character(&current);
            }
            (_, CharType::Regular, CharType::Uppercase) => {"""),
 ("std-helper-ok", "ok", PK, """    let mut previous = char;
    for (i, current) in characters_iter.enumerate() {
        let is_last_char = i == kw_length - 2;
""", """    let mut previous = char;
    let mut i = 0;
    for current in characters_iter {
        i += 1;
        let is_last_char = i + 1 == kw_length;
"""),
 ("std-peek-ok", "ok", PK, """    let mut previous = char;
    for (i, current) in characters_iter.enumerate() {
        let is_last_char = i == kw_length - 2;
""", """    let mut previous = char;
    let last_index = kw_length - 1;
    for (i, current) in characters.chars().enumerate().skip(1) {
        let is_last_char = i == last_index;
"""),
 ("std-type-ok", "ok", PK, """    let is_link_symbol = MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c);
    let is_uppercase_char = c.is_ascii_uppercase();

    if is_link_symbol {
        CharType::Separator
    } else if is_uppercase_char {
        CharType::Uppercase
    } else {
        CharType::Regular
    }""", """    match c {
        c if MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c) => CharType::Separator,
        'A'..='Z' => CharType::Uppercase,
        _ => CharType::Regular,
    }"""),
 ("byp-all-ok", "ok", PK, """    let mut all_lower = true;
    let mut all_upper = true;
    for char in characters.chars() {
        let is_upper = char.is_ascii_uppercase();
        let is_lower = char.is_ascii_lowercase();
        // If it's neither an uppercase character nor a lowercase character, return NoBypass
        if !is_lower && !is_upper {
            return BypassStandardizePathResult::NoBypass;
        }
        all_lower = all_lower && is_lower;
        all_upper = all_upper && is_upper;
        // If we realise that we don't have all uppercase nor all lowercase, return NoBypass
        if !all_lower && !all_upper {
            return BypassStandardizePathResult::NoBypass;
        }
    }

    // The characters contain only uppercase characters or only lowercase characters by now, so we can bypass
    if all_lower {
        BypassStandardizePathResult::BypassAndAllLowercase
    } else {
        BypassStandardizePathResult::BypassAndAllUppercase
    }""", """    if characters.chars().all(|c| c.is_ascii_lowercase()) {
        BypassStandardizePathResult::BypassAndAllLowercase
    } else if characters.chars().all(|c| c.is_ascii_uppercase()) {
        BypassStandardizePathResult::BypassAndAllUppercase
    } else {
        BypassStandardizePathResult::NoBypass
    }"""),
 ("byp-and-ok", "ok", PK, """        all_lower = all_lower && is_lower;
        all_upper = all_upper && is_upper;""", """        all_lower &= is_lower;
        all_upper &= is_upper;"""),
 ("byp-merge-ok", "ok", PK, """        // If it's neither an uppercase character nor a lowercase character, return NoBypass
        if !is_lower && !is_upper {
            return BypassStandardizePathResult::NoBypass;
        }
""", ""),
]
