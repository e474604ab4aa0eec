SE, PA, MS, EJ = "sds/src/simple_event.rs", "sds/src/path.rs", "sds/src/match_validation/match_status.rs", "sds/src/event_json.rs"
K, KI, KE = ["sds/src/proximity_keywords/" + x for x in ("mod.rs", "included_keywords.rs", "excluded_keywords.rs")]
SR, ST, BS = "sds/src/scoped_ruleset/mod.rs", "sds/src/stats.rs", "sds/src/scoped_ruleset/bool_set.rs"
LA, VA, RS, BE = "sds/src/observability/labels.rs", "sds/src/validation.rs", "sds/src/scanner/regex_rule/regex_store.rs", "sds-bindings-utils/src/binary_encoding.rs"
def R(f):
    return open("/repo/" + f).read()
def cut(f, a, b):
    s = R(f)
    i = s.index(a)
    return s[i:s.index(b, i)]
M = [
 # ---- simple_event
 ("r-se-childfn", "ok", SE, """                    if key == FIRST_VISIT_KEY {
                        visitor.push_segment(key.as_str().into());
                        child.visit_event(visitor);
                        visitor.pop_segment();
                    } else {""", """                    if key == FIRST_VISIT_KEY {
                        visit_child(PathSegment::from(key.as_str()), child, visitor);
                    } else {""", SE, """                for (key, child) in key_to_post_process {
                    visitor.push_segment(key.as_str().into());
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }""", """                for (key, child) in key_to_post_process {
                    visit_child(PathSegment::from(key.as_str()), child, visitor);
                }""", SE, """                    visitor.push_segment(PathSegment::Index(i));
                    child.visit_event(visitor);
                    visitor.pop_segment();""", "                    visit_child(i.into(), child, visitor);", SE, "impl SimpleEvent {", """fn visit_child<'path>(
    segment: PathSegment<'path>,
    child: &'path mut SimpleEvent,
    visitor: &mut impl EventVisitor<'path>,
) {
    visitor.push_segment(segment);
    child.visit_event(visitor);
    visitor.pop_segment();
}

impl SimpleEvent {"""),
 ("r-se-flat-match", "ok", SE, """            match segment {
                PathSegment::Field(key) => {
                    value = value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap();
                }
                PathSegment::Index(i) => {
                    value = value.as_list_mut().unwrap().get_mut(*i).unwrap();
                }
            }""", """            value = match segment {
                PathSegment::Field(key) => value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap(),
                PathSegment::Index(i) => &mut value.as_list_mut().unwrap()[*i],
            };"""),
 ("r-se-match2", "ok", SE, """            match segment {
                PathSegment::Field(key) => {
                    value = value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap();
                }
                PathSegment::Index(i) => {
                    value = value.as_list_mut().unwrap().get_mut(*i).unwrap();
                }
            }""", """            value = match (value, segment) {
                (SimpleEvent::Map(map), PathSegment::Field(key)) => map.get_mut(key.as_ref()).unwrap(),
                (SimpleEvent::List(list), PathSegment::Index(i)) => list.get_mut(*i).unwrap(),
                _ => panic!("path does not match the event"),
            };"""),
 ("r-se-foreach", "ok", SE, """                for (i, child) in list.iter_mut().enumerate() {
                    visitor.push_segment(PathSegment::Index(i));
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }""", """                let mut i = 0;
                for child in list {
                    visitor.push_segment(i.into());
                    child.visit_event(visitor);
                    visitor.pop_segment();
                    i += 1;
                }"""),
 ("r-se-iflet", "ok", SE, """        match self {
            Self::List(x) => Some(x),
            _ => None,
        }""", """        if let Self::List(list) = self {
            Some(list)
        } else {
            None
        }"""),
 ("r-se-letelse", "ok", SE, "        (visit)(value.as_string_mut().unwrap());", "        let Some(content) = value.as_string_mut() else {\n            panic!(\"not a string\");\n        };\n        visit(content);"),
 # ---- event_json
 ("r-ej-let", "ok", EJ, """        let first_segment = path.segments.first().unwrap();
        let mut remaining_segments = path.segments.clone();
        remaining_segments.remove(0);
        if let PathSegment::Field(field) = first_segment {
            let value = self.get_mut(&field.to_string()).unwrap();
            value.visit_string_mut(&Path::from(remaining_segments), &mut visit);
        }""", """        let (first_segment, remaining_segments) = path.segments.split_first().unwrap();
        if let PathSegment::Field(field) = first_segment {
            let value = self.get_mut(field.as_ref()).unwrap();
            value.visit_string_mut(&Path::from(remaining_segments.to_vec()), &mut visit);
        }"""),
 ("r-ej-skip", "ok", EJ, """        let first_segment = path.segments.first().unwrap();
        let mut remaining_segments = path.segments.clone();
        remaining_segments.remove(0);
        if let PathSegment::Field(field) = first_segment {""", """        let first_segment = &path.segments[0];
        let remaining_segments: Vec<_> = path.segments.iter().skip(1).cloned().collect();
        if let PathSegment::Field(field) = first_segment {"""),
 ("r-ej-iflet", "ok", EJ, """        match value {
            serde_json::Value::String(s) => {
                (visit)(s);
            }
            _ => panic!("unknown value"),
        };""", """        if let serde_json::Value::String(s) = value {
            visit(s);
        } else {
            panic!("unknown value");
        }"""),
 ("r-ej-merge", "ok", EJ, """            serde_json::Value::Bool(value) => {
                let _result = visitor.visit_string(value.to_string().as_str());
            }
            serde_json::Value::Number(number) => {
                let _result = visitor.visit_string(number.to_string().as_str());
            }""", """            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
                let text = match self {
                    serde_json::Value::Bool(value) => value.to_string(),
                    serde_json::Value::Number(number) => number.to_string(),
                    _ => unreachable!(),
                };
                visitor.visit_string(&text);
            }"""),
 ("r-ej-fmt", "ok", EJ, "let _result = visitor.visit_string(number.to_string().as_str());", "let text = number.to_string();\n                visitor.visit_string(&text);"),
 # ---- path
 ("r-pa-all", "ok", PA, """        if prefix.len() > self.len() {
            // the prefix is longer than the path
            return false;
        }

        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        prefix.len() <= self.len()
            && prefix
                .segments
                .iter()
                .zip(&self.segments)
                .all(|(a, b)| a == b)"""),
 ("r-pa-get", "ok", PA, """        if prefix.len() > self.len() {
            // the prefix is longer than the path
            return false;
        }

        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        self.segments
            .get(..prefix.len())
            .map_or(false, |head| head == prefix.segments.as_slice())"""),
 ("r-pa-enum", "ok", PA, """        if prefix.len() > self.len() {
            // the prefix is longer than the path
            return false;
        }

        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        for (i, segment) in prefix.segments.iter().enumerate() {
            match self.segments.get(i) {
                Some(own) if own == segment => {}
                _ => return false,
            }
        }
        true"""),
 ("r-pa-sum", "ok", PA, """            .map(|segment| {
                if let PathSegment::Field(field) = segment {
                    return field.len();
                }
                0
            })
            .sum()""", "            .map(PathSegment::length)\n            .sum()"),
 ("r-pa-into-loop", "ok", PA, """        Path {
            segments: self.segments.iter().map(PathSegment::into_static).collect(),
        }""", """        let mut segments = Vec::with_capacity(self.len());
        for segment in &self.segments {
            segments.push(segment.into_static());
        }
        Path { segments }"""),
 ("r-pa-into-from", "ok", PA, """            segments: self.segments.iter().map(PathSegment::into_static).collect(),""", """            segments: self
                .segments
                .iter()
                .map(|segment| match segment {
                    PathSegment::Field(name) => PathSegment::Field(Cow::Owned(name.to_string())),
                    PathSegment::Index(index) => PathSegment::Index(*index),
                })
                .collect(),"""),
 ("r-pa-seg-owned", "ok", PA, "PathSegment::Field(Cow::Owned(cow.as_ref().to_owned()))", "PathSegment::Field(Cow::Owned(cow.clone().into_owned()))"),
 ("r-pa-isempty", "ok", PA, "        self.segments.is_empty()", "        self.len() == 0"),
 ("r-pa-isindex", "ok", PA, "        matches!(self, PathSegment::Index(_))", "        match self {\n            PathSegment::Index(_) => true,\n            PathSegment::Field(_) => false,\n        }"),
 ("r-pa-len", "ok", PA, """        if let PathSegment::Field(field) = self {
            field.len()
        } else {
            0
        }""", """        match self {
            PathSegment::Field(field) => field.len(),
            PathSegment::Index(_) => 0,
        }"""),
 ("r-pa-disp", "ok", PA, """                PathSegment::Field(field) => {
                    if i != 0 {
                        write!(f, ".")?;
                    }
                    write!(f, "{}", field)?;
                }
                PathSegment::Index(i) => {
                    write!(f, "[{}]", i)?;
                }""", """                PathSegment::Index(index) => write!(f, "[{index}]")?,
                PathSegment::Field(field) if i == 0 => write!(f, "{field}")?,
                PathSegment::Field(field) => write!(f, ".{field}")?,"""),
 ("r-pa-san-helper", "ok", PA, """                if should_bypass_standardize_path(field) != BypassStandardizePathResult::NoBypass {
                    sanitized_path.push_str(field.to_ascii_lowercase().as_str())
                } else {
                    standardize_path_chars(field, |c| {
                        sanitized_path.push(c.to_ascii_lowercase());
                    });
                }""", "                push_sanitized(field, &mut sanitized_path);", PA, "impl<'a> PathSegment<'a> {", """fn push_sanitized(field: &str, out: &mut String) {
    match should_bypass_standardize_path(field) {
        BypassStandardizePathResult::NoBypass => {
            standardize_path_chars(field, |c| out.push(c.to_ascii_lowercase()))
        }
        _ => out.push_str(&field.to_ascii_lowercase()),
    }
}

impl<'a> PathSegment<'a> {"""),
 ("r-pa-san-letelse", "ok", PA, "        if let PathSegment::Field(field) = self {\n            match should_bypass", "        let PathSegment::Field(field) = self else {\n            return None;\n        };\n        {\n            match should_bypass", PA, """                    Some(Cow::Owned(sanitized_segment))
                }
            }
        } else {
            None
        }""", """                    Some(Cow::Owned(sanitized_segment))
                }
            }
        }"""),
 ("r-pa-seg-from", "ok", PA, "        Self::Field(Cow::Borrowed(value))", "        PathSegment::Field(value.into())"),
 # ---- match status
 ("r-ms-max", "ok", MS, """        if new_status > *self {
            *self = new_status;
        }""", """        let old_status = std::mem::replace(self, MatchStatus::NotChecked);
        *self = std::cmp::max(new_status, old_status);"""),
 ("r-ms-cmp", "ok", MS, """        if new_status > *self {
            *self = new_status;
        }""", """        match new_status.cmp(self) {
            std::cmp::Ordering::Greater => *self = new_status,
            std::cmp::Ordering::Equal | std::cmp::Ordering::Less => {}
        }"""),
 ("r-ms-prio", "ok", MS, """        if new_status > *self {
            *self = new_status;
        }""", """        let should_replace = *self < new_status;
        if !should_replace {
            return;
        }
        *self = new_status;"""),
 # ---- keywords
 ("r-kw-contains", "ok", K, """    if config.look_ahead_character_count == 0
        || config.look_ahead_character_count > MAX_LOOK_AHEAD_CHARACTER_COUNT
    {""", "    if !(1..=MAX_LOOK_AHEAD_CHARACTER_COUNT).contains(&config.look_ahead_character_count) {"),
 ("r-kw-max", "ok", K, """    if config.included_keywords.len() > MAX_KEYWORD_COUNT
        || config.excluded_keywords.len() > MAX_KEYWORD_COUNT
    {""", """    let largest = config
        .included_keywords
        .len()
        .max(config.excluded_keywords.len());
    if largest > MAX_KEYWORD_COUNT {"""),
 ("r-kw-any", "ok", K, """    if config.included_keywords.len() > MAX_KEYWORD_COUNT
        || config.excluded_keywords.len() > MAX_KEYWORD_COUNT
    {""", """    if [&config.included_keywords, &config.excluded_keywords]
        .iter()
        .any(|keywords| keywords.len() > MAX_KEYWORD_COUNT)
    {"""),
 ("r-kw-map", "ok", K, """    let mut included_keywords = None;
    let mut excluded_keywords = None;
""", "", K, """    if let Some((content_regex, path_regex)) = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )? {
        included_keywords = Some(CompiledIncludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex {
                content_regex,
                path_regex,
            },
        });
    }
""", """    let included_keywords = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )?
    .map(|(content_regex, path_regex)| CompiledIncludedProximityKeywords {
        look_ahead_character_count: config.look_ahead_character_count,
        keywords_pattern: ProximityKeywordsRegex {
            content_regex,
            path_regex,
        },
    });
    let mut excluded_keywords = None;
"""),
 ("r-kw-ast-loop", "ok", K, cut(K, "    let (content_patterns, path_patterns) = keywords", "    let content_pattern = Ast::Alternation"), """    let mut content_patterns = Vec::with_capacity(keywords.len());
    let mut path_patterns = Vec::with_capacity(keywords.len());
    for keyword in keywords {
        if keyword.chars().count() > look_ahead_character_count {
            return Err(KeywordTooLong(look_ahead_character_count));
        }
        let trimmed_keyword = keyword.trim().replace(remove_chars, "");
        if trimmed_keyword.is_empty() {
            return Err(EmptyKeyword);
        }
        content_patterns.push(calculate_keyword_content_pattern(&trimmed_keyword));
        path_patterns.push(calculate_keyword_path_pattern(&trimmed_keyword));
    }

"""),
 ("r-kw-clean-helper", "ok", K, """            let trimmed_keyword = keyword.trim().replace(remove_chars, "");
            if trimmed_keyword.is_empty() {
                return Err(EmptyKeyword);
            }
            Ok((""", """            let trimmed_keyword = clean_keyword(keyword, remove_chars)?;
            Ok((""", K, "fn compile_keywords(", """fn clean_keyword(
    keyword: &str,
    remove_chars: &[char],
) -> Result<String, ProximityKeywordsValidationError> {
    let trimmed = keyword.trim().replace(remove_chars, "");
    if trimmed.is_empty() {
        Err(EmptyKeyword)
    } else {
        Ok(trimmed)
    }
}

fn compile_keywords("""),
 ("r-kw-toolong", "ok", K, "if keyword.chars().count() > look_ahead_character_count {", "if keyword.chars().nth(look_ahead_character_count).is_some() {"),
 ("r-kw-bound", "ok", K, "    c.is_ascii_alphabetic() || c.is_ascii_digit()", "    matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9')"),
 ("r-kw-content-ext", "ok", K, """    for c in keyword.chars() {
        keyword_pattern.push(Ast::Literal(literal_ast(c)))
    }
""", """    keyword_pattern.extend(keyword.chars().map(|c| Ast::Literal(literal_ast(c))));
"""),
 ("r-kw-chartype", "ok", K, """    let is_link_symbol = MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c);
    let is_uppercase_char = c.is_ascii_uppercase();

    if is_link_symbol {
        CharType::Separator
    } else if is_uppercase_char {
        CharType::Uppercase
    } else {
        CharType::Regular
    }""", """    match c {
        'A'..='Z' => CharType::Uppercase,
        c if MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c) => CharType::Separator,
        _ => CharType::Regular,
    }"""),
 ("r-kw-bypass-all", "ok", K, cut(K, "    let mut all_lower = true;", "\n}\n\n/// Function that standardizes"), """    if characters.chars().all(|c| c.is_ascii_lowercase()) {
        BypassStandardizePathResult::BypassAndAllLowercase
    } else if characters.chars().all(|c| c.is_ascii_uppercase()) {
        BypassStandardizePathResult::BypassAndAllUppercase
    } else {
        BypassStandardizePathResult::NoBypass
    }"""),
 ("r-kw-bypass-bytes", "ok", K, cut(K, "    let mut all_lower = true;", "\n}\n\n/// Function that standardizes"), """    let has_lower = characters.chars().any(|c| c.is_ascii_lowercase());
    let has_upper = characters.chars().any(|c| c.is_ascii_uppercase());
    let has_other = characters.chars().any(|c| !c.is_ascii_alphabetic());
    match (has_lower, has_upper, has_other) {
        (_, false, false) => BypassStandardizePathResult::BypassAndAllLowercase,
        (false, true, false) => BypassStandardizePathResult::BypassAndAllUppercase,
        _ => BypassStandardizePathResult::NoBypass,
    }"""),
 ("r-kw-std-match", "ok", K, cut(K, "        match (is_last_char, prev_char, current_char) {", "        previous = current;"), """        let (push_link, push_current) = if is_last_char {
            (false, true)
        } else {
            match (prev_char, current_char) {
                (_, CharType::Regular) => (false, true),
                (CharType::Separator, _) => (false, true),
                (CharType::Uppercase, CharType::Uppercase) => (false, true),
                (CharType::Regular, CharType::Uppercase) => (true, true),
                (_, CharType::Separator) => (true, false),
            }
        };
        if push_link {
            push_character(&UNIFIED_LINK_CHAR);
        }
        if push_current {
            push_character(&current);
        }

"""),
 ("r-kw-std-letelse", "ok", K, """    let char = if let Some(char) = characters_iter.next() {
        push_character(&char);
        char
    } else {
        return;
    };
""", """    let Some(first) = characters_iter.next() else {
        return;
    };
    push_character(&first);
""", K, "    let mut previous = char;", "    let mut previous = first;"),
 ("r-kw-within", "ok", K, """    if prefix_start + prefix_size > target {
        return true;
    }

    // Slower method that works with unicode chars
    content[prefix_start..]
        .char_indices()
        .nth(prefix_size)
        .map_or(true, |(i, _)| prefix_start + i >= target)""", """    prefix_start + prefix_size > target
        || match content[prefix_start..].char_indices().nth(prefix_size) {
            Some((i, _)) => prefix_start + i >= target,
            None => true,
        }"""),
 ("r-kw-gps", "ok", K, cut(K, "    let prefix = &content[0..match_start];", "\n}\n\nfn compile_keywords_to_ast"), """    let nth_char = content[..match_start]
        .char_indices()
        .nth_back(look_ahead_char_count - 1);
    if let Some((start, _)) = nth_char {
        PrefixStart {
            start,
            used_all_chars: true,
        }
    } else {
        PrefixStart {
            start: 0,
            used_all_chars: false,
        }
    }"""),
 ("r-kw-gps2", "ok", K, cut(K, "    let prefix = &content[0..match_start];", "\n}\n\nfn compile_keywords_to_ast"), """    let found = content[..match_start]
        .char_indices()
        .rev()
        .nth(look_ahead_char_count - 1);
    PrefixStart {
        start: found.map_or(0, |(i, _)| i),
        used_all_chars: found.is_some(),
    }"""),
 ("r-ke-let", "ok", KE, """    let span_start = if prefix_start_info.used_all_chars {
        // an extra char was added for assertion checking, so it needs to be removed here
        next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
    } else {
        0
    };

    if span_start >= span_end {
        // Only the chars added for assertion checking are left after stripping, so there is nothing to search
        return false;
    }
""", """    let span_start = match prefix_start_info.used_all_chars {
        true => next_char_index(&stripped_prefix, 0).unwrap_or_else(|| stripped_prefix.len()),
        false => 0,
    };

    if span_end <= span_start {
        return false;
    }
"""),
 ("r-ki-match", "ok", KI, cut(KI, "        if let Some(included_keyword_match) =", "    }\n}\n\n#[cfg(test)]"), """        let regex = &self.keywords.keywords_pattern.content_regex;
        let found = regex.search_with(regex_caches.get(regex), &input)?;
        let start = found.start();
        self.start = next_char_index(self.content, start).unwrap_or(found.end());
        Some(start)
"""),
 ("r-ki-map", "ok", KI, cut(KI, "        if let Some(included_keyword_match) =", "    }\n}\n\n#[cfg(test)]"), """        let regex = &self.keywords.keywords_pattern.content_regex;
        match regex.search_with(regex_caches.get(regex), &input) {
            None => None,
            Some(found) => {
                self.start = match next_char_index(self.content, found.start()) {
                    Some(next) => next,
                    None => found.end(),
                };
                Some(found.start())
            }
        }
"""),
 ("r-ki-skip", "ok", KI, """        if start > self.start {
            self.start = start;
        }""", "        self.start = self.start.max(start);"),
]
