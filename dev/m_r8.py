K = "sds/src/proximity_keywords/mod.rs"
M = [
("r8-kw-share-builder", "ok", K, '''    Ok(Some((
        get_memoized_regex(&keyword_regex_key(&content_pattern), |_| {
            regex_builder.build(&content_pattern)
        })
        .unwrap(),
        get_memoized_regex(&keyword_regex_key(&path_pattern), |_| {
            regex_builder.build(&path_pattern)
        })
        .unwrap(),
    )))''', '''    let compile = |pattern: &str| {
        get_memoized_regex(&keyword_regex_key(pattern), |_| regex_builder.build(pattern)).unwrap()
    };
    let content_regex = compile(&content_pattern);
    let path_regex = compile(&path_pattern);
    Ok(Some((content_regex, path_regex)))'''),
("r8-kw-boundary-wrap", "ok", K, '''    let mut keyword_pattern: Vec<Ast> = vec![];

    if should_push_word_boundary(keyword.chars().next().unwrap()) {
        keyword_pattern.push(word_boundary())
    }

    standardize_path_chars(keyword, |c| {
        keyword_pattern.push(Ast::Literal(literal_ast(c.to_ascii_lowercase())));
    });

    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {
        keyword_pattern.push(word_boundary())
    }

    Ast::Concat(Concat {
        span: span(),
        asts: keyword_pattern,
    })
}
''', '''    let mut literals = vec![];
    standardize_path_chars(keyword, |c| {
        literals.push(Ast::Literal(literal_ast(c.to_ascii_lowercase())));
    });
    with_word_boundaries(keyword, literals)
}

fn with_word_boundaries(keyword: &str, literals: Vec<Ast>) -> Ast {
    let mut asts: Vec<Ast> = vec![];
    if should_push_word_boundary(keyword.chars().next().unwrap()) {
        asts.push(word_boundary())
    }
    asts.extend(literals);
    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {
        asts.push(word_boundary())
    }
    Ast::Concat(Concat { span: span(), asts })
}
''', K, '''    let mut keyword_pattern: Vec<Ast> = vec![];
    if should_push_word_boundary(keyword.chars().next().unwrap()) {
        keyword_pattern.push(word_boundary())
    }

    for c in keyword.chars() {
        keyword_pattern.push(Ast::Literal(literal_ast(c)))
    }

    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {
        keyword_pattern.push(word_boundary())
    }
    Ast::Concat(Concat {
        span: span(),
        asts: keyword_pattern,
    })
''', '''    let literals = keyword.chars().map(|c| Ast::Literal(literal_ast(c))).collect();
    with_word_boundaries(keyword, literals)
'''),
("r8-kw-first-last", "ok", K, '''    let mut keyword_pattern: Vec<Ast> = vec![];
    if should_push_word_boundary(keyword.chars().next().unwrap()) {
        keyword_pattern.push(word_boundary())
    }

    for c in keyword.chars() {''', '''    let first = keyword.chars().next().unwrap();
    let last = keyword.chars().last().unwrap();
    let mut keyword_pattern: Vec<Ast> = Vec::with_capacity(keyword.len() + 2);
    if should_push_word_boundary(first) {
        keyword_pattern.push(word_boundary())
    }

    for c in keyword.chars() {''', K, '''    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {
        keyword_pattern.push(word_boundary())
    }
    Ast::Concat(Concat {''', '''    if should_push_word_boundary(last) {
        keyword_pattern.push(word_boundary())
    }
    Ast::Concat(Concat {'''),
("r8-kw-alnum", "ok", K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "c.is_ascii_alphanumeric()"),
("r8-kw-alnum2", "ok", K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9')"),
("r8-kw-ctype", "ok", K, '''    let is_link_symbol = MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c);
    let is_uppercase_char = c.is_ascii_uppercase();

    if is_link_symbol {
        CharType::Separator
    } else if is_uppercase_char {
        CharType::Uppercase
    } else {
        CharType::Regular
    }''', '''    match c {
        c if MULTI_WORD_KEYWORDS_LINK_CHARS.contains(c) => CharType::Separator,
        'A'..='Z' => CharType::Uppercase,
        _ => CharType::Regular,
    }'''),
("r8-kw-std-ifs", "ok", K, '''        match (is_last_char, prev_char, current_char) {
            // The last character is simply pushed
            (true, _, _) => {
                push_character(&current);
            }
            // Regular character is simply pushed
            (_, _, CharType::Regular) => {
                push_character(&current);
            }
            // Character coming after a separator is pushed
            (_, CharType::Separator, _) => {
                push_character(&current);
            }
            // Uppercase after an uppercase is pushed
            (_, CharType::Uppercase, CharType::Uppercase) => {
                push_character(&current);
            }
            (_, CharType::Regular, CharType::Uppercase) => {
                push_character(&UNIFIED_LINK_CHAR);
                // CamelCase: push a link character and push the current character
                push_character(&current);
            }
            // Regular separation in the keyword: push a link character only
            (_, _, CharType::Separator) => {
                push_character(&UNIFIED_LINK_CHAR);
            }
        }
''', '''        if is_last_char || matches!(prev_char, CharType::Separator) {
            push_character(&current);
        } else {
            match (prev_char, current_char) {
                (CharType::Regular, CharType::Uppercase) => {
                    push_character(&UNIFIED_LINK_CHAR);
                    push_character(&current);
                }
                (_, CharType::Separator) => push_character(&UNIFIED_LINK_CHAR),
                _ => push_character(&current),
            }
        }
'''),
("r8-kw-std-merge", "ok", K, '''            (true, _, _) => {
                push_character(&current);
            }
            // Regular character is simply pushed
            (_, _, CharType::Regular) => {
                push_character(&current);
            }
            // Character coming after a separator is pushed
            (_, CharType::Separator, _) => {
                push_character(&current);
            }
            // Uppercase after an uppercase is pushed
            (_, CharType::Uppercase, CharType::Uppercase) => {
                push_character(&current);
            }
''', '''            (true, _, _)
            | (_, _, CharType::Regular)
            | (_, CharType::Separator, _)
            | (_, CharType::Uppercase, CharType::Uppercase) => push_character(&current),
'''),
("r8-kw-std-peek", "ok", K, '''    let kw_length = characters.chars().count();

    let mut previous = char;
    for (i, current) in characters_iter.enumerate() {
        let is_last_char = i == kw_length - 2;
''', '''    let mut previous = char;
    let mut rest = characters_iter.peekable();
    while let Some(current) = rest.next() {
        let is_last_char = rest.peek().is_none();
'''),
("r8-kw-std-letelse", "ok", K, '''    let char = if let Some(char) = characters_iter.next() {
        push_character(&char);
        char
    } else {
        return;
    };
''', '''    let Some(char) = characters_iter.next() else {
        return;
    };
    push_character(&char);
'''),
("r8-kw-std-count", "ok", K, "let kw_length = characters.chars().count();", "let remaining = characters_iter.clone().count();", K, "let is_last_char = i == kw_length - 2;", "let is_last_char = i + 1 == remaining;"),
("r8-kw-bypass-any", "ok", K, '''    let mut all_lower = true;
    let mut all_upper = true;
    for char in characters.chars() {
        let is_upper = char.is_ascii_uppercase();
        let is_lower = char.is_ascii_lowercase();
        // If it's neither an uppercase character nor a lowercase character, return NoBypass
        if !is_lower && !is_upper {
            return BypassStandardizePathResult::NoBypass;
        }
        all_lower = all_lower && is_lower;
        all_upper = all_upper && is_upper;
        // If we realise that we don't have all uppercase nor all lowercase, return NoBypass
        if !all_lower && !all_upper {
            return BypassStandardizePathResult::NoBypass;
        }
    }

    // The characters contain only uppercase characters or only lowercase characters by now, so we can bypass
    if all_lower {
        BypassStandardizePathResult::BypassAndAllLowercase
    } else {
        BypassStandardizePathResult::BypassAndAllUppercase
    }''', '''    if characters.chars().all(|c| c.is_ascii_lowercase()) {
        BypassStandardizePathResult::BypassAndAllLowercase
    } else if characters.chars().all(|c| c.is_ascii_uppercase()) {
        BypassStandardizePathResult::BypassAndAllUppercase
    } else {
        BypassStandardizePathResult::NoBypass
    }'''),
("r8-kw-bypass-noearly", "ok", K, '''        // If it's neither an uppercase character nor a lowercase character, return NoBypass
        if !is_lower && !is_upper {
            return BypassStandardizePathResult::NoBypass;
        }
        all_lower = all_lower && is_lower;
        all_upper = all_upper && is_upper;
        // If we realise that we don't have all uppercase nor all lowercase, return NoBypass
        if !all_lower && !all_upper {''', '''        all_lower &= is_lower;
        all_upper &= is_upper;
        if !(all_lower || all_upper) {'''),
("r8-kw-literal", "ok", K, '''    let kind = if regex_syntax::is_meta_character(c) {
        LiteralKind::Meta
    } else {
        LiteralKind::Verbatim
    };
    Literal {
        span: span(),
        kind,
        c,
    }''', '''    Literal {
        span: span(),
        kind: match regex_syntax::is_meta_character(c) {
            true => LiteralKind::Meta,
            false => LiteralKind::Verbatim,
        },
        c,
    }'''),
("r8-kw-ast-loop", "ok", K, '''    let (content_patterns, path_patterns) = keywords
        .iter()
        .map(|keyword| {
            if keyword.chars().count() > look_ahead_character_count {
                return Err(KeywordTooLong(look_ahead_character_count));
            }

            let trimmed_keyword = keyword.trim().replace(remove_chars, "");
            if trimmed_keyword.is_empty() {
                return Err(EmptyKeyword);
            }
            Ok((
                calculate_keyword_content_pattern(&trimmed_keyword),
                calculate_keyword_path_pattern(&trimmed_keyword),
            ))
        })
        .collect::<Result<Vec<_>, _>>()?
        .iter()
        .cloned()
        .unzip();
''', '''    let mut content_patterns = Vec::with_capacity(keywords.len());
    let mut path_patterns = Vec::with_capacity(keywords.len());
    for keyword in keywords {
        let trimmed_keyword = normalize_keyword(keyword, look_ahead_character_count, remove_chars)?;
        content_patterns.push(calculate_keyword_content_pattern(&trimmed_keyword));
        path_patterns.push(calculate_keyword_path_pattern(&trimmed_keyword));
    }
''', K, '''fn compile_keywords(
    keywords: Vec<String>,''', '''fn normalize_keyword(
    keyword: &str,
    look_ahead_character_count: usize,
    remove_chars: &[char],
) -> Result<String, ProximityKeywordsValidationError> {
    if keyword.chars().count() > look_ahead_character_count {
        return Err(KeywordTooLong(look_ahead_character_count));
    }
    let trimmed_keyword = keyword.trim().replace(remove_chars, "");
    if trimmed_keyword.is_empty() {
        return Err(EmptyKeyword);
    }
    Ok(trimmed_keyword)
}

fn compile_keywords(
    keywords: Vec<String>,'''),
("r8-kw-ast-intoiter", "ok", K, '''        .collect::<Result<Vec<_>, _>>()?
        .iter()
        .cloned()
        .unzip();''', '''        .collect::<Result<Vec<_>, _>>()?
        .into_iter()
        .unzip();'''),
("r8-kw-prefix-ifelse", "ok", K, '''    match char_indices.nth_back(look_ahead_char_count - 1) {
        Some((i, _)) => PrefixStart {
            start: i,
            used_all_chars: true,
        },
        None => PrefixStart {
            start: 0,
            used_all_chars: false,
        },
    }''', '''    let found = char_indices.nth_back(look_ahead_char_count - 1).map(|(i, _)| i);
    PrefixStart {
        start: found.unwrap_or(0),
        used_all_chars: found.is_some(),
    }'''),
("r8-kw-prefix-rev", "ok", K, '''    let prefix = &content[0..match_start];
    let mut char_indices = prefix.char_indices();

    match char_indices.nth_back(look_ahead_char_count - 1) {''', '''    let nth_before = content[..match_start]
        .char_indices()
        .rev()
        .nth(look_ahead_char_count - 1);

    match nth_before {'''),
("r8-kw-within", "ok", K, '''    content[prefix_start..]
        .char_indices()
        .nth(prefix_size)
        .map_or(true, |(i, _)| prefix_start + i >= target)''', '''    match content[prefix_start..].char_indices().nth(prefix_size) {
        Some((i, _)) => prefix_start + i >= target,
        None => true,
    }'''),
("r8-kw-within-count", "ok", K, '''    content[prefix_start..]
        .char_indices()
        .nth(prefix_size)
        .map_or(true, |(i, _)| prefix_start + i >= target)''', '''    content[prefix_start..target].chars().count() <= prefix_size'''),
("r8-kw-within-noquick", "ok", K, '''    // A unicode char can't be less than 1 byte, so do a quick check assuming 1 byte per char
    if prefix_start + prefix_size > target {
        return true;
    }

''', ''),
("r8-kw-nextidx", "ok", K, '''    content[start..]
        .char_indices()
        .nth(1)
        .map(|(i, _c)| start + i)''', '''    let mut indices = content[start..].char_indices();
    indices.next()?;
    let (offset, _) = indices.next()?;
    Some(start + offset)'''),
("r8-kw-previdx", "ok", K, "    content[..start].char_indices().next_back().map(|(i, _c)| i)", "    let (i, _) = content[..start].char_indices().next_back()?;\n    Some(i)"),
("r8-kw-previdx-last", "ok", K, "    content[..start].char_indices().next_back().map(|(i, _c)| i)", "    content[..start].char_indices().last().map(|(i, _)| i)"),
("r8-kw-previdx-len", "ok", K, "    content[..start].char_indices().next_back().map(|(i, _c)| i)", "    content[..start].chars().next_back().map(|c| start - c.len_utf8())"),
("r8-kw-compile-map", "ok", K, '''    if let Some((content_regex, path_regex)) = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )? {
        included_keywords = Some(CompiledIncludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex {
                content_regex,
                path_regex,
            },
        });
    }
''', '''    included_keywords = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )?
    .map(|(content_regex, path_regex)| CompiledIncludedProximityKeywords {
        look_ahead_character_count: config.look_ahead_character_count,
        keywords_pattern: ProximityKeywordsRegex {
            content_regex,
            path_regex,
        },
    });
''', K, "    let mut included_keywords = None;", "    let included_keywords;"),
("r8-kw-many", "ok", K, '''    if config.included_keywords.len() > MAX_KEYWORD_COUNT
        || config.excluded_keywords.len() > MAX_KEYWORD_COUNT
    {''', '''    let too_many = |keywords: &[String]| keywords.len() > MAX_KEYWORD_COUNT;
    if too_many(&config.included_keywords) || too_many(&config.excluded_keywords) {'''),
("r8-kw-many-max", "ok", K, '''    if config.included_keywords.len() > MAX_KEYWORD_COUNT
        || config.excluded_keywords.len() > MAX_KEYWORD_COUNT
    {''', '''    let longest = config.included_keywords.len().max(config.excluded_keywords.len());
    if longest > MAX_KEYWORD_COUNT {'''),
]
