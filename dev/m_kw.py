K = "sds/src/proximity_keywords/mod.rs"
X = "sds/src/proximity_keywords/excluded_keywords.rs"
I = "sds/src/proximity_keywords/included_keywords.rs"
M = [
 ("lim51", "C05", K, "const MAX_KEYWORD_COUNT: usize = 50;", "const MAX_KEYWORD_COUNT: usize = 51;"),
 ("limsum", "C05", K, "config.included_keywords.len() > MAX_KEYWORD_COUNT\n        || config.excluded_keywords.len()", "config.included_keywords.len() > MAX_KEYWORD_COUNT\n        && config.excluded_keywords.len()"),
 ("la0", "C05", K, "    if config.look_ahead_character_count == 0\n        || config", "    if config"),
 ("exc-rm", "C05", K, "        config.excluded_keywords.clone(),\n        config.look_ahead_character_count,\n        EXCLUDED_KEYWORDS_REMOVED_CHARS,", "        config.excluded_keywords.clone(),\n        config.look_ahead_character_count,\n        &[],"),
 ("toolong-bytes", "C05,C06", K, "if keyword.chars().count() > look_ahead_character_count {", "if keyword.len() > look_ahead_character_count {"),
 ("toolong-trim", "C05,C06", K, "if keyword.chars().count() > look_ahead_character_count {", "if keyword.trim().chars().count() > look_ahead_character_count {"),
 ("swap-regex", "C05", K, "content_regex,\n                path_regex,\n            },\n            false_pos", "content_regex: path_regex,\n                path_regex: content_regex,\n            },\n            false_pos"),
 ("no-trim", "C06", K, "keyword.trim().replace(remove_chars, \"\")", "keyword.replace(remove_chars, \"\")"),
 ("wb-digit", "C06", K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "c.is_ascii_alphabetic()"),
 ("wb-last", "C06", K, "    for c in keyword.chars() {\n        keyword_pattern.push(Ast::Literal(literal_ast(c)))\n    }\n\n    if should_push_word_boundary(keyword.chars().next_back().unwrap())", "    for c in keyword.chars() {\n        keyword_pattern.push(Ast::Literal(literal_ast(c)))\n    }\n\n    if should_push_word_boundary(keyword.chars().next().unwrap())"),
 ("wb-unicode", "C06", K, "                FlagsItem {\n                    span: span(),\n                    kind: FlagsItemKind::Negation,\n                },\n", ""),
 ("lit-meta", "C06", K, "if regex_syntax::is_meta_character(c) {", "if c.is_ascii_punctuation() {"),
 ("case", "C06", K, ".case_insensitive(true)", ".case_insensitive(false)"),
 ("pathcase", "C06", K, "literal_ast(c.to_ascii_lowercase())", "literal_ast(*c)"),
 ("memo-same", "C06", K, "regex_builder.build(&path_pattern)", "regex_builder.build(&content_pattern)"),
 ("win-off", "C07", X, "look_ahead_char_count + 1,", "look_ahead_char_count,"),
 ("win-end", "C07", X, "next_char_index(content, match_start).unwrap_or(content.len())", "match_start"),
 ("win-span0", "C07", X, "    let span_start = if prefix_start_info.used_all_chars {", "    let span_start = if !prefix_start_info.used_all_chars {"),
 ("win-count", "C07", X, "        if is_false_positive {\n            self.false_positive_counter.increment(1);\n        }", "        self.false_positive_counter.increment(1);"),
 ("win-byte", "C07", X, "prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0)", "stripped_prefix.len().saturating_sub(1)"),
 ("gps", "C07", K, "char_indices.nth_back(look_ahead_char_count - 1)", "char_indices.nth_back(look_ahead_char_count)"),
 ("iip", "C07", K, "|(i, _)| prefix_start + i >= target)", "|(i, _)| prefix_start + i > target)"),
 ("iip2", "C07", K, "if prefix_start + prefix_size > target {", "if prefix_start + prefix_size * 2 > target {"),
 ("iip3", "C07", K, ".map_or(true, |(i, _)| prefix_start + i >= target)", ".map_or(false, |(i, _)| prefix_start + i >= target)"),
 ("path-content", "C07", K, "regex.path_regex.search_half(&input).is_some()", "regex.content_regex.search_half(&input).is_some()"),
 ("skip-back", "C08", I, "if start > self.start {\n            self.start = start;\n        }", "self.start = start;"),
 ("next-end", "C08", I, "self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end());", "self.start = included_keyword_match.end();"),
 ("next-ret", "C08", I, "            Some(included_keyword_match.start())\n        } else", "            Some(included_keyword_match.end())\n        } else"),
 ("next-plus1", "C08", I, "self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end());", "self.start = included_keyword_match.start() + 1;"),
 ("nci", "C07,C08", K, ".nth(1)\n        .map(|(i, _c)| start + i)", ".nth(1)\n        .map(|(i, _c)| start + i.min(3))"),
 # refactors
 ("cfg-match-ok", "ok", K, """    if let Some((content_regex, path_regex)) = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )? {
        included_keywords = Some(CompiledIncludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex {
                content_regex,
                path_regex,
            },
        });
    }
""", """    let compiled = compile_keywords(config.included_keywords.to_vec(), config.look_ahead_character_count, &[])?;
    if let Some(pair) = compiled {
        let keywords_pattern = ProximityKeywordsRegex { path_regex: pair.1, content_regex: pair.0 };
        included_keywords = Some(CompiledIncludedProximityKeywords { keywords_pattern, look_ahead_character_count: config.look_ahead_character_count });
    }
"""),
 ("cfg-map-ok", "ok", K, """    let mut included_keywords = None;
    let mut excluded_keywords = None;
""", "    let mut excluded_keywords = None;\n", K, """    if let Some((content_regex, path_regex)) = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )? {
        included_keywords = Some(CompiledIncludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex {
                content_regex,
                path_regex,
            },
        });
    }
""", """    let look_ahead_character_count = config.look_ahead_character_count;
    let included_keywords = compile_keywords(config.included_keywords.clone(), look_ahead_character_count, &[])?
        .map(|(content_regex, path_regex)| CompiledIncludedProximityKeywords {
            look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex { content_regex, path_regex },
        });
"""),
 ("cfg-helper-ok", "ok", K, """    if config.look_ahead_character_count == 0
        || config.look_ahead_character_count > MAX_LOOK_AHEAD_CHARACTER_COUNT
    {
        return Err(InvalidLookAheadCharacterCount);
    }
""", """    check_look_ahead(config.look_ahead_character_count)?;
""", K, "fn next_char_index(", """fn check_look_ahead(n: usize) -> Result<(), ProximityKeywordsValidationError> {
    if n < 1 || MAX_LOOK_AHEAD_CHARACTER_COUNT < n {
        Err(InvalidLookAheadCharacterCount)
    } else {
        Ok(())
    }
}

fn next_char_index("""),
 ("ast-loop-ok", "ok", K, """    let (content_patterns, path_patterns) = keywords
        .iter()
        .map(|keyword| {
            if keyword.chars().count() > look_ahead_character_count {
                return Err(KeywordTooLong(look_ahead_character_count));
            }

            let trimmed_keyword = keyword.trim().replace(remove_chars, "");
            if trimmed_keyword.is_empty() {
                return Err(EmptyKeyword);
            }
            Ok((
                calculate_keyword_content_pattern(&trimmed_keyword),
                calculate_keyword_path_pattern(&trimmed_keyword),
            ))
        })
        .collect::<Result<Vec<_>, _>>()?
        .iter()
        .cloned()
        .unzip();
""", """    let mut content_patterns = Vec::with_capacity(keywords.len());
    let mut path_patterns = Vec::with_capacity(keywords.len());
    for keyword in keywords {
        if keyword.chars().count() > look_ahead_character_count {
            return Err(KeywordTooLong(look_ahead_character_count));
        }
        let trimmed_keyword = keyword.trim().replace(remove_chars, "");
        if trimmed_keyword.is_empty() {
            return Err(EmptyKeyword);
        }
        content_patterns.push(calculate_keyword_content_pattern(&trimmed_keyword));
        path_patterns.push(calculate_keyword_path_pattern(&trimmed_keyword));
    }
"""),
 ("ast-intoiter-ok", "ok", K, ".collect::<Result<Vec<_>, _>>()?\n        .iter()\n        .cloned()\n        .unzip();", ".collect::<Result<Vec<_>, _>>()?\n        .into_iter()\n        .unzip();"),
 ("kw-extend-ok", "ok", K, """    for c in keyword.chars() {
        keyword_pattern.push(Ast::Literal(literal_ast(c)))
    }
""", """    keyword_pattern.extend(keyword.chars().map(|c| Ast::Literal(literal_ast(c))));
"""),
 ("kw-helper-ok", "ok", K, """    if should_push_word_boundary(keyword.chars().next().unwrap()) {
        keyword_pattern.push(word_boundary())
    }

    for c in""", """    push_boundary(keyword.chars().next(), &mut keyword_pattern);
    for c in""", K, "/// Transform a keyword in an AST, the", """fn push_boundary(c: Option<char>, out: &mut Vec<Ast>) {
    if should_push_word_boundary(c.unwrap()) {
        out.push(word_boundary());
    }
}

/// Transform a keyword in an AST, the"""),
 ("compile-q-ok", "ok", K, """        match compile_keywords_to_ast(&keywords, look_ahead_character_count, remove_chars) {
            Ok(Some((content_ast, path_ast))) => (content_ast.to_string(), path_ast.to_string()),
            Ok(None) => return Ok(None),
            Err(e) => return Err(e),
        };
""", """        match compile_keywords_to_ast(&keywords, look_ahead_character_count, remove_chars)? {
            Some((content_ast, path_ast)) => (format!("{}", content_ast), path_ast.to_string()),
            None => return Ok(None),
        };
"""),
 ("alnum-ok", "ok", K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "c.is_ascii_alphanumeric()"),
 ("alnum2-ok", "ok", K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9')"),
 ("excl-reorder-ok", "ok", X, """    // Subtracting one to exclude the last char which was added only for boundary checking
    let span_end = prev_char_index(&stripped_prefix, stripped_prefix.len()).unwrap_or(0);

    let span_start = if prefix_start_info.used_all_chars {
        // an extra char was added for assertion checking, so it needs to be removed here
        next_char_index(&stripped_prefix, 0).unwrap_or(stripped_prefix.len())
    } else {
        0
    };
""", """    let span_start = match prefix_start_info.used_all_chars {
        false => 0,
        true => next_char_index(&stripped_prefix, 0).unwrap_or_else(|| stripped_prefix.len()),
    };
    let span_end = match stripped_prefix.char_indices().next_back() {
        Some((i, _)) => i,
        None => 0,
    };
"""),
 ("excl-early-ok", "ok", X, """        if is_false_positive {
            self.false_positive_counter.increment(1);
        }
        is_false_positive
""", """        if !is_false_positive {
            return false;
        }
        self.false_positive_counter.increment(1);
        true
"""),
 ("gps-maplet-ok", "ok", K, """    match char_indices.nth_back(look_ahead_char_count - 1) {
        Some((i, _)) => PrefixStart {
            start: i,
            used_all_chars: true,
        },
        None => PrefixStart {
            start: 0,
            used_all_chars: false,
        },
    }""", """    let found = char_indices.nth_back(look_ahead_char_count - 1);
    PrefixStart {
        used_all_chars: found.is_some(),
        start: found.map_or(0, |(i, _)| i),
    }"""),
 ("gps-revnth-ok", "ok", K, "    let mut char_indices = prefix.char_indices();\n\n    match char_indices.nth_back(look_ahead_char_count - 1) {", "    match prefix.char_indices().rev().nth(look_ahead_char_count - 1) {"),
 ("iip-match-ok", "ok", K, """    content[prefix_start..]
        .char_indices()
        .nth(prefix_size)
        .map_or(true, |(i, _)| prefix_start + i >= target)""", """    match content[prefix_start..].char_indices().nth(prefix_size) {
        Some((i, _)) => prefix_start + i >= target,
        None => true,
    }"""),
 ("iip-let-ok", "ok", K, """    content[prefix_start..]
        .char_indices()
        .nth(prefix_size)
        .map_or(true, |(i, _)| prefix_start + i >= target)""", """    let mut chars = content[prefix_start..].char_indices();
    if let Some((offset, _)) = chars.nth(prefix_size) {
        target <= offset + prefix_start
    } else {
        true
    }"""),
 ("nci-next-ok", "ok", K, """    content[start..]
        .char_indices()
        .nth(1)
        .map(|(i, _c)| start + i)""", """    let mut it = content[start..].char_indices();
    it.next()?;
    let (i, _) = it.next()?;
    Some(i + start)"""),
 ("nci-skip-ok", "ok", K, """        .char_indices()
        .nth(1)
        .map(|(i, _c)| start + i)""", """        .char_indices()
        .skip(1)
        .next()
        .map(|(i, _c)| start + i)"""),
 ("next-match-ok", "ok", I, """        if let Some(included_keyword_match) =
            self.keywords.keywords_pattern.content_regex.search_with(
                regex_caches.get(&self.keywords.keywords_pattern.content_regex),
                &input,
            )
        {
            // The next scan starts at the next character after the start of the keyword since
            // multi-word keywords can overlap
            self.start = next_char_index(self.content, included_keyword_match.start())
                .unwrap_or(included_keyword_match.end());
            Some(included_keyword_match.start())
        } else {
            None
        }""", """        let regex = &self.keywords.keywords_pattern.content_regex;
        let cache = regex_caches.get(regex);
        let found = regex.search_with(cache, &input)?;
        let begin = found.start();
        self.start = match next_char_index(self.content, begin) {
            Some(i) => i,
            None => found.end(),
        };
        Some(begin)"""),
 ("skip-max-ok", "ok", I, """        if start > self.start {
            self.start = start;
        }""", "        self.start = self.start.max(start);"),
 ("skip-max2-ok", "ok", I, """        if start > self.start {
            self.start = start;
        }""", "        if start <= self.start {\n            return;\n        }\n        self.start = start;"),
]
