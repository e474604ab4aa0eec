S = "sds/src/scanner/mod.rs"
A = "sds/src/match_action.rs"
M = [
 ("ma-zero", "C27", A, "if *character_count == 0 {", "if *character_count <= 1 {"),
 ("ma-mut", "C27", A, "MatchAction::Hash { .. } => true", "MatchAction::Hash { .. } => false"),
 ("ma-rt", "C27", A, "PartialRedactDirection::FirstCharacters => ReplacementType::PartialStart", "PartialRedactDirection::FirstCharacters => ReplacementType::PartialEnd"),
 ("ma-last0", "C27", A, ".nth_back(*num_characters - 1)", ".nth_back(*num_characters)"),
 ("ma-first", "C27", A, ".nth(*num_characters)", ".nth(*num_characters - 1)"),
 ("ma-first2", "C27", A, "        let last_replacement_byte = if match_len > *num_characters {", "        let last_replacement_byte = if matched_content.len() > *num_characters {"),
 ("ma-first3", "C27", A, "        let last_replacement_byte = if match_len > *num_characters {", "        let last_replacement_byte = if match_len > *num_characters + 1 {"),
 ("ma-stars", "C27", A, """            end: last_replacement_byte,
            replacement: String::from(PARTIAL_REDACT_CHARACTER)
                .repeat(*num_characters)""", """            end: last_replacement_byte,
            replacement: String::from(PARTIAL_REDACT_CHARACTER)
                .repeat(match_len.min(*num_characters))"""),
 ("ma-hash", "C27", A, 'format!("{hash:x}")\n    }\n\n    #[cfg', 'format!("{hash:X}")\n    }\n\n    #[cfg'),
 ("ma-hash16", "C27", A, "u16::to_le_bytes", "u16::to_be_bytes"),
 ("ma-ge-ok", "ok", A, "        let last_replacement_byte = if match_len > *num_characters {", "        let last_replacement_byte = if match_len >= *num_characters + 1 {"),
 ("ma-nth-ok", "ok", A, """        let match_len = matched_content.chars().count();

        let last_replacement_byte = if match_len > *num_characters {
            matched_content
                .char_indices()
                .nth(*num_characters)
                .unwrap()
                .0
        } else {
            matched_content.len()
        };""", """        let last_replacement_byte = matched_content
            .char_indices()
            .nth(*num_characters)
            .map_or(matched_content.len(), |(i, _)| i);"""),
 ("ap-delta", "C28", S, "            let mutated_utf8_match_end = (rule_match.utf8_end as isize + *utf8_byte_delta) as usize;\n\n            // Matches for mutating rules must have valid indices\n            debug_assert!(content.is_char_boundary(mutated_utf8_match_start));\n            debug_assert!(content.is_char_boundary(mutated_utf8_match_end));\n\n            let matched_content = &content[mutated_utf8_match_start..mutated_utf8_match_end];\n            if", "            let mutated_utf8_match_end = rule_match.utf8_end;\n\n            let matched_content = &content[mutated_utf8_match_start..mutated_utf8_match_end];\n            if"),
 ("ap-start", "C28", S, "let replacement_start = mutated_utf8_match_start + replacement.start;", "let replacement_start = mutated_utf8_match_start;"),
 ("ap-end", "C28", S, "let replacement_end = mutated_utf8_match_start + replacement.end;", "let replacement_end = mutated_utf8_match_end;"),
 ("ap-shift", "C28", S, "                    custom_index_delta,\n                    before_replacement,", "                    custom_index_delta,\n                    matched_content,"),
 ("ap-bytes", "C28", S, "replacement.replacement.len() as isize - before_replacement.len() as isize;", "replacement.replacement.len() as isize - matched_content.len() as isize;"),
 ("ap-order", "C28", S, """        let shift_offset = <E>::get_shift(custom_index_delta, *utf8_byte_delta);
        let custom_end""", """        let shift_offset = <E>::get_shift(custom_index_delta, 0);
        let custom_end"""),
 ("ap-cs", "C28", S, "<E>::get_index(&rule_match.custom_start, rule_match.utf8_start)", "<E>::get_index(&rule_match.custom_start, rule_match.utf8_end)"),
 ("ap-status", "C28", S, "rule.get_match_validation_type().is_some() {\n            MatchStatus::NotChecked", "rule.get_match_validation_type().is_none() {\n            MatchStatus::NotChecked"),
 ("ap-copy", "C28", S, "        if self.scanner_features.return_matches {\n            // This copies", "        if self.scanner_features.return_matches || rule.get_match_action().is_mutating() {\n            // This copies"),
 ("ap-reset", "C28", S, "        for rule_match in rule_matches {\n            output_rule_matches", "        for rule_match in rule_matches {\n            utf8_byte_delta = utf8_byte_delta.min(0);\n            output_rule_matches"),
 ("ap-rev", "C28", S, "        for rule_match in rule_matches {\n            output_rule_matches", "        for rule_match in rule_matches.iter().rev() {\n            output_rule_matches"),
 ("ap-skip", "C28", S, "        for rule_match in rule_matches {\n            output_rule_matches", "        for rule_match in rule_matches {\n            if rule_match.utf8_start == rule_match.utf8_end {\n                continue;\n            }\n            output_rule_matches"),
 ("ov-ge", "C29", S, "if last.utf8_end > rule_match.utf8_start {", "if last.utf8_end >= rule_match.utf8_start {"),
 ("ov-all", "C29", S, "if retained_rule.utf8_start < rule_match.utf8_end\n", "if retained_rule.utf8_start <= rule_match.utf8_end\n"),
 ("ov-norev", "C29", S, "                .cmp(&self.rules[b.rule_index].get_match_action().is_mutating())\n                .reverse();", "                .cmp(&self.rules[b.rule_index].get_match_action().is_mutating());"),
 ("ov-short", "C29", S, "let ord = ord.then(a.len().cmp(&b.len()).reverse());", "let ord = ord.then(a.len().cmp(&b.len()));"),
 ("ov-rule", "C29", S, "let ord = ord.then(a.rule_index.cmp(&b.rule_index));", "let ord = ord.then(b.rule_index.cmp(&a.rule_index));"),
 ("ov-nosort", "C29", S, "        retained_rules.sort_unstable_by_key(|rule_match| rule_match.utf8_start);\n\n        *rule", "        *rule"),
 ("ov-last", "C29", S, "if let Some(last) = retained_rules.last() {", "if let Some(last) = retained_rules.first() {"),
 ("ov-break", "C29", S, "                        continue 'rule_matches;", "                        break 'rule_matches;"),
 ("ov-any-ok", "ok", S, """                for retained_rule in &retained_rules {
                    if retained_rule.utf8_start < rule_match.utf8_end
                        && retained_rule.utf8_end > rule_match.utf8_start
                    {
                        continue 'rule_matches;
                    }
                }
""", """                let overlaps = retained_rules.iter().any(|retained_rule| {
                    retained_rule.utf8_start < rule_match.utf8_end
                        && retained_rule.utf8_end > rule_match.utf8_start
                });
                if overlaps {
                    continue 'rule_matches;
                }
"""),
 ("ov-chain-ok", "ok", S, """            let ord = ord.then(a.utf8_start.cmp(&b.utf8_start));

            // Longer matches
            let ord = ord.then(a.len().cmp(&b.len()).reverse());""", """            let ord = ord
                .then_with(|| a.utf8_start.cmp(&b.utf8_start))
                .then_with(|| b.len().cmp(&a.len()));"""),
 ("ap-helper-ok", "ok", S, """        for rule_match in rule_matches {
            output_rule_matches.push(self.apply_match_actions_for_string::<E>(
                content,
                path.clone(),
                rule_match,
                &mut utf8_byte_delta,
                &mut custom_index_delta,
            ));
        }""", """        output_rule_matches.extend(rule_matches.iter().map(|rule_match| {
            self.apply_match_actions_for_string::<E>(
                content,
                path.clone(),
                rule_match,
                &mut utf8_byte_delta,
                &mut custom_index_delta,
            )
        }));"""),
]
R = "sds/src/scanner/regex_rule/compiled.rs"
M += [
 ("tp-end", "C30", R, "self.start = regex_match.end();", "self.start = regex_match.end() + 1;"),
 ("tp-skip", "C30", R, "                        self.start = next;", "                        self.start = next.max(regex_match.end());"),
 ("tp-excl", "C30", R, "                    } else {\n                        return Some(StringMatch {", "                    }\n                    if !self.check_excluded_keywords || !self.exclusion_check.is_excluded(self.rule.rule_index) {\n                        return Some(StringMatch {"),
 ("tp-noins", "C30", R, "                        self.excluded_matches\n                            .insert(self.content[regex_match.range()].to_string());", "                        if self.check_excluded_keywords { self.excluded_matches\n                            .insert(self.content[regex_match.range()].to_string()); }"),
 ("fp-kw", "C30", S, "excluded_keywords.is_false_positive_match(content, regex_match.start())", "excluded_keywords.is_false_positive_match(content, regex_match.end())"),
 ("fp-val", "C30", S, "validator.is_valid_match(&content[regex_match.range()])", "validator.is_valid_match(&content[regex_match.start()..])"),
 ("fp-order-ok", "ok", S, """    if check_excluded_keywords {
        if let Some(excluded_keywords) = &rule.excluded_keywords {
            if excluded""", """    if let Some(excluded_keywords) = &rule.excluded_keywords {
        if check_excluded_keywords {
            if excluded"""),
 ("nx-2", "C30", S, "content[regex_match.start()..].char_indices().nth(1)", "content[regex_match.end()..].char_indices().nth(1)"),
 ("kw-true", "C30", R, """                regex_caches.get(&self.regex),
                false,
                exclusion_check,
                excluded_matches,
            );
            for string_match""", """                regex_caches.get(&self.regex),
                true,
                exclusion_check,
                excluded_matches,
            );
            for string_match"""),
 ("kw-start", "C30", R, "                included_keyword_match_start,\n                regex_caches", "                0,\n                regex_caches"),
 ("kw-skip", "C30", R, "included_keyword_matches.skip_to(true_positive_match.start);", "included_keyword_matches.skip_to(true_positive_match.end);"),
 ("kw-cont", "C30", R, "                    continue 'included_keyword_search;", "                    break 'included_keyword_search;"),
 ("kw-nobreak", "C30", R, "            // to continue scanning for included keywords.\n            break;", "            // to continue scanning for included keywords.\n"),
 ("kw-path", "C30", R, "has_verified_kws_in_path.is_none() || has_verified_kws_in_path.is_some_and(|x| !x)", "has_verified_kws_in_path.is_some_and(|x| !x)"),
 ("kw-path-ok", "ok", R, "has_verified_kws_in_path.is_none() || has_verified_kws_in_path.is_some_and(|x| !x)", "!has_verified_kws_in_path.unwrap_or(false)"),
 ("kw-newstart", "C30", R, "included_keyword_matches.skip_to(new_start);", "included_keyword_matches.skip_to(new_start + 1);"),
 ("kw-known", "C30", R, "if true_positive_rule_idx.contains(&self.rule_index) {", "if should_kws_match_event_paths && true_positive_rule_idx.contains(&self.rule_index) {"),
]
M += [
 ("vc-block", "C31", S, "if self.blocked_rules.contains(&rule_index) {", "if self.blocked_rules.first() == Some(&rule_index) {"),
 ("vc-start", "C31", S, "                        utf8_end: rule_match.end,", "                        utf8_end: rule_match.start,"),
 ("vc-idx", "C31", S, "                        rule_index,\n", "                        rule_index: 0,\n"),
 ("vc-nosort", "C31", S, "        path_rules_matches.sort_unstable_by_key(|rule_match| rule_match.utf8_start);\n\n        E", "        E"),
 ("vc-sortend", "C31", S, "path_rules_matches.sort_unstable_by_key(|rule_match| rule_match.utf8_start);", "path_rules_matches.sort_unstable_by_key(|rule_match| rule_match.utf8_end);"),
 ("vc-swap", "C31", S, "                    utf8_end: rule_match.utf8_end,\n                    custom_start: &mut rule_match.custom_start,\n                    custom_end: &mut rule_match.custom_end,", "                    utf8_end: rule_match.utf8_end,\n                    custom_start: &mut rule_match.custom_end,\n                    custom_end: &mut rule_match.custom_start,"),
 ("vc-feat", "C31", S, "                        .should_keywords_match_event_paths,\n                );", "                        .multipass_v0_enabled,\n                );"),
 ("vc-has", "C31", S, "let has_match = !path_rules_matches.is_empty();", "let has_match = path_rules_matches.len() > 1;"),
 ("vc-tp", "C31", S, "                    true_positive_rule_idx,\n                    &self", "                    &[],\n                    &self"),
 ("fp-contains", "C31", S, "if !current_true_positive_rule_idx.contains(&idx) {", "if current_true_positive_rule_idx.last() != Some(&idx) {"),
 ("fp-count", "C31", S, "times_pushed += 1", "times_pushed = 1"),
 ("vc-iter-ok", "ok", S, "let has_match = !path_rules_matches.is_empty();", "let has_match = path_rules_matches.len() > 0;"),
]
