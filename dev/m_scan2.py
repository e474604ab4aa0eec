S = "sds/src/scanner/mod.rs"
M = [
 ("sc-blocked", "C32", S, "blocked_rules: &blocked_rules_idx,", "blocked_rules: &vec![],"),
 ("sc-noretain", "C32", S, "                            !is_false_positive\n                        } else", "                            !is_false_positive || rule_match.utf8_start == 0\n                        } else"),
 ("sc-flag", "C32", S, "                if self.scanner_features.multipass_v0_enabled {\n                    // Now", "                if self.scanner_features.return_matches {\n                    // Now"),
 ("sc-slice", "C32", S, ".contains(&content[rule_match.utf8_start..rule_match.utf8_end]);\n                            if", ".contains(&content[rule_match.utf8_start..rule_match.utf8_end - 1]);\n                            if"),
 ("sc-default", "C32", S, "                            !is_false_positive\n                        } else {\n                            true", "                            !is_false_positive\n                        } else {\n                            false"),
 ("sc-nooverlap", "C32", S, "                self.sort_and_remove_overlapping_rules::<E::Encoding>(rule_matches);\n\n                let will", "                if rule_matches.len() > 2 { self.sort_and_remove_overlapping_rules::<E::Encoding>(rule_matches); }\n\n                let will"),
 ("sc-all", "C32", S, "let will_mutate = rule_matches.iter().any(", "let will_mutate = rule_matches.iter().all("),
 ("sc-false", "C32", S, "                will_mutate\n", "                let _ = will_mutate;\n                true\n"),
 ("sc-count", "C32", S, ".increment(output_rule_matches.len() as u64)", ".increment(rule_matches_list.len() as u64)"),
 ("sc-events", "C32", S, "self.metrics.num_scanned_events.increment(1)", "self.metrics.num_scanned_events.increment(2)"),
 ("sc-evmatch", "C32", S, "        self.metrics.num_scanned_events.increment(1);", "        if !output_rule_matches.is_empty() { self.metrics.num_scanned_events.increment(1); }"),
 ("sc-first", "C32", S, "for (path, rule_matches) in &mut rule_matches_list {", "for (path, rule_matches) in rule_matches_list.iter_mut().skip(1) {"),
 ("sc-order", "C32", S, "                self.sort_and_remove_overlapping_rules::<E::Encoding>(rule_matches);\n\n                let will_mutate = rule_matches.iter().any(|rule_match| {\n                    self.rules[rule_match.rule_index]\n                        .get_match_action()\n                        .is_mutating()\n                });\n",
   "                let will_mutate = rule_matches.iter().any(|rule_match| {\n                    self.rules[rule_match.rule_index]\n                        .get_match_action()\n                        .is_mutating()\n                });\n                self.sort_and_remove_overlapping_rules::<E::Encoding>(rule_matches);\n"),
 ("sc-hook", "C32", S, "if is_false_positive && self.scanner_features.multipass_v0_enabled {", "if is_false_positive && self.scanner_features.return_matches {"),
 ("sc-rule", "C32", S, "if self.rules[rule_match.rule_index].should_exclude_multipass_v0() {", "if self.rules[0].should_exclude_multipass_v0() {"),
 ("sc-excl", "C32", S, "excluded_matches: &mut excluded_matches,", "excluded_matches: &mut AHashSet::<String>::new(),"),
 ("sc-apply", "C32", S, "self.apply_match_actions(content, path, rule_matches, &mut output_rule_matches);", "if will_mutate { self.apply_match_actions(content, path, rule_matches, &mut output_rule_matches); }"),
 ("sc-ok", "ok", S, "                            !is_false_positive\n                        } else {\n                            true", "                            if is_false_positive { false } else { true }\n                        } else {\n                            true"),
 ("sc-ok2", "ok", S, "                            if is_false_positive && self.scanner_features.multipass_v0_enabled {", "                            if is_false_positive {"),
 ("sc-ok3", "ok", S, "        // Record detection time\n        self.metrics\n            .duration_ns\n            .increment(start.elapsed().as_nanos() as u64);\n        // Add number of scanned events\n        self.metrics.num_scanned_events.increment(1);", "        self.metrics.num_scanned_events.increment(1);\n        self.metrics\n            .duration_ns\n            .increment(start.elapsed().as_nanos() as u64);"),
]
