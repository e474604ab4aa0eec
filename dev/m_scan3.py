S = "sds/src/scanner/mod.rs"
M = [
 ("vm-err", "C33", S, "        if !self.scanner_features.return_matches {\n            return Err(", "        if !self.scanner_features.return_matches && rule_matches.len() > 1 {\n            return Err("),
 ("vm-insert", "C33", S, "                if !match_validator_rule_match_per_type.contains_key(match_validation_type) {\n", "                if !match_validator_rule_match_per_type.contains_key(match_validation_type) || rule_match.start_index == 0 {\n"),
 ("vm-sort", "C33", S, "rule_matches.sort_by_key(|rule_match| rule_match.start_index);", "rule_matches.sort_by_key(|rule_match| rule_match.end_index_exclusive);"),
 ("vm-append", "C33", S, "            rule_matches.append(&mut matches);", "            if rule_matches.is_empty() { rule_matches.append(&mut matches); }"),
 ("vm-rules", "C33", S, ".validate(matches_per_type, &self.rules)", ".validate(matches_per_type, &self.rules[..1])"),
 ("vm-seq", "ok", S, "match_validator_rule_match_per_type.par_iter_mut().for_each(", "match_validator_rule_match_per_type.iter_mut().for_each("),
 ("vm-entry", "ok", S, """                if !match_validator_rule_match_per_type.contains_key(match_validation_type) {
                    match_validator_rule_match_per_type.insert(match_validation_type, Vec::new());
                }
                match_validator_rule_match_per_type
                    .get_mut(match_validation_type)
                    .unwrap()
                    .push(rule_match);""", """                match_validator_rule_match_per_type
                    .entry(match_validation_type)
                    .or_insert_with(Vec::new)
                    .push(rule_match);"""),
 ("vm-drop", "C33", S, "                    .push(rule_match);\n            } else {", "                    .insert(0, rule_match);\n            } else {"),
 ("vm-drop2", "C33", S, "                match_validator_rule_match_per_type\n                    .get_mut(match_validation_type)\n                    .unwrap()\n                    .push(rule_match);\n", "                let v = match_validator_rule_match_per_type.get_mut(match_validation_type).unwrap();\n                if v.len() < 100 { v.push(rule_match); }\n"),
 ("vm-lose", "C33", S, "        rule_matches.append(&mut not_validated_matches);\n", "        if rule_matches.is_empty() { rule_matches.append(&mut not_validated_matches); }\n"),
 ("vm-lose2", "C33", S, "                not_validated_matches.push(rule_match);", "                if rule_match.match_value.is_some() { not_validated_matches.push(rule_match); }"),
 ("b-dup", "C32", S, "if !match_validators_per_type.contains_key(&internal_type) {", "if match_validators_per_type.is_empty() {"),
 ("b-ret", "C32", S, "                            scanner_features.return_matches = true;\n", "                            scanner_features.return_matches = !match_validators_per_type.is_empty() && self.rules.len() > 1;\n"),
 ("b-idx", "C32", S, "config.convert_to_compiled_rule(rule_index, self.labels.clone())", "config.convert_to_compiled_rule(rule_index.saturating_sub(1), self.labels.clone())"),
 ("b-proc", "C32", S, "compiled_rules.iter().for_each(|rule| {\n            rule.process", "compiled_rules.iter().skip(1).for_each(|rule| {\n            rule.process"),
 ("b-wild", "C32", S, ".with_implicit_index_wildcards(self.scanner_features.add_implicit_index_wildcards)", ".with_implicit_index_wildcards(self.scanner_features.multipass_v0_enabled)"),
 ("b-kw", "C32", S, "            self.scanner_features.should_keywords_match_event_paths,\n        );", "            self.scanner_features.add_implicit_index_wildcards,\n        );"),
 ("b-scope", "C32", S, ".map(|rule| rule.get_scope().clone())", ".rev().map(|rule| rule.get_scope().clone())"),
 ("b-stats", "C32", S, "            stats.increment_total_scanners();\n        }\n\n        Ok(", "        }\n\n        Ok("),
 ("b-feat", "C32", S, "            scanner_features,\n            metrics", "            scanner_features: self.scanner_features.clone(),\n            metrics"),
 ("b-validerr", "C32", S, "                    } else {\n                        return Err(CreateScannerError::InvalidMatchValidator(\n                            MatchValidatorCreationError::InternalError,\n                        ));\n                    }\n", "                    }\n"),
 ("b-feat1", "C32", S, "self.scanner_features.should_keywords_match_event_paths = value;", "self.scanner_features.multipass_v0_enabled = value;"),
 ("b-feat2", "C32", S, "self.scanner_features.multipass_v0_enabled = value;\n", "self.scanner_features.multipass_v0_enabled |= value;\n"),
 ("b-def", "C32", S, "            multipass_v0_enabled: true,", "            multipass_v0_enabled: false,"),
 ("b-drop", "C32", S, "        stats.decrement_total_scanners();", "        stats.increment_total_scanners();"),
 ("b-labels", "C32", S, "        self.labels = labels;\n        self", "        let _ = labels;\n        self"),
 ("b-loop-ok", "ok", S, """        compiled_rules.iter().for_each(|rule| {
            rule.process_scanner_config(&mut group_configs);
        });""", """        for rule in &compiled_rules {
            rule.process_scanner_config(&mut group_configs);
        }"""),
 ("b-match-ok", "ok", S, """                    if let Ok(match_validator) = match_validator {
                        if !match_validators_per_type.contains_key(&internal_type) {
                            match_validators_per_type.insert(internal_type, match_validator);
                            // Let's add return_matches to the scanner features
                            scanner_features.return_matches = true;
                        }
                    } else {
                        return Err(CreateScannerError::InvalidMatchValidator(
                            MatchValidatorCreationError::InternalError,
                        ));
                    }""", """                    let match_validator = match match_validator {
                        Ok(v) => v,
                        Err(_) => {
                            return Err(CreateScannerError::InvalidMatchValidator(
                                MatchValidatorCreationError::InternalError,
                            ))
                        }
                    };
                    if !match_validators_per_type.contains_key(&internal_type) {
                        match_validators_per_type.insert(internal_type, match_validator);
                        scanner_features.return_matches = true;
                    }"""),
]
