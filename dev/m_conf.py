S = "sds/src/scanner/mod.rs"
R = "sds/src/scanner/regex_rule/compiled.rs"
G = "sds/src/scanner/regex_rule/config.rs"
M = [
 ("rc-new", "C34", G, "            match_action: MatchAction::None,\n            scope", "            match_action: MatchAction::Hash,\n            scope"),
 ("rc-set", "C34", G, "self.mutate_clone(|x| x.scope = scope)", "self.mutate_clone(|x| if x.labels == Labels::default() { x.scope = scope })"),
 ("rc-set2", "C34", G, "self.mutate_clone(|x| x.validator = Some(validator))", "self.mutate_clone(|x| { x.validator.get_or_insert(validator); })"),
 ("rc-set3", "C34", G, "self.mutate_clone(|x| x.labels = labels)", "self.mutate_clone(|x| x.labels = x.labels.clone_with_labels(labels))"),
 ("rc-build", "C34", G, "            validator: self.validator.clone(),\n            labels: self.labels.clone(),\n\n", "            validator: None,\n            labels: self.labels.clone(),\n\n"),
 ("rc-build-ok", "ok", G, """        Arc::new(RegexRuleConfig {
            pattern: self.pattern.clone(),
            match_action: self.match_action.clone(),
            scope: self.scope.clone(),
            proximity_keywords: self.proximity_keywords.clone(),
            validator: self.validator.clone(),
            labels: self.labels.clone(),

            match_validation_type: self.match_validation_type.clone(),
        })""", "        Arc::new(self.clone())"),
 ("rc-noval", "C34", G, "        self.match_action.validate()?;\n", "        if self.validator.is_none() { self.match_action.validate()?; }\n"),
 ("rc-lab", "C34", G, "RuleMetrics::new(&rule_labels)", "RuleMetrics::new(&scanner_labels)"),
 ("rc-lab2", "C34", G, "scanner_labels.clone_with_labels(self.labels.clone())", "self.labels.clone_with_labels(scanner_labels.clone())"),
 ("rc-kwlab", "C34", G, "compile_keywords_proximity_config(config, &rule_labels)", "compile_keywords_proximity_config(config, &scanner_labels)"),
 ("rc-kwerr", "C34", G, "            .unwrap_or(Ok((None, None)))?;", "            .unwrap_or(Ok((None, None))).unwrap_or((None, None));"),
 ("rc-swap", "C34", G, "        let (included_keywords, excluded_keywords) = self\n            .proximity_keywords\n            .as_ref()", "        let (included_keywords, excluded_keywords) = self\n            .proximity_keywords\n            .as_ref().filter(|c| c.look_ahead_character_count > 0)"),
 ("rc-order-ok", "ok", G, "        self.match_action.validate()?;\n\n        let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());\n", "        let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());\n        if let Err(e) = self.match_action.validate() {\n            return Err(e.into());\n        }\n"),
 ("rc-match-ok", "ok", G, """        let (included_keywords, excluded_keywords) = self
            .proximity_keywords
            .as_ref()
            .map(|config| compile_keywords_proximity_config(config, &rule_labels))
            .unwrap_or(Ok((None, None)))?;""", """        let (included_keywords, excluded_keywords) = match self.proximity_keywords {
            Some(ref config) => compile_keywords_proximity_config(config, &rule_labels)?,
            None => (None, None),
        };"""),
 ("rc-vt", "C34", G, "match_validation_type: self.get_match_validation_type().cloned(),", "match_validation_type: self.get_match_validation_type().filter(|_| self.validator.is_none()).cloned(),"),
 ("rc-vt-ok", "ok", G, "match_validation_type: self.get_match_validation_type().cloned(),", "match_validation_type: self.match_validation_type.clone(),"),
 ("rc-ivt-ok", "ok", G, "            internal_match_validation_type: self\n                .get_match_validation_type()\n                .map(|x| x.get_internal_match_validation_type()),", "            internal_match_validation_type: self.get_internal_match_validation_type(),"),
 ("rc-idx", "C34", G, "            rule_index,\n            regex,", "            rule_index: rule_index & 0xffff,\n            regex,"),
 ("rc-prefix", "C34", G, 'format!("rule:{}", self.pattern)', 'format!("{}", self.pattern)'),
 ("rr-key", "C34", R, "self.included_keywords.as_ref()\n", "self.included_keywords.as_ref().filter(|_| self.excluded_keywords.is_none())\n"),
 ("rr-mp", "C34", R, "    fn should_exclude_multipass_v0(&self) -> bool {\n        true", "    fn should_exclude_multipass_v0(&self) -> bool {\n        self.validator.is_none()"),
 ("rr-met", "C34", R, "false_positive_excluded_attributes.increment(1)", "false_positive_excluded_attributes.increment(2)"),
 ("rr-vt-ok", "ok", R, "        match &self.match_validation_type {\n            Some(match_validation_type) => Some(match_validation_type),\n            None => None,\n        }", "        self.match_validation_type.as_ref()"),
 ("rr-ivt", "C34", R, "            Some(internal_match_validation_type) => Some(internal_match_validation_type),", "            Some(internal_match_validation_type) if self.validator.is_none() => Some(internal_match_validation_type),\n            Some(_) => None,"),
 ("dy-drop", "C34", S, "    fn on_excluded_match_multipass_v0(&self) {\n        T::on_excluded_match_multipass_v0(self)\n    }\n", ""),
 ("dy-drop2", "C34", S, "    fn should_exclude_multipass_v0(&self) -> bool {\n        T::should_exclude_multipass_v0(self)\n    }\n", ""),
 ("dy-drop3", "C34", S, "    fn get_included_keywords(&self) -> Option<&CompiledIncludedProximityKeywords> {\n        self.get_included_keywords()\n    }\n", ""),
 ("dy-lab", "C34", S, "T::create_group_data(scanner_labels)", "T::create_group_data(&Labels::empty())"),
 ("dy-type", "C34", S, "        let rule_scan_cache_any = rule_scan_cache\n            .entry(TypeId::of::<T::RuleScanCache>())", "        let rule_scan_cache_any = rule_scan_cache\n            .entry(TypeId::of::<T::GroupData>())"),
 ("dy-known", "C34", S, "            true_positive_rule_idx,\n            should_kws_match_event_paths,\n        )\n    }\n\n    fn should", "            &[],\n            should_kws_match_event_paths,\n        )\n    }\n\n    fn should"),
 ("dy-reset", "C34", S, "        T::process_scanner_config(self, group_config);", "        *group_config = T::create_group_config();\n        T::process_scanner_config(self, group_config);"),
 ("dy-def", "C34", S, "        // default is to NOT use Multi-pass V0\n        false\n    }\n\n    fn on_excluded_match_multipass_v0(&self) {\n        // default is to do nothing\n    }\n\n    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;\n\n    // This", "        // default is to NOT use Multi-pass V0\n        true\n    }\n\n    fn on_excluded_match_multipass_v0(&self) {\n        // default is to do nothing\n    }\n\n    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;\n\n    // This"),
 ("bx-lab", "C34", S, "self.as_ref().convert_to_compiled_rule(rule_index, labels)", "self.as_ref().convert_to_compiled_rule(rule_index, Labels::empty())"),
 ("dy-entry-ok", "ok", S, """        let group_config_any = group_config
            .entry(TypeId::of::<T::GroupConfig>())
            .or_insert_with(|| Box::new(T::create_group_config()));
        let group_config: &mut T::GroupConfig = group_config_any.downcast_mut().unwrap();
        T::process_scanner_config(self, group_config);""", """        let type_id = TypeId::of::<T::GroupConfig>();
        let any = group_config.entry(type_id).or_insert_with(|| Box::new(T::create_group_config()));
        T::process_scanner_config(self, any.downcast_mut::<T::GroupConfig>().unwrap());"""),
 ("dy-def-drop", "ok", R, "    fn process_scanner_config(&self, _: &mut Self::GroupConfig) {\n        // no special processing\n    }", "    fn process_scanner_config(&self, _config: &mut Self::GroupConfig) {}"),
]
