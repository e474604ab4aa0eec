K = "sds/src/proximity_keywords/mod.rs"
R = "sds/src/scoped_ruleset/mod.rs"
M = [
 ("f-prefix", "ok", K, "    pub start: usize,\n    // A boolean indicating if all of the chars requested were available for the prefix\n    pub used_all_chars: bool,\n", "    pub used_all_chars: bool,\n    pub start: usize,\n"),
 ("f-srs", "ok", R, "    tree: RuleTree,\n    // The number of rules stored in this set\n    num_rules: usize,\n    add_implicit_index_wildcards: bool,\n    should_keywords_match_event_paths: bool,\n}", "    should_keywords_match_event_paths: bool,\n    add_implicit_index_wildcards: bool,\n    num_rules: usize,\n    tree: RuleTree,\n}"),
 ("f-tree", "ok", R, "    rule_changes: Vec<RuleChange>,\n    children: AHashMap<PathSegment<'static>, RuleTree>,\n", "    children: AHashMap<PathSegment<'static>, RuleTree>,\n    rule_changes: Vec<RuleChange>,\n"),
 ("f-input", "ok", "sds/src/parser/input.rs", "    pub value: &'a str,\n    pub depth: usize,\n", "    pub depth: usize,\n    pub value: &'a str,\n"),
 ("f-quant", "ok", "sds/src/parser/ast.rs", "    pub lazy: bool,\n    pub kind: QuantifierKind,\n", "    pub kind: QuantifierKind,\n    pub lazy: bool,\n"),
 ("f-enum", "ok", "sds/src/rule_match.rs", "    None,\n    Placeholder,\n    Hash,\n", "    Hash,\n    None,\n    Placeholder,\n"),
 ("f-status", "ok", "sds/src/rule_match.rs", "    pub rule_index: usize,\n\n    /// The path where the match occurred\n    pub path: Path<'static>,\n", "    pub path: Path<'static>,\n    pub rule_index: usize,\n"),
]
