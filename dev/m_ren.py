fns = """contains_keyword_in_path standardize_path_chars compile_keywords_proximity_config get_prefix_start is_index_within_prefix calculate_keyword_content_pattern should_push_word_boundary
push_excluded_keyword_separator is_uniformed_string get_previous_digit get_next_digit visit_string_rule_combinations insert_rule_inner estimate_regex_complexity is_false_positive_match
convert_ast convert_character_class check_quantifier quote_expression bracket_character_class_item hex_escaped_literal visit_rule_indices clone_with_labels add_total_regex_cache set_total_regexes
insert_new gc decode_segment encode_string get_next_regex_start sort_and_remove_overlapping_rules apply_match_actions_for_string keyword_matches""".split()
fields = """strings_are_valid_utf8 active_node_counter sanitized_segments_until_node bool_set index_wildcard_match rule_tree active_tree_count true_positive_rules_count keywords_pattern content_regex path_regex
true_positive_rule_idx ref_count key_map gc_counter total_scanners total_regexes rule_used rule_changes""".split()
types = """ActiveRuleTree NodeCounter BoolSet RuleIndexVisitor ExclusionCheck RegexCacheKey RegexStore IncludedKeywordSearch ScopedRuledSetEventVisitor""".split()
M = [("ren-fn-" + f, "ok", "*sds", f, f + "_renamed") for f in fns] + \
    [("ren-fn2-" + f, "ok", "*sds-bindings-utils", f, f + "_renamed") for f in ("encode_string", "decode_segment", "encode_indices", "read_u32")] + \
    [("ren-fld-" + f, "ok", "*sds", f, f + "_field", "*sds-bindings-utils", f, f + "_field") for f in fields] + \
    [("ren-ty-" + f, "ok", "*sds", f, f + "Renamed") for f in types]
