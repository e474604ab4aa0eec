"""The scanner: what is searched, which matches are kept, and what is done with them."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare, VF
from sa.terms import *
from sa.vf import norm

TP = "TruePositiveSearch<'a> as core::iter::traits::iterator::Iterator>::next"
A_ = "match_action::MatchAction::"


@rule("C27", "validation, kind and replacement of every match action must equal the reference for every action and matched text", floor=4)
def c27(ctx):
    a = P("action")
    compare(ctx, "validate", ctx.body(A_ + "validate"), "scanner::validate", [a])
    compare(ctx, "is_mutating", ctx.body(A_ + "is_mutating"), "scanner::is_mutating", [a])
    compare(ctx, "replacement_type", ctx.body(A_ + "replacement_type"), "scanner::replacement_type", [a])
    compare(ctx, "get_replacement", ctx.body(A_ + "get_replacement"), "scanner::get_replacement", [a, P("text")])

S_ = "scanner::Scanner::"


@rule("C28", "applying one match and all matches of a text must equal the reference: calls to the encoding, replacement of the range, final text, shift and reported match", floor=7)
def c28(ctx):
    m = ["get_match_action", "get_match_validation_type", "is_mutating", "get_replacement", "replacement_type"]
    enc = ["get_index", "get_shift", "adjust_shift", "zero_shift", "zero_index"]
    compare(ctx, "one match", ctx.body(S_ + "apply_match_actions_for_string"), "scanner::apply_one",
            [P("s"), P("content"), P("path"), P("m"), P("delta"), P("shift")], mut=[P("content"), P("delta"), P("shift")], opaque=m + enc, effects=["adjust_shift", "replace_range"], order=True)
    compare(ctx, "all matches", ctx.body(S_ + "apply_match_actions"), "scanner::apply_all", [P("s"), P("content"), P("path"), P("ms"), P("out")], mut=[P("out")],
            opaque=enc + ["apply_match_actions_for_string"], effects=["apply_match_actions_for_string"])
    u = lambda n: [p for p in ctx.F.bodies if p.startswith("<dd_sds::encoding::Utf8Encoding as ") and p.endswith("::" + n)][0]
    compare(ctx, "utf8 index", u("get_index"), "scanner::utf8_index", [P("_"), P("i")])
    compare(ctx, "utf8 shift", u("get_shift"), "scanner::utf8_shift", [P("_"), P("s")])


@rule("C29", "the list left by overlap resolution (comparator, kept list, final order) must equal the reference for every list", floor=2)
def c29(ctx):
    compare(ctx, "overlaps", ctx.body(S_ + "sort_and_remove_overlapping_rules"), "scanner::resolve", [P("s"), P("ms")], mut=[P("ms")], opaque=["get_match_action", "is_mutating"])


@rule("C30", "false-positive test, next search position, search step and the matches emitted by a rule must equal the reference, with calls in the same order", floor=13)
def c30(ctx):
    compare(ctx, "false positives", ctx.body("scanner::is_false_positive_match"), "scanner::is_false_positive", [P("m"), P("rule"), P("content"), P("keywords")],
            opaque=["CompiledExcludedProximityKeywords::is_false_positive_match", "is_valid_match"])
    compare(ctx, "next start", ctx.body("scanner::get_next_regex_start"), "scanner::next_start", [P("content"), P("m")])
    n = [p for p in ctx.F.bodies if p.endswith("as core::iter::traits::iterator::Iterator>::next") and "TruePositiveSearch" in p]
    compare(ctx, "search", n[0], "scanner::next_match", [P("s")], mut=[P("s")], opaque=["search_with", "is_excluded", "scanner::is_false_positive_match", "scanner::get_next_regex_start"], effects=["search_with", "insert"], order=True)
    g = [p for p in ctx.F.bodies if p.endswith("::get_string_matches") and "RegexCompiledRule as" in p]
    compare(ctx, "matches", g[0], "scanner::rule_matches", params=[P(x) for x in ("rule", "content", "path", "caches", "_1", "_2", "_3", "ex", "seen", "out", "known", "in_paths")],
            refparams=[P(x) for x in ("rule", "content", "path", "caches", "ex", "seen", "out", "known", "in_paths")], ret=False,
            opaque=["RegexCaches::get", "search_with", "is_index_within_prefix", "get_prefix_start", "contains_keyword_in_path", "Path::sanitize", "keyword_matches", "IncludedKeywordSearch::next", "skip_to", "emit",
                    TP], effects=["emit", "skip_to", TP, "IncludedKeywordSearch::next"], order=True)


@rule("C31", "rules asked, arguments, matches recorded and positions computed for one text must equal the reference", floor=6)
def c31(ctx):
    v = [p for p in ctx.F.bodies if "ScannerContentVisitor" in p and p.endswith("::visit_content")]
    compare(ctx, "text", v[0], "scanner::visit_text", [P("v"), P("path"), P("content"), P("rules"), P("ex"), P("known")], mut=[P("v")], opaque=["visit_rule_indices", "get_string_matches", "calculate_indices", "into_static", "zero_index"],
        effects=["visit_rule_indices", "get_string_matches", "calculate_indices"], order=True)
    # the four positions handed over for each match are those of that match
    cl = [[p for p in ctx.F.bodies if p.startswith(q + "::{closure#") and "EncodeIndices" in str(ctx.F.bodies[p]["locals"][0])] for q in (v[0], "sdsref::scanner::visit_text")]
    if len(cl[0]) == 1:
        compare(ctx, "positions", cl[0][0], "=" + cl[1][0], [P("env"), P("m")], post=lambda t: mk("agg", "EncodeIndices", *t.a[1:]) if t.op == "agg" else t)
    f = [p for p in ctx.F.bodies if "ScannerContentVisitor" in p and p.endswith("::find_true_positive_rules_from_current_path")]
    compare(ctx, "path", f[0], "scanner::rules_by_path", [P("v"), P("path"), P("found")], mut=[P("found")], opaque=["contains_keyword_in_path", "get_included_keywords"])


@rule("C32", "scan (searching, second pass, overlaps, actions, counters), the builder's settings, build and drop must equal the reference", floor=18)
def c32(ctx):
    compare(ctx, "scan", ctx.body(S_ + "scan"), "scanner::event::scan", [P("s"), P("event"), P("blocked")], opaque=["access_regex_caches", "visit_string_rule_combinations", "visit_string_mut", "get_match_action", "is_mutating",
        "should_exclude_multipass_v0", "on_excluded_match_multipass_v0", "sort_and_remove_overlapping_rules", "apply_match_actions", "increment"],
        effects=["access_regex_caches", "visit_string_rule_combinations", "visit_string_mut", "on_excluded_match_multipass_v0", "increment"], order=("access_regex_caches", "visit_string_mut"))
    B_ = "ScannerBuilder::"
    compare(ctx, "features", [p for p in ctx.F.bodies if p.startswith("<dd_sds::scanner::ScannerFeatures as ") and p.endswith("::default")][0], "scanner::event::features", [])
    compare(ctx, "new builder", ctx.body(B_ + "new"), "scanner::event::builder", [P("rules")], opaque=["Labels::empty"])
    for n, f in (("labels", "with_labels"), ("with_keywords_should_match_event_paths", "with_keywords"), ("with_implicit_wildcard_indexes_for_scopes", "with_wildcards"), ("with_multipass_v0", "with_multipass")):
        compare(ctx, n, ctx.body(B_ + n), "scanner::event::" + f, [P("b"), P("v")])
    compare(ctx, "drop", [p for p in ctx.F.bodies if p.startswith("<dd_sds::scanner::Scanner as ") and p.endswith("::drop")][0], "scanner::event::gone", [P("s")], opaque=["increment", "decrement_total_scanners"], effects=["increment", "decrement_total_scanners"])
    compare(ctx, "build", ctx.body("ScannerBuilder::build"), "scanner::event::build", [P("b")], opaque=["get_match_validation_type", "can_create_match_validator", "get_internal_match_validation_type", "into_match_validator",
        "convert_to_compiled_rule", "process_scanner_config", "get_scope", "ScannerMetrics::new", "ScopedRuleSet::new", "with_implicit_index_wildcards", "with_keywords_should_match_event_paths", "increment_total_scanners", "increment"],
        effects=["process_scanner_config", "convert_to_compiled_rule", "increment_total_scanners", "increment"])


@rule("C33", "grouping, validators called, matches kept and final order must equal the reference", floor=4)
def c33(ctx):
    compare(ctx, "validate", ctx.body(S_ + "validate_matches"), ["scanner::event::validate_matches", "scanner::event::validate_matches_entry"], [P("s"), P("ms")], mut=[P("ms")], opaque=["get_internal_match_validation_type", "MatchValidator::validate"], effects=["validate", "Vec::push"])
