"""Rules as configured, compiled and asked."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare
from sa.terms import *

CFG = "RegexRuleConfig::"


def one(ctx, start, end):
    ps = [p for p in ctx.F.bodies if p.startswith(start) and p.endswith(end)]
    if len(ps) != 1:
        ctx.fail("anchor", "expected exactly one function `%s...%s`, found %d" % (start, end, len(ps)))
    return ps[0]


@rule("C34", "a configured rule, the rule compiled from it and the rule's answers through the object-safe interface must equal the reference", floor=30)
def c34(ctx):
    compare(ctx, "new", ctx.body(CFG + "new"), "ruleconf::new", [P("pattern")])
    for n in ("pattern", "match_action", "scope", "proximity_keywords", "validator", "labels", "match_validation_type"):
        compare(ctx, n, ctx.body(CFG + n), "ruleconf::with_" + n, [P("c"), P("v")])
    compare(ctx, "build", ctx.body(CFG + "build"), ["ruleconf::build", "ruleconf::build_fields"], [P("c")])
    RC = "<dd_sds::scanner::regex_rule::config::RegexRuleConfig as dd_sds::scanner::config::RuleConfig>::"
    compare(ctx, "compile", RC + "convert_to_compiled_rule", "ruleconf::compile", [P("c"), P("i"), P("labels")],
            opaque=["get_memoized_regex", "validate_and_create_regex", "MatchAction::validate", "clone_with_labels", "compile_keywords_proximity_config", "RuleMetrics::new", "MatchValidationType::get_internal_match_validation_type"])
    compare(ctx, "validation type", RC + "get_match_validation_type", "ruleconf::validation_type", [P("c")])
    q = [p for p in ctx.F.bodies if p == "dd_sds::scanner::config::RuleConfig::get_internal_match_validation_type"]
    compare(ctx, "internal validation type", q[0], "ruleconf::internal_validation_type", [P("c")], opaque=["get_match_validation_type", "get_internal_match_validation_type"])
    bx = [p for p in ctx.F.bodies if "RuleConfig for alloc::boxed::Box<T" in p and p.endswith("::convert_to_compiled_rule")][0]
    compare(ctx, "boxed", bx, "ruleconf::boxed_convert", [P("c"), P("i"), P("l")], opaque=["convert_to_compiled_rule"])
    compare(ctx, "boxed validation type", bx.replace("convert_to_compiled_rule", "get_match_validation_type"), "ruleconf::boxed_validation_type", [P("c")], opaque=["get_match_validation_type"])
    R = "<dd_sds::scanner::regex_rule::compiled::RegexCompiledRule as dd_sds::scanner::CompiledRule>::"
    D = "<T as dd_sds::scanner::CompiledRuleDyn>::"
    pairs = (("get_match_action", "action"), ("get_scope", "scope"), ("get_included_keywords", "keywords"), ("should_exclude_multipass_v0", "multipass"), ("on_excluded_match_multipass_v0", "excluded"),
             ("get_match_validation_type", "validation"), ("get_internal_match_validation_type", "internal_validation"))
    for n, f in pairs:
        compare(ctx, "rule " + n, R + n, "ruleconf::rule_" + f, [P("r")], opaque=["increment"], effects=["increment"], ret=n[:3] != "on_")
        compare(ctx, "dyn " + n, D + n, "ruleconf::dyn_" + f, [P("r")], opaque=[n], effects=[n], ret=n[:3] != "on_")
    compare(ctx, "dyn process_scanner_config", D + "process_scanner_config", "ruleconf::dyn_config", [P("r"), P("g")], opaque=["process_scanner_config", "create_group_config"], effects=["process_scanner_config", "create_group_config"], ret=False)
    compare(ctx, "dyn get_string_matches", D + "get_string_matches", "ruleconf::dyn_matches", [P(x) for x in ("r", "content", "path", "caches", "data", "config", "cache", "ex", "seen", "out", "known", "labels", "in_paths")],
            opaque=["get_string_matches", "create_group_data", "create_rule_scan_cache"], effects=["get_string_matches", "create_group_data", "create_rule_scan_cache"], ret=False)
    for t in ("CompiledRule", "CompiledRuleDyn"):
        for n, f in (("get_included_keywords", "none"), ("should_exclude_multipass_v0", "no"), ("on_excluded_match_multipass_v0", "nothing")):
            compare(ctx, "default %s %s" % (t, n), "dd_sds::scanner::%s::%s" % (t, n), "ruleconf::" + f, [P("r")])
