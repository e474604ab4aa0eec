"""Proximity keywords."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare

K = "proximity_keywords::"
MEMO = {"get_memoized_regex": "sdsref::keywords::get_memoized_regex"}


def blank(*names):
    """leaves fields that carry metrics handles out of the comparison"""
    def f(t):
        if t.op == "agg" and any(n in t.a[2] for n in names):
            return mk("agg", *t.a[:3], *[C(0) if n in names else subst(x, f) for n, x in zip(t.a[2], t.a[3:])])
        return None
    return lambda t: subst(t, f)


@rule("C05", 'compile_keywords_proximity_config must have the same summary (result per input class, errors and their order) as the reference; regex memoization is replaced by its specification', floor=1)
def c05(ctx):
    compare(ctx, "config", ctx.body(K + "compile_keywords_proximity_config"), "keywords::compile_keywords_proximity_config", [P("config"), P("labels")],
            opaque=["share"], redirect=MEMO, post=blank("false_positive_counter"))


@rule("C06", 'compile_keywords_to_ast must build the same syntax tree as the reference for every keyword list, and compile_keywords the same regex (pattern, builder settings)', floor=1)
def c06(ctx):
    compare(ctx, "ast", ctx.body(K + "compile_keywords_to_ast"), "keywords::compile_keywords_to_ast", [P("keywords"), P("n"), P("remove")])
    compare(ctx, "regex", ctx.body(K + "compile_keywords"), "keywords::compile_keywords", [P("keywords"), P("n"), P("remove")], opaque=["share"], redirect=MEMO)


@rule("C07", 'is_index_within_prefix, get_prefix_start, is_false_positive_match and contains_keyword_in_path must have the same result, counter increments as the reference for every content, index and window', floor=1)
def c07(ctx):
    compare(ctx, "prefix", ctx.body(K + "is_index_within_prefix"), "keywords::is_index_within_prefix", [P("content"), P("prefix_start"), P("target"), P("n")])
    compare(ctx, "get_prefix", ctx.body(K + "get_prefix_start"), "keywords::get_prefix_start", [P("m"), P("n"), P("content")])
    compare(ctx, "excl", ctx.body("CompiledExcludedProximityKeywords::is_false_positive_match"), "keywords::CompiledExcludedProximityKeywords::is_false_positive_match", [P("self"), P("content"), P("m")], effects=("increment",), opaque=["Counter::increment"])
    compare(ctx, "path", ctx.body(K + "contains_keyword_in_path"), "keywords::contains_keyword_in_path", [P("path"), P("regex")])


@rule("C08", 'keyword_matches, skip_to and next must have the same result and leave the same search state as the reference', floor=1)
def c08(ctx):
    S = P("self")
    compare(ctx, "matches", ctx.body("keyword_matches"), "keywords::CompiledIncludedProximityKeywords::keyword_matches", [S, P("content")])
    compare(ctx, "skip_to", ctx.body("IncludedKeywordSearch::skip_to"), "keywords::IncludedKeywordSearch::skip_to", [S, P("start")], mut=(S,))
    compare(ctx, "next", ctx.body("IncludedKeywordSearch::next"), "keywords::IncludedKeywordSearch::next", [S, P("caches")], mut=(S,), opaque=["RegexCaches::get"])
