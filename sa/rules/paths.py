"""Paths: identity operations and the standardised form used for keyword matching."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare
from sa.rules.misc import display


@rule("C09", "the operations of Path and PathSegment must have the same result as the reference for every path", floor=5)
def c09(ctx):
    S = P("self")
    b = ctx.body
    compare(ctx, "Path::root", b("dd_sds::path::Path::root"), "path::Path::root")
    for n in ("len", "is_empty", "into_static"):
        compare(ctx, "Path::" + n, b("dd_sds::path::Path::" + n), "path::Path::" + n, [S])
    compare(ctx, "Path::starts_with", b("dd_sds::path::Path::starts_with"), "path::Path::starts_with", [S, P("prefix")])
    for n in ("is_index", "length", "into_static"):
        compare(ctx, "PathSegment::" + n, b("dd_sds::path::PathSegment::" + n), "path::PathSegment::" + n, [P("seg")])
    display(ctx, "Path", "path_fmt")
    for p, ref in (("Path<'a> as core::convert::From<alloc::vec", "from_segments"), ("PathSegment<'a> as core::convert::From<&'a str>", "from_text"), ("PathSegment<'static> as core::convert::From<usize>", "from_number")):
        q = [x for x in ctx.F.bodies if x.startswith("<dd_sds::path::" + p) and x.endswith("::from")]
        if ctx.obl("conversion " + ref, len(q) == 1, "sds/src/path.rs", "no conversion for " + ref):
            compare(ctx, ref, q[0], "path::" + ref, [P("x")])
    # paths are used as keys: their equality, order and copies are the structural ones
    for t, n in (("Path", "path"), ("PathSegment", "segment")):
        for tr, f, k in (("clone::Clone", "clone", 1), ("cmp::PartialEq", "eq", 2), ("cmp::Ord", "cmp", 2)):
            for p, b in ctx.F.bodies.items():
                if p.startswith("<dd_sds::path::%s<" % t) and p.endswith("core::%s>::%s" % (tr, f)):
                    if b.get("derived"):
                        ctx.obl("%s::%s" % (t, f), True)
                        ctx.functions.add(p)
                    else:
                        compare(ctx, "%s::%s" % (t, f), p, "path::%s_%s" % (f, n), [P("a"), P("b")][:k])


@rule("C26", "standardize_path_chars must hand out the same characters in the same order as the reference, and sanitize of Path and PathSegment must return the same text", floor=5)
def c26(ctx):
    compare(ctx, "standardize", ctx.body("proximity_keywords::standardize_path_chars"), "path::standardize_path_chars", [P("characters"), P("push")], order=True)
    compare(ctx, "PathSegment::sanitize", ctx.body("dd_sds::path::PathSegment::sanitize"), "path::PathSegment::sanitize", [P("seg")])
    compare(ctx, "Path::sanitize", ctx.body("dd_sds::path::Path::sanitize"), "path::Path::sanitize", [P("path")])
