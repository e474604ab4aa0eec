"""Patterns: parsing, normalisation, validation."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare, diff, Summary
from sa import nomlib
import json, re, time

def cases(ctx, adt, t, pre=""):
    """one case per variant of the enum (the value t is of that type)"""
    a = [x for p, x in ctx.F.adts.items() if p.endswith(adt) and p.startswith("dd_sds")][0]
    vs = [v["n"] for v in a["variants"]]
    return [(pre + n, is_var(t, n, vs)) for n in vs]


N_ = "normalization::rust_regex_adapter::"


def unordered(t):
    """the members of a bracketed class are a set: their order is not observable"""
    def f(x):
        if x.op == "agg" and x.a[0] == "vec" and len(x.a) > 4 and all(y.op == "agg" and y.a[0].endswith("ClassSetItem") for y in x.a[3:]):
            xs = sorted(set(x.a[3:]), key=show)
            return mk("agg", "vec", "", tuple(str(i) for i in range(len(xs))), *xs)
    return subst(t, f)


@rule("C03", "a pattern is accepted, and built, exactly as the reference does: same limits, same engine options, same rejection of empty matches, same error for each cause", floor=3)
def c03(ctx):
    op = ["convert_to_rust_regex"]
    compare(ctx, "accept", ctx.body("validation::validate_and_create_regex"), "validation::validate_and_create_regex", [P("input")], opaque=op)
    compare(ctx, "verdict", ctx.body("validation::validate_regex"), "validation::validate_regex", [P("input")], opaque=op)
    compare(ctx, "estimate", ctx.body("validation::get_regex_complexity_estimate_very_slow"), "validation::estimate", [P("input")], opaque=op)


@rule("C04", "convert_ast must build the same regex-syntax tree as the reference for every parsed pattern", floor=1)
def c04(ctx):
    compare(ctx, "flags", ctx.body(N_ + "convert_flags"), "adapter::convert_flags", [P("flags")])
    compare(ctx, "convert", ctx.body(N_ + "convert_ast"), ["adapter::alt::convert_ast", "adapter::convert_ast"], [P("ast")], opaque=["convert_ast"], post=unordered, split=cases(ctx, "parser::ast::Ast", P("ast")))
    compare(ctx, "entry", ctx.body(N_ + "convert_to_rust_regex"), "adapter::convert_to_rust_regex", [P("pattern")], opaque=["convert_ast", "parse_regex_pattern"])


R_ = "dd_sds::parser::regex_parser::"


def sig(b):
    f = lambda t: re.sub(r"\{closure@[^}]*\}", "closure", re.sub(r"'\w+ ?", "", re.sub(r"[\w:]+::(\w+)", r"\1", t)))
    return [f(b["locals"][i]) for i in range(b["argc"] + 1)]


def mentions(F, prefix, name, others):
    """which of the others the function refers to"""
    txt = " ".join(json.dumps(b) for p, b in F.bodies.items() if p == prefix + name or p.startswith(prefix + name + "::{"))
    return {o for o in others if '"' + prefix + o + '"' in txt}


@rule("C02", "every text is parsed to the tree the reference grammar gives it, or rejected with the same error", floor=30)
def c02(ctx):
    F = ctx.F
    ref = "sdsref::parser::"
    names = [p[len(ref):] for p in F.bodies if p.startswith(ref) and "::" not in p[len(ref):] and (nomlib.is_parser(F.bodies[p]) or nomlib.is_parser(F.bodies.get(p + "::{closure#0}"), 2))]
    cuts = {n for n in names if R_ + n in F.bodies and sig(F.bodies[R_ + n]) == sig(F.bodies[ref + n])}
    roots = {"parse_regex_pattern", "expression"}
    ctx.body(R_ + "parse_regex_pattern")
    ctx.body(R_ + "expression")
    inp = mk("agg", "Input", "", ("value", "depth"), P("text"), P("depth"))
    nomlib.FIRST.clear()
    nomlib.CONSUMES.clear()

    def summary(prefix, n, cut):
        path = prefix + n
        op = tuple(cut)
        if path + "::{closure#0}" in F.bodies and nomlib.is_parser(F.bodies[path + "::{closure#0}"], 2):
            made = ctx.analyse(path, [P("kind")])[1]
            return Summary(ctx, path + "::{closure#0}", [made, inp], (), (), op, ())
        return Summary(ctx, path, [P("text")] if n == "parse_regex_pattern" else [inp], (), (), op, ())

    # what each parser can start with, from the reference
    busy = set()

    def start(n):
        if n in nomlib.FIRST or n in busy:
            return
        busy.add(n)
        for o in sorted(mentions(F, ref, n, cuts)):
            start(o)
        nomlib.FIRST[n], takes = nomlib.first(summary(ref, n, cuts).ret, P("text"), P("depth"))
        if takes:
            nomlib.CONSUMES.add(n)

    for n in sorted(cuts):
        start(n)

    def check(n, cut):
        return diff(summary(R_, n, cut), summary(ref, n, cut), True, False, False, None)

    failing, cut = {}, set(cuts)
    for n in sorted(cuts | {"parse_regex_pattern"}):
        d = check(n, cut)
        if d:
            failing[n] = d
    t0 = time.time()
    for _ in range(3):
        # a part that differs may still make no difference to the parsers that use it
        inner = set(failing) - roots
        if not inner or set(failing) & roots or time.time() - t0 > 120:
            break
        cut -= inner
        users = {n for n in cut | {"parse_regex_pattern"} if n not in inner and (mentions(F, R_, n, inner) | mentions(F, ref, n, inner))}
        again = {}
        for n in sorted(users):
            if time.time() - t0 > 120:
                again = None
                break
            d = check(n, cut)
            if d:
                again[n] = d
        if again is None:
            break
        if not again:
            failing = {}
            break
        if set(again) & roots:
            break
        failing.update(again)
    # the text type under the combinators
    for p in sorted(F.bodies):
        m = re.match(r"<sdsref::parser::(Input<'a>|ParseError) as (.*)>::(\w+)$", p)
        if m and not F.bodies[p].get("derived"):
            got = [q for q in F.bodies if q.startswith("<dd_sds::parser::") and re.sub(r"dd_sds::parser::\w+::", "sdsref::parser::", q) == p]
            if len(got) == 1:
                n = F.bodies[p]["argc"]
                args = [inp if sig(F.bodies[p])[i + 1].lstrip("&") == "Input<>" else P("a%d" % i) for i in range(n)]
                if any(x is inp for x in args[1:]):
                    args[1:] = [mk("agg", "Input", "", ("value", "depth"), P("text2"), P("depth2")) if x is inp else x for x in args[1:]]
                compare(ctx, m.group(1).split("<")[0] + "::" + m.group(3), got[0], "=" + p, args)
            else:
                ctx.viol("anchor:" + p, "", "no implementation of %s for the parser's %s" % (m.group(2), m.group(1)))
    for n in sorted(cuts | {"parse_regex_pattern"}):
        for part, where_, msg in failing.get(n, ()):
            ctx.obl(n + ":" + part, False, where_, msg)
        if n not in failing:
            ctx.obl(n, True)
