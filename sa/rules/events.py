"""Rules over the Event implementations: walking and addressing."""
from sa.check import rule, Missing
from sa.spec import *
from sa.rules.scoped import strip_has, expect, grouped

EV = "dd_sds::event::Event"


def impls(ctx, meth):
    return [p for p in ctx.F.bodies if p.endswith("::" + meth) and ("as dd_sds::event::Event>" in p or "<impl dd_sds::event::Event for" in p)]


def selfty(p):
    return p.split("<impl dd_sds::event::Event for ")[-1].split(">::visit")[0] if "<impl" in p else p[1:].split(" as ")[0]


def after_(t, name):
    return t.op == "after" and endsw(t.a[0], name)


def chain(ctx, tag, A, vis, allow_string_child=False):
    """every push is followed by one child visit and one pop on the same visitor, under the same condition, in the same iteration"""
    pu, po, ve = calls(A, "push_segment"), calls(A, "pop_segment"), [e for e in A.effects if e.kind == "call" and norm(e.path).endswith("::visit_event")]
    rows = []
    for e in pu:
        ps = [x for x in po if x.loops == e.loops and x.guard == e.guard and x.seq > e.seq]
        vs = [x for x in ve if x.loops == e.loops and x.guard == e.guard and x.seq > e.seq]
        nxt = [x for x in vs if x.args[1] is mk("after", e.path, (e.args[0],) + tuple(e.args[1:]), 0)]
        if not ctx.obl("%s:visit follows push" % tag, len(nxt) == 1, where(e), "after entering a segment, the child must be visited exactly once before anything else happens to the visitor"):
            continue
        v = nxt[0]
        want = mk("after", v.path, (v.args[1], v.args[0]), 1)
        pp = [x for x in ps if x.args[0] is want]
        ctx.obl("%s:pop follows visit" % tag, len(pp) == 1, where(v), "the segment entered is not left right after visiting the child")
        rows.append((e, v))
    ctx.obl("%s:balanced" % tag, len(pu) == len(po) == len(ve), where(pu[0]) if pu else tag, "%d pushes, %d child visits, %d pops" % (len(pu), len(ve), len(po)))
    return rows


def split(g, t, e):
    """one row per side of a chained iterator"""
    for s in subterms(t):
        if s.op == "ite":
            sec = [v for v in support(s.a[0]) if v.op == "second"]
            if len(sec) == 1 and len(support(s.a[0])) == 1:
                out = []
                for val in (True, False):
                    fn = lambda x: TRUE if (x is sec[0] and val) else FALSE if x is sec[0] else None
                    out += split(exists(g, lambda v: v is sec[0] or v.op == "has" and v.a[0] is sec[0].a[0]), subst(t, fn), e)
                return out
    return [(g, t, e)]


def walker(ctx, p, S, children, strings):
    """children: {name: (collection term, condition, 'list'|'map')}, strings: {name: (term, condition)}"""
    tag = selfty(p).split("::")[-1].split("<")[0]
    vis = P("visitor")
    A, ret, st = ctx.analyse(p, [S, vis], opaque=lambda q: norm(q).endswith("::visit_event") and q != p)
    rows = chain(ctx, tag, A, vis)
    for L in A.loops.values():
        ctx.obl(tag + ":no early stop", not L.early, L.loc, "a walk over children can stop early")
    cov = {n: [] for n in children}
    for e, v in rows:
        for g, t, _ in expand(A, split(e.guard, tup(e.args[1], v.args[0]), e)):
            t = cn(t)
            g = strip_has(cng(g))
            segv, child = t.a[3], t.a[4]
            hit = None
            for n, (coll, cond, kind) in children.items():
                el = elem(coll)
                if kind == "list":
                    ok = child is el and segv.op == "agg" and segv.a[1] == "Index" and segv.a[3] is idx(coll)
                else:
                    ok = child is fld(el, "", "1") and segv.op == "agg" and segv.a[1] == "Field" and stringy(segv.a[3]) is fld(el, "", "0")
                if ok:
                    hit = n
            if ctx.obl(tag + ":segment names child", hit is not None, where(e),
                       "segment `%s` is entered for child `%s`" % (show(segv), show(child))):
                cov[hit].append((g, e))
    for n, (coll, cond, kind) in children.items():
        tot = False
        for g, e in cov[n]:
            ctx.obl("%s:%s once" % (tag, n), land(tot, g) is False, where(e), "a child may be visited twice")
            tot = lor(tot, g)
        ctx.obl("%s:%s all" % (tag, n), tot == cond or tot is cond, p, "children are visited when `%s`, expected when `%s`" % (show_g(tot), show_g(cond)))
    vs = calls(A, "visit_string")
    got = {}
    for e in vs:
        ctx.obl(tag + ":string receiver", e.args[0] is vis and not e.loops, where(e), "visit_string on `%s`" % show(e.args[0]))
        v = stringy(cn(e.args[1]))
        for gg, v in ([(e.guard, v)] if v.op != "ite" else [(land(e.guard, gg), stringy(x)) for gg, x in variants(v)]):
            if gg is not False:
                got[v] = (lor(got[v][0], gg), got[v][1]) if v in got else (gg, [e])
    expect(ctx, tag + ":string", got, strings)


def stringy(t):
    """a string value behind borrow/ownership wrappers and to_string"""
    while True:
        if t.op == "agg" and t.a[0].endswith("Cow"):
            t = t.a[3]
        elif t.op == "call" and endsw(t.a[0], "to_string") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "fmtd" and t.a[0] == "display":
            t = t.a[1]
        elif t.op == "ite" and t.a[1] is C("true") and t.a[2] is C("false"):
            t = B(t.a[0])
        elif t.op == "ite" and t.a[2] is C("true") and t.a[1] is C("false"):
            t = B(lnot(t.a[0]))
        elif t.op == "bool" and not isinstance(t.a[0], bool) and t.a[0] is atom(t.a[0].v):
            return t.a[0].v
        else:
            return t


def pick(ctx, ps, sub):
    m = [p for p in ps if sub in selfty(p)]
    if len(m) != 1:
        ctx.viol("anchor:Event for " + sub, "", "expected one Event implementation for %s, found %d" % (sub, len(m)))
        raise Missing(sub)
    return m[0]


@rule("C13", "Every Event walker enters a segment, visits the child the segment names, and leaves it, for every child of every container exactly once; "
             "strings (for JSON also numbers and booleans, as text) are visited exactly once.", floor=25)
def c13(ctx):
    S = P("event")
    ps = impls(ctx, "visit_event")
    se = adt(ctx, "simple_event::SimpleEvent")
    v = lambda x: variant(ctx.F, se, x, S)
    walker(ctx, pick(ctx, ps, "SimpleEvent"), S, {"list": (F_(S, "List.0"), v("List"), "list"), "map": (F_(S, "Map.0"), v("Map"), "map")},
           {"string": (F_(S, "String.0"), v("String"))})
    pj = [p for p in ps if selfty(p) == "serde_json::value::Value"]
    ctx.obl("json impl", len(pj) == 1, "", "Event for serde_json::Value not found")
    jv = ("Null", "Bool", "Number", "String", "Array", "Object")
    S = P("json")
    j = lambda x: is_var(S, x, jv)
    for p in pj:
        walker(ctx, p, S, {"array": (F_(S, "Array.0"), j("Array"), "list"), "object": (F_(S, "Object.0"), j("Object"), "map")},
               {"string": (F_(S, "String.0"), j("String")), "number": (F_(S, "Number.0"), j("Number")), "bool": (F_(S, "Bool.0"), j("Bool"))})
    S = P("map")
    walker(ctx, pick(ctx, ps, "HashMap<"), S, {"map": (S, True, "map")}, {})
    for p in [p for p in ps if selfty(p) == "alloc::string::String"]:
        walker(ctx, p, S, {}, {"string": (S, True)})


def addressed(ctx, p, start, segs, arr, obj, final, vs, cond=True, **kw):
    tag = selfty(p).split("::")[-1].split("<")[0]
    A, ret, st = ctx.analyse(p, [start, P("path"), P("visit")], **kw)
    ap = [e for e in A.effects if e.kind == "call" and e.path == "<apply>"]
    if not ctx.obl(tag + ":callback once", len(ap) == 1 and not ap[0].loops and ap[0].args[0] is P("visit"), where(ap[0]) if ap else p,
                   "the callback must be invoked exactly once"):
        return
    e = ap[0]
    g = exists(cng(e.guard), lambda v: v.op == "has")
    tgt = cn(refs_to_values(e.args[1]))
    lv = None
    for s in subterms(tgt):
        if s.op == "lv":
            lv = s
    if not ctx.obl(tag + ":walks the path", lv is not None, where(e), "the callback receives `%s`, which does not depend on the path" % show(tgt)):
        return
    L = A.loops[lv.a[0]]
    key = (lv.a[1], lv.a[2])
    ctx.obl(tag + ":final string", tgt is cn(final(lv)), where(e), "the callback receives `%s`" % show(tgt))
    ctx.obl(tag + ":starts at the root", cn(refs_to_values(L.init[key])) is cn(start), L.loc, "the walk starts at `%s`" % show(L.init[key]))
    step = cn(refs_to_values(L.step[key]))
    seg = elem(segs)
    sadt = adt(ctx, "path::PathSegment")
    isix = variant(ctx.F, sadt, "Index", seg)
    leaves = {}
    alive = True                     # where the step does not panic
    for c in [q.guard for q in A.effects if q.kind == "panic" and L.id in q.loops] + L.dead:
        alive = land(alive, lnot(strip_has(cng(c))))
    for gg, t in variants(step):
        gg = land(strip_has(cng(gg)), alive)
        leaves.setdefault(t, False)
        leaves[t] = lor(leaves[t], gg)
    it, ft = [t for t, gg in leaves.items() if implies(gg, isix) is True], [t for t, gg in leaves.items() if implies(gg, lnot(isix)) is True]
    ctx.obl(tag + ":index step", len(it) == 1 and arr(it[0], lv, fld(seg, "Index", "0")), L.loc, "an index segment goes to %s" % [show(x) for x in it])
    ctx.obl(tag + ":field step", len(ft) == 1 and obj(ft[0], lv, fld(seg, "Field", "0")), L.loc, "a field segment goes to %s" % [show(x) for x in ft])
    ctx.obl(tag + ":every segment", len(it) + len(ft) == len(leaves) and not L.early, L.loc, "a segment may be skipped or the walk may stop early: %s" % [show(x) for x in leaves])
    return A, e, g


def getof(t, coll, key):
    """Some payload of a keyed/indexed lookup in coll"""
    if t.op == "fld" and t.a[1] == "Some" and t.a[0].op == "call" and endsw(t.a[0].a[0], "get_mut"):
        c, k = t.a[0].a[1][:2]
        return stringy(cn(k)) is cn(key) and coll(cn(c))
    if t.op == "index":
        return cn(t.a[1]) is cn(key) and coll(cn(t.a[0]))
    return False


@rule("C14", "visit_string_mut follows the given path segment by segment from the event itself (list element for an index, map entry for a field) and hands exactly "
             "the string found there to the callback, once.", floor=15)
def c14(ctx):
    S, path = P("self"), P("path")
    ps = impls(ctx, "visit_string_mut")
    segs = F_(path, "segments")
    p = pick(ctx, ps, "SimpleEvent")
    asv = lambda name: (lambda lv: (lambda c: c is cn(fld(lv, name, "0"))))
    addressed(ctx, p, S, segs,
              lambda t, lv, k: getof(t, lambda c: c is cn(fld(lv, "List", "0")), k),
              lambda t, lv, k: getof(t, lambda c: c is cn(fld(lv, "Map", "0")), k),
              lambda lv: fld(lv, "String", "0"), None)
    # JSON

    def acc(lv, var, fn):
        def f(c):
            if c is cn(fld(lv, var, "0")):
                return True
            return c.op == "fld" and c.a[1] == "Some" and c.a[0].op == "call" and endsw(c.a[0].a[0], fn) and cn(c.a[0].a[1][0]) is cn(lv)
        return f
    pj = [q for q in ps if selfty(q) == "serde_json::value::Value"]
    ctx.obl("json impl", len(pj) == 1, "", "Event for serde_json::Value not found")
    S = P("json")
    for q in pj:
        addressed(ctx, q, S, segs, lambda t, lv, k: getof(t, acc(lv, "Array", "as_array_mut"), k),
                  lambda t, lv, k: getof(t, acc(lv, "Object", "as_object_mut"), k), lambda lv: fld(lv, "String", "0"), None)
    # map of JSON values: first segment selects the entry, the rest is followed inside it
    p = pick(ctx, ps, "HashMap<")
    S = P("map")
    A, ret, st = ctx.analyse(p, [S, path, P("visit")], opaque=lambda q: norm(q).endswith("::visit_string_mut") and q != p)
    cs = [e for e in A.effects if e.kind == "call" and norm(e.path).endswith("::visit_string_mut")]
    if ctx.obl("HashMap:delegates once", len(cs) == 1 and not cs[0].loops, where(cs[0]) if cs else p, "the entry must be visited exactly once"):
        e = cs[0]
        first = tindex(segs, C(0))
        ctx.obl("HashMap:entry", getof(cn(e.args[0]), lambda c: c is S, fld(first, "Field", "0")), where(e), "entry visited: `%s`" % show(e.args[0]))
        rest = cn(F_(e.args[1], "segments")) if e.args[1].op == "agg" else cn(e.args[1])
        ok = rest is cn(mkslice(segs, C(1), tlen(segs))) or rest.op == "after" and endsw(rest.a[0], "remove") and rest.a[1][0] is segs and rest.a[1][1] is C(0)
        ctx.obl("HashMap:rest", ok, where(e), "remaining path: `%s`" % show(rest))
        g = exists(e.guard, lambda v: v.op in ("eq0", "lt0"))
        sadt = adt(ctx, "path::PathSegment")
        ctx.obl("HashMap:condition", implies(variant(ctx.F, sadt, "Field", first), g) is True, where(e), "only visited when `%s`" % show_g(e.guard))
        ctx.obl("HashMap:callback", passes(e.args[2], P("visit")), where(e), "callback is `%s`" % show(e.args[2]))
    for p in [q for q in ps if selfty(q) == "alloc::string::String"]:
        A, ret, st = ctx.analyse(p, [S, path, P("visit")])
        ap = [e for e in A.effects if e.kind == "call" and e.path == "<apply>"]
        ctx.obl("String:callback", len(ap) == 1 and ap[0].guard is True and not ap[0].loops and ap[0].args[0] is P("visit") and ap[0].args[1] is S,
                where(ap[0]) if ap else p, "a string event must hand itself to the callback")


def passes(t, v):
    return t is v or t.op == "closure" and any(x is v for x in subterms(t))
