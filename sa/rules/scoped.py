"""Rules over the scoped rule set: construction, path tracking, rule selection, exclusion."""
from sa.check import rule, Missing
from sa.spec import *
from sa.vf import lt
from sa.equiv import compare

M = "dd_sds::scoped_ruleset::"


def strip_has(g):
    """forget the 'there is a next element' conditions: they only say an iteration happens"""
    return exists(g, lambda v: v.op == "has")


def noloop(A):
    """a vector only ever appended to inside a loop keeps its first elements: reads below the initial length see the initial vector"""
    ap = {}
    for L in A.loops.values():
        for (root, path), init in L.init.items():
            lv = mk("lv", L.id, root, path)
            step = L.step.get((root, path))
            if step is not None and pushes_only(step, lv):
                ap[lv] = init

    def fn(t):
        if t.op == "slice":
            b = t.a[0]
            while b.op == "push":
                b = b.a[0]
            if b in ap and t.a[2] is tlen(ap[b]):
                return mkslice(ap[b], t.a[1], t.a[2])
        return None
    return fn, ap


def pushes_only(t, lv):
    if t is lv:
        return True
    if t.op == "ite":
        return pushes_only(t.a[1], lv) and pushes_only(t.a[2], lv)
    if t.op == "push":
        return pushes_only(t.a[0], lv)
    return False


def onto(t, base):
    """does vector value t extend `base` (ite/push/lv chain)?"""
    if t is base:
        return True
    if t.op == "ite":
        return onto(t.a[1], base) and onto(t.a[2], base)
    if t.op in ("push", "popped"):
        return onto(t.a[0], base)
    if t.op == "lv":
        return mk("lvroot", t.a[1], t.a[2]) is not None and lvbase(t) is base
    return False


def lvbase(t):
    """the place an lv term denotes, as a projection of its heap root"""
    if t.op == "lv" and t.a[1][0] == "H":
        b = t.a[1][1]
        for k in t.a[2]:
            b = fld(b, k[0], k[1])
        return b
    return None


def grouped(effs, sel, fix=lambda t: None):
    """value -> disjunction of the guards under which it is produced (loop conditions dropped)"""
    out = {}
    for e in effs:
        v = cn(subst(sel(e), fix))
        g = strip_has(cng(subst_g(e.guard, fix)))
        for vg, leaf in variants(v):
            k = leaf
            g2 = land(g, vg)
            if g2 is False:
                continue
            out[k] = (lor(out[k][0], g2), out[k][1] + [e]) if k in out else (g2, [e])
    return out


def expect(ctx, key, got, want):
    """got: {value:(guard, effects)}; want: {name:(value, guard)}: the two must coincide"""
    want = {n: (cn(v), strip_has(cng(g))) for n, (v, g) in want.items()}
    for n, (v, g) in want.items():
        hit = got.get(v)
        if hit is None:
            ctx.obl(key + ":" + n, False, "", "nothing produces `%s`; produced: %s" % (show(v, 10), [show(x, 10) for x in got][:6]))
        else:
            ctx.obl(key + ":" + n, hit[0] is g or hit[0] == g, where(hit[1][0]),
                    "`%s` happens when `%s`, expected when `%s`" % (show(v, 8), show_g(hit[0], 8), show_g(g, 8)))
    vals = {v for v, _ in want.values()}
    for v, (g, es) in got.items():
        if v not in vals:
            ctx.obl(key + ":unexpected", False, where(es[0]), "unexpected `%s` when `%s`" % (show(v, 10), show_g(g, 8)))


class Roles:
    def __init__(r, ctx):
        r.tree = adt(ctx, "scoped_ruleset::RuleTree")
        r.change = adt(ctx, "scoped_ruleset::RuleChange")
        r.set = adt(ctx, "scoped_ruleset::ScopedRuleSet")
        r.active = adt(ctx, "scoped_ruleset::ActiveRuleTree")
        r.riv = adt(ctx, "scoped_ruleset::RuleIndexVisitor")
        r.exc = adt(ctx, "scoped_ruleset::ExclusionCheck")
        r.cnt = adt(ctx, "scoped_ruleset::NodeCounter")
        r.scope = adt(ctx, "scope::Scope")
        r.boolset = adt(ctx, "bool_set::BoolSet")
        r.seg = adt(ctx, "path::PathSegment")
        r.path = adt(ctx, "path::Path")
        r.segments = field(ctx, r.path, "segments", lambda t: "Vec<" in t and "PathSegment" in t)
        r.changes = field(ctx, r.tree, "rule changes", lambda t: "Vec<" in t and "RuleChange" in t)
        r.children = field(ctx, r.tree, "children", lambda t: "Map<" in t and "RuleTree" in t)
        r.ref = field(ctx, r.active, "tree reference", lambda t: "RuleTree" in t)
        r.wild = field(ctx, r.active, "wildcard flag", lambda t: t == "bool")
        r.settree = field(ctx, r.set, "tree", lambda t: t.endswith("RuleTree"))
        r.num = field(ctx, r.set, "rule count", lambda t: t == "usize")
        r.count = fieldn(ctx, r.cnt, "active_tree_count")
        vis = [i for i in ctx.F.bodies if i.endswith("EventVisitor<'path>>::push_segment") and "scoped_ruleset" in i]
        if len(vis) != 1:
            ctx.viol("anchor:visitor", "", "expected one EventVisitor implementation in the scoped rule set, found %d" % len(vis))
            raise Missing("visitor")
        r.impl = vis[0][: -len("push_segment")]
        r.vis = [p for p in ctx.F.adts if p.startswith(M) and p.split("::")[-1] in r.impl][0] if True else None
        r.nodes = field(ctx, r.vis, "active nodes", lambda t: "Vec<" in t and "ActiveRuleTree" in t)
        r.counters = field(ctx, r.vis, "node counters", lambda t: "Vec<" in t and "NodeCounter" in t)
        r.vpath = field(ctx, r.vis, "path", lambda t: t.endswith("path::Path"))
        r.vset = field(ctx, r.vis, "dedupe set", lambda t: "Option<" in t and "BoolSet" in t)
        r.vflag = field(ctx, r.vis, "wildcard option", lambda t: t == "bool")
        r.vcontent = field(ctx, r.vis, "content visitor", lambda t: t == "C")
        r.rnodes = field(ctx, r.riv, "nodes", lambda t: "ActiveRuleTree" in t)
        r.rset = field(ctx, r.riv, "dedupe set", lambda t: "BoolSet" in t)
        r.enodes = field(ctx, r.exc, "nodes", lambda t: "ActiveRuleTree" in t)
        r.bits = field(ctx, r.boolset, "flags", lambda t: "bool" in t)


def inserters(ctx, r):
    """functions that add a RuleChange to a RuleTree under a path: (&mut RuleTree, path/segments, RuleChange)"""
    out = []
    for p, b in ctx.F.bodies.items():
        ins = [strip_lt(str(x)) for x in b.get("inputs") or []]
        if p.startswith(M) and len(ins) == 3 and "RuleTree" in ins[0] and "RuleChange" in ins[2] and "Path" in ins[1]:
            out.append(p)
    if len(out) != 1:
        ctx.viol("anchor:insert", "", "expected one (tree, path, change) insertion function, found %s" % out)
        raise Missing("insert")
    return out[0]


@rule("C10", "ScopedRuleSet::new inserts, for the rule at each position, exactly: Include -> one removal per exclude path and one addition per include "
             "path; Exclude -> one addition at the root and one removal per path. Inserting a change at a path stores it at exactly that node "
             "(walking one segment at a time) unless an ancestor already has it, and removes only identical changes below.", floor=20)
def c10(ctx):
    r = Roles(ctx)
    ins = inserters(ctx, r)
    scopes = P("scopes")
    A, ret, st = ctx.analyse(ctx.body("ScopedRuleSet::new"), [scopes], opaque={ins})
    es = calls(A, norm(ins).split("::")[-1])
    es = [e for e in es if norm(e.path) == norm(ins)]
    sc, i = elem(scopes), idx(scopes)
    add_ = lambda: agg(ctx.F, r.change, "Add", **{"0": i})
    rem_ = lambda: agg(ctx.F, r.change, "Remove", **{"0": i})
    inc = variant(ctx.F, r.scope, "Include", sc)
    segs = lambda p: F_(p, r.segments)
    got = grouped(es, lambda e: tup(aspath(e.args[1], r), e.args[2]))
    ip, ep, xp = F_(sc, "Include.include"), F_(sc, "Include.exclude"), F_(sc, "Exclude.0")
    root = mk("agg", "vec", "", ())
    expect(ctx, "new", got, {
        "include adds": (tup(segs(elem(ip)), add_()), inc),
        "include removes": (tup(segs(elem(ep)), rem_()), inc),
        "exclude adds at root": (tup(emptyvec(A, got), add_()), lnot(inc)),
        "exclude removes": (tup(segs(elem(xp)), rem_()), lnot(inc)),
    })
    for e in es:
        base = e.args[0]
        ctx.obl("new:one tree", treeish(A, base, ret, r), where(e), "the change is inserted into `%s`, which is not the tree of the rule set" % show(base))
        # early exits would skip scopes
    for L in A.loops.values():
        ctx.obl("new:all scopes", not L.early, L.loc, "a loop over scopes/paths can stop early")
        ctx.obl("new:no skip", not any(k for k in A.skips.get(L.id, ())), L.loc, "some scopes/paths are skipped")
    teq(ctx, "new:rule count", F_(ret, r.num), mk("len", scopes), "ScopedRuleSet::new", "number of rules")
    ctx.obl("new:defaults", all(F_(ret, f["n"]) is FALSE for v in ctx.F.adts[r.set]["variants"] for f in v["fields"] if f["ty"] == "bool"),
            "ScopedRuleSet::new", "an optional behaviour is switched on by default")

    # ---- one insertion
    S, p, ch = P("self"), P("path"), P("change")
    rec = set(x for x in recursive(ctx, ins))
    if any(norm(t["f"]["fn"]["path"]) == norm(ins) for bl in ctx.F.bodies[ins]["blocks"] for t in [bl["t"]] if t["k"] == "call" and t["f"].get("fn")):
        insertion(ctx, r, ins, S, p, ch)
    else:
        # descends in a loop
        compare(ctx, "insert", ins, "scoped::insert", [S, p, ch], opaque=["recursively_remove"], effects=["push", "or_insert_with", "recursively_remove"], heap=True, ret=False)
        q = [x for x in ctx.F.bodies if norm(x) == norm(ins).rsplit("::", 1)[0] + "::recursively_remove"]
        ctx.obl("insert:pruning", len(q) == 1, ins, "no function that drops changes implied by the stored one")
        for x in q:
            prune(ctx, S, ch, x)
    # setters
    for nm, fl in (("with_implicit_index_wildcards", "add_implicit_index_wildcards"), ("with_keywords_should_match_event_paths", "should_keywords_match_event_paths")):
        if any(norm(x).endswith("ScopedRuleSet::" + nm) for x in ctx.F.bodies):
            A, ret, st = ctx.analyse(ctx.body("ScopedRuleSet::" + nm), [S, P("v")])
            names = [f["n"] for v in ctx.F.adts[r.set]["variants"] for f in v["fields"]]
            if fl in names:
                ok = all(F_(ret, n) is (P("v") if n == fl else F_(S, n)) or to_g(F_(ret, n)) == to_g(P("v")) and n == fl for n in names)
                ctx.obl("setter:" + nm, ok, nm, "the setter yields `%s`" % show(ret))
    # scope constructors
    for nm, args, want in (
            ("Scope::all", [], ("Exclude", {"0": mk("agg", "vec", "", ())})),
            ("Scope::include", [P("a")], ("Include", {"include": P("a"), "exclude": mk("agg", "vec", "", ())})),
            ("Scope::exclude", [P("a")], ("Exclude", {"0": P("a")})),
            ("Scope::include_and_exclude", [P("a"), P("b")], ("Include", {"include": P("a"), "exclude": P("b")})),
            ("<dd_sds::scanner::scope::Scope as core::default::Default>::default", [], ("Exclude", {"0": mk("agg", "vec", "", ())}))):
        A, ret, st = ctx.analyse(ctx.body(nm), args)
        want_ = agg(ctx.F, r.scope, want[0], **want[1])
        ctx.obl("ctor:" + nm, same_agg(ret, want_), nm, "%s yields `%s`" % (nm, show(ret)))


def insertion(ctx, r, ins, S, p, ch):
    cand = {q for q, b in ctx.F.bodies.items() if q.startswith(M) and len(b.get("inputs") or []) == 2 and "RuleTree" in str(b["inputs"][0]) and "RuleChange" in str(b["inputs"][1])}
    A, ret, st = ctx.analyse(ins, [S, p, ch], opaque=cand)
    changes, children = F_(S, r.changes), F_(S, r.children)
    known = contains_(changes, ch)
    empty = eqint(mk("len", p), C(0))
    pu = [e for e in calls(A, "Vec::push", "Vec::insert", "extend", "Vec::extend") if e.kind == "call"]
    got = grouped(pu, lambda e: e.args[-1])
    expect(ctx, "insert:store", got, {"the change": (ch, AND(lnot(known), empty))})
    for e in pu:
        own = lambda t: root_is(t, changes) or t.op == "fld" and F_(S, t.a[2]) is changes and t.a[0].op == "after" and S in t.a[0].a[1]
        ctx.obl("insert:store here", e.args[0].op != "bot" and all(own(t) for _, t in variants(e.args[0])), where(e), "stored in `%s`" % show(e.args[0]))
    rc = [e for e in A.effects if e.kind == "call" and norm(e.path) == norm(ins)]
    got = grouped(rc, lambda e: tup(e.args[1], e.args[2]))
    expect(ctx, "insert:descend", got, {"into the next segment": (tup(mkslice(p, C(1), mk("len", p)), ch), AND(lnot(known), lnot(empty)))})
    for e in rc:
        ok = all(t.op == "slot" and t.a[0] is children and cn(t.a[1]) is tindex(p, C(0)) or fresh(t, r)
                 for _, t in variants(e.args[0]))
        ctx.obl("insert:descend child", ok, where(e), "descends into `%s` instead of the child named by the first segment" % show(e.args[0]))
    # ---- removal of duplicates below
    rm = [e for e in A.effects if e.kind == "call" and norm(e.path) == "sdsmodels::coll::removed"]
    for e in rm:
        t = e.args[-1]
        g = cng(e.guard)
        ctx.obl("insert:drops identical only", implies(g, cng(eq_g(ch, t))) is True, where(e),
                "an entry is dropped when `%s`, which does not require it to equal the inserted change" % show_g(g))
        ctx.obl("insert:drops here", t.op == "elem" and root_is(t.a[0], changes), where(e), "drops from `%s`" % show(t))
    pruners = {e.path for e in A.effects if e.kind == "call" and not e.path.startswith(("core", "alloc", "std", "ahash", "hashbrown", "sdsmodels"))
               and norm(e.path) != norm(ins) and "RuleTree" in e.path}
    for q in sorted(pruners):
        if q not in ctx.F.bodies:
            continue
        b = ctx.F.bodies[q]
        if len(b["inputs"]) != 2 or "RuleChange" not in str(b["inputs"][1]):
            continue
        prune(ctx, S, ch, q)
    # a change already stored below is implied from now on: it must go, or the rule is offered twice there
    full = [q for q in sorted(pruners) if q in ctx.F.bodies and prunes_all(ctx, r, S, ch, q)]
    tot = False
    for e in A.effects:
        if e.kind == "call" and e.path in full and e.args[-1] is ch and (root_is(e.args[0], S) or below(cn(e.args[0]), children)):
            tot = lor(tot, strip_has(cng(e.guard)))
    tot = lor(tot, eqint(mk("len", children), C(0)))
    ctx.obl("insert:drops implied", implies(AND(lnot(known), empty), tot) is True, ins,
            "changes equal to the stored one are dropped below it when `%s`, not always: the rule would be offered twice" % show_g(tot))
    # every write to the tree is one of those
    cl = [e for e in calls(A, "clear", "Vec::pop", "Vec::remove", "Vec::truncate", "swap_remove", "drain", "HashMap::insert", "AHashMap::insert", "HashMap::clear")]
    ctx.obl("insert:no other mutation", not cl, where(cl[0]) if cl else ins, "insertion also performs `%s`" % (cl and short_(cl[0]) or ""))


def prune(ctx, S, ch, q):
    """a function that drops a change from a tree"""
    A2, _, _ = ctx.analyse(q, [S, ch])
    for e in [e for e in A2.effects if e.kind == "call" and norm(e.path) == "sdsmodels::coll::removed"]:
        ctx.obl("prune:identical only", implies(cng(e.guard), cng(eq_g(ch, e.args[-1]))) is True, where(e),
                "an entry is dropped when `%s`" % show_g(e.guard))
    cl = [e for e in calls(A2, "Vec::clear", "Vec::truncate", "Vec::pop", "Vec::remove", "HashMap::clear", "HashMap::remove", "AHashMap::remove")]
    ctx.obl("prune:nothing else", not cl, where(cl[0]) if cl else q, "pruning removes more than identical changes")
    rc2 = [e for e in A2.effects if e.kind == "call" and norm(e.path) == norm(q)]
    for e in rc2:
        ctx.obl("prune:same change", e.args[-1] is ch, where(e), "recursion continues with `%s`" % show(e.args[-1]))


def below(t, children):
    return t.op in ("elem", "fld") and root_is(t.a[0].a[0] if t.op == "fld" and t.a[0].op == "elem" else t.a[0], children)


def prunes_all(ctx, r, S, ch, q):
    """the function drops every change equal to the given one, here and in every child"""
    A, _, _ = ctx.analyse(q, [S, ch])
    changes, children = F_(S, r.changes), F_(S, r.children)
    here = rec = False
    for e in A.effects:
        if e.kind == "call" and norm(e.path) == "sdsmodels::coll::removed" and e.args[-1].op == "elem" and root_is(e.args[-1].a[0], changes):
            here = lor(here, strip_has(cng(e.guard)))
        if e.kind == "call" and norm(e.path) == norm(q) and e.args[-1] is ch and below(cn(e.args[0]), children):
            rec = lor(rec, strip_has(cng(e.guard)))
    return not any(L.early for L in A.loops.values()) and \
        implies(strip_has(cng(eq_g(ch, elem(changes)))), lor(here, lnot(contains_(changes, ch)))) is True and lor(rec, eqint(mk("len", children), C(0))) is True


def short_(e):
    return "%s" % e.path


def emptyvec(A, got):
    for k in got:
        if k.op == "agg" and k.a[3].op == "agg" and k.a[3].a[0] in ("vec", "array") and len(k.a[3].a) == 3:
            return k.a[3]
    return mk("agg", "vec", "", ())


def same_agg(a, b):
    if a.op == "agg" and b.op == "agg":
        if a.a[0] in ("vec", "array") and b.a[0] in ("vec", "array") and len(a.a) == len(b.a):
            return all(same_agg(x, y) for x, y in zip(a.a[3:], b.a[3:]))
        return a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a) and all(same_agg(x, y) for x, y in zip(a.a[3:], b.a[3:]))
    return a is b


def aspath(t, r):
    """a Path value or its segments -> segments"""
    if t.op == "agg" and t.a[0] == r.path:
        return fld(t, "", r.segments)
    return t


def root_is(t, base):
    """is t the vector `base`, possibly already filtered/extended in this call?"""
    while True:
        if t is base:
            return True
        if t.op in ("retained", "push", "popped", "after"):
            t = t.a[0] if isinstance(t.a[0], T) else t.a[1][0]
        elif t.op == "lv" and lvbase(t) is not None:
            return lvbase(t) is base
        elif t.op == "ite":
            return root_is(t.a[1], base) and root_is(t.a[2], base)
        else:
            return False


def fresh(t, r):
    """a newly created empty tree"""
    return t.op == "agg" and t.a[0] == r.tree and (fld(t, "", r.changes).op == "agg" and len(fld(t, "", r.changes).a) == 3)


def treeish(A, base, ret, r):
    for t in subterms(base):
        if t.op == "lv":
            return True
    return base.op == "agg" and base.a[0] == r.tree or base.op == "after"


def recursive(ctx, p):
    return [p]


@rule("C12", "Entering a path segment extends the set of active nodes by exactly the matching children (and, with implicit index wildcards, the node itself for "
             "an index), records how many were added and appends the segment; leaving removes exactly those and the segment.", floor=14)
def c12(ctx):
    r = Roles(ctx)
    S, seg = P("self"), P("segment")
    A, ret, st = ctx.analyse(r.impl + "push_segment", [S, seg])
    fix, ap = noloop(A)
    nodes, cnts, segs = F_(S, r.nodes), F_(S, r.counters), F_(S, r.vpath, r.segments)
    n = len_(nodes)
    act = F_(tindex(cnts, add(len_(cnts), C(1), -1)), r.count)
    cur = elem(mkslice(nodes, add(n, act, -1), n))
    get = None
    pushes = [e for e in calls(A, "Vec::push", "Vec::extend", "Vec::insert", "Vec::append", "extend_from_slice")]
    tp = [e for e in pushes if root_is(e.args[0], nodes)]
    got = grouped(tp, lambda e: e.args[-1], fix)
    # the lookup of the segment in the children of the current node
    lk = {t for k in got for t in subterms(k) if t.op == "call" and endsw(t.a[0], "get") and len(t.a[1]) == 2}
    ok = len(lk) == 1 and cn(list(lk)[0].a[1][0]) is F_(cur, r.ref, r.children) and cn(list(lk)[0].a[1][1]) is seg
    ctx.obl("push:lookup", ok, r.impl + "push_segment", "the child lookup is %s, expected the children of every currently active node, by the segment" % [show(x, 12) for x in lk])
    if ok:
        get = list(lk)[0]
        isidx = variant(ctx.F, r.seg, "Index", seg)
        expect(ctx, "push:nodes", got, {
            "matching child": (agg(ctx.F, r.active, **{r.ref: fld(get, "Some", "0"), r.wild: FALSE}),
                               AND(is_var(get, "Some", OPT_VS), OR(lnot(isidx), lnot(to_g(F_(cur, r.wild)))))),
            "implicit wildcard": (agg(ctx.F, r.active, **{r.ref: F_(cur, r.ref), r.wild: TRUE}),
                                  AND(to_g(F_(S, r.vflag)), isidx)),
        })
    for L in A.loops.values():
        ctx.obl("push:visits every active node", not L.early, L.loc, "the loop over active nodes can stop early")
    end = heap(st, S)
    newnodes = F_(end, r.nodes)
    cp = [e for e in pushes if root_is(e.args[0], cnts)]
    ctx.obl("push:one counter", len(cp) == 1 and cp[0].guard is True and not cp[0].loops, where(cp[0]) if cp else "", "exactly one counter must be recorded per segment")
    if cp:
        v = cn(F_(cp[0].args[1], r.count))
        ok = v is cn(add(tlen(newnodes), n, -1)) or same_count(A, v, newnodes)
        ctx.obl("push:counter value", ok, where(cp[0]), "recorded count is `%s`, expected the number of nodes added" % show(v))
    teq(ctx, "push:path", F_(end, r.vpath, r.segments), mk("push", segs, seg), r.impl + "push_segment", "path after entering a segment")
    # ---- leaving
    A, ret, st = ctx.analyse(r.impl + "pop_segment", [S])
    end = heap(st, S)
    teq(ctx, "pop:path", F_(end, r.vpath, r.segments), mk("popped", segs), r.impl + "pop_segment", "path after leaving a segment")
    teq(ctx, "pop:counters", F_(end, r.counters), mk("popped", cnts), r.impl + "pop_segment", "counters after leaving a segment")
    nn = cut(A, F_(end, r.nodes))
    want = cn(mkslice(nodes, C(0), add(n, act, -1)))
    ctx.obl("pop:nodes", nn is not None and cn(nn) is want, r.impl + "pop_segment",
            "active nodes after leaving a segment: `%s`, expected `%s`" % (show(nn or F_(end, r.nodes), 12), show(want, 12)))
    # everything else the visitor holds is unchanged by a push/pop pair or is itself a paired stack
    # ---- initial state
    A, ret, st = ctx.analyse(ctx.body("ScopedRuleSet::visit_string_rule_combinations"), [S, P("event"), P("cv")])
    ve = calls(A, "visit_event")
    ctx.obl("start:one walk", len(ve) == 1 and ve[0].guard is True and not ve[0].loops, where(ve[0]) if ve else "", "the event must be walked exactly once, unconditionally")
    for e in ve:
        ctx.obl("start:event", e.args[0] is P("event"), where(e), "walks `%s`" % show(e.args[0]))
        v = e.args[1]
        if v.op == "ref":
            v = ctx_read(A, st, v)
        w = agg(ctx.F, r.active, **{r.ref: F_(S, r.settree), r.wild: FALSE})
        ctx.obl("start:root node", veclist(F_(v, r.nodes)) == [w], where(e), "initial active nodes: `%s`" % show(F_(v, r.nodes)))
        cl = veclist(F_(v, r.counters))
        ctx.obl("start:counter", cl is not None and len(cl) == 1 and F_(cl[0], r.count) is C(1), where(e), "initial counters: `%s`" % show(F_(v, r.counters)))
        ctx.obl("start:path", veclist(F_(v, r.vpath, r.segments)) == [], where(e), "initial path: `%s`" % show(F_(v, r.vpath)))
        ctx.obl("start:content visitor", F_(v, r.vcontent) is P("cv"), where(e), "content visitor is `%s`" % show(F_(v, r.vcontent)))
        wf = wildflag(ctx, r)
        ctx.obl("start:wildcards", to_g(F_(v, r.vflag)) == to_g(F_(S, wf)), where(e), "wildcard option is `%s`" % show(F_(v, r.vflag)))
        # a dedupe set is required whenever the same rule can be reached twice (implicit wildcards)
        ds = F_(v, r.vset)
        some = is_var(ds, "Some", OPT_VS)
        ctx.obl("start:dedupe present", implies(to_g(F_(S, wf)), some) is True, where(e), "no dedupe set although wildcards can activate a rule twice: `%s`" % show(ds))
        bits = fld(fld(ds, "Some", "0"), "", r.bits)
        ctx.obl("start:dedupe size", bits.op == "repeat" and bits.a[0] is FALSE and bits.a[1] is F_(S, r.num), where(e), "dedupe flags are `%s`" % show(bits))


def wildflag(ctx, r):
    return fieldn(ctx, r.set, "add_implicit_index_wildcards")


def ctx_read(A, st, ref):
    return A.val(st, ref)


def veclist(t):
    if t.op == "agg" and t.a[0] in ("vec", "array"):
        return list(t.a[3:])
    if t.op == "push":
        b = veclist(t.a[0])
        return None if b is None else b + [t.a[1]]
    return None


def len_(t):
    return tlen(t)


def same_count(A, v, vec):
    """an integer loop variable that counts the pushes onto vec"""
    if v.op != "lv" or vec.op != "lv" or v.a[0] != vec.a[0]:
        return False
    L = A.loops[v.a[0]]
    i, s = L.init.get((v.a[1], v.a[2])), L.step.get((v.a[1], v.a[2]))
    vs = L.step.get((vec.a[1], vec.a[2]))
    if i is not C(0) or s is None or vs is None:
        return False
    X = P("#n")
    a = subst(s, lambda t: X if t is v else None)
    b = subst(tlen(vs), lambda t: X if t.op == "len" and t.a[0] is vec else None)
    return cn(a) is cn(b)


def cut(A, t):
    """vector value after removing a number of last elements -> slice(base, 0, n)"""
    if t.op == "slice":
        e = t.a[2]
        # kept from running below nothing: there are never more to remove than there are
        if e.op == "ite" and C(0) in (e.a[1], e.a[2]):
            o = e.a[2] if e.a[1] is C(0) else e.a[1]
            if cng(e.a[0] if e.a[1] is C(0) else lnot(e.a[0])) == cng(lt(o, C(0))):
                return mkslice(t.a[0], t.a[1], o)
        return t
    if t.op == "lv":
        L = A.loops[t.a[0]]
        k = (t.a[1], t.a[2])
        step = L.step.get(k)
        if step is mk("popped", t) and not L.early:
            for (root, path), init in L.init.items():
                s = L.step.get((root, path))
                if init.op == "agg" and init.a[0].endswith("Range") and s is not None and s.op == "adv":
                    n = add(fld(init, "", "end"), fld(init, "", "start"), -1)
                    base = L.init[k]
                    return mkslice(base, C(0), add(tlen(base), n, -1))
    return None


@rule("C11", "Rules offered for a string are exactly the Add entries of the active, non-duplicated nodes (each index at most once when duplicates are possible); "
             "a rule is reported excluded iff some active node holds a Remove entry for it; the dedupe memory is cleared after every string.", floor=10)
def c11(ctx):
    r = Roles(ctx)
    S = P("self")
    A, ret, st = ctx.analyse(ctx.body("RuleIndexVisitor::visit_rule_indices"), [S, P("visit")])
    node = elem(F_(S, r.rnodes))
    chs = F_(node, r.ref, r.changes)
    ch = elem(chs)
    isadd = variant(ctx.F, r.change, "Add", ch)
    i = fld(ch, "Add", "0")
    rs = F_(S, r.rset)
    some = is_var(rs, "Some", OPT_VS)
    got = grouped([e for e in A.effects if e.kind == "call" and e.path == "<apply>"], lambda e: e.args[1])
    bitsbase = F_(rs, "Some.0", r.bits)
    # flags already set are read from the set itself (as it evolves)
    seen = set()
    for v, (g, es) in got.items():
        for a in support(g):
            if a.op == "index" and root_is_store(A, a.a[0], bitsbase) and cn(a.a[1]) is cn(i):
                seen.add(a)
    base = AND(isadd, lnot(to_g(F_(node, r.wild))))
    if len(seen) == 1:
        want = AND(base, OR(lnot(some), lnot(atom(list(seen)[0]))))
    else:
        want = AND(base, lnot(some))
        ctx.obl("visit:dedupe read", False, "visit_rule_indices", "a set flag is not consulted before offering a rule (flags read: %s)" % [show(x) for x in seen])
    expect(ctx, "visit", got, {"each added rule": (i, want)})
    ctx.obl("visit:callback", all(e.args[0] is P("visit") for v in got.values() for e in v[1]), "", "")
    for L in A.loops.values():
        ctx.obl("visit:all nodes", not L.early, L.loc, "the loop over active nodes/changes can stop early")
    # the flag is set whenever the rule is offered through the set
    stores = set()
    for L in A.loops.values():
        for k, s in L.step.items():
            for g, leaf in variants(s):
                if leaf.op == "store":
                    stores.add((leaf.a[1], leaf.a[2]))
    for k, s in st.items():
        for t in subterms(s):
            if t.op == "store":
                stores.add((t.a[1], t.a[2]))
    ctx.obl("visit:dedupe write", any(cn(a) is cn(i) and b is TRUE for a, b in stores), "visit_rule_indices", "the offered rule is not remembered: %s" % [(show(a), show(b)) for a, b in stores])
    ctx.obl("visit:dedupe write only", all(cn(a) is cn(i) and b is TRUE for a, b in stores), "visit_rule_indices", "another flag is modified")
    # exclusion
    A, ret, st = ctx.analyse(ctx.body("ExclusionCheck::is_excluded"), [S, P("rule")])
    node = elem(F_(S, r.enodes))
    chs = F_(node, r.ref, r.changes)
    ch = elem(chs)
    ok, why = exists_form(ret, [F_(S, r.enodes), chs], AND(variant(ctx.F, r.change, "Remove", ch), eq_g(P("rule"), fld(ch, "Remove", "0"))),
                          contains_(chs, agg(ctx.F, r.change, "Remove", **{"0": P("rule")})))
    ctx.obl("excluded", ok, "ExclusionCheck::is_excluded", why)
    # visiting a string
    A, ret, st = ctx.analyse(r.impl + "visit_string", [S, P("value")])
    vc = calls(A, "visit_content")
    ctx.obl("string:visited once", len(vc) == 1 and vc[0].guard is True and not vc[0].loops, where(vc[0]) if vc else "", "visit_content must be called exactly once per string")
    for e in vc:
        a = [deref(A, x) for x in e.args]
        ctx.obl("string:path", a[1] is F_(S, r.vpath), where(e), "path passed is `%s`" % show(a[1]))
        ctx.obl("string:content", a[2] is P("value"), where(e), "content passed is `%s`" % show(a[2]))
        ctx.obl("string:rules", F_(a[3], r.rnodes) is F_(S, r.nodes), where(e), "rules come from `%s`" % show(a[3]))
        ds = F_(S, r.vset)
        got_ = F_(a[3], r.rset)
        okd = is_var(got_, "Some", OPT_VS) == is_var(ds, "Some", OPT_VS) and fld(got_, "Some", "0") in (fld(ds, "Some", "0"),) or got_ is ds
        ctx.obl("string:dedupe", okd, where(e), "dedupe set passed is `%s`" % show(got_))
        ctx.obl("string:exclusions", F_(a[4], r.enodes) is F_(S, r.nodes), where(e), "exclusions come from `%s`" % show(a[4]))
        res = cn(F_(ret, "might_mutate"))
        ctx.obl("string:result", res is cn(e.res) or to_g(res) == to_g(e.res), where(e), "the result reports `%s`" % show(res))
    end = heap(st, S)
    bits = F_(end, r.vset, "Some.0", r.bits)
    some = is_var(F_(S, r.vset), "Some", OPT_VS)
    leaves = [(g, x) for g, x in variants(bits) if land(g, some) is not False]
    ctx.obl("string:reset", all(x.op == "repeat" and x.a[0] is FALSE for _, x in leaves) and leaves, r.impl + "visit_string",
            "after a string the dedupe flags are `%s`, expected all cleared" % show(bits))
    fl = [e for e in calls(A, "fill")] + [e for e in A.effects if e.kind == "call" and "BoolSet" in e.path]
    ctx.obl("string:reset after visit", all(e.seq > vc[0].seq for e in fl) if vc else False, "", "flags are cleared before the rules are visited")
    # the set itself
    A, ret, st = ctx.analyse(ctx.body("BoolSet::new"), [P("n")])
    teq(ctx, "set:new", F_(ret, r.bits), mk("repeat", FALSE, P("n")), "BoolSet::new")
    A, ret, st = ctx.analyse(ctx.body("BoolSet::get_and_set"), [S, P("i")])
    ctx.obl("set:get", to_g(ret) == to_g(tindex(F_(S, r.bits), P("i"))), "BoolSet::get_and_set", "returns `%s`" % show(ret))
    teq(ctx, "set:set", F_(heap(st, S), r.bits), mk("store", F_(S, r.bits), P("i"), TRUE), "BoolSet::get_and_set")
    A, ret, st = ctx.analyse(ctx.body("BoolSet::reset"), [S])
    b = F_(heap(st, S), r.bits)
    ctx.obl("set:reset", b.op == "repeat" and b.a[0] is FALSE and b.a[1] is tlen(F_(S, r.bits)), "BoolSet::reset", "leaves `%s`" % show(b))


def deref(A, x):
    return x


def root_is_store(A, t, base):
    while t.op == "store":
        t = t.a[0]
    return t is base or t.op == "lv" and lvbase(t) is base


def exists_form(ret, colls, cond, inner_contains=None):
    """ret is a boolean: does it say 'some element of the nested collections satisfies cond'?"""
    g = to_g(ret)
    conds = []

    def strip_ex(g):
        s = support(g)
        if isinstance(g, bool) or len(s) != 1:
            return g, 0
        a = list(s)[0]
        if a.op == "ex" and g == atom(a):
            i, d = strip_ex(a.a[1])
            return i, d + 1
        return g, 0
    inner, d = strip_ex(g)
    inner = exists(cng(inner), lambda v: v.op == "has")
    want = cng(cond)
    if 1 <= d <= len(colls) and inner == want:
        return True, ""
    if inner_contains is not None and 1 <= d < len(colls) and inner == cng(inner_contains):
        return True, ""
    return False, "the result is `%s`, expected: some entry satisfies `%s`" % (show_g(g), show_g(want))
