"""Helpers for writing rules: expected terms/guards, loop-identity-free comparison, role discovery by type."""
from .terms import T, N, mk, C, BOT, UNIT, atom, land, lor, lnot, conj, disj, implies, restrict, cofactor, exists, support, paths, show, show_g, subterms
from .vf import (VF, norm, fld, merge, is_var, eq_g, tlen, tindex, mkslice, subst, subst_g, add, scale, lt, eqint, B, to_g, Some, NONE,
                 Ok, Err, tup, TRUE, FALSE, ENUMS, variants, OPT_VS, RES_VS, strip_lt)

AND, OR, NOT = conj, disj, lnot


def P(n):
    return mk("p", n)


def F_(t, *names):
    """field projection: F_(x,'a','b'); a name may be 'Var.0'"""
    for n in names:
        if isinstance(n, tuple):
            t = fld(t, n[0], n[1])
        elif "." in n:
            t = fld(t, *n.split(".", 1))
        else:
            t = fld(t, "", n)
    return t


LOOPY = ("elem", "idx", "has", "cpos")


def _drop(t):
    if t.op in LOOPY and len(t.a) == 2 and t.a[1] != 0:
        return mk(t.op, cn(t.a[0]) if isinstance(t.a[0], T) else t.a[0], 0)
    return None


_memo = {}


def cn(t):
    """canonical term: loop identities dropped from elem/idx/has"""
    return subst(t, _drop, _memo)


def cng(g):
    return subst_g(g, _drop, _memo)


def elem(x):
    return mk("elem", x, 0)


def idx(x):
    return mk("idx", x, 0)


def has(x):
    return atom(mk("has", x, 0))


def contains_(x, y):
    return atom(mk("contains", x, y))


def variant(F, adt, var, t):
    vs = ENUMS.get(adt) or tuple(v["n"] for v in F.adts[adt]["variants"])
    return is_var(t, var, vs)


def agg(F, adt, var="", **kw):
    a = F.adts[adt]
    for v in a["variants"]:
        if a["kind"] != "Enum" or v["n"] == var:
            names = tuple(f["n"] for f in v["fields"])
            return mk("agg", adt, var if a["kind"] == "Enum" else "", names, *[kw[n] for n in names])
    raise KeyError(adt + "::" + var)


def calls(A, *names, kind="call"):
    """effects whose generics-free callee path ends with one of the names"""
    return [e for e in A.effects if (kind is None or e.kind == kind) and any(endsw(e.path, n) for n in names)]


def endsw(p, n):
    q = norm(p)
    return q == n or q.endswith("::" + n) or q.endswith(n) and n.startswith("::")


def where(e):
    return "%s (%s)" % (e.loc, e.fn)


def adt(ctx, suffix):
    out = [p for p in ctx.F.adts if p == suffix or p.endswith("::" + suffix)]
    out = [p for p in out if not p.startswith(("sdsmodels", "sdsref"))]
    if len(out) != 1:
        ctx.viol("anchor:type " + suffix, "", "expected exactly one type %s, found %s" % (suffix, out))
        from .check import Missing
        raise Missing(suffix)
    return out[0]


def field(ctx, adtpath, what, pred):
    """name of the single field of a struct selected by its type"""
    fs = [f["n"] for v in ctx.F.adts[adtpath]["variants"] for f in v["fields"] if pred(strip_lt(f["ty"]))]
    if len(fs) != 1:
        ctx.viol("anchor:%s.%s" % (adtpath, what), ctx.F.adts[adtpath]["loc"], "expected one field for '%s', found %s" % (what, fs))
        from .check import Missing
        raise Missing(what)
    return fs[0]


def fieldn(ctx, adtpath, name, pred=None):
    """a field by name; falls back to the unique field whose type satisfies pred (survives renames)"""
    fs = [f for v in ctx.F.adts[adtpath]["variants"] for f in v["fields"]]
    if any(f["n"] == name for f in fs):
        return name
    if pred is None:
        from .check import Missing
        ctx.viol("anchor:%s.%s" % (adtpath, name), ctx.F.adts[adtpath]["loc"], "field %s not found" % name)
        raise Missing(name)
    return field(ctx, adtpath, name, pred)


def alltext(t):
    return show(t, 40)


def geq(ctx, key, got, want, where_="", what=""):
    got, want = cng(got), cng(want)
    return ctx.obl(key, got is want or got == want, where_,
                   "%s: condition is `%s`, expected `%s`" % (what or key, show_g(got, 8), show_g(want, 8)))


def teq(ctx, key, got, want, where_="", what=""):
    got, want = cn(got), cn(want)
    return ctx.obl(key, got is want, where_, "%s: value is `%s`, expected `%s`" % (what or key, show(got, 12), show(want, 12)))


def heap(st, t):
    return st.get(("H", t), t)


def deref_ref(t):
    """a reference to a heap place, as the value read through it"""
    if t.op == "ref" and t.a[0][0] == "H":
        b = t.a[0][1]
        for k in t.a[1]:
            b = tindex(b, k[1]) if k[0] == "i#" else fld(b, k[0], k[1])
        return b
    return None


def refs_to_values(t):
    return subst(t, deref_ref)


def collected(A):
    """vectors built only by pushing onto an initially empty vector in a loop: lv -> [(guard, value)]"""
    out = {}
    for L in A.loops.values():
        for (root, path), init in L.init.items():
            if not (init.op == "agg" and init.a[0] == "vec" and len(init.a) == 3):
                continue
            lv = mk("lv", L.id, root, path)
            step = L.step.get((root, path))
            ps = []
            if step is not None and _steps(step, lv, True, ps):
                out[lv] = ps
    return out


def _steps(t, lv, g, out):
    if t is lv:
        return True
    if t.op == "ite":
        return _steps(t.a[1], lv, land(g, t.a[0]), out) and _steps(t.a[2], lv, land(g, lnot(t.a[0])), out)
    if t.op == "push":
        out.append((g, t.a[1]))
        return _steps(t.a[0], lv, g, out)
    return False


def expand(A, rows):
    """rows: [(guard, term, eff)]; elements of collected vectors are replaced by what was pushed (one row per push)"""
    col = collected(A)
    out = []
    work = list(rows)
    while work:
        g, t, e = work.pop()
        hit = None
        for s in subterms(tup(t, B(g) if not isinstance(g, bool) else TRUE)):
            if s.op == "elem" and s.a[0] in col:
                hit = s
                break
        if hit is None:
            out.append((g, t, e))
            continue
        for pg, pv in col[hit.a[0]]:
            fn = lambda x: pv if x is hit else None
            g2 = subst_g(g, fn) if not isinstance(g, bool) else g
            g2 = exists(g2, lambda v: v.op == "has" and v.a[0] is hit.a[0])
            work.append((land(g2, pg), subst(t, fn), e))
    return out
