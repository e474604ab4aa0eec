"""Interprocedural gated value-flow analysis over rustc MIR.

One forward pass per entry function. Values are hash-consed terms (global value numbering); joins
produce gated merges (ite), loops are solved to a fixpoint of the set of loop-carried places; callees and
closures with a body are analysed at the call site (context sensitive); everything else is an opaque
call. The result is the list of effects (calls, panics, drops) with a guard (decision diagram over
value terms), the loop nest and the argument values, plus the returned value and the final memory.
No path is enumerated, no solver is asked and no code of /repo is run."""
import math
import itertools, re, sys
from .terms import *
from . import facts as _facts

sys.setrecursionlimit(20000)

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
OPT_VS, RES_VS, CF_VS = ("None", "Some"), ("Ok", "Err"), ("Continue", "Break")


def Some(x):
    return mk("agg", OPT, "Some", ("0",), x)


NONE = mk("agg", OPT, "None", ())


def Ok(x):
    return mk("agg", RES, "Ok", ("0",), x)


def Err(x):
    return mk("agg", RES, "Err", ("0",), x)


def B(n):
    return mk("bool", n)


TRUE, FALSE = B(True), B(False)


def tup(*xs):
    return mk("agg", "tuple", "", tuple(str(i) for i in range(len(xs))), *xs)


_gen = re.compile(r"::<[^<>]*>")


def norm(p):
    """strip generic arguments and impl headers from a path: Vec::<T, A>::push -> alloc::vec::Vec::push"""
    p = p.replace("->", "-}")
    while True:
        q = _gen.sub("", p)
        if q == p:
            return p.replace("-}", "->")
        p = q


def strip_lt(s):
    s = re.sub(r"'[a-z_]+ ", "", s)
    s = re.sub(r"<'[a-z_]+, ", "<", s)
    s = re.sub(r"::<'[a-z_]+>|<'[a-z_]+>", "", s)
    return re.sub(r"'[a-z_]+", "", s)


# ------------------------------------------------------------------ algebra
def lin_of(t):
    """(const, {term: coef})"""
    if t.op == "c" and isinstance(t.a[0], int):
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id))
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, sign=1):
    if a is BOT or b is BOT:
        return BOT
    if a.op == "ite" and b.op in ("c",):
        return merge(a.a[0], add(a.a[1], b, sign), add(a.a[2], b, sign))
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + sign * k
    return lin(ca + sign * cb, da)


def scale(a, k):
    c, d = lin_of(a)
    return lin(c * k, {t: x * k for t, x in d.items()})


def mul(a, b):
    """product, as a polynomial"""
    if a.op == "ite":
        return merge(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
    if b.op == "ite":
        return merge(b.a[0], mul(a, b.a[1]), mul(a, b.a[2]))
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    out = {}
    for t, k in da.items():
        out[t] = out.get(t, 0) + k * cb
    for t, k in db.items():
        out[t] = out.get(t, 0) + k * ca
    for t, k in da.items():
        for u, j in db.items():
            fs = (t.a[0] if t.op == "mono" else (t,)) + (u.a[0] if u.op == "mono" else (u,))
            w = mk("mono", tuple(sorted(fs, key=lambda x: x.id)))
            out[w] = out.get(w, 0) + k * j
    return lin(ca * cb, out)


def _canon(d, c, items):
    return items and items[0][1] < 0


def constite(t):
    return t.op == "c" or t.op == "ite" and constite(t.a[1]) and constite(t.a[2])


def maxmin(t):
    """if x < y { y } else { x } and its variants, as max / min"""
    if t.op == "ite" and isinstance(t.a[0], N):
        v = t.a[0].v
        if v.op == "lt0" and len(support(t.a[0])) == 1:
            x, y = (t.a[1], t.a[2]) if t.a[0] is atom(v) else (t.a[2], t.a[1])
            if not (_intlike(x) and _intlike(y)):
                return t
            d, e = v.a[0], add(y, x, -1)
            a, b = sorted((x, y), key=lambda z: z.id)
            if d is e or d is add(e, C(1), -1):
                return mk("mm", "max", a, b)
            f = add(x, y, -1)
            if d is f or d is add(f, C(1), -1):
                return mk("mm", "min", a, b)
    return t


def _intlike(x):
    return x.op not in ("agg", "bool", "bot", "ref", "upd") and not (x.op == "c" and not isinstance(x.a[0], int))


def lt(a, b, unsigned=False):
    """guard of a < b over the integers"""
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == "ite":
            w = maxmin(x)
            if w.op == "mm":
                p, q = (lt(y, z, unsigned) if sw else lt(z, y, unsigned) for z in w.a[1:])
                return lor(p, q) if (w.a[0] == "max") == bool(sw) else land(p, q)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and (y.op == "c" or (constite(x) and constite(y))):
            f = (lambda z: lt(y, z, unsigned)) if sw else (lambda z: lt(z, y, unsigned))
            return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    if a is BOT or b is BOT:
        return False
    d = add(a, b, -1)
    return _lt0(d)


def _nonneg(t):
    return t.op in ("len", "idx", "count") or t.op == "call" and isinstance(t.a[0], str) and t.a[0].endswith(("::strong_count", "::weak_count"))


def _lt0(d):
    c, m = lin_of(d)
    if not m:
        return c < 0
    q = math.gcd(*m.values())
    if q > 1:
        # q*e + c < 0  <=>  e < ceil(-c/q)
        return _lt0(lin(c // q, {t: k // q for t, k in m.items()}))
    items = sorted(m.items(), key=lambda x: x[0].id)
    for t, k in items:
        if t.op == "idx" and t.a[0].op == "range" and t.a[0].a[1].op != "inf":
            n = add(t.a[0].a[1], t.a[0].a[0], -1)
            if k == 1 and d is add(t, n, -1):
                return atom(mk("has", t.a[0], t.a[1]))
            if k == -1 and d is add(add(n, t, -1), C(1), -1):
                return lnot(atom(mk("has", t.a[0], t.a[1])))
    if items[0][1] < 0:
        # d < 0  <=>  not (-d - 1 < 0)
        return lnot(_lt0(add(scale(d, -1), C(1), -1)))
    if len(items) == 1 and items[0][1] == 1 and c == -1 and (_nonneg(items[0][0])):
        return eqint(items[0][0], C(0))     # x < 1  <=>  x == 0
    if len(items) == 1 and items[0][1] == 1 and c >= 0 and _nonneg(items[0][0]):
        return False
    if len(items) == 2 and c == 0 and items[0][0].op == "idx" and items[0][1] == 1 and items[1][1] == -1 \
            and items[1][0].op == "len" and items[1][0].a[0] is items[0][0].a[0]:
        return atom(mk("has", items[0][0].a[0], items[0][0].a[1]))
    if len(items) == 2 and c == 0 and items[1][0].op == "idx" and items[1][1] == -1 and items[0][0].op == "len" \
            and items[0][1] == 1 and items[0][0].a[0] is items[1][0].a[0]:
        return False                         # len - idx < 0 never
    if len(items) == 2 and c == -1 and items[1][0].op == "idx" and items[1][1] == -1 and items[0][0].op == "len" \
            and items[0][1] == 1 and items[0][0].a[0] is items[1][0].a[0]:
        return lnot(atom(mk("has", items[1][0].a[0], items[1][0].a[1])))
    return atom(mk("lt0", d))


def eqint(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op == "c":
            return ite(x.a[0], eqint(x.a[1], y), eqint(x.a[2], y))
    if a is BOT or b is BOT:
        return False
    d = add(a, b, -1)
    c, m = lin_of(d)
    if not m:
        return c == 0
    items = sorted(m.items(), key=lambda x: x[0].id)
    for t, k in items:
        if t.op == "idx" and t.a[0].op == "range" and t.a[0].a[1].op != "inf" and k in (1, -1):
            n = add(t.a[0].a[1], t.a[0].a[0], -1)
            if scale(d, k) is add(t, n, -1):
                return lnot(atom(mk("has", t.a[0], t.a[1])))     # a position of the range, or its end
    q = math.gcd(*m.values())
    if q > 1:
        return eqint(lin(c // q, {t: k // q for t, k in m.items()}), C(0)) if c % q == 0 else False
    if items[0][1] < 0:
        d = scale(d, -1)
    if c == 0 and len(items) == 1 and items[0][0].op == "len" and items[0][0].a[0].op in ("chars", "rev"):
        if items[0][0].a[0].a[0].op == "split":
            return False
        return eqint(tlen(items[0][0].a[0].a[0]), C(0))      # a text without characters has no bytes
    if c > 0 and all(k > 0 and t.op == "len" for t, k in items) or c < 0 and all(k < 0 and t.op == "len" for t, k in items):
        return False
    if c == 0 and len(items) == 1 and items[0][0].op == "len" and items[0][0].a[0].op == "split":
        return False                         # splitting a text always yields at least one part
    return atom(mk("eq0", d))


def unwrapb(t):
    return t.a[0] if t.op == "bool" else None


def to_g(t):
    """boolean term -> guard"""
    if t.op == "bool":
        return t.a[0]
    if t.op == "c":
        return bool(t.a[0])
    if t is BOT:
        return False
    if t.op == "ite":
        return ite(t.a[0], to_g(t.a[1]), to_g(t.a[2]))
    return atom(t)


def is_boolish(t):
    return t.op == "bool"


# ------------------------------------------------------------------ aggregates, merges
def fld(v, var, name):
    o = v.op
    if o == "agg" or o == "closure":
        names = v.a[2]
        if o == "agg" and var and v.a[1] and v.a[1] != var:
            return BOT
        try:
            return v.a[3 + names.index(name)]
        except ValueError:
            return mk("fld", v, var, name)
    if o == "ite":
        return merge(v.a[0], fld(v.a[1], var, name), fld(v.a[2], var, name))
    if o == "upd":
        for k, x in v.a[1]:
            if k == (var, name):
                return x
        return fld(v.a[0], var, name)
    if o == "bot":
        return BOT
    return mk("fld", v, var, name)


def setfld(v, var, name, x):
    o = v.op
    if o in ("agg", "closure") and name in v.a[2]:
        i = 3 + v.a[2].index(name)
        return mk(o, *(v.a[:i] + (x,) + v.a[i + 1:]))
    if o == "upd":
        d = dict(v.a[1])
        d[(var, name)] = x
        base = v.a[0]
    else:
        d = {(var, name): x}
        base = v
    if d[(var, name)] is fld(base, var, name):
        del d[(var, name)]
    if not d:
        return base
    return mk("upd", base, tuple(sorted(d.items(), key=lambda kv: kv[0])))


def merge(g, a, b):
    """gated merge: a where g, else b"""
    if a is b or g is True:
        return a
    if g is False:
        return b
    if a is BOT:
        return b
    if b is BOT:
        return a
    ao, bo = a.op, b.op
    if ao == "bool" and bo == "bool":
        return B(ite(g, a.a[0], b.a[0]))
    if ao == "bool" or bo == "bool":
        return B(ite(g, to_g(a), to_g(b)))
    if ao in ("agg", "closure") and bo == ao and a.a[:3] == b.a[:3] and len(a.a) == len(b.a):
        return mk(ao, *(a.a[:3] + tuple(merge(g, x, y) for x, y in zip(a.a[3:], b.a[3:]))))
    if ao == "upd" or bo == "upd":
        ba = a.a[0] if ao == "upd" else a
        bb = b.a[0] if bo == "upd" else b
        if ba is bb:
            da = dict(a.a[1]) if ao == "upd" else {}
            db = dict(b.a[1]) if bo == "upd" else {}
            d = {}
            for k in set(da) | set(db):
                x = da[k] if k in da else fld(ba, *k)
                y = db[k] if k in db else fld(ba, *k)
                d[k] = merge(g, x, y)
            d = {k: x for k, x in d.items() if x is not fld(ba, *k)}
            if not d:
                return ba
            return mk("upd", ba, tuple(sorted(d.items(), key=lambda kv: kv[0])))
    if ao == "ref" and bo == "ref" and a.a[:2] == b.a[:2]:
        return a
    if bo == "store" and b.a[0] is a and len(b.a) == 3 and land(g, lnot(eqv(tindex(a, b.a[1]), b.a[2]))) is False:
        return b
    if ao == "store" and a.a[0] is b and len(a.a) == 3 and land(lnot(g), lnot(eqv(tindex(b, a.a[1]), a.a[2]))) is False:
        return a
    if bo == "ite" and b.a[1] is a:
        return merge(lor(g, b.a[0]), a, b.a[2])
    if ao == "ite" and a.a[2] is b:
        return merge(land(g, a.a[0]), a.a[1], b)
    if bo == "ite" and b.a[2] is a:
        return merge(land(lnot(g), b.a[0]), b.a[1], a)
    if ao == "ite" and a.a[1] is b:
        return merge(lor(lnot(g), a.a[0]), b, a.a[2])
    return mk("ite", g, a, b)


def eqv(a, b):
    if b.op == "bool" and isinstance(b.a[0], bool):
        return to_g(a) if b.a[0] else lnot(to_g(a))
    return False


def variants(t, g=True):
    """the leaves of an ite tree with their guards"""
    if t.op == "ite":
        return variants(t.a[1], land(g, t.a[0])) + variants(t.a[2], land(g, lnot(t.a[0])))
    return [(g, t)] if g is not False else []


def is_var(v, var, vs):
    """guard that enum value v is variant `var` (vs: all variant names)"""
    o = v.op
    if o == "agg":
        return v.a[1] == var
    if o == "ite":
        return ite(v.a[0], is_var(v.a[1], var, vs), is_var(v.a[2], var, vs))
    if o == "upd":
        return is_var(v.a[0], var, vs)
    if o == "bot":
        return False
    return atom(v, var, tuple(vs))


def eq_g(a, b):
    """guard of structural equality"""
    if a is b:
        return True
    if a is BOT or b is BOT:
        return False
    if a.op == "ite":
        return ite(a.a[0], eq_g(a.a[1], b), eq_g(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], eq_g(a, b.a[1]), eq_g(a, b.a[2]))
    if a.op == "bool" or b.op == "bool":
        x, y = to_g(a), to_g(b)
        return ite(x, y, lnot(y))
    if a.op == "c" and b.op == "c":
        return a.a[0] == b.a[0]
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return False
        return conj(*[eq_g(x, y) for x, y in zip(a.a[3:], b.a[3:])])
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and y.a[1] and y.a[0] in ENUMS:
            vs = ENUMS[y.a[0]]
            return conj(is_var(x, y.a[1], vs), *[eq_g(fld(x, y.a[1], n), z) for n, z in zip(y.a[2], y.a[3:])])
        if y.op == "c" and isinstance(y.a[0], int):
            return eqint(x, y)
    if a.op in ("lin", "len", "idx") or b.op in ("lin", "len", "idx"):
        return eqint(a, b)
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom(mk("eq", x, y))


ENUMS = {OPT: OPT_VS, RES: RES_VS, CF: CF_VS}


def tlen(v):
    if v.op == "agg" and v.a[0] in ("array", "vec"):
        return C(len(v.a) - 3)
    if v.op == "c" and isinstance(v.a[0], str):
        return C(len(v.a[0].encode()))
    if v.op == "ite":
        return merge(v.a[0], tlen(v.a[1]), tlen(v.a[2]))
    if v.op == "bot":
        return BOT
    if v.op == "repeat":
        return v.a[1]
    if v.op == "slice":
        return add(v.a[2], v.a[1], -1)
    if v.op == "push":
        return add(tlen(v.a[0]), C(1))
    if v.op == "append":
        return add(tlen(v.a[0]), tlen(v.a[1]))
    return mk("len", v)


def tindex(v, i):
    if v.op == "agg" and v.a[0] in ("array", "vec", "tuple") and i.op == "c":
        if 0 <= i.a[0] < len(v.a) - 3:
            return v.a[3 + i.a[0]]
        return BOT
    if v.op == "ite":
        return merge(v.a[0], tindex(v.a[1], i), tindex(v.a[2], i))
    if i.op == "idx" and i.a[0] is v:
        return mk("elem", v, i.a[1])
    if i.op == "first" and i.a[0] == "idx":
        return mk("first", "elem", v, i.a[2])
    if v.op == "store" and v.a[1] is i:
        return v.a[2]
    if i.op in ("lin", "idx"):
        c, m = lin_of(i)
        for t, k in m.items():
            if t.op == "idx" and k == 1 and t.a[0].op == "range":
                s, e = t.a[0].a
                if add(i, t, -1) is s:
                    return mk("elem", mkslice(v, s, e), t.a[1])
    return mk("index", v, i)


def mkslice(v, a, b):
    if a.op == "c" and a.a[0] == 0 and b is tlen(v):
        return v
    if v.op == "slice":
        base, s, _ = v.a
        return mk("slice", base, add(s, a), add(s, b))
    return mk("slice", v, a, b)


def subst(t, fn, memo=None):
    """rebuild a term (and the guards inside it) bottom-up; fn(term) may return a replacement"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = fn(t)
        if r is None:
            r = rebuild(t)
            r2 = fn(r) if r is not t else None
            if r2 is not None:
                r = r2
        memo[t] = r
        return r

    def gg(n):
        return substg(n, go)

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, N):
            return gg(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    def rebuild(t):
        o = t.op
        if o in ("c", "p", "bot"):
            return t
        if o == "fld":
            return fld(go(t.a[0]), t.a[1], t.a[2])
        if o == "ite":
            return merge(gg(t.a[0]), go(t.a[1]), go(t.a[2]))
        if o == "bool":
            return B(gg(t.a[0]) if isinstance(t.a[0], N) else t.a[0])
        if o == "lin":
            r = C(t.a[0])
            for x, k in t.a[1]:
                r = add(r, scale(go(x), k))
            return r
        if o == "mono":
            r = C(1)
            for x in t.a[0]:
                r = mul(r, go(x))
            return r
        if o == "index":
            return tindex(go(t.a[0]), go(t.a[1]))
        if o == "len":
            return tlen(go(t.a[0]))
        return mk(o, *[arg(x) for x in t.a])
    return go(t)


def substg(n, go):
    if isinstance(n, bool):
        return n

    def atomfn(v, val):
        d = DOM[v]
        w = go(v)
        if d == BOOL:
            if v.op in ("lt0", "eq0"):
                x = lt(w.a[0], C(0)) if v.op == "lt0" else eqint(w.a[0], C(0))
            elif v.op == "eq":
                x = eq_g(*w.a) if w.op == "eq" else to_g(w)
            else:
                x = to_g(w)
            return x if val else lnot(x)
        return is_var(w, val, d)

    def setfn(v, vals):
        d = DOM[v]
        w = go(v)
        if w.op in ("agg", "ite", "upd", "bot"):
            return disj(*[is_var(w, x, d) for x in vals])
        d = var_dom(w, d)
        return node(w, tuple(x in vals for x in d))
    return mapvars(n, atomfn, setfn)


def subst_g(n, fn, memo=None):
    memo = {} if memo is None else memo
    return substg(n, lambda t: subst(t, fn, memo))


# ------------------------------------------------------------------ CFG preparation
class Cfg:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b["cu"]:
                continue
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["ts"]] + [t["ow"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            elif k == "other":
                s = [x for x in t["ts"] if not bl[x]["cu"]]
            else:
                s = []
            self.succ[i] = list(dict.fromkeys(s))
        # rpo
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # blocks from which the function can still return
        self.live = set()
        wl = [i for i in self.rpo if bl[i]["t"]["k"] == "return"]
        while wl:
            x = wl.pop()
            if x not in self.live:
                self.live.add(x)
                wl.extend(pred[x])
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.num[x] > self.num[y]:
                            x = idom[x]
                        while self.num[y] > self.num[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True
        self.idom = idom
        # blocks that can reach a return
        ret = set(b for b in self.rpo if bl[b]["t"]["k"] == "return")
        work = list(ret)
        while work:
            b = work.pop()
            for p in pred[b]:
                if p not in ret:
                    ret.add(p)
                    work.append(p)
        self.canret = ret
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b] and self.dominates(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body_:
                            body_.add(x)
                            work.extend(pred[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


class Eff:
    __slots__ = ("kind", "path", "args", "raw", "guard", "loops", "loc", "fn", "seq", "res", "info", "stack")

    def __repr__(self):
        return "#%d %s %s(%s) when %s%s [%s %s]" % (
            self.seq, self.kind, short(self.path), ", ".join(show(a, 6) for a in self.args), show_g(self.guard, 4),
            " loops=%d" % len(self.loops) if self.loops else "", short(self.fn), self.loc.rsplit("/", 1)[-1])


def _srclen(x):
    return add(x.a[1], x.a[0], -1) if x.op == "range" else tlen(x)


_FID = itertools.count()


class Loop:
    alias = {}

    def __init__(self, lid, fn, loc):
        self.id, self.fn, self.loc = lid, fn, loc
        self.init, self.step = {}, {}
        self.source = None
        self.early = []
        self.dead = []                  # conditions under which an iteration leaves for a panic
        self.has = set()

    def __repr__(self):
        return "<loop %s %s>" % (short(self.fn), self.loc)


class Frame:
    __slots__ = ("body", "fid", "cfg", "stack", "path", "tyargs")


IDENT_FIELDS = {"alloc::boxed::Box": "0", "core::ptr::unique::Unique": "pointer", "core::ptr::non_null::NonNull": "pointer",
                "core::mem::manually_drop::ManuallyDrop": "value", "core::mem::maybe_uninit::MaybeUninit": "value",
                "core::mem::maybe_dangling::MaybeDangling": "0"}


def tophi(t):
    """an upper bound of a number that cannot be negative"""
    if t.op == "c":
        return t.a[0] if isinstance(t.a[0], int) else None
    if t.op == "lin":
        r = t.a[0]
        for x, k in t.a[1]:
            if k < 0:
                continue
            h = tophi(x)
            if h is None:
                return None
            r += k * h
        return r
    if t.op in ("cast", "wrap"):
        return {"u8": 255, "u16": 65535, "i8": 127, "i16": 32767}.get(t.a[0])
    if t.op == "bin" and t.a[0] == "Rem" and t.a[2].op == "c":
        return t.a[2].a[0] - 1
    if t.op == "elem" and t.a[0].op in ("bytes", "asbytes"):
        return 255
    if t.op == "ite":
        a, b = tophi(t.a[1]), tophi(t.a[2])
        return None if a is None or b is None else max(a, b)
    return None


def antisym(t):
    """x < y and not x < y + 1 never hold together: no value there, so that the order in which the two are asked does not show"""
    leaves = {}

    def f(x, g):
        if x.op == "ite":
            f(x.a[1], land(g, x.a[0]))
            f(x.a[2], land(g, lnot(x.a[0])))
        else:
            leaves[x] = lor(leaves.get(x, False), g)
    f(t, True)
    by = {}
    for g in leaves.values():
        for v in support(g) if not isinstance(g, bool) else ():
            if v.op == "lt0":
                c, m = lin_of(v.a[0])
                by.setdefault(frozenset(m.items()), set()).add((-c, v))
    ok = True
    for q in by.values():
        q = sorted(q, key=lambda x: x[0])
        for (_, v), (_, w) in zip(q, q[1:]):
            ok = land(ok, lor(lnot(atom(v)), atom(w)))
    if ok is True:
        return t
    r = mk("never")
    for x in sorted(leaves, key=lambda x: show(x)):
        r = merge(land(leaves[x], ok), x, r)
    return r


class VF:
    def __init__(self, F=None, opaque=(), maxdepth=40, noinline=None, redirect=()):
        self.F = F or _facts.load()
        self.opaque = opaque            # set of paths or predicate
        self.noinline = noinline
        self.redirect = dict(redirect)  # name of a function -> body that specifies it
        self.maxdepth = maxdepth
        self.effects = []
        self.loops = {}                 # lid -> Loop
        self.lvinit = {}
        self.iterform = {}
        self.filtloops = set()
        self.mutsrc = {}                # list -> place it was borrowed mutably from, for loops over &mut
        self.fids = {}
        self.loopstack = ()
        self.utag = ()                  # which copy of an unrolled loop body is being run
        self.seq = 0
        self.skips = {}
        self.cfgs = {}
        self.notes = []
        self.constcache = {}
        self.analysed = set()
        self.selfty = None
        for p, a in self.F.adts.items():
            if a["kind"] == "Enum":
                ENUMS.setdefault(p, tuple(v["n"] for v in a["variants"]))
        from . import std, nomlib
        self.std, self.nom = std, nomlib

    # ---------------------------------------------------------------- entry
    def analyse(self, path, args=None):
        body = self.F.bodies.get(path)
        if body is None:
            raise KeyError(path)
        if args is None:
            args = self.default_args(body)
        self.effects, self.loops, self.loopstack = [], {}, ()
        st = {}
        fid = self.fid(None, 0, path)
        r = self.run(body, args, st, True, fid, ())
        self.args = args
        if r is None:
            return BOT, {}
        self.retguard = r[2]
        return r[0], r[1]

    def default_args(self, body):
        nm = {}
        for n, p in body["names"]:
            if not p["p"] and 1 <= p["l"] <= body["argc"]:
                nm.setdefault(p["l"], n)
        return [mk("p", nm.get(i, "arg%d" % i)) for i in range(1, body["argc"] + 1)]

    def fid(self, parent, bb, path):
        k = (parent, bb, path, self.utag)
        f = self.fids.get(k)
        if f is None:
            f = self.fids[k] = next(_FID)
        return f

    def cfg(self, body):
        k = (body["path"], body.get("promoted"))
        c = self.cfgs.get(k)
        if c is None:
            c = self.cfgs[k] = Cfg(body)
        return c

    # ---------------------------------------------------------------- running a body
    def run(self, body, args, st, g, fid, stack):
        fr = Frame()
        fr.body, fr.fid, fr.cfg, fr.path = body, fid, self.cfg(body), body["path"]
        fr.stack = stack + (body["path"],)
        fr.tyargs, self.selfty = self.selfty, None
        self.analysed.add(body["path"])
        for i, a in enumerate(args):
            st[("L", fid, i + 1)] = a
        exits = self.region(fr, set(fr.cfg.rpo), 0, [(g, st)], top=True)
        rets = [(gg, ss) for (tgt, gg, ss) in exits if tgt == "ret"]
        if not rets:
            return None
        gg, ss = self.mergestates(rets)
        val = ss.get(("L", fid, 0), UNIT)
        # values of dead frames: resolve references into this frame's locals
        val = self.escape(val, ss, fid)
        for k in [k for k in ss if k[0] == "L" and k[1] == fid]:
            del ss[k]
        return val, ss, gg

    def escape(self, v, st, fid, d=0):
        """replace references to locals of a finished frame by the values they point to"""
        if d > 12:
            return v
        if v.op == "ref" and v.a[0][0] == "L" and v.a[0][1] == fid:
            return self.escape(self.read(st, v.a[0], v.a[1]), st, fid, d + 1)
        if v.op in ("agg", "closure"):
            return mk(v.op, *(v.a[:3] + tuple(self.escape(x, st, fid, d + 1) for x in v.a[3:])))
        if v.op == "ite":
            return merge(v.a[0], self.escape(v.a[1], st, fid, d + 1), self.escape(v.a[2], st, fid, d + 1))
        return v

    def mergestates(self, ins):
        if len(ins) == 1:
            return ins[0][0], dict(ins[0][1])
        tot = False
        for g, _ in ins:
            tot = lor(tot, g)
        accg, acc = ins[-1]
        acc = dict(acc)
        for g, s in reversed(ins[:-1]):
            both = lor(accg, g)
            c = restrict(g, both)
            new = {}
            for k in s.keys() | acc.keys():
                a, b = s.get(k), acc.get(k)
                if a is b:
                    new[k] = a
                elif a is None:
                    new[k] = merge(c, k[1], b) if k[0] == "H" else b
                elif b is None:
                    new[k] = merge(c, a, k[1]) if k[0] == "H" else a
                else:
                    new[k] = merge(c, a, b)
            acc, accg = new, both
        return tot, acc

    def region(self, fr, blocks, entry, incoming, top=False):
        """executes the acyclic part of a region; returns [(target, guard, state)]; target is a block
        outside the region, 'ret', or ('back',) for edges back to `entry`"""
        cfg = fr.cfg
        pend = {entry: list(incoming)}
        exits = []
        order = [b for b in cfg.rpo if b in blocks]
        inner_done = set()

        def flow(tgt, g, s):
            if g is False:
                return
            if tgt == entry and not top:
                exits.append((("back",), g, s))
            elif tgt in blocks:
                pend.setdefault(tgt, []).append((g, s))
            else:
                exits.append((tgt, g, s))

        for b in order:
            if b in inner_done or b not in pend:
                continue
            g, s = self.mergestates(pend.pop(b))
            if g is False:
                continue
            if b in cfg.loops and not (b == entry and not top):
                inner_done |= cfg.loops[b]
                for tgt, gg, ss in self.loop(fr, b, g, s):
                    if tgt == "ret":
                        exits.append((tgt, gg, ss))
                    else:
                        flow(tgt, gg, ss)
                continue
            if fr.body["blocks"][b]["t"]["k"] == "return":
                self.stmts(fr, b, s, g)
                exits.append(("ret", g, s))
                continue
            for tgt, gg, ss in self.block(fr, b, g, s):
                flow(tgt, gg, ss)
        return exits

    # ---------------------------------------------------------------- loops
    def loop(self, fr, header, g, s):
        cfg = fr.cfg
        lid = (fr.fid, (header, self.utag) if self.utag else header)
        body = cfg.loops[header]
        changed = {}
        alias = {}
        L = None
        outer = self.loopstack
        known = set(self.loops)
        for it in range(12):
            st = dict(s)
            L = Loop(lid, fr.path, fr.body["blocks"][header]["t"]["s"])
            L.entry_guard = g
            L.alias = alias
            for (root, path), _ in changed.items():
                init = self.read(s, root, path)
                if init.op == "ite" and not is_boolish(init):
                    vs = {x for gg, x in variants(init) if land(gg, g) is not False}
                    if len(vs) == 1:
                        init = vs.pop()
                lv = mk("lv", lid, root, path)
                if (root, path) in alias:
                    lv2 = alias[(root, path)]
                else:
                    lv2 = lv
                self.lvinit[lv] = init
                L.init[(root, path)] = init
                st[root] = self.update(st.get(root, root[1] if root[0] == "H" else BOT), path, lv2)
            n0, q0 = len(self.effects), self.seq
            self.loopstack = outer + (lid,)
            self.loops[lid] = L
            self.skips[lid] = []
            exits = self.region(fr, body, header, [(g, st)])
            self.loopstack = outer
            backs = [(gg, ss) for (t, gg, ss) in exits if t == ("back",)] + self.skips[lid]
            new = {}
            if backs:
                bg, bs = self.mergestates(backs)
                for root in list(s.keys() | {k for k in bs if k[0] == "H"}):
                    a = st.get(root, root[1] if root[0] == "H" else None)
                    b = bs.get(root, root[1] if root[0] == "H" else None)
                    if a is None or b is None or a is b:
                        continue
                    if root[0] == "H" and per_iter(root[1], lid):
                        continue            # a different object in every iteration
                    self.diff(root, (), a, b, new)
            fresh = {k for k in new if k not in changed and not any(
                k[0] == c[0] and k[1][:len(c[1])] == c[1] for c in changed)}
            if not fresh:
                if backs:
                    for k in changed:
                        L.step[k] = self.read(bs, k[0], k[1])
                    L.backguard = restrict(bg, g)
                # counted loops over 0..len(X) written by hand
                if not alias and backs and self.skips[lid] and lid not in self.filtloops and self.counted(L, exits, changed):
                    self.filtloops.add(lid)
                    changed = {}
                    del self.effects[n0:]
                    self.seq = q0
                    continue
                if not alias and backs:
                    al = self.induction(L, exits, changed)
                    if al:
                        alias = al
                        del self.effects[n0:]
                        self.seq = q0
                        continue
                break
            # iterators first: elements seen before the iterator is known to be loop-carried are artefacts
            its = {k for k in fresh if self.std.is_iter_value(self, self.read(s, k[0], k[1]))}
            if its and not changed:
                fresh = its
                r = self.unroll(fr, header, g, s, its, n0, q0, known)
                if r is not None:
                    return r
            # keep the outermost changed paths only
            for k in fresh:
                for c in [c for c in changed if c[0] == k[0] and c[1][:len(k[1])] == k[1]]:
                    del changed[c]
                changed[k] = True
            del self.effects[n0:]
            self.seq = q0
        else:
            self.notes.append("loop did not stabilise: %s %s" % (fr.path, L.loc))
        out = self.loop_exits(fr, header, L, g, [e for e in exits if e[0] != ("back",)])
        if backs:
            for root, x in bs.items():
                if root[0] == "H" and root[1].op == "fld" and root[1].a[1:] == ("", "1") and root[1].a[0].op == "elem" and root[1].a[0].a[-1] == lid and x is not root[1] and root[1].a[0].a[0] in self.mutsrc:
                    # the value of each entry of a map
                    el = root[1].a[0]
                    new = mk("mapped", el.a[0], mk("agg", "tuple", "", ("0", "1"), fld(el, "", "0"), x))
                    for tgt, gg, ss in out:
                        self.std.setref(self, ss, self.mutsrc[el.a[0]], new)
                    continue
                if root[0] != "H" or root[1].op != "elem" or root[1].a[-1] != lid or x is root[1] or root[1].a[0] not in self.mutsrc:
                    continue
                X = root[1].a[0]
                if any(t.op == "after" for t in subterms(x)):
                    continue                # written by a call, which is reported as such
                if L.early or per_iter(x, lid):
                    new = mk("mapped", X, x)
                else:
                    new = mk("repeat", x, tlen(X))
                for tgt, gg, ss in out:
                    self.std.setref(self, ss, self.mutsrc[X], new)
        return out

    def unroll(self, fr, header, g, s, its, n0, q0, known, most=8):
        """a loop over a few elements known by position runs as that many copies of its body"""
        n = None
        for k in its:
            it = self.read(s, k[0], k[1])
            it = self.std.mkiter(it) if it.op != "adv" else it
            off = 0
            if it.op == "adv":
                it, off = it.a
            if it.op == "lv" or it.op in ("ifilter", "ifmap", "iflat", "iopaque", "adv"):
                continue
            for j in range(most + 1):
                h = self.std.at(it, C(off + j))[0]
                if h is False:
                    n = j if n is None else min(n, j)
                    break
                if h is not True:
                    break
        if n is None:
            return None
        body = fr.cfg.loops[header]
        tag0 = self.utag
        del self.effects[n0:]
        self.seq = q0
        for k in [k for k in self.loops if k not in known]:
            del self.loops[k]
        cur, out, ok = [(g, dict(s))], [], False
        for j in range(n + 1):
            self.utag = tag0 + ((fr.fid, header, j),)
            exits = self.region(fr, body, header, cur)
            out += [e for e in exits if e[0] != ("back",)]
            backs = [(gg, ss) for (t, gg, ss) in exits if t == ("back",) and gg is not False]
            if not backs:
                ok = True
                break
            bg, bs = self.mergestates(backs)
            if bg is False:
                ok = True
                break
            cur = [(bg, bs)]
        self.utag = tag0
        if not ok:
            del self.effects[n0:]
            self.seq = q0
            return None
        return out

    def counted(self, L, exits, changed):
        """the loop ends when enough elements have been kept: its source is best seen as the elements kept"""
        for k in changed:
            lv = mk("lv", L.id, *k)
            init, step = L.init.get(k), L.step.get(k)
            if init is None or step is None or step.op != "ite" or {step.a[1], step.a[2]} - {add(lv, C(1)), add(lv, C(-1))} != {lv}:
                continue
            for tgt, gg, ss in exits:
                if tgt != ("back",) and not isinstance(gg, bool) and any(v.op in ("lt0", "eq0") and lin_of(v.a[0])[1] in ({lv: 1}, {lv: -1}) for v in support(gg)) \
                        and not any(v.op == "has" and v.a[-1] == L.id for v in support(gg)):
                    return True
        return False

    def induction(self, L, exits, changed):
        al = {}
        for (root, path) in changed:
            lv = mk("lv", L.id, root, path)
            init, step = L.init.get((root, path)), L.step.get((root, path))
            if init is None or step is None or init.op in ("agg", "bool", "ref") or init is BOT:
                continue
            if step is add(lv, C(-1)) and init.op in ("c", "len", "p") and not isinstance(L.backguard, bool):
                # counted down to zero
                zero, pos = eqint(lv, C(0)), lt(C(0), lv)
                at = [v for tgt, gg, ss in exits if tgt != ("back",) and not isinstance(gg, bool) for v in support(gg)]
                if (init.op != "c" or init.a[0] >= 0) and (
                        any(atom(v) is zero for v in at if v.op == "eq0") and land(L.backguard, zero) is False
                        or any(pos in (atom(v), lnot(atom(v))) for v in at if v.op == "lt0") and land(L.backguard, lnot(pos)) is False):
                    al[(root, path)] = add(init, mk("idx", mk("range", C(0), init), L.id), -1)
                    continue
            if step is not add(lv, C(1)):
                continue
            kept = L.id in self.filtloops or any(x.op == "adv" and x.a[0].op == "ifs" for x in L.init.values())
            for tgt, gg, ss in exits if kept else ():
                for v in support(gg) if tgt != ("back",) else ():
                    if v.op in ("lt0", "eq0") and init is C(0) and not isinstance(L.backguard, bool):
                        c, m = lin_of(v.a[0])
                        if m == {lv: 1} and -c >= 0 and land(L.backguard, atom(v) if v.op == "eq0" else lnot(atom(v))) is False:
                            al[(root, path)] = mk("idx", mk("range", init, C(-c)), L.id)
                            L.source = mk("range", init, C(-c))
            if (root, path) in al:
                continue
            # a counter running next to an iterator that yields every element
            for k2 in changed:
                it, s2 = L.init.get(k2), L.step.get(k2)
                if it is not None and s2 is not None and s2.op == "adv" and s2.a[0] is mk("lv", L.id, *k2) and self.std.plain_iter(it) \
                        and self.iterform.get(s2.a[0], (0, it))[1].op != "ifs":
                    al[(root, path)] = add(init, mk("idx", self.std.plain_iter(it), L.id))
            if (root, path) in al:
                continue
            for tgt, gg, ss in exits:
                if tgt == ("back",):
                    continue
                for v in support(gg):
                    if v.op == "eq0" and init.op == "c" and not isinstance(L.backguard, bool):
                        c, m = lin_of(v.a[0])
                        if m == {lv: 1} and -c >= init.a[0] and land(L.backguard, atom(v)) is False:
                            al[(root, path)] = add(init, mk("idx", mk("range", init, C(-c)), L.id))
                            L.source = mk("range", init, C(-c))
                    if v.op != "lt0":
                        continue
                    c, m = lin_of(v.a[0])
                    # lv - e < 0   or   e - lv - 1 < 0 (its negation)
                    if m.get(lv) == 1 or m.get(lv) == -1 and c <= -1:
                        e = add(v.a[0], lv, -m[lv])
                        e = scale(e, -1) if m[lv] == 1 else add(e, C(1))
                        if contains(e, lambda x: x.op == "lv" and x.a[0] == L.id):
                            continue
                        if init is C(0) and e.op == "len":
                            al[(root, path)] = mk("idx", e.a[0], L.id)
                            L.source = e.a[0]
                        elif e.op in ("len", "p", "lin", "fld", "c"):
                            src = mk("range", init, e)
                            al[(root, path)] = add(init, mk("idx", src, L.id))
                            L.source = src
        return al

    def loop_exits(self, fr, header, L, g, exits):
        if not exits:
            return []
        cfg = fr.cfg
        L.has = {v for e in exits if not isinstance(e[1], bool) for v in support(e[1]) if v.op == "has" and v.a[-1] == L.id}

        hs = sorted(L.has, key=lambda h: h.id)
        L.ordered = None                                 # the order in which an iteration asks its sources
        for p in itertools.permutations(hs) if len(hs) < 4 else (hs,):
            if all(self.inorder(p, e[1]) for e in exits):
                L.ordered = p
                break

        def strip(gg):
            r = restrict(gg, g)
            return exists_has(r, L.id)
        if len(exits) == 1:
            tgt, gg, ss = exits[0]
            return [(tgt, g, self.lockstep(L, restrict(gg, g), ss))]
        # natural exit: the exits whose guard (relative to entry) says the source is exhausted
        early, natural = [], []
        for e in exits:
            r = restrict(e[1], g)
            if implies_not_has(r, L.id):
                natural.append(e)
            else:
                early.append(e)
        if not natural:
            # `while cond`-style: the exit leaving from the block nearest the header
            natural = [early.pop(0)]
        out = []
        anyex = False
        for tgt, gg, ss in early:
            c = strip(gg)
            ex = mkex(L.id, c)
            if not isinstance(tgt, int) or tgt in cfg.live:
                L.early.append((tgt, c, ss))
            else:
                L.dead.append(c)
            ss = self.at_exit(L, ss)
            out.append((tgt, land(g, ex), ss))
            anyex = lor(anyex, ex)
        for i, (tgt, gg, ss) in enumerate(natural):
            for (root, path), al in L.alias.items():
                if root in ss and self.read(ss, root, path) is al:
                    ss = dict(ss)
                    end = self.ended(L, restrict(gg, g))[0] if len(L.has) > 1 else ()
                    n = _srclen(end[0].a[0]) if len(end) == 1 else None      # the rounds made: as many as the source that ended had elements
                    if len(L.has) > 1 and n is None:
                        n = mk("rounds", L.id, i)
                    self.write(ss, root, path, subst(al, lambda t: (_srclen(t.a[0]) if n is None else n) if t.op == "idx" and t.a[1] == L.id else None))
            ng = land(g, lnot(anyex))
            if len(natural) > 1:
                ng = land(ng, strip_ng(self.together(L, restrict(gg, g)), L.id))
            ss = self.lockstep(L, restrict(gg, g), ss)
            out.append((tgt, ng, ss))
        return out

    def ended(self, L, r):
        """(sources exhausted, sources not exhausted, sources not looked at) where the loop is left under r"""
        if isinstance(r, bool):
            return (), (), ()
        end = [h for h in L.has if land(r, atom(h)) is False]
        more = [h for h in L.has if h not in end and land(r, lnot(atom(h))) is False]
        return end, more, [h for h in L.has if h not in end and h not in more]

    def inorder(self, hs, g):
        for i, h in enumerate(hs):
            if isinstance(g, bool):
                break
            r = cofactor(g, h, False)
            if not isinstance(r, bool) and any(x in support(r) for x in hs[i + 1:]):
                return False
            g = cofactor(g, h, True)
        return True

    def together(self, L, x):
        """several sources advance together: after the loop, those that have elements left are the longer ones"""
        if len(L.has) < 2 or isinstance(x, bool):
            return x
        hs = L.ordered or sorted(L.has, key=lambda h: h.id)
        new = {h: B(disj(*[lt(_srclen(o.a[0]), _srclen(h.a[0])) for o in (hs[i + 1:] if L.ordered else hs) if o is not h])) for i, h in enumerate(hs)}
        f = lambda t: new.get(t)
        return subst(x, f) if isinstance(x, T) else subst_g(x, f)

    def lockstep(self, L, r, ss):
        """the other iterators have been advanced as often as the one that ended the loop"""
        if len(L.has) < 2:
            return ss
        ss = {k: self.together(L, v) if isinstance(v, T) else v for k, v in ss.items()}
        end, _, _ = self.ended(L, r)
        for k in L.init:
            lv = mk("lv", L.id, *k)
            it = self.iterform.get(lv)
            if it is not None and it[0] in end and it[1].op in ("adv", "ifs", "iter") and L.step.get(k) is mk("adv", lv, 1) and k[0] in ss \
                    and self.read(ss, *k) in (lv, mk("adv", lv, 1)):
                ss = dict(ss)
                self.write(ss, k[0], k[1], mk("iter", self.std.EMPTYVEC))     # nothing is left of it
        n = _srclen(end[0].a[0]) if len(end) == 1 else None
        if n is None or n.op != "c":
            return ss
        for k, init in L.init.items():
            lv = mk("lv", L.id, *k)
            it = self.iterform.get(lv)
            if it is None or L.step.get(k) is not mk("adv", lv, 1) or k[0] not in ss or self.read(ss, *k) not in (lv, mk("adv", lv, 1)):
                continue
            h, form = it
            if h is end[0] or form.op == "adv" and form.a[0].op not in ("ifs", "iter") or form.op not in ("adv", "ifs", "iter"):
                continue
            ss = dict(ss)
            self.write(ss, k[0], k[1], mk("adv", form.a[0], form.a[1] + n.a[0]) if form.op == "adv" else mk("adv", form, n.a[0]))
        return ss

    def at_exit(self, L, ss):
        """state where the loop is left early: what was accumulated so far is not the result of the whole loop"""
        lvs = {mk("lv", L.id, *k) for k, init in L.init.items() if not self.std.is_iter_value(self, init)}
        if not lvs:
            return ss
        f = lambda t: mk("lve", *t.a) if t.op == "lv" and t in lvs else t if t.op == "ex" else None
        memo = {}
        out = {}
        for k, v in ss.items():
            out[k] = subst(v, f, memo) if isinstance(v, T) else v
        return out

    def diff(self, root, path, a, b, out):
        if a is b:
            return
        if a.op in ("agg", "closure") and b.op == a.op and a.a[:3] == b.a[:3] and len(a.a) == len(b.a) \
                and a.a[0] not in ("array", "vec") and a.a[0] != "core::ops::range::Range":
            for n, x, y in zip(a.a[2], a.a[3:], b.a[3:]):
                self.diff(root, path + ((a.a[1] if a.op == "agg" else "", n),), x, y, out)
            return
        if (a.op == "upd" or b.op == "upd") and path is not None:
            ba = a.a[0] if a.op == "upd" else a
            bb = b.a[0] if b.op == "upd" else b
            if ba is bb:
                da = dict(a.a[1]) if a.op == "upd" else {}
                db = dict(b.a[1]) if b.op == "upd" else {}
                for k in set(da) | set(db):
                    self.diff(root, path + (k,), da[k] if k in da else fld(ba, *k), db[k] if k in db else fld(ba, *k), out)
                return
        out[(root, path)] = True

    # ---------------------------------------------------------------- memory
    def read(self, st, root, projs):
        v = st.get(root)
        if v is None:
            v = self.deref_default(st, root[1]) if root[0] == "H" else BOT
        for p in projs:
            v = self.getp(st, v, p)
        return v

    def deref_default(self, st, t):
        if t.op == "ref":
            return self.read(st, t.a[0], t.a[1])
        if t.op == "ite":
            return merge(t.a[0], self.deref_default(st, t.a[1]), self.deref_default(st, t.a[2]))
        return t

    def getp(self, st, v, p):
        k = p[0]
        if k == "i#":
            return tindex(self.val(st, v), p[1])
        if k == "ie#":
            v = self.val(st, v)
            n = tlen(v)
            return tindex(v, add(n, C(p[1]), -1))
        if k == "s#":
            return mkslice(self.val(st, v), C(p[1]), add(tlen(self.val(st, v)), C(p[2]), -1) if p[3] else C(p[2]))
        if v.op == "ref":
            v = self.val(st, v)
        return fld(v, p[0], p[1])

    def update(self, v, projs, x):
        if not projs:
            return x
        p = projs[0]
        if p[0] in ("i#", "ie#", "s#"):
            if p[0] == "i#" and v.op == "agg" and v.a[0] in ("array", "vec") and p[1].op == "c" and 0 <= p[1].a[0] < len(v.a) - 3:
                i = 3 + p[1].a[0]
                return mk("agg", *(v.a[:i] + (self.update(v.a[i], projs[1:], x),) + v.a[i + 1:]))
            idx = p[1] if isinstance(p[1], T) else C(p[1])
            return mk("store", v, idx, self.update(tindex(v, idx), projs[1:], x))
        return setfld(v, p[0], p[1], self.update(fld(v, p[0], p[1]), projs[1:], x))

    def write(self, st, root, projs, x):
        if not projs:
            st[root] = x
            return
        old = st.get(root)
        if old is None:
            old = self.deref_default(st, root[1]) if root[0] == "H" else BOT
        if old is BOT:
            old = mk("uninit")
        st[root] = self.update(old, projs, x)

    def val(self, st, v, d=0):
        """value with references (to known places) resolved"""
        while v.op == "ref" and d < 30:
            v = self.read(st, v.a[0], v.a[1])
            d += 1
        if v.op == "ite" and (v.a[1].op in ("ref", "ite") or v.a[2].op in ("ref", "ite")) and d < 30:
            return merge(v.a[0], self.val(st, v.a[1], d + 1), self.val(st, v.a[2], d + 1))
        if ("H", v) in st:
            return st[("H", v)]
        return v

    def deepval(self, st, v, d=0):
        v = self.val(st, v)
        if v.op in ("agg",) and d < 8:
            if any(x.op in ("ref", "agg", "ite") for x in v.a[3:]):
                return mk(v.op, *(v.a[:3] + tuple(self.deepval(st, x, d + 1) for x in v.a[3:])))
        if v.op == "closure" and d < 3:
            return mk(v.op, *(v.a[:3] + tuple(self.deepval(st, x, d + 1) for x in v.a[3:])))
        if v.op == "ite" and d < 8:
            return merge(v.a[0], self.deepval(st, v.a[1], d + 1), self.deepval(st, v.a[2], d + 1))
        return v

    def place(self, fr, pj, st):
        root, projs = ("L", fr.fid, pj["l"]), ()
        var = ""
        for e in pj["p"]:
            k = e["k"]
            if k == "deref":
                v = self.read(st, root, projs)
                if v.op == "ref":
                    root, projs = v.a[0], v.a[1]
                else:
                    root, projs = ("H", v), ()
                var = ""
            elif k == "field":
                adt = e.get("adt")
                if adt and IDENT_FIELDS.get(norm(adt)) == e["n"]:
                    continue
                projs = projs + ((var, e["n"]),)
                var = ""
            elif k == "downcast":
                var = e["n"]
            elif k == "index":
                projs = projs + (("i#", self.val(st, st.get(("L", fr.fid, e["l"]), BOT))),)
            elif k == "cindex":
                projs = projs + ((("ie#", e["o"]) if e["from_end"] else ("i#", C(e["o"]))),)
            elif k == "subslice":
                projs = projs + (("s#", e["from"], e["to"], e["from_end"]),)
        return root, projs

    # ---------------------------------------------------------------- operands
    def const(self, fr, o, st, g):
        ty = o["ty"]
        if "fn" in o:
            f = o["fn"]
            return mk("fn", f["path"], f.get("res") if f.get("rk") == "item" else None, tuple(f.get("args", ())))
        if "closure" in o and "v" in o and o["v"] == "()":
            return mk("closure", o["closure"], "", ())
        if "static" in o:
            return self.static(fr, o["static"], st, g)
        if "v" in o and o["v"] is not None:
            c = self.cval(o["v"], ty)
            if c is not None:
                return c
        if "promoted" in o:
            k = (o["promoted_of"], o["promoted"])
            if k in self.constcache:
                return self.constcache[k]
            b = self.F.promoted.get(k)
            if b is not None:
                fid = self.fid("promoted", o["promoted"], o["promoted_of"])
                n0, q0 = len(self.effects), self.seq
                r = self.run(b, [], {}, True, fid, ())
                del self.effects[n0:]
                self.seq = q0
                if r is not None:
                    self.constcache[k] = r[0]
                    return r[0]
        if "item" in o and o["item"] in self.F.bodies:
            k = ("item", o["item"])
            if k in self.constcache:
                return self.constcache[k]
            fid = self.fid("const", 0, o["item"])
            n0, q0 = len(self.effects), self.seq
            r = self.run(self.F.bodies[o["item"]], [], {}, True, fid, ())
            del self.effects[n0:]
            self.seq = q0
            if r is not None:
                self.constcache[k] = r[0]
                return r[0]
        if "item" in o:
            return mk("const", o["item"])
        return mk("const", "?" + ty)

    def static(self, fr, path, st, g):
        """the value of a static that never changes; otherwise its name"""
        a, body = self.F.statics.get(path), self.F.bodies.get(path)
        plain = a and not a["mut"] and not a["tls"] and (a["freeze"] or a["ty"] == "metrics::key::Key") \
            and a["ty"] != path and not a["ty"].startswith("metrics::metadata::")
        if not plain or body is None or path in fr.stack:
            return mk("static", path.split("#")[0])
        r = self.run(body, [], dict(st), g, self.fid(fr.fid, ("static", path), path), fr.stack)
        return r[0] if r is not None else mk("static", path.split("#")[0])

    def cval(self, v, ty):
        if ty == "bool":
            return TRUE if v else FALSE
        if v == "()":
            if ty == "()":
                return UNIT
            if not ty.startswith("&"):
                p = norm(strip_lt(ty))
                if p in self.F.ctors:
                    return mk("agg", p, "", ())
                return mk("zst", ty)
        if isinstance(v, bool):
            return C(int(v))
        if isinstance(v, int):
            t = norm(strip_lt(ty)).replace("&", "").strip()
            if t in self.F.adts:
                return None
            if t in ("f64", "f32"):
                return mk("c", ("f", v))
            return C(v)
        if isinstance(v, str):
            return C(v)
        if isinstance(v, list):
            xs = [self.cval(x, self.elemty(ty)) if x is not None else None for x in v]
            if any(x is None for x in xs):
                return None
            t = re.sub(r"^&(\s*'\w+)?\s*(mut )?", "", ty).strip()
            return mk("agg", "tuple" if t.startswith("(") else "array", "", tuple(str(i) for i in range(len(xs))), *xs)
        return None

    def elemty(self, ty):
        m = re.match(r"^&(?:'\w+ )?\[(.*?)(; .*)?\]$", ty) or re.match(r"^\[(.*?)(; .*)?\]$", ty)
        return m.group(1) if m else "?"

    def operand(self, fr, o, st, g):
        if o["k"] in ("copy", "move"):
            root, projs = self.place(fr, o["p"], st)
            return self.read(st, root, projs)
        if o["k"] == "const":
            return self.const(fr, o, st, g)
        return mk("other")

    def optype(self, fr, o):
        if o["k"] in ("copy", "move"):
            if not o["p"]["p"]:
                return fr.body["locals"][o["p"]["l"]]
            return ""
        return o.get("ty", "")

    # ---------------------------------------------------------------- statements
    def stmts(self, fr, b, st, g):
        for s in fr.body["blocks"][b]["st"]:
            if "dead" in s:
                continue
            if "setdiscr" in s:
                continue
            root, projs = self.place(fr, s["d"], st)
            v = self.rvalue(fr, s["r"], st, g)
            self.write(st, root, projs, v)

    def rvalue(self, fr, r, st, g):
        k = r["k"]
        if k == "use":
            return self.operand(fr, r["o"], st, g)
        if k == "ref":
            root, projs = self.place(fr, r["p"], st)
            if root[0] == "H" and not projs:
                return root[1]              # reborrow of an opaque pointer
            return mk("ref", root, projs, bool(r["mut"]))
        if k == "repeat":
            v = self.operand(fr, r["o"], st, g)
            try:
                n = int(r["n"].split("_")[0])
                if n <= 64:
                    return mk("agg", "array", "", tuple(str(i) for i in range(n)), *([v] * n))
                return mk("repeat", v, C(n))
            except ValueError:
                return mk("repeat", v, mk("const", r["n"]))
        if k == "bin":
            a = self.val(st, self.operand(fr, r["a"], st, g))
            b = self.val(st, self.operand(fr, r["b"], st, g))
            return self.binop(r["op"], a, b, self.optype(fr, r["a"]) or self.optype(fr, r["b"]))
        if k == "un":
            a = self.val(st, self.operand(fr, r["a"], st, g))
            if r["op"] == "Not":
                if a.op in ("bool",) or self.optype(fr, r["a"]) == "bool":
                    return B(lnot(to_g(a)))
                return mk("bin", "Not", a, UNIT)
            if r["op"] == "Neg":
                return scale(a, -1) if a.op != "c" or isinstance(a.a[0], int) else mk("neg", a)
            if r["op"] == "PtrMetadata":
                return tlen(a)
            return mk("un", r["op"], a)
        if k == "discr":
            root, projs = self.place(fr, r["p"], st)
            v = self.val(st, self.read(st, root, projs))
            vs = tuple((x[0], x[1]) for x in r["vs"])
            adt = norm(re.sub(r"<.*", "", strip_lt(r["ty"])))
            if vs:
                ENUMS.setdefault(adt, tuple(n for _, n in vs))
            return mk("discr", v, vs)
        if k == "agg":
            ops = [self.operand(fr, o, st, g) for o in r["ops"]]
            if "adt" in r:
                return mk("agg", r["adt"], r["variant"], tuple(r["names"][:len(ops)]), *ops)
            if "tuple" in r:
                return tup(*ops)
            if "array" in r:
                return mk("agg", "array", "", tuple(str(i) for i in range(len(ops))), *ops)
            if "closure" in r:
                return mk("closure", r["closure"], "", tuple(r["names"][:len(ops)]), *ops)
            return mk("aggother", *ops)
        if k == "cast":
            v = self.operand(fr, r["o"], st, g)
            ck = r["ck"]
            if ck.startswith("IntToInt"):
                v = self.val(st, v)
                return self.castint(v, r["from"], r["ty"])
            if ck.startswith("IntToFloat") or ck.startswith("FloatTo"):
                return mk("cast", r["ty"], self.val(st, v))
            if "WithExposedProvenance" in ck and v.op == "cast" and v.a[0] in ("usize", "isize", "u64", "i64"):
                return v.a[1]                     # an address, whatever integer type held it
            return v
        return mk("other")

    W = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "usize": (64, 0), "u128": (128, 0),
         "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "isize": (64, 1), "char": (21, 0), "bool": (1, 0)}

    def castint(self, v, frm, to):
        if v.op == "bool":
            return merge(v.a[0], C(1), C(0))
        if v.op == "discr" or v.op == "call" and v.a[0].endswith("::into_raw") and to in ("usize", "isize", "u64", "i64"):
            return v
        f, t = self.W.get(frm), self.W.get(to)
        if v.op == "c" and t and isinstance(v.a[0], int):
            x = v.a[0] & ((1 << t[0]) - 1) if to != "char" else v.a[0]
            if t[1] and x >> (t[0] - 1):
                x -= 1 << t[0]
            return C(x)
        if f and t and ((t[0] > f[0] and not (f[1] and not t[1])) or (t[0] == f[0] and f[1] == t[1]) or (t[0] > f[0] and not f[1])):
            return v
        if f and t and to != "char" and t[0] >= 32:
            if f[0] <= 32 and not (f[1] and not t[1]):
                return v                          # u32 as i32: the same number for everything below 2^31
            if v.op == "lin":
                # truncation is compatible with sums
                return lin(v.a[0], {self.castint(x, frm, to): k for x, k in v.a[1]})
        return mk("cast", to, v)

    def narrow(self, r, ty):
        """a sum or product in 8 or 16 bits that may leave the type's range is not the mathematical one"""
        if ty not in ("u8", "u16", "i8", "i16"):
            return r
        h = tophi(r)
        w, s = self.W[ty]
        return r if h is not None and h < 1 << (w - s) else mk("wrap", ty, r)

    def binop(self, op, a, b, ty):
        if a is BOT or b is BOT:
            return BOT
        ovf = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        isbool = ty == "bool" or a.op == "bool" or b.op == "bool"
        if op in ("Add", "Sub"):
            r = add(a, b, 1 if op == "Add" else -1)
            r = self.narrow(r, ty)
        elif op == "Mul":
            r = self.narrow(mul(a, b), ty)
        elif op in ("Lt", "Gt", "Le", "Ge") and not isbool:
            if op == "Lt":
                return B(lt(a, b))
            if op == "Gt":
                return B(lt(b, a))
            if op == "Le":
                return B(lnot(lt(b, a)))
            return B(lnot(lt(a, b)))
        elif op in ("Eq", "Ne"):
            e = eq_g(a, b)
            return B(e if op == "Eq" else lnot(e))
        elif isbool and op in ("BitAnd", "BitOr", "BitXor"):
            x, y = to_g(a), to_g(b)
            return B(land(x, y) if op == "BitAnd" else lor(x, y) if op == "BitOr" else ite(x, lnot(y), y))
        else:
            if a.op == "c" and b.op == "c" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
                x, y = a.a[0], b.a[0]
                try:
                    if op == "Div":
                        return C(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
                    if op == "Rem":
                        return C(abs(x) % abs(y) * (1 if x >= 0 else -1))
                    if op == "Shl":
                        r = C(x << y)
                        return tup(r, FALSE) if ovf else r
                    if op == "Shr":
                        return C(x >> y)
                    if op == "BitAnd":
                        return C(x & y)
                    if op == "BitOr":
                        return C(x | y)
                except ZeroDivisionError:
                    pass
            if op == "Div" and b.op == "c" and isinstance(b.a[0], int) and b.a[0] > 1 and a.op == "lin":
                # (k*x + r) / k = x + r/k: the coefficients left inside are between 0 and k-1
                k = b.a[0]
                c, m = lin_of(a)
                out = lin(c // k, {t: n // k for t, n in m.items() if n // k})
                rest = lin(c % k, {t: n % k for t, n in m.items() if n % k})
                if any(n % k != n for n in m.values()) or c % k != c:
                    d = C(rest.a[0] // k) if rest.op == "c" else mk("bin", op, rest, b)
                    return tup(add(out, d), FALSE) if ovf else add(out, d)
            r = mk("bin", op, a, b)
        return tup(r, FALSE) if ovf else r

    # ---------------------------------------------------------------- terminators
    def emit(self, fr, kind, path, args, raw, g, loc, res=None, info=None):
        e = Eff()
        e.kind, e.path, e.args, e.raw, e.guard, e.loc, e.res, e.info = kind, path, args, raw, g, loc, res, info
        e.loops, e.fn, e.seq, e.stack = self.loopstack, fr.path, self.seq, fr.stack
        self.seq += 1
        self.effects.append(e)
        return e

    def block(self, fr, b, g, st):
        self.stmts(fr, b, st, g)
        t = fr.body["blocks"][b]["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], g, st)]
        if k == "switch":
            return self.switch(fr, t, g, st)
        if k == "drop":
            root, projs = self.place(fr, t["p"], st)
            v = self.read(st, root, projs)
            if v is not BOT:
                self.emit(fr, "drop", t["pty"], [v], [v], g, t["s"])
            return [(t["t"], g, st)]
        if k == "assert":
            ops = [x if isinstance(x, str) else self.val(st, self.operand(fr, x, st, g)) for x in t["mo"]]
            self.emit(fr, "assert", ops[0], ops[1:], ops[1:], g, t["s"],
                      info=(to_g(self.val(st, self.operand(fr, t["o"], st, g))), t["e"]))
            return [(t["t"], g, st)]
        if k == "call":
            return self.call(fr, b, t, g, st)
        if k == "unreachable":
            return []
        if k == "other":
            return [(x, g, st) for x in t["ts"] if not fr.body["blocks"][x]["cu"]]
        return []

    def switch(self, fr, t, g, st):
        v = self.val(st, self.operand(fr, t["o"], st, g))
        conds = []
        if v.op == "discr":
            x, vs = v.a
            names = [n for _, n in vs]
            d = dict(vs)
            rest = True
            for val, tgt in t["ts"]:
                c = is_var(x, d[val], names) if val in d else False
                conds.append((c, tgt))
                rest = land(rest, lnot(c))
            conds.append((rest, t["ow"]))
        elif t["ty"] == "bool":
            c = to_g(v)
            used = False
            for val, tgt in t["ts"]:
                cc = c if val else lnot(c)
                conds.append((cc, tgt))
                used = lor(used, cc)
            conds.append((lnot(used), t["ow"]))
        else:
            rest = True
            for val, tgt in t["ts"]:
                c = eqint(v, C(val)) if v.op != "bool" else (to_g(v) if val else lnot(to_g(v)))
                c = land(c, rest) if c is not True else rest
                conds.append((c, tgt))
                rest = land(rest, lnot(c))
            conds.append((rest, t["ow"]))
        live = [(c, tgt) for c, tgt in conds if land(g, c) is not False]
        nd = [(c, tgt) for c, tgt in live if tgt in fr.cfg.canret]
        dv = [(c, tgt) for c, tgt in live if tgt not in fr.cfg.canret]
        out = []
        for c, tgt in dv:
            out.append((tgt, land(g, c), dict(st)))
        if dv and nd and any(fr.body["blocks"][tgt]["t"]["k"] != "unreachable" for _, tgt in dv) or (dv and nd):
            care = disj(*[c for c, _ in nd])
            nd = [(restrict(c, care), tgt) for c, tgt in nd]
        for c, tgt in nd:
            out.append((tgt, land(g, c), dict(st)))
        return out

    # ---------------------------------------------------------------- calls
    def is_opaque(self, path):
        if path.startswith("sdsmodels::coll::removed"):
            return True
        if callable(self.opaque):
            return self.opaque(path)
        return path in self.opaque

    def call(self, fr, b, t, g, st):
        args = [self.operand(fr, a, st, g) for a in t["a"]]
        tys = [self.optype(fr, a) for a in t["a"]]
        f = t["f"]
        if f["k"] == "const" and "fn" in f:
            fn = f["fn"]
        else:
            cv = self.val(st, self.operand(fr, f, st, g))
            fn = {"path": "<indirect>", "args": [], "value": cv}
        d = t["d"]
        if tys and tys[0] and tys[0].startswith("&") and isinstance(d, dict) and not d.get("p"):
            fn = dict(fn, dty=self.optype(fr, {"k": "copy", "p": d}))
        r = self.invoke(fr, b, fn, args, tys, g, st, t["s"])
        if r is None:
            return []
        v, st2, g2 = r
        if t["t"] is None:
            return []
        root, projs = self.place(fr, t["d"], st2)
        self.write(st2, root, projs, v)
        return [(t["t"], g2, st2)]

    def invoke(self, fr, b, fn, args, tys, g, st, loc):
        """returns (value, state, guard) or None when it does not return"""
        path = fn["path"]
        res = fn.get("res")
        if path == "<indirect>":
            return self.apply(fr, b, fn["value"], args, g, st, loc)
        if path.startswith("core::ops::function::Fn") and path.rsplit("::", 1)[1] in ("call_once", "call_mut", "call"):
            tupv = args[1]
            n = len(tupv.a) - 3 if tupv.op == "agg" else None
            if n is None:
                tupv = self.val(st, tupv)
                n = len(tupv.a) - 3 if tupv.op == "agg" else 0
            inner = [fld(tupv, "", str(i)) for i in range(n)]
            return self.apply(fr, b, args[0], inner, g, st, loc)
        if fn.get("rk") != "item" and fr.tyargs and (fn.get("args") or [""])[0] == "Self":
            # in a default method of a trait called on a known type
            q = "<%s as %s>::%s" % ((fr.tyargs,) + tuple(path.rsplit("::", 1)))
            if q in self.F.bodies:
                fn = dict(fn, res=q, rk="item")
                res = q
        rp = res if fn.get("rk") == "item" else None
        h = self.std.lookup(path)
        local = rp if rp in self.F.bodies else None
        if local is None and path in self.F.bodies and fn.get("rk") == "item":
            local = path
        if local is None and fn.get("rk") == "virtual" and args:
            v = self.deepval(st, args[0])
            vs = variants(v) if v.op == "ite" else [(True, v)]
            if vs and all(self.dynimpl(x, path) for _, x in vs) and len(vs) <= 40:
                outs = []
                for gg, x in vs:
                    root = ("L", fr.fid, ("dyn", b, x.id))
                    s2 = dict(st)
                    s2[root] = x
                    q = self.dynimpl(x, path)
                    a2 = [mk("ref", root, (), False)] + list(args[1:])
                    if self.is_opaque(q):
                        r = self.opaque_call(fr, (b, x.id), q, a2, tys, land(g, gg), s2, loc, fn)
                    else:
                        r = self.inline(fr, (b, x.id), q, a2, land(g, gg), s2)
                    if r is not None:
                        s3 = r[1]
                        s3[("L", "tmp", 0)] = r[0]
                        outs.append((r[2], s3))
                if not outs:
                    return None
                gg, ss = self.mergestates(outs)
                return ss.pop(("L", "tmp", 0)), ss, gg
        for k, tgt in self.redirect.items() if local is not None else ():
            if norm(local).endswith("::" + k):
                local = tgt
        if local is not None and not local.startswith("sdsmodels"):
            # crate-local code wins over a std handler, except derives of value semantics
            body = self.F.bodies[local]
            if body.get("derived") and h is not None:
                local = None
        if local is not None and (local + "::__stability") in self.F.bodies:
            ini = self.F.bodies.get(local + "::__static_ref_initialize")
            if ini is not None and str(ini["locals"][0]).startswith(("regex::", "reqwest::")):
                # a constant: what it was made from says what it is
                return self.inline(fr, b, local + "::__static_ref_initialize", [], g, st)
            return mk("static", re.sub(r"^<(.*) as core::ops::deref::Deref>::deref$", r"\1", local)), st, g
        if local is not None and not self.is_opaque(local):
            if local not in fr.stack and len(fr.stack) < self.maxdepth:
                r = self.std.streamcall(self, fr, b, local, args, g, st, loc)
                if r is not None:
                    return r
                ta = (fn.get("args") or [""])[0]
                if local == path and "::" in ta:
                    self.selfty = fr.tyargs if ta == "Self" else ta
                return self.inline(fr, b, local, args, g, st)
        if local is None and h is not None:
            r = h(self, fr, b, fn, args, tys, g, st, loc)
            if r is not NotImplemented:
                if r is None:
                    return None
                if isinstance(r, T):
                    return r, st, g
                return r
        return self.opaque_call(fr, b, local or rp or path, args, tys, g, st, loc, fn)

    def dynimpl(self, x, path):
        """the implementation a trait object's method call reaches, when the object is known"""
        if x.op != "agg":
            return None
        tr, name = path.rsplit("::", 1)
        for pre in ("<%s as %s>::%s" % (x.a[0], tr, name),):
            if pre in self.F.bodies:
                return pre
        return None

    def inline(self, fr, b, local, args, g, st):
        body = self.F.bodies[local]
        fid = self.fid(fr.fid, b, local)
        args = list(args)[:body["argc"]]
        return self.run(body, args, st, g, fid, fr.stack)

    def model(self, fr, b, name, args, g, st):
        return self.inline(fr, (b, name), "sdsmodels::" + name, args, g, st)

    def apply(self, fr, b, callee, args, g, st, loc):
        cv = self.val(st, callee)
        if cv.op == "closure":
            body = self.F.bodies.get(cv.a[0])
            if body is not None and not self.is_opaque(cv.a[0]) and cv.a[0] not in fr.stack:
                fid = self.fid(fr.fid, (b, "cl"), cv.a[0])
                return self.run(body, [callee if callee.op == "ref" else cv] + list(args), st, g, fid, fr.stack)
        if cv.op == "fn":
            p, r, ta = cv.a
            ct = self.ctor(p)
            if ct:
                return mk("agg", ct[0], ct[1], ct[2], *args), st, g
            fn = {"path": p, "args": list(ta)}
            if r:
                fn["res"], fn["rk"] = r, "item"
            return self.invoke(fr, b, fn, list(args), [""] * len(args), g, st, loc)
        if cv.op == "ite" and all(x.op in ("fn", "closure") for _, x in variants(cv)):
            outs = []
            for gg, x in variants(cv):
                r = self.apply(fr, (b, x.id), x, args, land(g, gg), dict(st), loc)
                if r is not None:
                    s2 = r[1]
                    s2[("L", "tmp", 0)] = r[0]
                    outs.append((r[2], s2))
            if not outs:
                return None
            gg, ss = self.mergestates(outs)
            v = ss.pop(("L", "tmp", 0))
            return v, ss, gg
        if cv.op == "call" and self.nom.is_parser(self.F.bodies.get(cv.a[0] + "::{closure#0}"), 2):
            return self.nom.outcome(self, mk("call", cv.a[0], (self.deepval(st, args[0]),) + cv.a[1], None), self.deepval(st, args[0]), cv.a[0]), st, g
        if cv.op == "nom":
            r = self.nom.run(self, fr, (b, "nom"), cv, args[0], g, st, loc)
            if r is not NotImplemented:
                return r
        avals = [self.deepval(st, cv)] + [self.deepval(st, a) for a in args]
        site = (fr.fid, (b, self.utag) if self.utag else b)
        r = mk("call", "<apply>", tuple(avals), site)
        self.emit(fr, "call", "<apply>", avals, [callee] + list(args), g, loc, r)
        for a in args:
            if a.op == "ref" and a.a[2]:
                old = self.read(st, a.a[0], a.a[1])
                self.write(st, a.a[0], a.a[1], mk("after", "<apply>", (old,) + tuple(avals[:1]), 0))
        return r, st, g

    def ctor(self, p):
        if p in self.F.ctors:
            return self.F.ctors[p]
        q = norm(p)
        if q in self.F.ctors:
            return self.F.ctors[q]
        base, _, v = q.rpartition("::")
        if base in (OPT, RES) and v in ("Some", "Ok", "Err"):
            return base, v, ("0",)
        # external enum / tuple-struct constructors used as functions: Adt::Variant
        if base and base.rpartition("::")[2][:1].isupper() and v[:1].isupper():
            return base, v, ("0",)
        return None

    MUTREF = re.compile(r"^&('\w+ )?mut ")

    lamdepth = 0

    def lam(self, fr, b, callee, g, st, loc):
        """what a function passed to code outside the analysis computes, as a term over its parameters; None if it is not known.
        Second result: the places of the caller it changes."""
        cv = self.val(st, callee)
        if cv.op == "closure":
            p, skip = cv.a[0], 1
        elif cv.op == "fn":
            p, skip = cv.a[1] or cv.a[0], 0
        else:
            return None
        body = self.F.bodies.get(p)
        if body is None or self.is_opaque(p) or p in fr.stack or self.lamdepth > 6:
            return None
        ps = [mk("p", "\u03bb%d.%d" % (self.lamdepth, i)) for i in range(body["argc"] - skip)]
        n = len(self.effects)
        s2 = dict(st)
        self.lamdepth += 1
        try:
            r = self.apply(fr, (b, "lam"), callee, ps, g, s2, loc)
        finally:
            self.lamdepth -= 1
        did = [e for e in self.effects[n:] if e.kind == "call" and (e.info or {}).get("dty") == "()" and not any(x.op == "ref" and x.a[2] for x in e.raw)]
        del self.effects[n:]
        if r is None:
            return mk("lam", len(ps), BOT), []
        v, s3, _ = r
        ch = [k for k, x in st.items() if k in s3 and s3[k] is not x]
        out = [self.deepval(s3, v)] + [self.deepval(s3, s3[k]) for k in ch]
        for q in ps:
            if s3.get(("H", q), q) is not q:
                out.append(self.deepval(s3, s3[("H", q)]))
        if "cmp::Ordering" in str(body["locals"][0]):
            out[0] = antisym(out[0])
        out += [mk("does", e.path.rsplit("::", 1)[-1], B(e.guard), tuple(e.args)) for e in did]
        return mk("lam", len(ps), *out), ch

    def inner_muts(self, st, args):
        """places an opaque function can change through the exclusive references inside what it is given"""
        out, seen = [], set()

        def look(v, where, top, d):
            if d > 6:
                return
            if v.op == "ref":
                if not v.a[2]:
                    return
                k = (v.a[0], v.a[1])
                if k in seen:
                    return
                seen.add(k)
                try:
                    x = self.read(st, v.a[0], v.a[1])
                except Exception:
                    return
                if not top:
                    out.append((where, v.a[0], v.a[1], self.deepval(st, x)))
                look(x, where, False, d + 1)
            elif v.op == "agg":
                for n, x in zip(v.a[2] or (), v.a[3:]):
                    look(x, where + (n,), False, d + 1)
        for i, a in enumerate(args):
            look(a, (i,), True, 0)
        return out

    def opaque_call(self, fr, b, path, args, tys, g, st, loc, fn=None, pure=False):
        if path.startswith("core::sync::atomic"):
            args = [a for a, t in zip(args, list(tys) + [""] * len(args)) if "atomic::Ordering" not in (t or "")]    # every caller only counts
        avals = [self.deepval(st, a) for a in args]
        for i, a in enumerate(args):
            if avals[i].op in ("closure", "fn") and not path.startswith("sdsmodels::"):
                l = self.lam(fr, (b, i), a, g, st, loc)
                if l is not None:
                    avals[i] = l[0]
                    for k in l[1]:
                        st[k] = mk("after", path, (st[k], l[0]), 0)
        muts = []
        for i, a in enumerate(args):
            if (a.op == "ref" and a.a[2]) or (i < len(tys) and self.MUTREF.match(tys[i] or "")):
                muts.append(i)
        name = path
        acc = self.std.is_accessor(path)
        inner = [] if acc or pure else self.inner_muts(st, args)
        r = mk("call", name, tuple(avals), (fr.fid, (b, self.utag) if self.utag else b) if ((muts or inner) and not acc and not pure) else None)
        e = self.emit(fr, "call", path, avals, list(args), g, loc, r, info=fn)
        if muts and not acc and not pure and not path.startswith("sdsmodels::coll::removed"):
            for i in muts:
                a = args[i]
                root, projs = (a.a[0], a.a[1]) if a.op == "ref" else (("H", a), ())
                old = self.read(st, root, projs)
                self.write(st, root, projs, mk("after", path, tuple([self.deepval(st, old)] + avals[:i] + avals[i + 1:]), i))
        for where, root, projs, old in inner:
            self.write(st, root, projs, mk("after", path, tuple([old] + avals), where))
        if self.std.never_returns(path):
            e.kind = "panic"
            return None
        if self.nom.is_parser(self.F.bodies.get(path)):
            r = self.nom.outcome(self, r, avals[0], path)
            e.res = r
        if fn and 0 in muts and not acc and tys and self.MUTREF.match(fn.get("dty") or "") and strip_lt(fn["dty"]) == strip_lt(tys[0]):
            return args[0], st, g           # builder style: hands back its receiver
        return r, st, g


_pi = {}


def per_iter(t, lid):
    k = (t, lid)
    r = _pi.get(k)
    if r is None:
        r = _pi[k] = contains(t, lambda x: x.op in ("elem", "idx", "cpos") and has_lid(x.a[-1], lid))
    return r


def has_lid(l, lid):
    return l == lid or (isinstance(l, tuple) and len(l) == 2 and l[1] in (2, "f") and has_lid(l[0], lid))


def mkex(lid, c):
    """guard that some iteration of loop lid satisfies c"""
    if isinstance(c, bool):
        return c
    sup = support(c)
    if len(sup) == 1:
        v = next(iter(sup))
        if v.op == "eq" and c is atom(v):
            for x, y in (v.a, v.a[::-1]):
                if x.op == "elem" and x.a[1] == lid and not per_iter(y, lid) and not lit(x.a[0]):
                    return atom(mk("contains", x.a[0], y))
    src = set()
    for v in sup:
        for x in subterms(v):
            if x.op in ("elem", "idx", "has", "cpos") and has_lid(x.a[-1], lid):
                src.add(x.a[0] if x.a[-1] == lid else None)
            elif x.op in ("lv", "lvc", "ex", "lmap"):
                src.add(None)
    if len(src) == 1 and lit(next(iter(src))):
        # a literal list: one case per element
        xs = next(iter(src)).a[3:]
        r = False
        for i, e in enumerate(xs):
            def f(x, i=i, e=e):
                if x.op in ("elem", "idx", "has") and x.a[-1] == lid:
                    return e if x.op == "elem" else C(i) if x.op == "idx" else B(True)
            r = lor(r, subst_g(c, f))
        return r
    return atom(mk("ex", lid, c))


def lit(x):
    return x is not None and x.op == "agg" and x.a[0] in ("array", "vec") and len(x.a) <= 35


def exists_has(g, lid):
    return exists_true(g, lambda v: v.op == "has" and v.a[-1] == lid)


def exists_true(g, pred):
    """cofactor every matching variable to True"""
    for v in list(support(g)) if not isinstance(g, bool) else []:
        if pred(v):
            g = cofactor(g, v, True)
    return g


def implies_not_has(g, lid):
    if isinstance(g, bool):
        return False
    hs = [v for v in support(g) if v.op == "has" and v.a[-1] == lid]
    return any(land(g, atom(h)) is False for h in hs)


def strip_ng(g, lid):
    for v in list(support(g)) if not isinstance(g, bool) else []:
        if v.op == "has" and v.a[-1] == lid:
            g = cofactor(g, v, False)
    return g
