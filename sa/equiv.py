"""Compares the value-flow summary of a function of /repo with that of a reference specification (ws/refs, crate sdsref).

Both are analysed by the same engine; loop-carried values are identified by their initial value, their step and the
condition under which the loop goes on (colour refinement), type names by their last segment, loops by what they iterate over."""
import itertools, math
from .terms import *
from .terms import mapvars
from .vf import *
from .vf import per_iter, mkex
from . import vf as _vf
from .std import ltx, mkappend

R = 5


def last(p):
    return norm(p).split("::")[-1] if isinstance(p, str) else p


class Canon:
    def __init__(self, A, ident=()):
        self.ident = ident
        self.A = A
        self.lv = {}
        for L in A.loops.values():
            for k, init in L.init.items():
                self.lv[mk("lv", L.id, *k)] = (init, L.step.get(k), L)
        self.memo = {}
        self.bm = {}
        self.busy = set()

    # -- monotone flags: a boolean that starts constant and is only ever and-ed (or-ed) with a per-iteration condition
    def flag(self, lv):
        if lv not in self.lv:
            return None
        if lv in self.bm:
            return self.bm[lv]
        init, step, L = self.lv[lv]
        r = None
        if init in (TRUE, FALSE) and step is not None and is_boolish(step):
            a = to_g(lv)
            s = to_g(step)
            if not isinstance(s, bool):
                if init is TRUE and cofactor(s, lv, False) is False:
                    p = cofactor(s, lv, True)
                    if not contains_lv(p, L.id):
                        r = ("and", p, L)
                if init is FALSE and cofactor(s, lv, True) is True:
                    p = cofactor(s, lv, False)
                    if not contains_lv(p, L.id):
                        r = ("or", p, L)
        self.bm[lv] = r
        return r

    def final(self, lv):
        """value of a monotone flag after the loop"""
        k, p, L = self.flag(lv)
        p = self.nohas(p, L)
        return lnot(mkex(L.id, lnot(p))) if k == "and" else mkex(L.id, p)

    def nohas(self, p, L):
        return _vf.exists_has(p, L.id)

    def ex(self, t, n, ins):
        lid, c = t.a[0], t.a[1]
        L = self.A.loops.get(lid)
        if isinstance(c, N):
            fl = [v for v in support(c) if v.op == "lv" and self.flag(v) and self.flag(v)[2].id == lid]
            if fl:
                r = self.exflags(lid, c, fl)
                if r is None:
                    # the exits of one loop exclude each other: widening by another exit's condition changes nothing where this one counts
                    w = c
                    for _, c2, _ in L.early:
                        w = lor(w, c2)
                    r = self.exflags(lid, w, fl)
                if r is not None:
                    return B(self.g_(r, n, ins))
        if not isinstance(c, N):
            return mk("ex", 0, c)
        if L is not None and len(L.early) > 1 and any(c is c2 for _, c2, _ in L.early) and not any(self.flags_in(c2, lid) for _, c2, _ in L.early):
            # the loop is left at the first iteration where any of its exit conditions holds; this exit is the one taken there
            return B(land(atom_(self.excond(lid, self.cany(L), n, ins)), self.g_(c, n, ins - {lid})))
        return self.excond(lid, c, n, ins)

    def flags_in(self, c, lid):
        return not isinstance(c, bool) and any(v.op == "lv" and self.flag(v) and self.flag(v)[2].id == lid for v in support(c))

    def cany(self, L):
        w = False
        for _, c2, _ in L.early:
            w = lor(w, c2)
        return w

    def excond(self, lid, c, n, ins):
        if not isinstance(c, N):
            return C(bool(c))
        cc = asciis(self.dom(lid, self.g_(c, n, ins | {lid}), n, ins))
        if not isinstance(cc, N):
            return C(cc)
        r = exg(cc)
        return B(r) if r is not None else mk("ex", 0, cc)

    def compr(self, x, ins, cond=False, anyinit=False):
        """a list built by pushing (at most) one value per iteration of a finished loop: (value, loop, condition)"""
        if x not in self.lv:
            return None
        init, step, L = self.lv[x]
        if L.id in ins or step is None or not L.has:
            return None
        if not (anyinit or init.op == "agg" and init.a[0] == "vec" and len(init.a) == 3):
            return None
        v = g = None
        if step.op == "push" and step.a[0] is x:
            v, g = step.a[1], True
        elif cond and step.op == "ite" and not L.early:
            ls = leaves(step)
            if all(y is x or y.op == "push" and y.a[0] is x for y in ls):
                ps = sorted((y for y in ls if y is not x), key=lambda y: y.id)
                if ps:
                    v, g = ps[-1].a[1], disj(*[ls[y] for y in ps])
                    for y in ps[:-1]:
                        v = merge(ls[y], y.a[1], v)
        if v is None or contains(v, lambda y: y.op == "lv" and y.a[0] == L.id) or contains_lv(g, L.id):
            return None
        return v, L, g

    def filtered(self, x, ins, d=0):
        """a list that consists of those elements y of another list for which a condition holds: (list, y -> condition)"""
        if d > 4 or not isinstance(x, T):
            return None
        if x.op == "retained" and len(x.a) == 3 and x.a[1].op == "elem" and x.a[1].a[0] is x.a[0]:
            return x.a[0], lambda y, _x=x: lnot(self.dropped(_x, y))
        if x not in self.lv:
            return None
        init, step, L = self.lv[x]
        if L.id in ins or step is None or not L.has or L.early:
            return None
        if step.op == "retained" and step.a[0] is x and len(step.a) == 3 and step.a[1].op == "elem" and step.a[1].a[0] is x and len(L.has) == 1:
            # drops, for every element z of the list the loop runs over, the elements equal to z
            src = next(iter(L.has)).a[0]
            z, y0 = mk("elem", src, L.id), mk("q", "y")
            if self.dropped(step, y0, L) is not eq_g(y0, z):
                return None
            return init, lambda y: lnot(self.member(src, y, ins, d))
        if init.op == "agg" and init.a[0] == "vec" and len(init.a) == 3 and step.op == "ite":
            ls = leaves(step)
            ps = [y for y in ls if y.op == "push" and y.a[0] is x]
            if len(ls) == 2 and x in ls and len(ps) == 1 and len(L.has) == 1:
                src = next(iter(L.has)).a[0]
                z = mk("elem", src, L.id)
                g = ls[ps[0]]
                if ps[0].a[1] is z and not contains_lv(g, L.id):
                    return src, lambda y, _g=g: subst_g(_g, lambda t: y if t is z else None)
        return None

    def dropped(self, x, y, L=None):
        """the condition under which the element y is dropped by `retained`"""
        e, g = x.a[1], x.a[2]
        for v in list(support(g)) if not isinstance(g, bool) else ():
            if v.op == "has" and (v.a[1] == e.a[1] or L is not None and v.a[1] == L.id):
                g = cofactor(g, v, True)
        return subst_g(g, lambda t: y if t is e else None)

    def member(self, x, y, ins, d=0):
        """y occurs in the list x"""
        f = self.filtered(x, ins, d + 1)
        if f is not None:
            return land(self.member(f[0], y, ins, d + 1), f[1](y))
        if y.op == "elem" and y.a[0] is x:
            return True
        return atom(mk("contains", x, y))

    def srcs(self, x, ins):
        c = self.compr(x, ins)
        if c is None:
            return [x]
        return [y for h in sorted(c[1].has, key=lambda h: h.id) for y in self.srcs(h.a[0], ins)]

    def dom(self, lid, cc, n, ins):
        """what the loop runs over, unless the condition itself is about its elements"""
        L = self.A.loops.get(lid)
        if L is not None and L.has and isinstance(cc, N):
            seen = {s.a[0] for v in support(cc) for s in subterms(v) if s.op in ("elem", "idx", "cpos") and s.a[-1] == 0}
            for x in [y for h in sorted(L.has, key=lambda h: h.id) for y in self.srcs(h.a[0], ins)]:
                f = self.filtered(x, ins)
                if f is not None:
                    cc = land(cc, self.g_(f[1](mk("elem", f[0], lid)), n, ins | {lid}))
                    x = f[0]
                x = self.t_(x, n, ins | {lid})
                if x not in seen:
                    cc = land(cc, atom(mk("has", x, 0)))
        return cc

    def exflags(self, lid, c, fl):
        """exists an iteration with c, where c depends on monotone flags only through their next value, and only grows when they flip"""
        nx = {}
        cur = c
        for v in fl:
            k, p, L = self.flag(v)
            if isinstance(p, bool):
                return None
            nx[v] = (k, p)
        # c with every flag at its initial value, as a function of the p's
        base = c
        for v in fl:
            base = cofactor(base, v, nx[v][0] == "and")
        ps = {}
        for v in fl:
            sup = support(nx[v][1])
            if len(sup) != 1:
                return None
            ps[v] = next(iter(sup))
        # c == base with p_v replaced by the flag's next value?
        full = base
        for v in fl:
            k, p = nx[v]
            q = land(p, atom(v)) if k == "and" else lor(p, atom(v))
            # replace the variable ps[v] so that p becomes q
            pos = p is atom(ps[v])
            w = q if pos else lnot(q)
            full = mapvars(full, lambda x, val, _v=ps[v], _w=w: (_w if val else lnot(_w)) if x is _v else _atom(x, val))
        # flags are exclusive of impossible combinations (p_a and p_b both true for one element is allowed to differ)
        if full is not c:
            return None
        out = base
        for v in fl:
            k, p = nx[v]
            fin = lnot(mkex(lid, lnot(p))) if k == "and" else mkex(lid, p)
            pos = p is atom(ps[v])
            # must grow when the flag flips
            hi, lo = cofactor(out, ps[v], pos == (k != "and")), cofactor(out, ps[v], pos == (k == "and"))
            if implies(lo, hi) is not True:
                return None
            w = fin if pos else lnot(fin)
            out = mapvars(out, lambda x, val, _v=ps[v], _w=w: (_w if val else lnot(_w)) if x is _v else _atom(x, val))
        return out

    def fn(self, n, ins):
        def f(t):
            o = t.op
            if o == "lv":
                if t in self.lv:
                    if self.flag(t) and t not in self.busy:
                        return B(self.g_(self.final(t), n, ins))
                    return self.lvc(t, n, ins)
                return mk("lvx", last(str(t.a[1])))
            if o == "lve":
                t2 = mk("lv", *t.a)
                if t2 in self.lv:
                    x = self.lvc(t2, n, ins, True)
                    return mk("lvce", *x.a) if x.op == "lvc" else x
                return mk("lvx", last(str(t.a[1])))
            if o == "old":
                return self.t_(t.a[0], n, ins)
            if o == "ltx":
                x, y = self.t_(t.a[0], n, ins), self.t_(t.a[1], n, ins)
                if (x, y) != t.a:
                    return B(ltx(x, y))
            if o == "ex":
                return self.ex(t, n, ins)
            if o == "contains" and len(t.a) == 2 and isinstance(t.a[1], T) and t.a[0].op == "agg" and t.a[0].a[0] in ("vec", "array"):
                y = self.t_(t.a[1], n, ins)
                return B(disj(*[eq_g(self.t_(x, n, ins), y) for x in t.a[0].a[3:]]))
            if o == "contains" and len(t.a) == 2 and isinstance(t.a[1], T):
                f = self.filtered(t.a[0], ins)
                if f is not None or t.a[1].op == "elem" and t.a[1].a[0] is t.a[0]:
                    return B(self.g_(self.member(t.a[0], t.a[1], ins), n, ins))
            if o in ("elem", "has") and len(t.a) == 2:
                f = self.filtered(t.a[0], ins)
                if f is not None:
                    e = mk("elem", f[0], t.a[1])
                    if o == "elem":
                        return self.t_(e, n, ins)
                    return B(self.g_(land(atom(mk("has", f[0], t.a[1])), f[1](e)), n, ins))
            if o in ("elem", "has", "idx") and len(t.a) == 2 and isinstance(t.a[0], T) and t.a[0].op == "lv":
                c = self.compr(t.a[0], ins)
                if c is not None:
                    v, L1, _ = c
                    if o == "elem" and has_any(t.a[1], ins):
                        return self.t_(v, n, ins | {L1.id})
                    if o == "elem":
                        re = lambda y: mk(y.op, subst(y.a[0], re), t.a[1]) if y.op in ("elem", "idx", "has", "cpos") and y.a[-1] == L1.id else None
                        return self.t_(subst(v, re), n, ins)
                    if o == "has":
                        g = True
                        for h in L1.has:
                            g = land(g, atom(mk("has", h.a[0], t.a[1])))
                        return B(self.g_(g, n, ins))
                    if len(L1.has) == 1:
                        return self.t_(mk("idx", next(iter(L1.has)).a[0], t.a[1]), n, ins)
            if o == "len" and t.a[0].op == "lv":
                c = self.compr(t.a[0], ins)
                if c is not None and len(c[1].has) == 1:
                    return self.t_(tlen(next(iter(c[1].has)).a[0]), n, ins)
            if o in ("elem", "idx", "has", "cpos") and len(t.a) == 2 and t.a[1] != 0:
                x = self.t_(t.a[0], n, ins) if isinstance(t.a[0], T) else t.a[0]
                lid = t.a[1]
                while lid not in self.A.loops and isinstance(lid, tuple) and len(lid) == 2 and lid[1] in (2, "f"):
                    lid = lid[0]
                L = self.A.loops.get(lid)
                if L is None or lid in ins or not L.early:
                    return mk(o, x, 0)
                c = self.cany(L)
                if n <= 0 or isinstance(c, bool):
                    return mk("first", o, x, True)
                return mk("first", o, x, self.dom(lid, self.g_(c, n - 1, ins | {lid}), n - 1, ins))
            if o == "agg" and t.a[0] not in ("vec", "tuple", "array") and ("::" in t.a[0] or len(t.a[2]) > 1):
                fs = sorted(zip(t.a[2], t.a[3:]), key=lambda p: p[0]) if len(t.a[2]) == len(t.a) - 3 and not any(f.isdigit() for f in t.a[2]) else None
                if fs is not None and len({f for f, _ in fs}) == len(fs):      # the order in which fields are declared says nothing
                    return mk("agg", last(t.a[0]), t.a[1], tuple(f for f, _ in fs), *[self.t_(x, n, ins) for _, x in fs])
                return mk("agg", last(t.a[0]), t.a[1], t.a[2], *[self.t_(x, n, ins) for x in t.a[3:]])
            if o == "call" and self.ident and norm(t.a[0]).split("::")[-1] in self.ident:
                return self.t_(t.a[1][0], n, ins)
            if o == "call":
                p = callname(t.a[0])
                if p != t.a[0] or len(t.a) > 2 and t.a[2] is not None:
                    return mk("call", p, tuple(self.t_(x, n, ins) for x in t.a[1]), None)
            if o == "static":
                return mk("static", callname(t.a[0]))
            if o == "after":
                p = callname(t.a[0])
                if p != t.a[0]:
                    return mk("after", p, tuple(self.t_(x, n, ins) for x in t.a[1]), *t.a[2:])
            if o == "closure":
                return mk("closure", "", t.a[1] if len(t.a) > 1 and not isinstance(t.a[1], T) else "", *[self.t_(x, n, ins) for x in t.a[1:] if isinstance(x, T)])
            if o == "ite":
                return chain(mm(merge(self.g_(t.a[0], n, ins), self.t_(t.a[1], n, ins), self.t_(t.a[2], n, ins))))
            if o == "bool":
                return B(self.g_(t.a[0], n, ins))
            if o == "lin":
                r = C(t.a[0])
                for x, k in t.a[1]:
                    r = ladd(r, lscale(self.t_(x, n, ins), k))
                return r
            if o == "bin" and isinstance(t.a[1], T):
                return lbin(t.a[0], self.t_(t.a[1], n, ins), self.t_(t.a[2], n, ins))
            if o == "index" and t.a[1].op == "idx":
                return mk("elem", self.t_(t.a[0], n, ins), 0) if has_any(t.a[1].a[1], ins) else None
            if o == "index" and t.a[1].op == "c" and isinstance(t.a[1].a[0], int):
                return mapped_at(self.t_(t.a[0], n, ins), t.a[1])
            return None
        return f

    def lvc(self, t, n, ins, early=False):
        init, step, L = self.lv[t]
        cst = lambda x: x is not None and (x.op == "c" or x in (TRUE, FALSE))
        if L.id in ins and not early and len(L.has) == 1 and cst(init) and cst(step):
            # set to a constant by every iteration: tells the first iteration from the others
            z = eqint(mk("idx", self.t_(next(iter(L.has)).a[0], max(n - 1, 0), ins - {L.id}), 0), C(0))
            return merge(z, init, step)
        if n <= 0 and self.lv[t][0] is TRUE:
            return B(lnot(to_g(mk("lvc", FALSE))))
        if n <= 0:
            return mk("lvc", self.t_(self.lv[t][0], 0, ins) if self.lv[t][0].op != "lv" else C("lv"))
        init, step, L = self.lv[t]
        k = (t, n, ins, early)
        M = self.mem(n, ins)
        if k in M:
            return M[k]
        i2 = ins | {L.id}
        a = self.t_(init, n - 1, ins - {L.id})
        bg = getattr(L, "backguard", True)
        bg = bg if isinstance(bg, bool) else self.g_(bg, n - 1, i2)
        b = tidy(self.t_(step, n - 1, i2), bg) if step is not None else BOT
        fl = fixedlens(bg)
        if fl:
            b = subst(b, lambda x: fl.get(x))
        if L.has and not early and L.id not in ins:
            # value once every element has been seen
            bg = True
            for x in {y for h in L.has for y in self.srcs(h.a[0], ins)}:
                f = self.filtered(x, ins)
                bg = land(bg, atom(mk("has", self.t_(x, n - 1, i2), 0)) if f is None else self.g_(atom(mk("has", x, L.id)), n - 1, i2))
            c = self.compr(t, ins, True, True)
            if c is not None:
                cg = self.g_(c[2], n - 1, i2)
                v = constrained(self.t_(c[0], n - 1, i2), cg)
                cg = land(bg, cg)
                if v.op == "elem" and v.a[1] == 0 and cg is atom(mk("has", v.a[0], 0)):
                    r = v.a[0]                     # every element of a list, in order
                else:
                    r = mk("lmap", v, cg)
                r = M[k] = mkappend(a, r)
                return r
        r = None
        if a is TRUE and is_boolish(b):
            # a flag that starts true, as the negation of one that starts false
            r = M[k] = B(lnot(to_g(mk("lvc", FALSE, B(lnot(to_g(b))), bg))))
            return r
        if b.op == "elem" and b.a[0].op == "slice" and a.op == "index" and a.a[0] is b.a[0].a[0] and add(a.a[1], C(1)) is b.a[0].a[1]:
            r = mk("prev", b.a[0])         # the element before the current one
        r = M[k] = r or mk("lvc", a, b, bg)
        return r

    def mem(self, n, ins):
        return self.memo.setdefault((n, ins), {})

    def t_(self, t, n, ins):
        return subst(t, self.fn(n, ins), self.mem(n, ins))

    def g_(self, g, n, ins):
        return ranges(subst_g(g, self.fn(n, ins), self.mem(n, ins)))

    def t(self, t, ins=frozenset()):
        return self.t_(t, R, frozenset(ins))

    def g(self, g, ins=frozenset()):
        return g if isinstance(g, bool) else self.g_(g, R, frozenset(ins))


def chain(t):
    """a choice between values, in one order whatever order the code asked in"""
    if t.op != "ite":
        return t
    ls = leaves(t)
    if len(ls) > 6:
        return t
    ys = sorted(ls, key=lambda y: y.id)
    r = ys[-1]
    for y in reversed(ys[:-1]):
        r = mk("ite", ls[y], y, r)
    return r


def mapped_at(v, i):
    """the element at a constant position of a list made from another one, element by element"""
    if v.op == "lmap" and not isinstance(v.a[1], bool):
        src = v.a[1].v
        if src.op == "has" and v.a[1] is atom(src):
            c = src.a[0]
            return subst(v.a[0], lambda x: mk("index", c, i) if x is mk("elem", c, 0) else i if x is mk("idx", c, 0) else None)
    return mk("index", v, i)


def fixedlens(g):
    """lengths that have one value where g holds"""
    fixed = {}
    for v in support(g) if isinstance(g, N) else ():
        if v.op == "eq0" and cofactor(g, v, False) is False:
            c, m = lin_of(v.a[0])
            if len(m) == 1 and list(m.values()) == [1] and list(m)[0].op == "len":
                fixed[list(m)[0]] = C(-c)
    return fixed


def constrained(t, g):
    """a value that only counts where g holds"""
    if isinstance(g, bool):
        return t
    fixed = fixedlens(g)

    def f(x):
        if x in fixed:
            return fixed[x]
        if x.op == "ite":
            c = restrict(x.a[0], g)
            return constrained(x.a[1], g) if c is True else constrained(x.a[2], g) if c is False else merge(c, constrained(x.a[1], g), constrained(x.a[2], g))
        if x.op == "bool":
            return B(restrict(x.a[0], g))
        if x.op in ("lvc", "lmap", "ex"):
            return x
        return None
    return subst(t, f)


LOCAL = ("dd_sds::", "sdsref::", "<dd_sds::", "<sdsref::", "dd_sds_go::", "<dd_sds_go::", "sds_bindings_utils::", "<sds_bindings_utils::")


def callname(p):
    """functions of /repo and of the reference are known by their name only"""
    if not isinstance(p, str):
        return p
    return last(p) if p.startswith(LOCAL) else p if p.startswith("<") else norm(p)


def has_any(lid, ins):
    return lid in ins or isinstance(lid, tuple) and len(lid) == 2 and has_any(lid[0], ins)


def atom_(t):
    return atom(t) if t.op == "ex" else to_g(t)


def _atom(x, val):
    d = DOM[x]
    return atom(x, val, d)


def asciis(g):
    """a condition on ASCII classes of the characters of a text, as one on its bytes"""
    if isinstance(g, bool):
        return g
    el = set()
    for v in support(g):
        for s in subterms(v):
            if s.op == "elem" and s.a[-1] == 0 and s.a[0].op == "chars":
                el.add(s)
    for e in el:
        ok = True
        for v in support(g):
            if not contains(v, lambda x: x is e):
                continue
            if v.op == "cls" and v.a[0] is e and v.a[2] < 128:
                continue
            if v.op == "eq0":
                c, m = lin_of(v.a[0])
                if m == {e: 1} and -c < 128:
                    continue
            ok = False
        # bytes of one multi-byte character agree with it: none is in any of the classes
        if ok:
            w = mk("elem", e.a[0].a[0], 0)
            g = subst_g(g, lambda t: w if t is e else None)
    return g


def ladd(a, b):
    """sum, with conditionals lifted out"""
    if a.op == "ite":
        return merge(a.a[0], ladd(a.a[1], b), ladd(a.a[2], b))
    if b.op == "ite":
        return merge(b.a[0], ladd(a, b.a[1]), ladd(a, b.a[2]))
    return add(a, b)


def lscale(a, k):
    if a.op == "ite":
        return merge(a.a[0], lscale(a.a[1], k), lscale(a.a[2], k))
    return scale(a, k)


def lbin(op, a, b):
    if a.op == "ite":
        return merge(a.a[0], lbin(op, a.a[1], b), lbin(op, a.a[2], b))
    if b.op == "ite":
        return merge(b.a[0], lbin(op, a, b.a[1]), lbin(op, a, b.a[2]))
    return mk("bin", op, a, b)


def mm(t):
    """if x < y { y } else { x } and its variants, as max / min"""
    if t.op == "ite" and isinstance(t.a[0], N):
        sup = support(t.a[0])
        if len(sup) == 1:
            v = next(iter(sup))
            if v.op == "lt0":
                x, y = (t.a[1], t.a[2]) if t.a[0] is atom(v) else (t.a[2], t.a[1])
                if all(z.op in ("c", "lin", "p", "fld", "len", "lvc", "elem", "call", "idx", "payload", "index") or True for z in (x, y)):
                    try:
                        d, e = v.a[0], add(y, x, -1)
                    except Exception:
                        return t
                    a, b = sorted((x, y), key=lambda z: z.id)
                    if d is e or d is add(e, C(1), -1):
                        return mk("mm", "max", a, b)
                    f = add(x, y, -1)
                    if d is f or d is add(f, C(1), -1):
                        return mk("mm", "min", a, b)
    return t


_rg = {}


def spans(g):
    """comparisons of one length with constants: one form for one division of its values"""
    by = {}
    for v in support(g):
        if v.op in ("lt0", "eq0"):
            c, m = lin_of(v.a[0])
            if len(m) == 1 and list(m.values()) == [1] and _vf._nonneg(list(m)[0]):
                by.setdefault(list(m)[0], []).append((-c, v))
    for x, vs in sorted(by.items(), key=lambda p: p[0].id):
        if len(vs) < 2 or isinstance(g, bool):
            continue
        cuts = sorted({b for b, v in vs} | {b + 1 for b, v in vs if v.op == "eq0"})
        cuts = [c for c in cuts if c > 0]
        cells = []
        for i, lo in enumerate([0] + cuts):
            r = g
            for b, v in vs:
                r = cofactor(r, v, lo < b if v.op == "lt0" else lo == b)
            if not cells or cells[-1][1] is not r:
                cells.append((lo, r))
        if len(cells) == 1:
            g = cells[0][1]
            continue
        if len(cells) == 3 and cells[2][0] == cells[1][0] + 1 and (cells[0][1] is cells[2][1]):
            g = ite(eqint(x, C(cells[1][0])), cells[1][1], cells[0][1])
            continue
        r = cells[-1][1]
        for i in range(len(cells) - 2, -1, -1):
            r = ite(lt(x, C(cells[i + 1][0])), cells[i][1], r)
        g = r
    return g


def ranges(g):
    """lo <= x && x <= hi, written as two comparisons, as one membership condition"""
    if isinstance(g, bool):
        return g
    if g in _rg:
        return _rg[g]
    r = spans(g)
    by = {}
    for v in support(r) if isinstance(r, N) else ():
        if v.op == "lt0":
            c, m = lin_of(v.a[0])
            if len(m) == 1 and list(m.values()) == [1]:
                by.setdefault(list(m)[0], []).append((-c, v))
    for x, vs in by.items():
        vs.sort(key=lambda p: p[0])
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                (lo, a), (hi, b) = vs[i], vs[j]
                sup = support(r) if not isinstance(r, bool) else ()
                if a not in sup or b not in sup:
                    continue
                low = cofactor(cofactor(r, a, True), b, True)
                mid = cofactor(cofactor(r, a, False), b, True)
                high = cofactor(cofactor(r, a, False), b, False)
                if low is high or low == high and isinstance(low, bool):
                    r = ite(atom(mk("cls", x, lo, hi - 1)), mid, low)
    if not isinstance(r, bool) and len(support(r)) <= 24:
        k = arith([r])
        if k is not True:
            for v in sorted((v for v in support(r) if DOM[v] == BOOL), key=lambda v: v.id):
                for b in (True, False):
                    c = cofactor(r, v, b)
                    if isinstance(r, N) and c is not r and land(c, k) is land(r, k):
                        r = c
                        break
    _rg[g] = r
    return r


def contains_lv(g, lid):
    if isinstance(g, bool):
        return False
    return any(any(s.op == "lv" and s.a[0] == lid for s in subterms(v)) for v in support(g))


def exset(g, acc):
    if isinstance(g, bool):
        return
    for v in support(g):
        for s in subterms(v):
            if s.op in ("ex", "contains"):
                acc.add(s)


def constraints(gs):
    """what holds between the quantified conditions in these guards: exists(a) implies exists(b) whenever a implies b"""
    acc = set()
    for g in gs:
        exset(g, acc)
    ex = [t for t in acc if t.op == "ex" and isinstance(t.a[1], N)]
    k = True
    for a in ex:
        for b in ex:
            if a is not b and implies(a.a[1], b.a[1]) is True:
                k = land(k, lor(lnot(atom(a)), atom(b)))
    fs = {t.a[2] for g in gs if not isinstance(g, bool) for v in support(g) for t in subterms(v) if t.op == "first"}
    for a in ex:
        if a.a[1] in fs:
            at = lambda t: mk("first", t.op, t.a[0], a.a[1]) if t.op in ("elem", "idx", "has", "cpos") and t.a[1] == 0 else t if t.op == "ex" else None
            k = land(k, lor(lnot(atom(a)), subst_g(a.a[1], at)))
    for c in fs:
        e = exg(c) if isinstance(c, N) else None
        if e is not None:
            at = lambda t: mk("first", t.op, t.a[0], c) if t.op in ("elem", "idx", "has", "cpos") and t.a[1] == 0 else t if t.op == "ex" else None
            k = land(k, lor(lnot(e), subst_g(c, at)))
    for a in ex:
        for x in own_elems(a.a[1]):
            z = eqint(tlen(x), C(0))
            if isinstance(z, bool) or any(not isinstance(g, bool) and support(z) <= support(g) for g in gs):
                k = land(k, lor(lnot(atom(a)), lnot(z)))
    k = land(k, arith(gs + [k]))
    return land(k, residues(gs))


def exg(cc):
    """some iteration satisfies cc, where that can be said without one quantifier"""
    # an iteration past the end of a second list: one list is longer than the other
    for v in support(cc):
        if v.op != "lt0" or cofactor(cc, v, True) is not True:
            continue
        k, m = lin_of(v.a[0])
        ix = [x for x, q in m.items() if x.op == "idx" and x.a[-1] == 0 and q == -1]
        ln = [x for x, q in m.items() if x.op == "len" and q == 1]
        if k == -1 and len(m) == 2 and ix and ln:
            S, X = ix[0].a[0], ln[0].a[0]
            rest = cofactor(cc, v, False)
            if isinstance(rest, N):
                seen = own_elems(rest)
                for y in (S, X):
                    if y not in seen:
                        rest = land(rest, atom(mk("has", y, 0)))
                rest = atom(mk("ex", 0, rest))
            elif rest is True:
                continue
            return lor(lt(tlen(X), tlen(S)), rest)
    return None


def own_elems(g):
    """what the loop of this quantified condition walks over"""
    out, st = set(), list(support(g))
    seen = set()
    while st:
        t = st.pop()
        if t in seen or t.op == "ex":
            continue
        seen.add(t)
        if t.op in ("elem", "has", "idx") and t.a[-1] == 0 and isinstance(t.a[0], T):
            out.add(t.a[0])
        push_(t.a, st)
    return out


def push_(a, st):
    for y in a:
        if isinstance(y, T):
            st.append(y)
        elif isinstance(y, tuple):
            push_(y, st)


def arith(gs):
    """what holds between comparisons of one quantity with constants"""
    grp = {}
    for g in gs:
        if isinstance(g, bool):
            continue
        for v in support(g):
            if v.op in ("lt0", "eq0"):
                c, m = lin_of(v.a[0])
                grp.setdefault(frozenset(m.items()), set()).add((v.op, -c, v))
    k = True
    cl = {}
    for g in gs:
        if not isinstance(g, bool):
            for v in support(g):
                if v.op == "cls":
                    cl.setdefault(v.a[0], set()).add(v)
    for x, cs in cl.items():
        cs = sorted(cs, key=lambda v: v.a[1:])
        pts = [(b, v) for o, b, v in grp.get(frozenset([(x, 1)]), ()) if o == "eq0"]
        lts = [(b, v) for o, b, v in grp.get(frozenset([(x, 1)]), ()) if o == "lt0"]
        for i, v in enumerate(cs):
            for b, e in pts:
                k = land(k, lor(lnot(atom(e)), atom(v) if v.a[1] <= b <= v.a[2] else lnot(atom(v))))
            for b, e in lts:
                if b > v.a[2]:
                    k = land(k, lor(lnot(atom(v)), atom(e)))
                elif b <= v.a[1]:
                    k = land(k, lor(lnot(atom(v)), lnot(atom(e))))
            D, Z = {b: atom(e) for b, e in lts}, {b: atom(e) for b, e in pts}
            low = D.get(v.a[1], False if v.a[1] == 0 else Z.get(0) if v.a[1] == 1 else None)
            up = D.get(v.a[2] + 1)
            if low is not None and up is not None:
                m = land(lnot(low), up)
                k = land(k, lor(land(atom(v), m), land(lnot(atom(v)), lnot(m))))
            for w in cs[i + 1:]:
                if w.a[1] > v.a[2] or w.a[2] < v.a[1]:
                    k = land(k, lor(lnot(atom(v)), lnot(atom(w))))
                if w.a[1] <= v.a[1] and v.a[2] <= w.a[2]:
                    k = land(k, lor(lnot(atom(v)), atom(w)))
                if v.a[1] <= w.a[1] and w.a[2] <= v.a[2]:
                    k = land(k, lor(lnot(atom(w)), atom(v)))
    sup = set()
    for g in gs:
        if not isinstance(g, bool):
            sup |= set(support(g))
    for q, vs in grp.items():
        if len(q) == 1:
            (x, c), = q
            if c == 1 and x.op == "len" and x.a[0].op == "chars":
                z = eqint(tlen(x.a[0].a[0]), C(0))          # no bytes, no characters
                if isinstance(z, bool) or set(support(z)) <= sup:
                    for o, b, v in vs:
                        if b >= 1:
                            k = land(k, lor(lnot(z), atom(v) if o == "lt0" else lnot(atom(v))))
    for q, vs in grp.items():
        # a span between two bounds whose every point is compared with
        pts = {b: atom(v) for o, b, v in vs if o == "eq0"}
        lts = {b: atom(v) for o, b, v in vs if o == "lt0"}
        if len(q) == 1 and list(q)[0][1] == 1 and _vf._nonneg(list(q)[0][0]):
            lts.setdefault(0, False)
        for lo in lts:
            for hi in lts:
                if lo < hi <= lo + 6 and all(p in pts for p in range(lo, hi)):
                    k = land(k, disj(lts[lo], lnot(lts[hi]), *[pts[p] for p in range(lo, hi)]))
    for vs in grp.values():
        vs = sorted(vs, key=lambda x: (x[1], x[0], x[2].id))
        if len(vs) < 2 or len(vs) > 40:
            continue
        for i, (o1, b1, v1) in enumerate(vs):
            for o2, b2, v2 in vs[i + 1:]:
                x, y = atom(v1), atom(v2)
                if o1 == o2 == "lt0":
                    k = land(k, lor(lnot(x), y))                     # q<b1 => q<b2
                elif o1 == o2 == "eq0":
                    k = land(k, lor(lnot(x), lnot(y)))
                elif o1 == "eq0":
                    k = land(k, lor(lnot(x), y) if b1 < b2 else lor(lnot(x), lnot(y)))   # q==b1, q<b2
                else:
                    k = land(k, lor(lnot(x), lnot(y)))               # q<b1, q==b2 >= b1
    return k


def vrange(t):
    """known bounds of a quantity"""
    if t.op == "lvc" and len(t.a) == 3 and t.a[0].op == "c" and isinstance(t.a[0].a[0], int) and not isinstance(t.a[0].a[0], bool):
        lo = hi = t.a[0].a[0]
        for g, x in lifted(t.a[1]):
            if x.op == "lvc" and x.a[0] is t.a[0]:
                continue
            r = bounded(g, x)
            if r is None:
                return None
            lo, hi = min(lo, r[0]), max(hi, r[1])
        return lo, hi
    if t.op in ("index", "elem") and t.a[0].op == "filt":
        _, keep, val = t.a[0].a
    elif t.op in ("index", "elem") and t.a[0].op == "slice" and t.a[0].a[0].op == "filt":
        _, keep, val = t.a[0].a[0].a
    else:
        return None
    return bounded(to_g(keep), val)


def bounded(g, val):
    if val.op == "c" and isinstance(val.a[0], int):
        return val.a[0], val.a[0]
    if isinstance(g, bool):
        return None
    c, m = lin_of(val)
    if len(m) != 1 or list(m.values()) != [1]:
        return None
    e = list(m)[0]
    for v in support(g):
        if v.op == "cls" and v.a[0] is e and cofactor(g, v, False) is False:
            return v.a[1] + c, v.a[2] + c
    return None


class Skip(Exception):
    pass


def _vars(t, mod, out):
    """variables of an arithmetic term: name -> (moduli it is reduced by, or None when used directly)"""
    if t.op == "c":
        if not isinstance(t.a[0], int):
            raise Skip
        return
    if t.op == "lin":
        for x, _ in t.a[1]:
            _vars(x, mod, out)
        return
    if t.op == "mono":
        for x in t.a[0]:
            _vars(x, mod, out)
        return
    if t.op == "bin" and t.a[0] == "Rem" and t.a[2].op == "c" and t.a[2].a[0] > 0:
        _vars(t.a[1], mod + (t.a[2].a[0],), out)
        return
    if t.op == "mm":
        _vars(t.a[1], mod, out)
        _vars(t.a[2], mod, out)
        return
    if t.op == "cast" and t.a[0] in ("u8", "char"):
        _vars(t.a[1], (), out)
        return
    out.setdefault(t, []).append(mod[-1] if mod else None)


def _ev(t, env):
    if t.op == "c":
        return t.a[0]
    if t in env:
        return env[t]
    if t.op == "lin":
        return t.a[0] + sum(k * _ev(x, env) for x, k in t.a[1])
    if t.op == "mono":
        r = 1
        for x in t.a[0]:
            r *= _ev(x, env)
        return r
    if t.op == "bin":
        x, m = _ev(t.a[1], env), t.a[2].a[0]
        return x % m if x >= 0 else -(-x % m)
    if t.op == "mm":
        return (max if t.a[0] == "max" else min)(_ev(t.a[1], env), _ev(t.a[2], env))
    if t.op == "cast":
        return _ev(t.a[1], env) & 255 if t.a[0] == "u8" else _ev(t.a[1], env)
    raise Skip


def _atomev(v, env):
    if v.op == "eq0":
        return _ev(v.a[0], env) == 0
    if v.op == "lt0":
        return _ev(v.a[0], env) < 0
    if v.op == "eq":
        return _ev(v.a[0], env) == _ev(v.a[1], env)
    if v.op == "cls":
        return v.a[1] <= _ev(v.a[0], env) <= v.a[2]
    raise Skip


_res = {}


def residues(gs):
    """which combinations of comparisons of remainders are possible, by enumeration over residues and known ranges"""
    ats = set()
    for g in gs:
        if not isinstance(g, bool):
            ats |= {v for v in support(g) if v.op in ("eq0", "lt0", "eq", "cls")}
    info = {}
    for v in ats:
        vs = {}
        try:
            for x in v.a:
                if isinstance(x, T):
                    _vars(x, (), vs)
        except Skip:
            continue
        dom = {}
        for x, ms in vs.items():
            r = vrange(x)
            if r:
                dom[x] = r
            elif None in ms:
                dom = None
                break
            else:
                dom[x] = set(ms)
        if dom:
            info[v] = dom
    key = frozenset(info)
    if key in _res:
        return _res[key]
    k = True
    left = set(info)
    while left:
        grp = {left.pop()}
        names = set(info[next(iter(grp))])
        while True:
            more = {v for v in left if names & set(info[v])}
            if not more:
                break
            left -= more
            grp |= more
            for v in more:
                names |= set(info[v])
        if len(grp) < 2 and not any(x.op == "filt" for x in names) and False:
            continue
        rng = {}
        size = 1
        for x in names:
            r = vrange(x)
            if r:
                rng[x] = range(r[0], r[1] + 1)
            else:
                ms = set()
                for v in grp:
                    ms |= info[v].get(x, set())
                rng[x] = range(math.lcm(*ms))
            size *= len(rng[x])
        if size > 60000 or len(grp) > 14:
            continue
        order = sorted(grp, key=lambda v: v.id)
        xs = sorted(names, key=lambda v: v.id)
        seen = set()
        try:
            for vals in itertools.product(*[rng[x] for x in xs]):
                env = dict(zip(xs, vals))
                seen.add(tuple(_atomev(v, env) for v in order))
        except Skip:
            continue
        r = False
        for row in seen:
            c = True
            for v, b in zip(order, row):
                c = land(c, atom(v) if b else lnot(atom(v)))
            r = lor(r, c)
        k = land(k, r)
    _res[key] = k
    return k


def same_g(a, b):
    if a is b or a == b:
        return True
    k = constraints([a, b])
    return k is not True and land(a, k) is land(b, k)


def guards_in(t):
    return [n for n in _guards(t, set())]


def _guards(t, seen):
    if t in seen:
        return
    seen.add(t)
    for a in t.a:
        if isinstance(a, N):
            yield a
        elif isinstance(a, T):
            yield from _guards(a, seen)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    yield from _guards(x, seen)
                elif isinstance(x, N):
                    yield x


_same = {}


def same_t(a, b):
    if a is b:
        return True
    k = (a, b)
    if k not in _same:
        _same[k] = False
        _same[k] = same_t_(a, b)
    return _same[k]


def same_t_(a, b):
    va, vb = leaves(a), leaves(b)
    k = constraints([g for g in list(va.values()) + list(vb.values()) if not isinstance(g, bool)])
    A = {t: land(g, k) for t, g in va.items()}
    Bm = {t: land(g, k) for t, g in vb.items()}
    A = {t: g for t, g in A.items() if g is not False}
    Bm = {t: g for t, g in Bm.items() if g is not False}
    if set(A) == set(Bm) and all(A[t] is Bm[t] or A[t] == Bm[t] for t in A):
        return True
    if agree(A, Bm, k):
        return True
    if len(A) != len(Bm):
        A2, B2 = split_bools(A), split_bools(Bm)
        if len(A2) + len(B2) > len(A) + len(Bm) and set(A2) == set(B2) and all(A2[t] is B2[t] for t in A2):
            return True
    # congruence: same constructor, same parts
    if a.op == b.op and len(a.a) == len(b.a) and len(a.a) > 0 and a.op not in ("c", "p"):
        if all(same_x(x, y) for x, y in zip(a.a, b.a)):
            return True
    # leaves that differ only inside
    if len(A) == len(Bm):
        un = [t for t in A if t not in Bm]
        um = [t for t in Bm if t not in A]
        for x in list(un):
            for y in um:
                if A[x] is Bm[y] and x.op != "ite" and y.op != "ite" and same_t(x, y):
                    un.remove(x)
                    um.remove(y)
                    break
        return not un and not um and all(A[t] is Bm[t] for t in A if t in Bm)
    return False


def split_bools(A):
    """a truth value inside a result is two cases"""
    out = {}
    for t, g in A.items():
        for h, x in _bools(t):
            h = land(g, h)
            if h is not False:
                out[x] = lor(out.get(x, False), h)
    return out


def _bools(t):
    if t.op == "bool":
        return [(t.a[0], B(True)), (lnot(t.a[0]), B(False))]
    if t.op == "agg" and len(t.a) > 3:
        rows = [(True, ())]
        for x in t.a[3:]:
            xs = _bools(x) if isinstance(x, T) else [(True, x)]
            rows = [(land(g, h), y + (z,)) for g, y in rows for h, z in xs]
            if len(rows) > 64:
                return [(True, t)]
        return [(g, mk("agg", *t.a[:3], *y)) for g, y in rows] if len(rows) > 1 else [(True, t)]
    return [(True, t)]


FIELDS = {("None", "Some"): [[], ["0"]], ("Ok", "Err"): [["0"], ["0"]]}   # names of the variants of an enum -> fields of each


def eqv(x, y):
    """x == y, also when both are the same variant with equal fields"""
    r = eq_g(x, y)
    d = DOM.get(x)
    if d and d != BOOL and DOM.get(y) == d and tuple(d) in FIELDS:
        for n, fs in zip(d, FIELDS[tuple(d)]):
            r = lor(r, conj(is_var(x, n, d), is_var(y, n, d), *[eq_g(_vf.fld(x, n, f), _vf.fld(y, n, f)) for f in fs]))
    return r


def agree(A, Bm, k):
    """wherever both sides have a value, it is the same value"""
    if len(A) > 8 or len(Bm) > 8 or not any(x in DOM and DOM[x] != BOOL for x in list(A) + list(Bm)):
        return False
    for x, g in A.items():
        for y, h in Bm.items():
            c = land(land(g, h), k)
            if x is not y and c is not False and land(c, lnot(eqv(x, y))) is not False:
                return False
    return True


def same_x(x, y):
    if isinstance(x, T) and isinstance(y, T):
        return same_t(x, y)
    if isinstance(x, (N, bool)) and isinstance(y, (N, bool)):
        return same_g(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_x(p, q) for p, q in zip(x, y))
    return x == y


def tidy(t, bg=True):
    """nested conditionals as one list of cases, in a fixed order; only cases compatible with bg matter"""
    if t.op != "ite":
        return t
    ls = {x: ranges(g) for x, g in leaves(t).items()}
    k = land(bg, arith([g for g in list(ls.values()) + [bg]]))
    ls = {x: restrict(land(g, k), k) for x, g in ls.items() if land(g, k) is not False}
    L = sorted([(x, g) for x, g in ls.items() if g is not False], key=lambda x: x[0].id)
    if not L:
        return BOT
    r = L[-1][0]
    for x, g in reversed(L[:-1]):
        r = mk("ite", g, x, r)
    return r


def leaves(t, lim=200):
    """leaf values of nested conditionals (also those inside constructors) with their conditions, merged"""
    out = {}
    for g, leaf in lifted(t, lim):
        out[leaf] = lor(out.get(leaf, False), g)
    return eta(out)


def eta(out):
    """a variant rebuilt from the fields of a value that is that variant is the value itself"""
    cand = {}
    for leaf in out:
        if leaf.op == "agg" and leaf.a[1] and len(leaf.a) > 3:
            cs = {x.a[0] if x.op == "fld" and x.a[1] == leaf.a[1] and x.a[2] == n else None for n, x in zip(leaf.a[2], leaf.a[3:])}
            c = cs.pop() if len(cs) == 1 else None
            d = DOM.get(c) if c is not None else None
            if d and d != BOOL and leaf.a[1] in d and len(FIELDS.get(tuple(d), ())) == len(d):
                cand[c] = d
    if not cand:
        return out
    for c, d in sorted(cand.items(), key=lambda p: p[0].id):
        for leaf in sorted(out, key=lambda x: x.id):
            if leaf.op != "agg" or leaf.a[1] not in d or leaf is c:
                continue
            fs = FIELDS[tuple(d)][list(d).index(leaf.a[1])]
            if len(fs) != len(leaf.a) - 3 or any(x is not _vf.fld(c, leaf.a[1], n) for n, x in zip(leaf.a[2], leaf.a[3:])):
                continue
            w = is_var(c, leaf.a[1], d)
            g = land(out[leaf], w)
            if g is False:
                continue
            out[c] = lor(out.get(c, False), g)
            out[leaf] = land(out[leaf], lnot(w))
            if out[leaf] is False:
                del out[leaf]
    return out


def recat(parts):
    out = []
    for x in parts:
        for y in (x.a[0] if x.op == "cat" else (x,)):
            if y.op == "c" and y.a[0] == "":
                continue
            if out and out[-1].op == "c" and y.op == "c":
                out[-1] = C(out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    return out[0] if len(out) == 1 else mk("cat", tuple(out)) if out else C("")


_lift = {}


def lifted(t, lim=200):
    r = _lift.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        r = [(land(t.a[0], g), x) for g, x in lifted(t.a[1], lim)] + [(land(lnot(t.a[0]), g), x) for g, x in lifted(t.a[2], lim)]
    elif t.op == "agg" and len(t.a) > 3:
        rows = [(True, ())]
        for x in t.a[3:]:
            xs = lifted(x, lim) if isinstance(x, T) else [(True, x)]
            rows = [(land(g, g2), y + (v,)) for g, y in rows for g2, v in xs]
            rows = [(g, y) for g, y in rows if g is not False]
            if len(rows) > lim:
                rows = None
                break
        r = [(True, t)] if rows is None else [(g, mk("agg", *t.a[:3], *y)) for g, y in rows]
    elif t.op in ("cat", "push"):
        parts = t.a[0] if t.op == "cat" else t.a
        rows = [(True, ())]
        for x in parts:
            xs = lifted(x, lim)
            rows = [(land(g, g2), y + (v,)) for g, y in rows for g2, v in xs]
            rows = [(g, y) for g, y in rows if g is not False]
            if len(rows) > lim:
                rows = None
                break
        r = [(True, t)] if rows is None else [(g, recat(y) if t.op == "cat" else mk("push", *y)) for g, y in rows]
    else:
        r = [(True, t)]
    m = {}
    for g, x in r:
        if g is not False:
            m[x] = lor(m.get(x, False), g)
    r = [(g, x) for x, g in m.items()]
    _lift[t] = r
    return r


def explain(a, b, depth=0):
    """innermost difference between two canonical terms"""
    va, vb = leaves(a), leaves(b)
    if depth < 60 and (len(va) > 1 or len(vb) > 1 or a.op == "ite" or b.op == "ite"):
        k = constraints([g for g in list(va.values()) + list(vb.values()) if not isinstance(g, bool)])
        un = [t for t in va if land(va[t], k) is not False and not (t in vb and land(va[t], k) is land(vb[t], k))]
        um = [t for t in vb if land(vb[t], k) is not False and not (t in va and land(va[t], k) is land(vb[t], k))]
        for x in un:
            for y in um:
                if land(va[x], k) is land(vb[y], k) and x is not a and not same_t(x, y):
                    return explain(x, y, depth + 1)
        for x in un:
            return "`%s` when `%s`, expected when `%s`" % (show(x, 6)[:300], show_g(va[x], 7, 7)[:400], show_g(vb.get(x, False), 7, 7)[:400])
    if a.op == b.op and len(a.a) == len(b.a) and depth < 60:
        ds = [(x, y) for x, y in pairs(a.a, b.a) if not same_x(x, y)]
        if ds:
            x, y = ds[0]
            if isinstance(x, T) and isinstance(y, T):
                return explain(x, y, depth + 1)
            if isinstance(x, (N, bool)) and isinstance(y, (N, bool)):
                return "condition `%s`, expected `%s`" % (show_g(x, 7, 7)[:500], show_g(y, 7, 7)[:500])
    return "`%s`, expected `%s`" % (show(a, 8)[:500], show(b, 8)[:500])


def pairs(x, y):
    for p, q in zip(x, y):
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            yield from pairs(p, q)
        else:
            yield p, q


class Summary:
    def __init__(self, ctx, path, args, effects, mut, opaque, kinds, ident=(), heap=False, redirect=()):
        if isinstance(path, tuple):
            path = path[0]
        self.path = path
        if len(FIELDS) < 3:
            for a in ctx.F.adts.values():
                if a["kind"] == "Enum":
                    FIELDS.setdefault(tuple(v["n"] for v in a["variants"]), [[f["n"] for f in v["fields"]] for v in a["variants"]])
        opaque = tuple(opaque) + tuple(ident)
        op = (lambda p: any(norm(p).endswith("::" + o) for o in opaque)) if opaque else set()
        self.A, self.ret, self.st = ctx.analyse(path, list(args) if args is not None else None, opaque=op, redirect=redirect)
        self.c = Canon(self.A, ident)
        self.ret = self.A.deepval(self.st, self.ret)
        self.r = self.c.t(self.ret)
        self.m = {}
        for a in mut:
            v = self.st.get(("H", a), a)
            self.m[a] = self.c.t(v)
        self.h = {}
        for k, v in self.st.items() if heap else ():
            if k[0] == "H" and k[1] not in mut and v is not k[1]:
                self.h[self.c.t(k[1])] = self.c.t(v)
        self.eff = {}
        self.order = []
        for e in self.A.effects:
            if e.kind not in kinds:
                continue
            p = norm(e.path)
            hit = [s for s in effects if p == s or p.endswith("::" + s)]
            if not hit:
                continue
            key = (hit[0],) + tuple(self.c.t(x, e.loops) for x in e.args)
            g = self.c.g(e.guard, e.loops)
            if g is False:
                continue
            if key in self.eff:
                self.eff[key] = (lor(self.eff[key][0], g), self.eff[key][1])
            else:
                self.eff[key] = (g, e)
            self.order.append((key, g))
        self.panic = False
        for e in self.A.effects:
            if e.kind == "panic":
                self.panic = lor(self.panic, self.c.g(e.guard, e.loops))


def merged(ctx, name):
    """was a function of /repo, and is no longer there: its code is now part of its callers"""
    if not ctx.F.base or not any(norm(p).endswith("::" + name) for p in ctx.F.base["fns"]):
        return False
    return not any(norm(p).endswith("::" + name) for p in ctx.F.bodies if not p.startswith("sdsref::"))


def compare(ctx, key, path, refs, args=None, effects=("<apply>",), mut=(), opaque=(), kinds=("call",), ret=True, panics=False, order=False, post=None, params=None, refparams=None, ident=(), heap=False, redirect=(), split=(), decide=None):
    """the summary of /repo's function must equal the summary of one of the reference functions"""
    refs = [refs] if isinstance(refs, str) else list(refs)
    if path is None:
        ctx.obl(key + ":compared in its callers", True)
        return None
    opaque = [o for o in opaque if not merged(ctx, o)]
    got = Summary(ctx, path, args if params is None else params, effects, mut, opaque, kinds, ident, heap, redirect)
    fails = []
    for rn in refs:
        rp = [p for p in ctx.F.bodies if p.startswith("sdsref::") and (norm(p) == "sdsref::" + rn or norm(p).endswith("::" + rn))]
        rp = [p for p in rp if norm(p) == "sdsref::" + rn] or rp
        rp = [rn[1:]] if rn[0] == "=" else rp       # given in full
        assert len(rp) == 1, "reference %s: %s" % (rn, rp)
        ref = Summary(ctx, rp[0], args if refparams is None else refparams, effects, mut, opaque, kinds, ident, heap, redirect)
        assert not ret or ref.ret.op != "bot", "reference %s never returns" % rn
        f = diff(got, ref, ret, panics, order, post, split)
        if f and decide and all(x[0] == "result" for x in f):
            yes, why = decide(path, rp[0])
            if yes:
                ctx.notes.append("%s: compared as finite-state machines over characters: %s" % (key, why))
                f = []
            elif yes is False:
                f = [(p, w, "%s; the two differ on the text %r" % (m, why)) for p, w, m in f]
        if not f:
            for part in (["result when " + n for n, _ in split] if split else ["result"] if ret else []) + ["state %s" % show(a) for a in mut] + ["effect %s" % k[0] for k in ref.eff]:
                ctx.obl(key + ":" + part, True)
            return got
        fails.append(f)
    for part, where_, msg in fails[0]:
        ctx.obl(key + ":" + part, False, where_ or path, msg)
    return got


def differ(x, y, depth=6):
    """None if x and y are equal, else a case in which they differ; splits on the values of the outermost conditions"""
    if same_t(x, y):
        return None
    vs = []

    def top(t, d=0):
        if t.op == "ite" and not isinstance(t.a[0], bool):
            vs.append(t.a[0].v)
        elif t.op == "agg" and d < 6:
            for z in t.a[3:]:
                top(z, d + 1)
    top(x)
    top(y)
    vs = [v for v in vs if v in DOM]
    if not vs or depth == 0:
        return x, y
    v = min(vs, key=lambda v: v.id)
    for val in DOM[v]:
        g = atom(v, val, DOM[v])
        x2, y2 = constrained(x, g), constrained(y, g)
        if x2 is x and y2 is y:
            return x, y
        d = differ(x2, y2, depth - 1)
        if d:
            return d
    return None


def diff(got, ref, ret, panics, order, post, split=()):
    out = []
    px = post or (lambda x: x)
    if ret and split:
        # case by case: smaller terms, and a more specific report
        for n, g in split:
            x, y = constrained(px(got.r), g), constrained(px(ref.r), g)
            d = differ(x, y)
            if d:
                x, y = d
                out.append(("result when " + n, got.path, "result of %s when %s: %s" % (got.path, n, explain(x, y))))
    elif ret and not same_t(px(got.r), px(ref.r)):
        out.append(("result", got.path, "result of %s: %s" % (got.path, explain(got.r, ref.r))))
    for a in got.m:
        if not same_t(px(got.m[a]), px(ref.m[a])):
            out.append(("state " + show(a), got.path, "%s leaves `%s` as: %s" % (got.path, show(a), explain(got.m[a], ref.m[a]))))
    for a in set(got.h) | set(ref.h):
        x, y = px(got.h.get(a, a)), px(ref.h.get(a, a))
        if not same_t(x, y):
            out.append(("state", got.path, "%s leaves `%s` as: %s" % (got.path, show(a, 6)[:200], explain(x, y))))
    ge, re_ = dict(got.eff), dict(ref.eff)
    for k, (g, e) in list(re_.items()):
        if k in ge:
            if not same_g(ge[k][0], g):
                out.append(("effect " + k[0], "%s (%s)" % (ge[k][1].loc, ge[k][1].fn), "`%s(%s)` happens when `%s`, expected when `%s`" % (
                    k[0], ", ".join(show(x, 5) for x in k[1:])[:300], show_g(ge[k][0], 7)[:500], show_g(g, 7)[:500])))
            del ge[k], re_[k]
    for k, (g, e) in list(re_.items()):
        hit = [k2 for k2 in ge if k2[0] == k[0] and len(k2) == len(k) and same_g(ge[k2][0], g) and all(same_t(x, y) for x, y in zip(k[1:], k2[1:]))]
        if hit:
            del ge[hit[0]], re_[k]
    for k, (g, e) in re_.items():
        out.append(("effect " + k[0], got.path, "missing: `%s(%s)` when `%s`" % (k[0], ", ".join(show(x, 6) for x in k[1:])[:400], show_g(g, 6)[:400])))
    for k, (g, e) in ge.items():
        out.append(("effect " + k[0], "%s (%s)" % (e.loc, e.fn), "unexpected: `%s(%s)` when `%s`" % (k[0], ", ".join(show(x, 6) for x in k[1:])[:400], show_g(g, 6)[:400])))
    if order and not out:
        o1, o2 = (prec([x for x in o if order is True or x[0][0] in order]) for o in (got.order, ref.order))
        if o1 != o2:
            k = sorted(o1 ^ o2, key=str)[0]
            out.append(("order", got.path, "order of `%s` and `%s` differs" % (k[0][0] + str(k[0][1:]), k[1][0] + str(k[1][1:]))))
    if panics and not same_g(got.panic, ref.panic):
        out.append(("panic", got.path, "panics when `%s`, expected when `%s`" % (show_g(got.panic, 7)[:500], show_g(ref.panic, 7)[:500])))
    return out


def prec(seq):
    out = set()
    for i, (k1, g1) in enumerate(seq):
        for k2, g2 in seq[i + 1:]:
            if k1 != k2 and land(land(g1, g2), arith([g1, g2])) is not False:
                out.add((k1, k2))
    return out
