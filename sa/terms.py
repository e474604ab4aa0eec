"""Hash-consed value terms and multi-valued decision diagrams (guards)."""

# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "a", "id")
    _tab = {}

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(T._tab)
        T._tab[k] = t
    return t


BOT = mk("bot")
UNIT = mk("agg", "tuple", "", ())


def C(v):
    return mk("c", v)


def is_c(t):
    return t.op == "c"


# ---------------------------------------------------------------- MDD
# node: True / False / N(var T, children {value: node}); domains are fixed per variable.
class N:
    __slots__ = ("v", "ch", "id")
    _tab = {}


DOM = {}          # variable term -> tuple of values
BOOL = (False, True)


def var_dom(v, dom=BOOL):
    d = DOM.get(v)
    if d is None:
        DOM[v] = dom
        return dom
    if d != dom and set(d) != set(dom):
        raise AssertionError("two enum domains for one value %r: %s / %s" % (v, d, dom))
    return d


def node(v, ch):
    first = ch[0]
    if ch.count(first) == len(ch):
        return first
    k = (v, ch)
    n = N._tab.get(k)
    if n is None:
        n = N()
        n.v, n.ch, n.id = v, ch, len(N._tab)
        N._tab[k] = n
    return n


def atom(v, value=True, dom=BOOL):
    d = var_dom(v, dom)
    return node(v, tuple((x == value) for x in d))


_memo = {}


def _key(n):
    return n if isinstance(n, bool) else n.id


def ite(f, g, h):
    if f is True:
        return g
    if f is False:
        return h
    if g is h:
        return g
    if g is True and h is False:
        return f
    k = (f.id, _key(g) if not isinstance(g, bool) else ("b", g), _key(h) if not isinstance(h, bool) else ("b", h))
    r = _memo.get(k)
    if r is not None:
        return r[0]
    v = f.v
    for x in (g, h):
        if isinstance(x, N) and x.v.id < v.id:
            v = x.v
    n = len(DOM[v])
    ch = []
    if n > 8:
        fs = f.ch if f.v is v else (f,) * n
        gs = g.ch if isinstance(g, N) and g.v is v else (g,) * n
        hs = h.ch if isinstance(h, N) and h.v is v else (h,) * n
        near = {}
        for t in zip(fs, gs, hs):
            r = near.get(t)
            if r is None:
                r = near[t] = ite(*t)
            ch.append(r)
        r = node(v, tuple(ch))
        _memo[k] = (r,)
        return r
    for i in range(n):
        ff = f.ch[i] if f.v is v else f
        gg = g.ch[i] if isinstance(g, N) and g.v is v else g
        hh = h.ch[i] if isinstance(h, N) and h.v is v else h
        ch.append(ite(ff, gg, hh))
    r = node(v, tuple(ch))
    _memo[k] = (r,)
    return r


def land(a, b):
    return ite(a, b, False)


def lor(a, b):
    return ite(a, True, b)


def lnot(a):
    return ite(a, False, True)


def conj(*xs):
    r = True
    for x in xs:
        r = land(r, x)
    return r


def disj(*xs):
    r = False
    for x in xs:
        r = lor(r, x)
    return r


def implies(a, b):
    return land(a, lnot(b)) is False


_rmemo = {}


def restrict(f, care):
    """simplify f using the care set (f agrees with the result wherever care holds)"""
    if care is True or isinstance(f, bool):
        return f
    if care is False:
        return f
    k = (f.id, care.id)
    r = _rmemo.get(k)
    if r is not None:
        return r[0]
    if care.v.id < f.v.id:
        c = False
        for x in care.ch:
            c = lor(c, x)
        r = restrict(f, c)
    else:
        v = f.v
        cch = care.ch if care.v is v else tuple(care for _ in DOM[v])
        live = [restrict(fc, cc) for fc, cc in zip(f.ch, cch) if cc is not False]
        if live and all(x is live[0] for x in live):
            r = live[0]
        else:
            filler = live[0]
            it = iter(live)
            r = node(v, tuple(next(it) if cc is not False else filler for cc in cch))
    _rmemo[k] = (r,)
    return r


def cofactor(f, v, value):
    k, memo = None, {}

    def go(f):
        nonlocal k
        if isinstance(f, bool):
            return f
        if f.v is v:
            if k is None:
                k = DOM[v].index(value)
            return f.ch[k]
        if f.v.id > v.id:
            return f
        r = memo.get(f)
        if r is None:
            r = memo[f] = node(f.v, tuple(go(c) for c in f.ch))
        return r
    return go(f)


def exists(f, pred):
    """quantify away every variable for which pred(var) holds"""
    memo = {}

    def go(f):
        if isinstance(f, bool):
            return f
        r = memo.get(f)
        if r is None:
            ch = [go(c) for c in f.ch]
            if pred(f.v):
                r = disj(*ch)
            else:
                # children may now start above f.v only if order kept, which it is
                r = False
                for val, c in zip(DOM[f.v], ch):
                    r = lor(r, land(atom(f.v, val, DOM[f.v]), c))
            memo[f] = r
        return r
    return go(f)


def support(f):
    out, st = set(), [f]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, bool) or x.id in seen:
            continue
        seen.add(x.id)
        out.add(x.v)
        st.extend(set(x.ch) if len(x.ch) > 8 else x.ch)
    return out


def paths(f, lim=64):
    """cubes of f as lists of (var, set(values)); for printing and rule matching"""
    out = []

    def go(n, acc):
        if n is False or len(out) >= lim:
            return
        if n is True:
            out.append(list(acc))
            return
        groups = {}
        for val, c in zip(DOM[n.v], n.ch):
            groups.setdefault(_key(c) if not isinstance(c, bool) else ("b", c), [c, []])[1].append(val)
        for c, vals in groups.values():
            go(c, acc + [(n.v, tuple(vals))])
    go(f, [])
    return out


def mapvars(f, fn, setfn=None):
    """rebuild f with every variable atom replaced by fn(var, value) -> node; setfn(var, values): the same for a set of values"""
    memo = {}

    def go(f):
        if isinstance(f, bool):
            return f
        r = memo.get(f)
        if r is None:
            r = False
            if setfn is not None and len(f.ch) > 8:
                by = {}
                for val, c in zip(DOM[f.v], f.ch):
                    if c is not False:
                        by.setdefault(c, set()).add(val)
                for c, vals in by.items():
                    r = lor(r, land(setfn(f.v, vals), go(c)))
            else:
                for val, c in zip(DOM[f.v], f.ch):
                    if c is False:
                        continue
                    r = lor(r, land(fn(f.v, val), go(c)))
            memo[f] = r
        return r
    return go(f)


# ---------------------------------------------------------------- printing
def show_g(g, lim=12, depth=9):
    if depth <= 0:
        return "…"
    if g is True:
        return "true"
    if g is False:
        return "false"
    cubes = paths(g, lim + 1)
    parts = []
    for c in cubes[:lim]:
        lits = []
        for v, vals in c:
            d = DOM[v]
            if d == BOOL:
                lits.append(("" if vals == (True,) else "!") + show(v, depth - 1))
            elif len(vals) * 2 > len(d):
                lits.append("%s not in {%s}" % (show(v, depth - 1), ",".join(str(x) for x in d if x not in vals)))
            else:
                lits.append("%s is %s" % (show(v, depth - 1), "|".join(map(str, vals))))
        parts.append(" & ".join(lits))
    if len(cubes) > lim:
        parts.append("...")
    return " || ".join("(%s)" % p for p in parts) if len(parts) > 1 else parts[0]


def short(p):
    import re
    return re.sub(r"[A-Za-z0-9_]+::(?=[A-Za-z0-9_<{])", "", p) if isinstance(p, str) else str(p)


def show(t, depth=9):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.a
    if o == "c":
        return repr(a[0])
    if o == "p":
        return a[0]
    if o == "bot":
        return "⊥"
    if o == "bool":
        return "{" + show_g(a[0], 4, depth - 2) + "}"
    if o == "agg":
        adt, var, names = a[0], a[1], a[2]
        vals = a[3:]
        if adt == "tuple":
            return "(" + ", ".join(map(s, vals)) + ")"
        if adt in ("array", "vec"):
            return adt + "[" + ", ".join(map(s, vals)) + "]"
        nm = short(adt) + ("::" + var if var else "")
        return nm + ("{" + ", ".join("%s:%s" % (n, s(v)) for n, v in zip(names, vals)) + "}" if vals else "")
    if o == "closure":
        return "closure<%s>" % short(a[0])
    if o == "fld":
        return "%s.%s%s" % (s(a[0]), (a[1] + ".") if a[1] else "", a[2])
    if o == "ref":
        return "&" + showplace(a[0], a[1], depth)
    if o == "upd":
        return "%s{%s}" % (s(a[0]), ", ".join("%s:=%s" % (".".join(filter(None, k)), s(v)) for k, v in a[1]))
    if o == "ite":
        return "if %s then %s else %s" % (show_g(a[0], 4, depth - 2), s(a[1]), s(a[2]))
    if o == "lin":
        parts = []
        for x, k in a[1]:
            parts.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + s(x))
        if a[0] or not parts:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts) + ")"
    if o == "lt0":
        return "%s<0" % s(a[0])
    if o == "eq0":
        return "%s==0" % s(a[0])
    if o == "lv":
        return "lv%s@%s" % ("".join("." + str(k[1]) for k in a[2]) if a[2] else "", _rootname(a[1]))
    if o in ("elem", "idx", "has"):
        return "%s(%s)" % (o, s(a[0]))
    if o == "ex":
        return "∃{%s}" % show_g(a[1], 4, depth - 2)
    if o == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(map(s, a[1])))
    if o == "after":
        return "%s!(%s)" % (short(a[0]), ", ".join(map(s, a[1])))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else short(str(x)) for x in a))


def _rootname(r):
    return "%s%s" % (r[0], r[2] if r[0] == "L" else show(r[1], 3))


def showplace(root, projs, depth=5):
    r = "_%s" % root[2] if root[0] == "L" else "*" + show(root[1], depth - 1)
    return r + "".join("." + str(k[1] if isinstance(k, tuple) else k) for k in projs)


# ---------------------------------------------------------------- walking
def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        _push(x.a, st)


def _push(a, st):
    for y in a:
        if isinstance(y, T):
            st.append(y)
        elif isinstance(y, N):
            st.extend(support(y))
        elif isinstance(y, tuple):
            _push(y, st)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))
