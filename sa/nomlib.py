"""Meaning of the nom combinators (version 7, complete input) on symbolic input.

An input is a record {value, depth}; its text is a term, and what the text starts with is decided by multi-valued
variables ch(text, k) - the k-th character: one of the ASCII characters, "other", or "end". A parser applied to an
input is worked out case by case; repetition (many0, separated_list1) is a term over the summary of the repeated parser."""
import re
from .terms import *
from .std import on, V, EMPTYVEC, vecpush

DOMCH = tuple(chr(i) for i in range(128)) + ("other", "end")
NERR = "nom::internal::Err"
NERR_VS = ("Incomplete", "Error", "Failure")
MAKERS = {}


def makers():
    m = {}
    for mod, names in {
        "branch": "alt", "bytes::complete": "tag take_until is_a is_not take_while take_while1 take",
        "character::complete": "one_of none_of char satisfy",
        "combinator": "map opt recognize value verify cut peek not map_res map_opt all_consuming complete success into",
        "multi": "many0 many1 many_m_n separated_list1 separated_list0 fold_many0 count many0_count",
        "sequence": "delimited tuple preceded terminated pair separated_pair",
    }.items():
        for n in names.split():
            m["nom::%s::%s" % (mod, n)] = n
    for n in ("eof", "rest"):
        m["nom::combinator::" + n] = "!" + n
    for n in ("digit1", "digit0", "alpha1", "anychar", "hex_digit1", "alphanumeric1"):
        m["nom::character::complete::" + n] = "!" + n
    return m


for _p, _n in makers().items():
    if _n[0] != "!":
        def _h(vf, fr, b, fn, a, tys, g, st, loc, _n=_n):
            return mk("nom", _n, *[vf.val(st, x) if x.op == "ref" else x for x in a])
        on(_p)(_h)
    else:
        def _h2(vf, fr, b, fn, a, tys, g, st, loc, _n=_n[1:]):
            return run(vf, fr, b, mk("nom", _n), a[0], g, st, loc)
        on(_p)(_h2)


@on("nom::internal::Parser::parse")
def _parse(vf, fr, b, fn, a, tys, g, st, loc):
    return vf.apply(fr, (b, "parse"), a[0], [a[1]], g, st, loc)


for _n in ("map", "and", "or"):
    def _pm(vf, fr, b, fn, a, tys, g, st, loc, _n=_n):
        x = [vf.val(st, y) if y.op == "ref" else y for y in a]
        if _n == "or":
            return mk("nom", "alt", V().tup(*x))
        return mk("nom", {"map": "map", "and": "pair"}[_n], *x)
    on("nom::internal::Parser::" + _n)(_pm)


# ------------------------------------------------------------------ texts
def lift(t, f):
    return V().merge(t.a[0], lift(t.a[1], f), lift(t.a[2], f)) if t.op == "ite" else f(t)


def skip(v, n):
    """the text after its first n characters"""
    if n == 0:
        return v
    if v.op == "ite":
        return lift(v, lambda x: skip(x, n))
    if v.op == "skip":
        return mk("skip", v.a[0], v.a[1] + n)
    if v.op == "c" and isinstance(v.a[0], str):
        return C(v.a[0][n:])
    return mk("skip", v, n)


def at(v, k, ok):
    """guard: the k-th character of the text is one of `ok` (a set of domain values)"""
    if v.op == "ite":
        return ite(v.a[0], at(v.a[1], k, ok), at(v.a[2], k, ok))
    if v.op == "skip":
        return at(v.a[0], v.a[1] + k, ok)
    if v.op == "bot":
        return False
    c = None
    if v.op == "from" and k < len(v.a[1]):
        c = v.a[1][k]
    if v.op == "c" and isinstance(v.a[0], str):
        c = v.a[0][k] if k < len(v.a[0]) else "end"
    if c is not None:
        return (c if c == "end" or ord(c) < 128 else "other") in ok
    t = mk("ch", v, k)
    r = False
    var_dom(t, DOMCH)
    return node(t, tuple(x in ok for x in DOMCH))


def starts(v, s):
    g = True
    for k, c in enumerate(s):
        if ord(c) >= 128:
            g = land(g, land(at(v, k, {"other"}), atom(mk("nonascii", v, k, c))))
        else:
            g = land(g, at(v, k, {c}))
    return g


def upto(v, r):
    """the text of v before r, which is what is left of it"""
    if v.op == "ite":
        return V().merge(v.a[0], upto(v.a[1], r), upto(v.a[2], r))
    if r.op == "ite":
        return V().merge(r.a[0], upto(v, r.a[1]), upto(v, r.a[2]))
    if v is r:
        return C("")
    if r.op == "from" and r.a[0] is v:
        return mk("before", v, r.a[1])
    if r.op == "skipw" and r.a[1] is v:
        return mk("takew", r.a[0], v)
    base, n = (v.a[0], v.a[1]) if v.op == "skip" else (v, 0)
    if r.op == "skip" and r.a[0] is base and r.a[1] >= n:
        return mk("firstn", v, r.a[1] - n)
    return mk("upto", v, r)


# ------------------------------------------------------------------ results
def inp(i):
    m = V()
    return m.fld(i, "", "value"), m.fld(i, "", "depth")


def mkin(i, v):
    if i.op == "ite":
        return V().merge(i.a[0], mkin(i.a[1], v), mkin(i.a[2], v))
    return mk("agg", adt(i), "", ("value", "depth"), v, inp(i)[1])


def adt(i):
    return i.a[0] if i.op == "agg" else "Input"


def syntax():
    return V().Err(mk("agg", NERR, "Error", ("0",), mk("agg", "ParseError", "InvalidSyntax", ())))


def ok(i, rest, x):
    m = V()
    return m.Ok(m.tup(mkin(i, rest), x))


def split(r):
    """(succeeded, (rest, out), error, recoverable)"""
    m = V()
    k = m.is_var(r, "Ok", m.RES_VS)
    p = m.fld(r, "Ok", "0")
    e = m.fld(r, "Err", "0")
    rec = land(lnot(k), m.is_var(e, "Error", NERR_VS)) if e is not BOT else False
    return k, (m.fld(p, "", "0"), m.fld(p, "", "1")), e, rec


def outcome(vf, c, i, path):
    """the result of a parser that is not looked into: success with some rest at the same depth, a syntax error, or a failure"""
    m = V()
    if i.op == "ite" and len(m.variants(i)) <= 16:
        return m.merge(i.a[0], outcome(vf, with_arg(c, i.a[1]), i.a[1], path), outcome(vf, with_arg(c, i.a[2]), i.a[2], path))
    v, d = inp(i)
    if v.op == "ite" and len(m.variants(v)) <= 16:
        return lift(v, lambda x: outcome(vf, with_arg(c, mkin(i, x)), mkin(i, x), path))
    c = mk("call", m.norm(path).split("::")[-1], (v, d) + tuple(c.a[1][1:]), None)
    good = ok(i, mk("rest", c), mk("out", c))
    bad = m.Err(mk("agg", NERR, "Failure", ("0",), mk("perr", c)))
    r = m.merge(atom(mk("pok", c)), good, m.merge(atom(mk("pfail", c)), bad, syntax()))
    return m.merge(possible(c.a[0], v, d), r, syntax())


def with_arg(c, i):
    return mk("call", c.a[0], (i,) + tuple(c.a[1][1:]), None)


def is_parser(body, at=1):
    return body is not None and "nom::internal::Err<" in body["locals"][0] and body["locals"][0].startswith("core::result::Result<(") and body["argc"] >= at and "Input<" in body["locals"][at]


CONSUMES = set()    # parsers that take at least one character when they succeed
FIRST = {}      # parser that is not looked into -> (guard, text, depth): where it can succeed or fail for good


def possible(name, v, d):
    f = FIRST.get(name)
    if f is None:
        return True
    g, v0, d0 = f
    m = V()
    dsub = lambda t: m.subst(t, lambda x: d if x is d0 else None)

    def setfn(w, vals):
        if w.op == "ch":
            return at(v, w.a[1], vals)
        return disj(*[fn(w, x) for x in vals])

    def fn(w, val):
        if w.op == "ch":
            return at(v, w.a[1], {val})
        return m.substg(atom(w, val, DOM[w]), dsub)
    return mapvars(g, fn, setfn)


def first(r, v0, d0):
    """where the result r (on the text v0 at depth d0) is not a plain syntax error, as far as the first two characters and the depth tell"""
    k, p, e, rec = split(r)
    keep = lambda w: w.op == "ch" and w.a[0] is v0 and w.a[1] < 2 or not contains(w, lambda x: x.op == "p" and x is not d0)
    takes = land(k, lnot(consumes(V().fld(p[0], "", "value"), v0))) is False
    return (exists(lnot(rec), lambda w: not keep(w)), v0, d0), takes


# ------------------------------------------------------------------ running
LEVEL = [0]


def summary(vf, fr, b, p, g, st, loc):
    """what the parser p does to any input"""
    n = LEVEL[0]
    i = mk("agg", "Input", "", ("value", "depth"), mk("p", "\u03bbv%d" % n), mk("p", "\u03bbd%d" % n))
    LEVEL[0] += 1
    k = len(vf.effects)
    try:
        r = call(vf, fr, (b, "sum"), p, i, True, dict(st), loc)
    finally:
        LEVEL[0] -= 1
    for e in vf.effects[k:]:
        e.guard = land(g, e.guard)
    if r is None:
        return None
    return vf.deepval(r[1], r[0]), i


def call(vf, fr, b, p, i, g, st, loc):
    if g is False:
        return syntax(), st, g
    return vf.apply(fr, b, p, [i], g, st, loc)


def repeated(vf, fr, b, p, i, g, st, loc, kind, extra=()):
    m = V()
    s = summary(vf, fr, b, p, g, st, loc)
    if s is None:
        return None
    r, li = s
    k, (rest, out), e, rec = split(r)
    v, d = inp(i)
    lv = inp(li)[0]
    if kind == "many" and m.fld(rest, "", "value") is skip(lv, 1) and out is chval(lv, 0) and m.fld(rest, "", "depth") is inp(li)[1]:
        cs = "".join(x for x in DOMCH if len(x) == 1 and implies(at(lv, 0, {x}), k))
        if at(lv, 0, set(cs)) is k and land(lnot(k), lnot(rec)) is False:
            return lift(v, lambda v: ok(i, mk("skipw", cs, v), mk("vecof", mk("chars", mk("takew", cs, v)))))

    def one(v):
        t = mk(kind, r, v, d, *extra)
        res = ok(i, mk("mrest", t), mk("mout", t))
        rv = m.fld(rest, "", "value")
        if kind == "many" and land(k, lnot(consumes(rv, lv))) is not False:
            res = m.merge(atom(mk("mstuck", t)), syntax(), res)
        if land(lnot(k), lnot(rec)) is not False:
            res = m.merge(atom(mk("mfail", t)), m.Err(mk("agg", NERR, "Failure", ("0",), mk("merr", t))), res)
        return res
    return lift(v, one)


def consumes(rest, v):
    """guard: the rest (of the text v) is shorter than v"""
    if rest.op == "ite":
        return ite(rest.a[0], consumes(rest.a[1], v), consumes(rest.a[2], v))
    if rest.op == "skip" or rest.op == "bot":
        return True
    if rest.op == "rest":
        c = rest.a[0]
        return True if c.a[0] in CONSUMES else consumes(c.a[1][0], v)
    if rest.op == "from":
        return consumes(rest.a[0], v)
    if rest.op == "skipw":
        return lor(at(rest.a[1], 0, set(rest.a[0])), consumes(rest.a[1], v))
    if rest.op == "mrest":
        return consumes(rest.a[0].a[1], v)
    return False


def run(vf, fr, b, p, i, g, st, loc):
    m = V()
    i = vf.deepval(st, i)
    kind, a = p.a[0], p.a[1:]
    v, d = inp(i)
    f = RUN.get(kind)
    if f is None:
        return NotImplemented
    r = f(vf, fr, b, a, i, v, g, st, loc)
    if r is NotImplemented or r is None:
        return r
    return (r, st, g) if isinstance(r, T) else r


RUN = {}


def comb(*names):
    def deco(f):
        for n in names:
            RUN[n] = f
        return f
    return deco


def text(t):
    """the characters a list argument names"""
    if t.op == "c" and isinstance(t.a[0], str):
        return set(t.a[0])
    if t.op == "agg" and t.a[0] in ("array", "vec") and all(x.op == "c" and isinstance(x.a[0], int) for x in t.a[3:]):
        return {chr(x.a[0]) for x in t.a[3:]}
    return None


def chval(v, k=0):
    """the k-th character as a value"""
    if v.op == "ite":
        return lift(v, lambda x: chval(x, k))
    if v.op == "skip":
        return chval(v.a[0], v.a[1] + k)
    if v.op == "from" and k < len(v.a[1]):
        return C(ord(v.a[1][k]))
    if v.op == "c" and isinstance(v.a[0], str) and k < len(v.a[0]):
        return C(ord(v.a[0][k]))
    return mk("chr", v, k)


@comb("tag")
def _tag(vf, fr, b, a, i, v, g, st, loc):
    if a[0].op != "c" or not isinstance(a[0].a[0], str):
        return NotImplemented
    s = a[0].a[0]
    return V().merge(starts(v, s), ok(i, skip(v, len(s)), mkin(i, C(s))), syntax())


def onechar(i, v, good):
    return V().merge(at(v, 0, good), ok(i, skip(v, 1), chval(v)), syntax())


@comb("one_of", "none_of", "char", "anychar")
def _oneof(vf, fr, b, a, i, v, g, st, loc, kind=None):
    return NotImplemented


def _reg(kind):
    @comb(kind)
    def f(vf, fr, b, a, i, v, g, st, loc):
        if kind == "anychar":
            cs = set()
        elif kind == "char":
            cs = {chr(a[0].a[0])} if a[0].op == "c" else None
        else:
            cs = text(vf.deepval(st, a[0]))
        if cs is None or any(ord(c) >= 128 for c in cs):
            return NotImplemented
        good = cs if kind in ("one_of", "char") else set(DOMCH) - cs - {"end"}
        return onechar(i, v, good)


for _k in ("one_of", "none_of", "char", "anychar"):
    _reg(_k)


PROBES = (0x80, 0xE9, 0x3A9, 0x661, 0x2028, 0x3000, 0x4E2D, 0x1F600, 0x10FFFF)


def charset(vf, fr, b, p, g, st, loc):
    """the domain values a predicate on characters holds for; None when that cannot be told"""
    m = V()

    def ask(n):
        r = vf.apply(fr, (b, n), p, [C(n)], True, dict(st), loc)
        x = m.to_g(r[0]) if r is not None else None
        return x if isinstance(x, bool) else None
    k = len(vf.effects)
    out = set()
    for n in list(range(128)):
        x = ask(n)
        if x is None:
            return None
        if x:
            out.add(chr(n))
    far = {ask(n) for n in PROBES}
    del vf.effects[k:]
    if len(far) != 1 or None in far:
        return None
    return out | ({"other"} if True in far else set())


@comb("satisfy")
def _satisfy(vf, fr, b, a, i, v, g, st, loc):
    cs = charset(vf, fr, b, a[0], g, st, loc)
    return NotImplemented if cs is None else onechar(i, v, cs)


def _tw(kind):
    @comb(kind)
    def f(vf, fr, b, a, i, v, g, st, loc):
        cs = charset(vf, fr, b, a[0], g, st, loc)
        return NotImplemented if cs is None or "other" in cs else spanning(i, v, members(cs), kind.endswith("1"))


_tw("take_while")
_tw("take_while1")


def spanning(i, v, cs, least):
    """the longest run of characters of the set"""
    def one(v):
        r = ok(i, mk("skipw", cs, v), mkin(i, mk("takew", cs, v)))
        return V().merge(at(v, 0, set(cs)), r, syntax()) if least else r
    return lift(v, one)


def members(cs):
    return "".join(sorted(cs))


def _cls(kind, cs, least):
    cs = members(cs)

    @comb(kind)
    def f(vf, fr, b, a, i, v, g, st, loc):
        return spanning(i, v, cs, least)


def _isa(kind):
    @comb(kind)
    def f(vf, fr, b, a, i, v, g, st, loc):
        cs = text(vf.deepval(st, a[0]))
        if cs is None or any(ord(c) >= 128 for c in cs):
            return NotImplemented
        return spanning(i, v, members(cs), 1)


_isa("is_a")
_cls("digit1", "0123456789", 1)
_cls("digit0", "0123456789", 0)
_cls("hex_digit1", "0123456789abcdefABCDEF", 1)


@comb("eof")
def _eof(vf, fr, b, a, i, v, g, st, loc):
    return V().merge(at(v, 0, {"end"}), ok(i, v, i), syntax())


@comb("take_until")
def _tu(vf, fr, b, a, i, v, g, st, loc):
    if a[0].op != "c" or not isinstance(a[0].a[0], str):
        return NotImplemented
    s = a[0].a[0]
    return lift(v, lambda x: V().merge(atom(mk("finds", x, s)), ok(i, mk("from", x, s), mkin(i, mk("before", x, s))), syntax()))


@comb("map")
def _map(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
    if r is None:
        return None
    k, (rest, out), e, rec = split(r[0])
    if k is False:
        return r
    if land(g, k) is False:
        return m.merge(k, m.Ok(m.tup(rest, BOT)), m.Err(e)), r[1], g
    f = vf.apply(fr, (b, 1), a[1], [out], land(g, k), r[1], loc)
    if f is None:
        return None
    return m.merge(k, m.Ok(m.tup(rest, f[0])), m.Err(e)), f[1], g


@comb("value")
def _value(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[1], i, g, st, loc)
    if r is None:
        return None
    k, (rest, out), e, rec = split(r[0])
    return m.merge(k, m.Ok(m.tup(rest, a[0])), m.Err(e)), r[1], g


@comb("verify", "map_opt", "map_res")
def _v(vf, fr, b, a, i, v, g, st, loc):
    return NotImplemented


def _filter(kind):
    @comb(kind)
    def f(vf, fr, b, a, i, v, g, st, loc):
        m = V()
        r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
        if r is None:
            return None
        k, (rest, out), e, rec = split(r[0])
        st = r[1]
        if land(g, k) is False:
            return syntax(), st, g
        arg = out
        if kind == "verify":
            root = ("L", fr.fid, ("vfy", b))
            st[root] = out
            arg = mk("ref", root, (), False)
        f = vf.apply(fr, (b, 1), a[1], [arg], land(g, k), st, loc)
        if f is None:
            return None
        x = f[0]
        if kind == "verify":
            good, y = m.to_g(x), out
        elif kind == "map_opt":
            good, y = m.is_var(x, "Some", m.OPT_VS), m.fld(x, "Some", "0")
        else:
            good, y = m.is_var(x, "Ok", m.RES_VS), m.fld(x, "Ok", "0")
        return m.merge(k, m.merge(good, m.Ok(m.tup(rest, y)), syntax()), m.Err(e)), f[1], g


for _k in ("verify", "map_opt", "map_res"):
    _filter(_k)


@comb("opt")
def _opt(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
    if r is None:
        return None
    k, (rest, out), e, rec = split(r[0])
    return m.merge(k, m.Ok(m.tup(rest, m.Some(out))), m.merge(rec, m.Ok(m.tup(i, m.NONE)), m.Err(e))), r[1], g


@comb("cut")
def _cut(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
    if r is None:
        return None
    k, p, e, rec = split(r[0])
    f = m.Err(mk("agg", NERR, "Failure", ("0",), m.fld(e, "Error", "0")))
    return m.merge(rec, f, r[0]), r[1], g


@comb("peek")
def _peek(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
    if r is None:
        return None
    k, (rest, out), e, rec = split(r[0])
    return m.merge(k, m.Ok(m.tup(i, out)), m.Err(e)), r[1], g


@comb("not")
def _not(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
    if r is None:
        return None
    k, p, e, rec = split(r[0])
    return m.merge(k, syntax(), m.merge(rec, m.Ok(m.tup(i, m.tup())), m.Err(e))), r[1], g


@comb("recognize")
def _rec(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, st, loc)
    if r is None:
        return None
    k, (rest, out), e, rec = split(r[0])
    if k is False:
        return r
    return m.merge(k, m.Ok(m.tup(rest, mkin(i, upto(v, m.fld(rest, "", "value"))))), m.Err(e)), r[1], g


@comb("all_consuming")
def _ac(vf, fr, b, a, i, v, g, st, loc):
    return seq(vf, fr, b, [a[0], mk("nom", "eof")], i, g, st, loc, lambda xs: xs[0])


@comb("complete")
def _compl(vf, fr, b, a, i, v, g, st, loc):
    return call(vf, fr, (b, 0), a[0], i, g, st, loc)


@comb("success")
def _succ(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    return m.Ok(m.tup(i, a[0]))


@comb("alt")
def _alt(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    ps = a[0].a[3:] if a[0].op == "agg" else None
    if ps is None:
        return NotImplemented
    res, todo = None, True
    for n, p in enumerate(ps):
        r = call(vf, fr, (b, n), p, i, land(g, todo), st, loc)
        if r is None:
            return None
        st = r[1]
        res = r[0] if res is None else m.merge(todo, r[0], res)
        todo = land(todo, split(r[0])[3])
        if todo is False:
            break
    return res, st, g


def seq(vf, fr, b, ps, i, g, st, loc, pick):
    m = V()
    acc, res, live = [], None, True
    cur = i
    fails = []
    for n, p in enumerate(ps):
        r = call(vf, fr, (b, n), p, cur, land(g, live), st, loc)
        if r is None:
            return None
        st = r[1]
        k, (rest, out), e, rec = split(r[0])
        if e is not BOT and k is not True:
            fails.append((land(live, lnot(k)), m.Err(e)))
        live = land(live, k)
        if live is False:
            break
        cur = rest
        acc.append(out)
    res = m.Ok(m.tup(cur, pick(acc))) if live is not False else BOT
    for c, x in fails:
        res = m.merge(c, x, res) if res is not BOT else x
    return res, st, g


@comb("tuple")
def _tuple(vf, fr, b, a, i, v, g, st, loc):
    if a[0].op != "agg":
        return NotImplemented
    return seq(vf, fr, b, a[0].a[3:], i, g, st, loc, lambda xs: V().tup(*xs))


@comb("delimited")
def _delim(vf, fr, b, a, i, v, g, st, loc):
    return seq(vf, fr, b, a, i, g, st, loc, lambda xs: xs[1])


@comb("preceded")
def _prec(vf, fr, b, a, i, v, g, st, loc):
    return seq(vf, fr, b, a, i, g, st, loc, lambda xs: xs[1])


@comb("terminated")
def _term(vf, fr, b, a, i, v, g, st, loc):
    return seq(vf, fr, b, a, i, g, st, loc, lambda xs: xs[0])


@comb("pair")
def _pair(vf, fr, b, a, i, v, g, st, loc):
    return seq(vf, fr, b, a, i, g, st, loc, lambda xs: V().tup(*xs))


@comb("separated_pair")
def _sepair(vf, fr, b, a, i, v, g, st, loc):
    return seq(vf, fr, b, a, i, g, st, loc, lambda xs: V().tup(xs[0], xs[2]))


@comb("many0")
def _many0(vf, fr, b, a, i, v, g, st, loc):
    r = repeated(vf, fr, (b, 1), a[0], i, g, st, loc, "many")
    return None if r is None else (r, st, g)


@comb("many1")
def _many1(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    r = call(vf, fr, (b, 0), a[0], i, g, dict(st), loc)
    if r is None:
        return None
    k, p, e, rec = split(r[0])
    x = repeated(vf, fr, (b, 1), a[0], i, land(g, k), st, loc, "many")
    if x is None:
        return None
    return m.merge(k, x, m.Err(e)) if e is not BOT else x, st, g


@comb("many_m_n")
def _manymn(vf, fr, b, a, i, v, g, st, loc):
    m = V()
    if a[0].op != "c" or a[1].op != "c" or a[1].a[0] > 8 or a[0].a[0] > a[1].a[0]:
        return NotImplemented
    lo, hi = a[0].a[0], a[1].a[0]
    cur, acc, live, res = i, EMPTYVEC, True, None
    outs = []
    for n in range(hi):
        r = call(vf, fr, (b, n), a[2], cur, land(g, live), st, loc)
        if r is None:
            return None
        st = r[1]
        k, (rest, out), e, rec = split(r[0])
        if k is not True:
            outs.append((land(live, rec), syntax() if n < lo else m.Ok(m.tup(cur, acc))))
            outs.append((land(live, land(lnot(k), lnot(rec))), m.Err(e)))
        live = land(live, k)
        if live is False:
            break
        stuck = land(live, lnot(consumes(m.fld(rest, "", "value"), None)))
        if stuck is not False:
            return NotImplemented
        cur, acc = rest, vecpush(acc, out)
    res = m.Ok(m.tup(cur, acc)) if live is not False else BOT
    for c, x in outs:
        if c is not False:
            res = m.merge(c, x, res) if res is not BOT else x
    return res, st, g


@comb("separated_list1", "separated_list0")
def _sep(vf, fr, b, a, i, v, g, st, loc):
    return NotImplemented


def _sepl(kind):
    @comb(kind)
    def f(vf, fr, b, a, i, v, g, st, loc):
        m = V()
        s = summary(vf, fr, (b, 2), a[0], g, st, loc)
        r = call(vf, fr, (b, 0), a[1], i, g, dict(st), loc)
        if r is None or s is None:
            return None
        if land(split(s[0])[0], lnot(consumes(m.fld(split(s[0])[1][0], "", "value"), None))) is not False:
            return NotImplemented
        k, p, e, rec = split(r[0])
        x = repeated(vf, fr, (b, 1), a[1], i, land(g, k), st, loc, "seplist", (s[0],))
        if x is None:
            return None
        if kind == "separated_list0":
            x = m.merge(rec, m.Ok(m.tup(i, EMPTYVEC)), x)
            return m.merge(lor(k, rec), x, m.Err(e)) if e is not BOT else x, st, g
        return m.merge(k, x, m.Err(e)) if e is not BOT else x, st, g


_sepl("separated_list1")
_sepl("separated_list0")


# ------------------------------------------------------------------ nom's view of &str
@on("nom::traits::InputLength::input_len")
def _il(vf, fr, b, fn, a, tys, g, st, loc):
    return V().tlen(vf.val(st, a[0]))


@on("nom::traits::InputTake::take")
def _tk(vf, fr, b, fn, a, tys, g, st, loc):
    return V().mkslice(vf.val(st, a[0]), C(0), vf.val(st, a[1]))


@on("nom::traits::InputTake::take_split")
def _ts(vf, fr, b, fn, a, tys, g, st, loc):
    v, n = vf.val(st, a[0]), vf.val(st, a[1])
    return V().tup(V().mkslice(v, n, V().tlen(v)), V().mkslice(v, C(0), n))


@on("nom::traits::Slice::slice")
def _sl(vf, fr, b, fn, a, tys, g, st, loc):
    v, r = vf.val(st, a[0]), vf.val(st, a[1])
    if r.op != "agg" or not r.a[0].split("::")[-1].startswith("Range"):
        return NotImplemented
    f = dict(zip(r.a[2], r.a[3:]))
    return V().mkslice(v, f.get("start", C(0)), f.get("end", V().tlen(v)))


for _n, _t in (("InputIter::iter_elements", "core::str::chars"), ("InputIter::iter_indices", "core::str::char_indices"), ("FindSubstring::find_substring", "core::str::find")):
    def _del(vf, fr, b, fn, a, tys, g, st, loc, _t=_t):
        from .std import lookup
        h = lookup(_t)
        return h(vf, fr, b, {"path": _t, "args": []}, a, tys, g, st, loc) if h else NotImplemented
    on("nom::traits::" + _n)(_del)
