"""Decides whether two summaries of a text predicate agree on every text, where both are folds over the characters.

A summary (value-flow result of an analysed function: its result condition and, per loop, the sources it draws from, initial values,
next values and exit conditions) whose only input is one text is read as a finite-state machine over the characters of that text: a
state holds the loop-carried values, the number of elements seen of every source, and the elements the result refers to by position.
Integers are kept exactly up to the largest constant they are compared with, beyond it only modulo the numbers they are divided by;
any use of an integer that this does not preserve makes the reading fail (Bail), and nothing is concluded.  Two machines are compared
on all states reachable together; states where the results differ give a text that tells the two apart.
"""
import itertools, math, time
from .terms import *
from . import vf as _vf
from .vf import lin_of, tlen, add, subst, B, to_g, variants

TRUE, FALSE = B(True), B(False)

BIGCAP = 40


class Bail(Exception):
    pass


class Undef(Exception):
    """the value does not exist in this run (element past the end)"""


TEXT = None


def base_of(t, text):
    """(reversed?, kind) of a direct walk over the text"""
    r = False
    while t.op in ("rev", "vecof", "iter"):
        if t.op == "rev":
            r = not r
        t = t.a[0]
    if t.op == "chars" and t.a[0] is text:
        return r, "chars"
    if t.op in ("bytes", "asbytes") and t.a[0] is text:
        return r, "bytes"
    if t is text:
        return r, "bytes"
    return None


class Stream:
    """elements drawn from the text: which characters count, what they yield, from which to which position"""

    def __init__(self, t, text):
        self.term = t
        self.lo, self.hi = 0, None
        self.keep, self.val, self.sym = True, None, None
        x = t
        while True:
            if x.op in ("vecof", "iter"):
                x = x.a[0]
            elif x.op == "take":
                k = x.a[1]
                if k.op != "c":
                    raise Bail("take")
                self.cut(0, k.a[0])
                x = x.a[0]
            elif x.op == "slice":
                a, b = x.a[1], x.a[2]
                if a.op != "c":
                    raise Bail("slice")
                if b is tlen(x.a[0]):
                    self.cut(a.a[0], None)
                elif b.op == "c":
                    self.cut(a.a[0], b.a[0])
                else:
                    raise Bail("slice")
                x = x.a[0]
            elif x.op == "rev" and x.a[0].op == "filt":
                f = x.a[0]
                src = _vf.mk("rev", f.a[0]) if f.a[0].op != "rev" else f.a[0].a[0]
                e0 = [s for s in list(subterms(f.a[1])) + list(subterms(f.a[2])) if s.op == "elem" and s.a[0] is f.a[0]]
                fn = lambda t, old=f.a[0], new=src: mk("elem", new, *t.a[1:]) if t.op == "elem" and t.a[0] is old else None
                x = mk("filt", src, subst(f.a[1], fn), subst(f.a[2], fn))
            elif x.op == "filt":
                if self.val is not None:
                    raise Bail("filter of a filter")
                self.keep, self.val, self.sym = to_g(x.a[1]), x.a[2], x.a[0]
                x = x.a[0]
                if self.lo is None:
                    raise Bail("order")
                if x.op in ("take", "slice"):
                    raise Bail("filter of a part")
            else:
                break
        b = base_of(x, text)
        if b is None:
            raise Bail("not drawn from the text: %s" % show(t, 4))
        self.rev, self.kind = b
        self.base = x

    def cut(self, a, b):
        # x is walked outside in: positions given so far are relative to the part
        lo, hi = self.lo, self.hi
        self.lo = lo + a
        if hi is not None:
            hi = hi + a
        if b is not None:
            hi = b if hi is None else min(hi, b)
        self.hi = hi

    def key(self):
        return (self.kind, self.rev, self.keep if not isinstance(self.keep, N) else self.keep, self.val, self.sym)


class Machine:
    def __init__(self, A, ret, text, rev=None):
        self.A, self.text = A, text
        self.ret = ret
        self.streams = {}
        self.filters = {}           # filter key -> index of its counter
        self.fdef = []
        self.loops = {}
        self.captures = {}          # (filter index, 'at', k) / (filter index, 'last', k) -> slot
        self.vars = {}              # state slots
        self.slots = []
        self.caps = {}              # slot -> largest constant compared with
        self.mods = {}              # slot -> numbers it is divided by
        self.rev = rev
        self.flags = []
        if any(n for n in A.notes):
            raise Bail("notes")
        self.scan(ret)

    # ------------------------------------------------------------ what the summary refers to
    def stream(self, t):
        s = self.streams.get(t)
        if s is None:
            s = self.streams[t] = Stream(t, self.text)
            if self.rev is None:
                self.rev = s.rev
        return s

    def slot(self, name):
        if name not in self.vars:
            self.vars[name] = len(self.slots)
            self.slots.append(name)
            self.caps[name] = 0
            self.mods[name] = 1
        return self.vars[name]

    def filter(self, s):
        k = s.key()
        if k not in self.filters:
            self.filters[k] = len(self.fdef)
            self.fdef.append(s)
            self.slot(("cnt", len(self.fdef) - 1))
        return self.filters[k]

    def loop(self, lid):
        if lid in self.loops:
            return self.loops[lid]
        L = self.A.loops.get(lid)
        if L is None:
            raise Bail("loop")
        if not L.has:
            raise Bail("loop without a source: %s" % L.loc)
        info = {"L": L, "lid": lid, "lim": None, "f": None, "lo": 0, "regs": {}, "exits": []}
        self.loops[lid] = info
        for h in L.has:
            x = h.a[0]
            if x.op == "range":
                a, b = x.a
                if a.op != "c" or b.op != "c":
                    raise Bail("range")
                n = b.a[0] - a.a[0]
                info["lim"] = n if info["lim"] is None else min(info["lim"], n)
                info.setdefault("range", {})[x] = a.a[0]
                continue
            if x.op == "agg" and x.a[0] in ("array", "vec"):
                n = len(x.a) - 3
                info["lim"] = n if info["lim"] is None else min(info["lim"], n)
                continue
            s = self.stream(x)
            self.dirs(s)
            f = self.filter(s)
            if info["f"] is not None and (info["f"], info["lo"]) != (f, s.lo):
                raise Bail("two different walks in one loop")
            info["f"], info["lo"] = f, s.lo
            if s.hi is not None:
                n = s.hi - s.lo
                info["lim"] = n if info["lim"] is None else min(info["lim"], n)
        if info["f"] is None:
            raise Bail("loop that does not walk the text")
        info["it"] = self.slot(("it", lid))
        info["st"] = self.slot(("st", lid))
        if info["lim"] is not None:
            self.caps[("it", lid)] = max(self.caps[("it", lid)], info["lim"])
        f = ("cnt", info["f"])
        self.caps[f] = max(self.caps[f], info["lo"])
        for k, (t, c, _) in enumerate(L.early):
            info["exits"].append(c)
        for c in L.dead:
            info["exits"].append(c)
        return info

    def dirs(self, s):
        if s.rev != self.rev:
            raise Bail("walks in both directions")

    def reg(self, lv):
        lid = lv.a[0]
        info = self.loop(lid)
        k = (lv.a[1], lv.a[2])
        L = info["L"]
        if k not in L.init or k not in L.step:
            raise Bail("value of a loop")
        if k not in info["regs"]:
            if self.A.std.is_iter_value(self.A, L.init[k]):
                raise Bail("iterator used as a value")
            info["regs"][k] = self.slot(("lv", lid) + k)
            self.scan(L.init[k])
            self.scan(L.step[k], lid)
        return info["regs"][k]

    def scan(self, t, lid=None, seen=None):
        """registers everything a term refers to"""
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, N):
                st += list(support(x))
                continue
            if isinstance(x, tuple):
                st += list(x)
                continue
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            o = x.op
            if o in ("lv", "lve"):
                self.reg(mk("lv", *x.a))
            elif o == "ex":
                i = self.loop(x.a[0])
                if isinstance(x.a[1], N):
                    self.scan(x.a[1], x.a[0])
                if x not in self.flags:
                    self.flags.append(x)
                    self.slot(("flag", x))
            elif o in ("elem", "idx"):
                l2 = x.a[-1]
                if x.a[0].op in ("agg", "range"):
                    self.loop(l2)
                else:
                    info = self.loop(l2)
                    if x.a[0] not in [h.a[0] for h in info["L"].has]:
                        # reached by its position: the same walk
                        s = self.stream(x.a[0])
                        self.dirs(s)
                        raise Bail("element of another walk")
                    if lid != l2:
                        self.slot(("held", l2))
            elif o == "len":
                if x.a[0] is self.text:
                    self.slot(("nbytes",))
                else:
                    s = self.stream(x.a[0])
                    self.undir(s)
            elif o == "index":
                if x.a[0].op == "agg":
                    st.append(x.a[1])
                    st += list(x.a[0].a[3:])
                else:
                    self.capture(x, st, lid)
            elif o == "call" and str(x.a[0]).endswith("ends_with"):
                self.slot(("last",))
                st += list(x.a[1][1:])
            elif o == "has":
                raise Bail("has")
            elif o == "p":
                raise Bail("refers to %s" % show(x))
            else:
                st += list(x.a)
        for info in list(self.loops.values()):
            for c in info["exits"]:
                if not isinstance(c, bool) and ("x", c) not in seen and not info.get("scanned"):
                    info["scanned"] = True
                    for c2 in info["exits"]:
                        if not isinstance(c2, bool):
                            self.scan(c2, info["lid"], seen)

    def undir(self, s):
        """a source seen only through its length: the direction does not matter"""
        if s.rev != self.rev:
            if s.val is not None or s.keep is not True:
                fn = lambda t: mk("elem", nb, *t.a[1:]) if t.op == "elem" and t.a[0] is s.sym else None
                nb = s.sym.a[0] if s.sym.op == "rev" else mk("rev", s.sym)
                s.keep = s.keep if isinstance(s.keep, bool) else _vf.subst_g(s.keep, fn)
                s.val, s.sym = subst(s.val, fn), nb
            s.rev = self.rev
        f = self.filter(s)
        return f

    def capture(self, x, st, lid=None):
        """element at a constant position from either end"""
        if x in self.captures:
            return
        src, i = x.a[0], x.a[1]
        s = self.stream(src)
        c, m = lin_of(i)
        if not m:
            pos = ("at", c)
        elif len(m) == 1 and list(m.values()) == [1] and list(m)[0].op == "len" and c < 0:
            ln = list(m)[0].a[0]
            if ln is not src and not (self.stream(ln).key()[:1] == s.key()[:1] and self.stream(ln).keep is s.keep):
                raise Bail("index")
            pos = ("last", -c)
        else:
            raise Bail("index")
        if s.rev != self.rev:
            if s.lo or s.hi is not None:
                raise Bail("index")
            s2 = Stream(src, self.text)
            f = self.undir(s2)
            pos = ("last", pos[1] + 1) if pos[0] == "at" else ("at", pos[1] - 1)
            s = s2
        else:
            f = self.filter(s)
            if pos[0] == "at":
                pos = ("at", pos[1] + s.lo)
                if s.hi is not None and pos[1] >= s.hi:
                    raise Bail("index")
            elif s.hi is not None:
                raise Bail("index")
        if pos[0] == "at" and pos[1] < 0 or pos[1] > 40:
            raise Bail("index")
        self.captures[x] = (f,) + pos
        self.slot(("cap", f) + pos)
        if pos[0] == "at":
            k = ("cnt", f)
            self.caps[k] = max(self.caps[k], pos[1] + 1)
        else:
            for j in range(1, pos[1]):
                self.slot(("cap", f, "last", j))

    # ------------------------------------------------------------ how integers are used
    def uses(self):
        work = [(self.ret, None)]
        done = set()
        for info in list(self.loops.values()):
            for c in info["exits"]:
                if not isinstance(c, bool):
                    work.append((c, None))
            for k, sl in info["regs"].items():
                work.append((info["L"].step[k], ("lv", info["lid"]) + k))
                work.append((info["L"].init[k], ("lv", info["lid"]) + k))
        for s in self.fdef:
            if not isinstance(s.keep, bool):
                work.append((s.keep, None))
            if s.val is not None:
                work.append((s.val, None))
        for x in self.flags:
            if not isinstance(x.a[1], bool):
                work.append((x.a[1], None))
        self.flow = {}                   # slot -> slots whose next value is linear in it
        for t, into in work:
            self.ctx(t, ("into", into) if into else ("val",), set())
        ch = True
        while ch:
            ch = False
            for a, bs in self.flow.items():
                for b in bs:
                    m = math.lcm(self.mods[a], self.mods[b])
                    if m != self.mods[a]:
                        self.mods[a] = m
                        ch = True
                    if b != a and self.caps[b] > self.caps[a]:
                        self.caps[a] = self.caps[b]
                        ch = True
        for n in self.slots:
            if self.mods[n] > 5000:
                raise Bail("modulus")

    def name(self, x):
        """slot an integer leaf stands for"""
        if x.op in ("lv", "lve"):
            return ("lv",) + x.a
        if x.op == "len":
            if x.a[0] is self.text:
                return ("nbytes",)
            return ("cnt", self.filter(self.stream(x.a[0])))
        if x.op == "idx":
            return ("it", x.a[-1])
        return None

    def ctx(self, t, c, seen):
        if isinstance(t, N):
            for v in support(t):
                self.ctx(v, ("val",), seen)
            return
        if isinstance(t, tuple):
            for y in t:
                self.ctx(y, ("val",), seen)
            return
        if not isinstance(t, T) or (t, c) in seen:
            return
        seen.add((t, c))
        o = t.op
        n = self.name(t)
        if n is not None:
            if n not in self.caps:
                return
            if c[0] == "mod":
                self.mods[n] = math.lcm(self.mods[n], c[1])
            elif c[0] == "into":
                self.flow.setdefault(n, set()).add(c[1])
            elif c[0] == "cmp":
                self.caps[n] = max(self.caps[n], c[1] + 2)
            elif c[0] == "val":
                self.caps[n] = max(self.caps[n], BIGCAP)
            return
        if o == "lin":
            for x, k in t.a[1]:
                self.ctx(x, c if c[0] != "into" or k > 0 else ("val",), seen)
            return
        if o in ("lt0", "eq0"):
            k, m = lin_of(t.a[0])
            for x in m:
                self.ctx(x, ("cmp", abs(k) + (0 if len(m) == 1 else 64)), seen)
            return
        if o == "bin" and t.a[0] == "Rem" and t.a[2].op == "c" and t.a[2].a[0] > 0:
            self.ctx(t.a[1], ("mod", t.a[2].a[0]), seen)
            return
        if o == "wrap":
            self.ctx(t.a[1], ("cmp", 1 << 8), seen)
            return
        if o == "cast":
            self.ctx(t.a[1], ("val",), seen)
            return
        if o == "ite":
            self.ctx(t.a[0], ("val",), seen)
            self.ctx(t.a[1], c, seen)
            self.ctx(t.a[2], c, seen)
            return
        if o in ("ex", "filt", "chars", "rev"):
            return
        for y in t.a:
            self.ctx(y, ("val",), seen)

    # ------------------------------------------------------------ evaluation
    # environment: (state list, current element or None, current loop id or None)
    def big(self, name, v):
        return isinstance(v, int) and not isinstance(v, bool) and v > self.caps[name]

    def cval(self, t, mode="val"):
        """compiles a term into a function of the environment"""
        k = (t, mode)
        f = self.code.get(k)
        if f is None:
            f = self.code[k] = self.cval_(t, mode)
        return f

    def cval_(self, t, mode):
        o = t.op
        if o == "c":
            v = t.a[0]
            if isinstance(v, str) and len(v) != 1:
                raise Bail("text constant")
            v = ord(v) if isinstance(v, str) else v
            return lambda e: v
        if o == "bool":
            return self.cg(t.a[0])
        n = self.name(t)
        if n is not None:
            if o == "len" and n[0] == "cnt":
                s = self.stream(t.a[0])
                if s.lo or s.hi is not None:
                    i = self.vars[n]
                    lo, hi = s.lo, s.hi
                    cap = self.caps
                    cap[n] = max(cap[n], (hi or lo) + 2)
                    if hi is None:
                        return lambda e: max(0, e[0][i] - lo)
                    return lambda e: max(0, min(e[0][i], hi) - lo)
            i = self.vars[n]
            if o == "idx" and t.a[0].op == "range":
                pass
            if mode == "val":
                def f(e):
                    v = e[0][i]
                    if v is None:
                        raise Undef()
                    if type(v) is int and v > self.caps[n]:
                        raise Bail("value of %s beyond what is tracked" % (n,))
                    return v
                return f

            def f(e):
                v = e[0][i]
                if v is None:
                    raise Undef()
                return v
            return f
        if o == "lin":
            c = t.a[0]
            parts = [(self.cval(x, mode if mode == "mod" or k > 0 else "val" if mode == "into" else mode), k) for x, k in t.a[1]]

            def f(e):
                r = c
                for g, k in parts:
                    r += g(e) * k
                return r
            return f
        if o == "mono":
            ps = [self.cval(x) for x in t.a[0]]

            def f(e):
                r = 1
                for g in ps:
                    r *= g(e)
                return r
            return f
        if o == "bin":
            op, a, b = t.a[0], t.a[1], t.a[2]
            if op == "Rem" and b.op == "c" and b.a[0] > 0:
                fa, m = self.cval(a, "mod"), b.a[0]

                def f(e):
                    v = fa(e)
                    if v < 0:
                        raise Bail("remainder of a negative number")
                    return v % m
                return f
            fa, fb = self.cval(a), self.cval(b)
            if op == "Div":
                def f(e):
                    x, y = fa(e), fb(e)
                    if x < 0 or y <= 0:
                        raise Bail("division")
                    return x // y
                return f
            if op in ("BitAnd", "BitXor", "BitOr", "Shl", "Shr", "Sub", "Add", "Mul"):
                fs = {"BitAnd": lambda x, y: x & y, "BitXor": lambda x, y: x ^ y, "BitOr": lambda x, y: x | y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y,
                      "Sub": lambda x, y: x - y, "Add": lambda x, y: x + y, "Mul": lambda x, y: x * y}[op]
                return lambda e: fs(fa(e), fb(e))
            raise Bail("operator %s" % op)
        if o in ("cast", "wrap"):
            f = self.cval(t.a[1])
            bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 31, "i64": 63, "char": 21, "isize": 63, "i8": 7, "i16": 15, "u128": 128, "i128": 127}.get(t.a[0])
            if bits is None:
                raise Bail("cast")

            def g(e):
                v = f(e)
                if not 0 <= v < (1 << bits):
                    raise Bail("cast changes the value")
                return v
            return g
        if o == "ite":
            g, a, b = self.cg(t.a[0]), self.cval(t.a[1], mode), self.cval(t.a[2], mode)
            return lambda e: a(e) if g(e) else b(e)
        if o == "elem":
            x, lid = t.a[0], t.a[1]
            if x.op == "agg":
                it = self.vars[("it", lid)]
                vs = [self.cval(y) for y in x.a[3:]]

                def f(e):
                    k = e[0][it]
                    if k > self.caps[("it", lid)] or k >= len(vs):
                        raise Bail("position")
                    return vs[k](e)
                return f
            if x.op == "range":
                lo = x.a[0].a[0]
                return self.cval(mk("lin", lo, ((mk("idx", x, lid), 1),)) if lo else mk("idx", x, lid), mode)
            s = self.stream(x)
            hv = self.vars.get(("held", lid))
            if s.val is None:
                def f(e):
                    if e[2] == lid:
                        return e[1]
                    v = e[0][hv]
                    if v is None:
                        raise Undef()
                    return v
                return f
            g = self.cchar(s)

            def f(e):
                if e[2] == lid:
                    return g(e[1])
                v = e[0][hv]
                if v is None:
                    raise Undef()
                return g(v)
            return f
        if o == "index":
            if t.a[0].op == "agg":
                vs = [self.cval(y) for y in t.a[0].a[3:]]
                i = self.cval(t.a[1])

                def f(e):
                    k = i(e)
                    if not 0 <= k < len(vs):
                        raise Undef()
                    return vs[k](e)
                return f
            sl = self.vars[("cap",) + self.captures[t]]

            def f(e):
                v = e[0][sl]
                if v is None:
                    raise Undef()
                return v
            return f
        if o == "agg":
            fs = [self.cval(y) for y in t.a[3:]]
            return lambda e: (t.a[1],) + tuple(g(e) for g in fs)
        if o == "fld":
            f = self.cval(t.a[0])
            if t.a[2] != "0":
                raise Bail("field")

            def g(e):
                v = f(e)
                if not isinstance(v, tuple) or v[0] != t.a[1]:
                    raise Undef()
                return v[1]
            return g
        if o == "call":
            return self.ccall(t)
        if DOM.get(t) is not None or o in ("eq", "cls", "lt0", "eq0", "ex", "lv"):
            return self.catom(t)
        raise Bail("term %s" % o)

    def ccall(self, t):
        nm = str(t.a[0])
        last = nm.split("::")[-1]
        args = t.a[1]
        if last in ("to_ascii_uppercase", "to_ascii_lowercase") and len(args) == 1:
            f = self.cval(args[0])
            if last.endswith("uppercase"):
                return lambda e: (lambda v: v - 32 if 97 <= v <= 122 else v)(f(e))
            return lambda e: (lambda v: v + 32 if 65 <= v <= 90 else v)(f(e))
        if last == "eq_ignore_ascii_case" and "char" in nm and len(args) == 2:
            f, h = self.cval(args[0]), self.cval(args[1])
            lo = lambda v: v + 32 if 65 <= v <= 90 else v
            return lambda e: lo(f(e)) == lo(h(e))
        if last == "from_digit" and len(args) == 2 and args[1] is C(10):
            f = self.cval(args[0])
            return lambda e: (lambda v: ("Some", 48 + v) if v < 10 else ("None",))(f(e))
        if last == "to_digit" and len(args) == 2 and args[1] is C(10):
            f = self.cval(args[0])
            return lambda e: (lambda v: ("Some", v - 48) if 48 <= v <= 57 else ("None",))(f(e))
        if last in ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_whitespace") and len(args) == 1:
            f = self.cval(args[0])
            fn = {"is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_whitespace": str.isspace}[last]
            return lambda e: fn(chr(f(e)))
        if last == "ends_with" and args[0] is self.text and len(args) == 2:
            f = self.cval(args[1])
            sl = self.vars[("last",)]
            return lambda e: e[0][sl] is not None and e[0][sl] == f(e)
        raise Bail("call of %s" % nm)

    def cchar(self, s):
        """value a filtered source yields for a character"""
        g = self.cval(subst(s.val, lambda t: mk("chr0") if t.op == "elem" and t.a[0] is s.sym else None)) if s.val is not None else None
        return (lambda c: g(([], c, "chr0"))) if g else (lambda c: c)

    def catom(self, v):
        o = v.op
        if o == "lt0" or o == "eq0":
            c, m = lin_of(v.a[0])
            parts = []
            for x, k in m.items():
                n = self.name(x)
                parts.append((self.cval(x, "cmp"), k, n))

            def f(e):
                r, bigs = c, 0
                for g, k, n in parts:
                    w = g(e)
                    if type(w) is not int:
                        raise Bail("comparison")
                    if n is not None and w > self.caps[n]:
                        bigs += 1
                        cap, kk = self.caps[n], k
                        continue
                    r += w * k
                if bigs:
                    if bigs > 1 or abs(r) > cap:
                        raise Bail("comparison beyond what is tracked")
                    return kk < 0 if o == "lt0" else False
                return r < 0 if o == "lt0" else r == 0
            return f
        if o == "eq":
            a, b = self.cval(v.a[0], "val"), self.cval(v.a[1], "val")
            return lambda e: a(e) == b(e)
        if o == "cls":
            a, lo, hi = self.cval(v.a[0], "val"), v.a[1], v.a[2]
            return lambda e: lo <= a(e) <= hi
        if o == "ex":
            i = self.vars[("flag", v)]
            return lambda e: bool(e[0][i])
        if o in ("lv", "lve"):
            i = self.vars[("lv",) + v.a]

            def f(e):
                x = e[0][i]
                if x is None:
                    raise Undef()
                return x
            return f
        d = DOM.get(v)
        if d is not None and set(d) != {True, False}:
            f = self.cval(v)

            def g(e):
                x = f(e)
                if not isinstance(x, tuple):
                    raise Bail("variant")
                return x[0]
            return g
        if o in ("call", "bool", "ite"):
            return self.cval(v)
        if o == "contains" and v.a[0].op == "agg":
            vs = [self.cval(y) for y in v.a[0].a[3:]]
            x = self.cval(v.a[1])
            return lambda e: x(e) in [y(e) for y in vs]
        raise Bail("condition on %s" % o)

    def cg(self, g):
        if isinstance(g, bool):
            return lambda e: g
        if g in self.gcode:
            return self.gcode[g]
        at = {}

        def comp(n):
            if isinstance(n, bool) or n in at:
                return
            at[n] = (self.cval(n.v, "val") if n.v.op in ("call",) and DOM[n.v] == BOOL else self.catom(n.v), {val: c for val, c in zip(DOM[n.v], n.ch)})
            for c in n.ch:
                comp(c)
        comp(g)

        def f(e):
            n = g
            while not isinstance(n, bool):
                a, ch = at[n]
                try:
                    n = ch[a(e)]
                except (Undef, Bail) as x:
                    return both(n, e, x)
            return n

        def both(n, e, x):
            # this condition has no (tracked) value: it must not matter
            rs = set()
            for c in at[n][1].values():
                while not isinstance(c, bool):
                    try:
                        c = at[c][1][at[c][0](e)]
                    except (Undef, Bail) as x2:
                        c = both(c, e, x2)
                rs.add(c)
                if len(rs) > 1:
                    raise x
            return rs.pop()
        self.gcode[g] = f
        return f

    # ------------------------------------------------------------ characters that cannot be told apart
    def residual(self, t, lid, c):
        """a term of a loop for one character: every condition about the character alone decided"""
        isg = not isinstance(t, T)
        if isinstance(t, bool):
            return t, False
        atoms = {}
        for v in ([x for y in support(t) for x in subterms(y)] if isg else subterms(t)):
            for w in (support(v.a[0]) if v.op in ("bool", "ite") and isinstance(v.a[0], N) else [v]):
                if w in DOM and w not in atoms and w.op in ("cls", "eq0", "lt0", "eq", "call", "contains"):
                    if all(y.op in ("elem", "c", "lin", "cls", "eq0", "lt0", "eq", "chars", "rev", "p", "call", "contains", "agg") for y in subterms(w)) \
                            and any(y.op == "elem" and y.a[-1] == lid and y.a[0].op not in ("agg", "range") for y in subterms(w)):
                        try:
                            atoms[w] = TRUE if self.catom(w)(([], c, lid)) else FALSE
                        except (Bail, Undef, IndexError, TypeError):
                            pass
        fn = lambda x: atoms.get(x)
        r = _vf.subst_g(t, fn) if isg else subst(t, fn)
        if isinstance(r, bool):
            return r, False
        sub = (x for y in support(r) for x in subterms(y)) if not isinstance(r, T) else subterms(r)
        return r, any(x.op == "elem" and x.a[-1] == lid and x.a[0].op not in ("agg", "range") for x in sub)

    def signature(self, c):
        out = []
        nb = ("nbytes",) in self.vars or any(s.kind == "bytes" for s in self.fdef)
        if nb:
            out.append(len(chr(c).encode()))
        if any(s.kind == "bytes" for s in self.fdef) and c > 127:
            return (c,)
        for i, f in enumerate(self.keepf):
            k = f(c)
            out.append(k)
            if k and self.fdef[i].val is not None:
                out.append(self.valf[i](c))
        for info, regs, exits, fl, held in self.lcode:
            s = self.fdef[info["f"]]
            if s.val is not None or not self.keepf[info["f"]](c):
                continue
            lid, L = info["lid"], info["L"]
            ex = [self.residual(x, lid, c) for x in info["exits"]]
            fs = [self.residual(x.a[1], lid, c) for x in self.flags if x.a[0] == lid]
            if any(r is True for r, _ in ex):
                out.append(("exit", tuple((r, c if h else None) for r, h in ex + fs), c if held is not None else None))
                continue
            st = [self.residual(L.step[k], lid, c) for k in info["regs"]]
            out.append(tuple((r, c if h else None) for r, h in ex + fs + st) + ((c,) if held is not None else ()))
        for x, (f, w, k) in self.captures.items():
            if self.fdef[f].val is None and self.keepf[f](c):
                out.append(self.capsig(x, c))
        if ("last",) in self.vars:
            out.append(("last", c))
        return tuple(out)

    def capsig(self, x, c):
        """what the result can tell about a character it looks at by position"""
        if x not in self.capat:
            ats = []
            todo = [self.ret] + [L["L"].init[k] for L in self.loops.values() for k in L["regs"]]
            if any(y is x for L in self.loops.values() for k in L["regs"] for y in subterms(L["L"].step[k])):
                ats = None
            st, seen = list(todo), set()
            while st and ats is not None:
                y = st.pop()
                if isinstance(y, N):
                    for v in support(y):
                        if v in seen:
                            continue
                        seen.add(v)
                        if any(z is x for z in subterms(v)):
                            lv = self.openleaves(v, x)
                            if lv is None:
                                ats = None
                                break
                            ats.append((v, lv))
                    continue
                if isinstance(y, tuple):
                    st += list(y)
                    continue
                if not isinstance(y, T) or y in seen:
                    continue
                seen.add(y)
                if y is x:
                    ats = None
                    break
                st += list(y.a)
            self.capat[x] = ats
        ats = self.capat[x]
        if ats is None:
            return (x, c)
        sig = []
        for v, (leaves, doms) in ats:
            m = Machine.__new__(Machine)
            m.__dict__.update(self.__dict__)
            if v not in self.capcode:
                m.code, m.gcode = {}, {}
                for i, l in enumerate(leaves):
                    for md in ("val", "cmp", "mod", "into"):
                        m.code[(l, md)] = lambda e, i=i: e[0][i]
                for md in ("val", "cmp", "mod", "into"):
                    m.code[(x, md)] = lambda e: e[1]
                self.capcode[v] = m.catom(v)
            f = self.capcode[v]
            r = []
            for combo in itertools.product(*doms):
                try:
                    r.append(f((combo, c, None)))
                except (Undef, Bail):
                    r.append(None)
            sig.append(tuple(r) if len(set(r)) > 1 else (r[0],))
        return tuple(sig)

    def openleaves(self, v, x):
        """the bounded quantities a condition compares the character with"""
        out = []

        def go(t):
            if not isinstance(t, (T, tuple, N)):
                return True
            if isinstance(t, tuple):
                return all(go(y) for y in t)
            if isinstance(t, N):
                return all(go(y) for y in support(t))
            if t is x:
                return True
            if t.op == "bin" and t.a[0] == "Rem" and t.a[2].op == "c" and not any(y is x for y in subterms(t)):
                if t not in out:
                    out.append(t)
                return True
            if t.op in ("lv", "lve", "len", "elem", "idx", "index", "ex", "p") and t is not x and not (t.op == "index" and t.a[0].op == "agg"):
                return False
            return all(go(y) for y in t.a)
        if not go(v):
            return None
        doms = [range(t.a[2].a[0]) for t in out]
        if math.prod(len(d) for d in doms) > 3000:
            return None
        return out, doms

    # ------------------------------------------------------------ running
    def build(self):
        self.code, self.gcode = {}, {}
        for i, n in enumerate(self.slots):
            pass
        self.uses()
        self.code[(mk("chr0"), "val")] = lambda e: e[1]
        self.code[(mk("chr0"), "cmp")] = lambda e: e[1]
        self.code[(mk("chr0"), "mod")] = lambda e: e[1]
        self.keepf = []
        self.valf = []
        for s in self.fdef:
            if isinstance(s.keep, bool):
                self.keepf.append(lambda c, k=s.keep: k)
            else:
                k = _vf.subst_g(s.keep, lambda t, s=s: mk("chr0") if t.op == "elem" and t.a[0] is s.sym else None)
                if isinstance(k, bool):
                    self.keepf.append(lambda c, k=k: k)
                else:
                    self.keepf.append(lambda c, f=self.cg(k): f(([], c, "chr0")))
            self.valf.append(self.cchar(s))
        self.lcode = []
        for lid, info in self.loops.items():
            L = info["L"]
            regs = []
            for k, sl in info["regs"].items():
                step = L.step[k]
                isb = _vf.is_boolish(step) or _vf.is_boolish(L.init[k])
                regs.append((sl, ("lv", lid) + k, self.cval(L.init[k]) if not isb else self.cg(to_g(L.init[k])),
                             self.cg(to_g(step)) if isb else self.cval(step, "into"), isb))
            exits = [self.cg(c) for c in info["exits"]]
            fl = [(self.vars[("flag", x)], self.cg(x.a[1])) for x in self.flags if x.a[0] == lid]
            self.lcode.append((info, regs, exits, fl, self.vars.get(("held", lid))))
        self.retf = self.cg(to_g(self.ret))
        self.capl = [(i, n) for i, n in enumerate(self.slots) if n[0] == "cap"]
        self.start = tuple(self.init0(n) for n in self.slots)
        self.deadmemo, self.capat, self.capcode = {}, {}, {}

    def init0(self, n):
        return {"cnt": 0, "it": 0, "st": "run", "flag": False, "nbytes": 0}.get(n[0])

    def reduce(self, name, v):
        """the representative of an integer among those that cannot be told apart"""
        if type(v) is not int:
            return v
        if v < 0:
            if v < -200:
                raise Bail("large negative value")
            return v
        cap, m = self.caps[name], self.mods[name]
        if v <= cap:
            return v
        return cap + 1 + (v - cap - 1) % m

    def after(self, state, ch):
        s = list(state)
        els = {"chars": [ch]}
        bs = list(chr(ch).encode())
        els["bytes"] = bs[::-1] if self.rev else bs
        old = state
        # loops first: they look at counts before this character
        cnt = {}
        for fi, sd in enumerate(self.fdef):
            cnt[fi] = s[self.vars[("cnt", fi)]]
        emits = {}
        for fi, sd in enumerate(self.fdef):
            emits[fi] = [x for x in els[sd.kind] if self.keepf[fi](x)]
        for info, regs, exits, fl, held in self.lcode:
            fi = info["f"]
            pos = cnt[fi]
            for j, x in enumerate(emits[fi]):
                p = pos + j
                st = s[info["st"]]
                if st == "end" or p < info["lo"]:
                    continue
                it = s[info["it"]]
                if info["lim"] is not None and it >= info["lim"]:
                    continue
                e = (s, x, info["lid"])
                if st == "run" and it == 0 and any(s[r[0]] is None for r in regs):
                    for sl, n, ini, stp, isb in regs:
                        try:
                            s[sl] = self.reduce(n, ini((s, None, None)))
                        except Undef:
                            raise Bail("initial value not known yet")
                if any(x2(e) for x2 in exits):
                    for sl, c in fl:
                        if c(e):
                            s[sl] = True
                    s[info["st"]] = "end"
                    if held is not None:
                        s[held] = x
                    continue
                new = []
                for sl, n, ini, stp, isb in regs:
                    v = stp(e)
                    if not isb:
                        if not isinstance(v, (int, tuple)):
                            raise Bail("value")
                        o = s[sl]
                        if type(o) is int and type(v) is int and o > self.caps[n]:
                            # beyond what is tracked: the next value must be the same function of all values it stands for
                            s2 = list(s)
                            s2[sl] = o + self.mods[n] * 1000
                            v2 = stp((s2, x, info["lid"]))
                            if v2 == v:
                                pass
                            elif v2 <= v or (v2 - v) % self.mods[n] or v < o:
                                raise Bail("value that shrinks")
                        v = self.reduce(n, v)
                    new.append((sl, v))
                for sl, v in new:
                    s[sl] = v
                s[info["it"]] = self.reduce(("it", info["lid"]), it + 1)
        for fi, sd in enumerate(self.fdef):
            i = self.vars[("cnt", fi)]
            for x in emits[fi]:
                c = s[i]
                lasts = []
                for sl, n in self.capl:
                    if n[1] != fi:
                        continue
                    if n[2] == "at":
                        if c == n[3]:
                            s[sl] = self.valf[fi](x)
                    else:
                        lasts.append((n[3], sl))
                if lasts:
                    lasts.sort(reverse=True)
                    d = dict(lasts)
                    for k, sl in lasts:
                        s[sl] = s[d[k - 1]] if k > 1 else self.valf[fi](x)
                s[i] = self.reduce(("cnt", fi), c + 1)
        if ("nbytes",) in self.vars:
            i = self.vars[("nbytes",)]
            s[i] = self.reduce(("nbytes",), s[i] + len(bs))
        if ("last",) in self.vars:
            i = self.vars[("last",)]
            if self.rev:
                if s[i] is None:
                    s[i] = ch
            else:
                s[i] = ch
        return tuple(s)

    def result(self, state):
        s = list(state)
        for info, regs, exits, fl, held in self.lcode:
            for sl, n, ini, stp, isb in regs:
                if s[sl] is None:
                    try:
                        s[sl] = ini((s, None, None))
                    except Undef:
                        pass
            if info["lim"] is not None and any(h.a[0].op in ("range", "agg") for h in info["L"].has) and not any(h.a[0].op not in ("range", "agg") for h in info["L"].has):
                raise Bail("loop")
        try:
            return bool(self.retf((s, None, None)))
        except Undef:
            return "undefined"

    def settled(self, state):
        """the result, where no further character can change it"""
        set_ = tuple(i for i, n in enumerate(self.slots) if n[0] == "flag" and state[i])
        over = tuple(i for i, n in enumerate(self.slots) if n[0] in ("cnt", "nbytes") and state[i] > self.caps[n])
        k = (set_, over)
        r = self.deadmemo.get(k, 0)
        if r == 0:
            g = to_g(self.ret)
            names = {self.slots[i] for i in over}
            if not isinstance(g, bool):
                for v in list(support(g)):
                    if isinstance(g, bool):
                        break
                    if v.op == "ex" and self.vars[("flag", v)] in set_:
                        g = cofactor(g, v, True)
                    elif v.op in ("lt0", "eq0"):
                        c, m = lin_of(v.a[0])
                        if len(m) == 1:
                            (x, q), = m.items()
                            if x.op == "len" and self.name(x) in names and not (x.a[0] is not self.text and (self.stream(x.a[0]).hi is not None)):
                                g = cofactor(g, v, q < 0 if v.op == "lt0" else False)
            r = g if isinstance(g, bool) else None
            self.deadmemo[k] = r
        return r


SYMS = list(range(0, 128)) + [0xE9, 0xD7, 0xB2, 0x661, 0x4E2D, 0x2028, 0x1F600, 0x1D7D8]


def chars_of(ms):
    """one character per class the two machines can tell apart"""
    consts = set()
    for m in ms:
        for g in [m.ret] + [s.keep for s in m.fdef] + [c for i in m.loops.values() for c in i["exits"]]:
            for t in ([g] if isinstance(g, T) else list(support(g)) if isinstance(g, N) else []):
                for x in subterms(t):
                    if x.op == "cls":
                        consts |= {x.a[1] - 1, x.a[1], x.a[2], x.a[2] + 1}
                    elif x.op in ("eq0", "lt0"):
                        consts |= {abs(lin_of(x.a[0])[0]) + d for d in (-1, 0, 1)}
    syms = SYMS + sorted(c for c in consts if 128 <= c < 0x110000 and not 0xD800 <= c < 0xE000 and c not in SYMS)
    out, seen = [], set()
    for c in syms:
        sig = tuple(m.signature(c) for m in ms)
        if sig not in seen:
            seen.add(sig)
            out.append(c)
    return out


def direction(A, ret, text):
    """the direction in which the loops of a summary walk the text"""
    out = set()
    for L in A.loops.values():
        for h in L.has:
            if h.a[0].op in ("range", "agg"):
                continue
            out.add(Stream(h.a[0], text).rev)
    return out


def agree(a, b, text, seconds=400, most=600000):
    """True: same result for every text; a text: the results differ on it; None: cannot be read as machines"""
    try:
        d = direction(a[0], a[1], text) | direction(b[0], b[1], text)
        if len(d) > 1:
            return None, "walks in both directions"
        rev = d.pop() if d else False
        m1, m2 = Machine(a[0], a[1], text, rev), Machine(b[0], b[1], text, rev)
        m1.build()
        m2.build()
        syms = chars_of((m1, m2))
        t0 = time.time()
        s0 = (m1.start, m2.start)
        seen = {s0: None}
        todo = [s0]
        # cache of one machine's transitions
        c1, c2 = {}, {}
        n = 0
        while todo:
            nxt = []
            for pair in todo:
                x, y = pair
                r1 = x if isinstance(x, bool) else m1.result(x)
                r2 = y if isinstance(y, bool) else m2.result(y)
                if r1 != r2:
                    w, p = [], pair
                    while seen[p] is not None:
                        p, c = seen[p]
                        w.append(chr(c))
                    w = "".join(w if rev else w[::-1])
                    return False, w
                if isinstance(x, bool) and isinstance(y, bool):
                    continue
                for c in syms:
                    x2 = x if isinstance(x, bool) else step(m1, c1, x, c)
                    y2 = y if isinstance(y, bool) else step(m2, c2, y, c)
                    q = (x2, y2)
                    if q not in seen:
                        seen[q] = (pair, c)
                        nxt.append(q)
                n += 1
                if n % 256 == 0 and (time.time() - t0 > seconds or len(seen) > most):
                    return None, "too many states"
            todo = nxt
        return True, "%d states, %d kinds of character" % (len(seen), len(syms))
    except Bail as e:
        return None, str(e)
    except (RecursionError, KeyError, TypeError, AttributeError, IndexError) as e:
        return None, "%s %s" % (type(e).__name__, e)


def step(m, cache, s, c):
    k = (s, c)
    r = cache.get(k)
    if r is None:
        r = m.after(s, c)
        d = m.settled(r)
        if d is not None:
            r = d
        cache[k] = r
    return r
