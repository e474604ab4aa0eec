"""Transfer functions for the standard library (and a few pure external helpers).

Every handler is an exact description of the std function on value terms; anything not listed here is an
opaque call whose &mut arguments are havocked."""
import re
from .terms import *

H = {}


def V():
    from . import vf as m
    return m


def on(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def lookup(path):
    n = _nc.get(path)
    if n is None:
        n = _nc[path] = V().norm(path)
    return H.get(n)


_nc = {}

ACC = re.compile(r"::(get_mut|iter_mut|last_mut|as_mut|first_mut|entry|values_mut|deref_mut|index_mut|as_mut_slice|"
                 r"as_object_mut|as_array_mut|by_ref|borrow_mut|as_mut_ptr|downcast_mut)$")


def is_accessor(path):
    return bool(ACC.search(V().norm(path)))


def never_returns(path):
    return path.startswith("core::panicking::") or path.startswith("std::panicking::") or \
        path.startswith("std::rt::") and "panic" in path or "unwrap_failed" in path or "expect_failed" in path \
        or path.startswith("std::process::exit") or path.startswith("alloc::alloc::handle_alloc_error")


ORD = "core::cmp::Ordering"
ORD_VS = ("Less", "Equal", "Greater")
RANGE = "core::ops::range::Range"
EMPTYVEC = mk("agg", "vec", "", ())


def ordv(n):
    return mk("agg", ORD, n, ())


# ------------------------------------------------------------------ identity-like
@on("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
    "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
    "core::option::Option::as_deref", "core::option::Option::as_deref_mut",
    "alloc::string::String::as_str", "alloc::string::String::as_mut_str", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
    "core::str::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes", "alloc::string::String::into_boxed_str",
    "core::str::as_str", "alloc::string::String::as_ref", "core::iter::traits::iterator::Iterator::by_ref",
    "core::iter::traits::iterator::Iterator::peekable", "core::iter::traits::iterator::Iterator::fuse",
    "alloc::boxed::Box::new", "alloc::rcs::rc::Rc::new", "alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::rc::Rc::new",
    "core::hint::must_use", "core::hint::black_box", "core::mem::manually_drop::ManuallyDrop::new", "core::iter::traits::iterator::Iterator::cloned",
    "core::iter::traits::iterator::Iterator::copied", "alloc::vec::Vec::into_boxed_slice", "alloc::slice::into_vec",
    "alloc::boxed::Box::leak", "core::pin::Pin::new", "core::cell::RefCell::new", "core::cell::Cell::new", "core::convert::identity",
    "alloc::boxed::Box::into_inner", "alloc::borrow::Cow::into_owned", "alloc::borrow::Cow::to_mut", "alloc::str::into_string",
    "core::cmp::Reverse")
def _ident(vf, fr, b, fn, a, tys, g, st, loc):
    v = a[0]
    x = vf.val(st, v)
    if x.op == "agg" and x.a[0] == "alloc::borrow::Cow":
        return x.a[3]
    return v


@on("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::option::Option::cloned", "core::option::Option::copied",
    "alloc::slice::to_vec", "core::clone::Clone::cloned", "alloc::slice::to_owned", "alloc::str::to_owned", "core::option::Option::as_ref",
    "core::result::Result::as_ref", "core::result::Result::cloned", "core::result::Result::copied", "alloc::str::to_string")
def _clone(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.val(st, a[0])
    if v.op == "agg" and v.a[0] == "alloc::borrow::Cow":
        return v
    return v


@on("core::option::Option::as_mut", "core::result::Result::as_mut")
def _asmut(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    r = a[0]
    var = "Some" if "Option" in fn["path"] else "Ok"
    if r.op == "ref":
        p = mk("ref", r.a[0], r.a[1] + ((var, "0"),), True)
    else:
        p = mk("ref", ("H", r), ((var, "0"),), True)
    if var == "Some":
        return m.merge(m.is_var(v, "Some", m.OPT_VS), m.Some(p), m.NONE)
    pe = mk("ref", p.a[0], p.a[1][:-1] + (("Err", "0"),), True)
    return m.merge(m.is_var(v, "Ok", m.RES_VS), m.Ok(p), m.Err(pe))


STR_TYPES = ("str", "alloc::string::String", "&str", "&alloc::string::String")


def _isstr(t):
    t = V().strip_lt(t or "").replace(" ", "")
    while t.startswith("&"):
        t = t[1:]
    return t in ("str", "alloc::string::String") or t.startswith("alloc::borrow::Cow<str") or t.startswith("Cow<str")


@on("alloc::string::ToString::to_string", "alloc::string::String::from")
def _tostring(vf, fr, b, fn, a, tys, g, st, loc):
    t = fn["args"][0] if fn.get("args") else ""
    if _isstr(t):
        v = vf.val(st, a[0])
        if v.op == "agg" and v.a[0] == "alloc::borrow::Cow":
            v = vf.val(st, v.a[3])
        return v
    if t == "char":
        return cat(C(""), chr_(vf.val(st, a[0])))
    if fn["path"].endswith("to_string"):
        return disp("display", t, vf.deepval(st, a[0]))
    return NotImplemented


# ------------------------------------------------------------------ formatting
def disp(kind, ty, v):
    """text of a formatted value"""
    v = uncow(v)
    if kind == "display":
        if _isstr(ty):
            return v
        if V().strip_lt(ty or "").replace("&", "").strip() == "char":
            return chr_(v)
        if v.op == "c" and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
            return C(str(v.a[0]))
    return mk("fmtd", kind, v)


for _k in "display debug lower_hex upper_hex octal binary lower_exp upper_exp pointer".split():
    @on("core::fmt::rt::Argument::new_" + _k)
    def _fa(vf, fr, b, fn, a, tys, g, st, loc, _k=_k):
        ty = (fn.get("args") or [""])[-1]
        return mk("fmtarg", disp(_k, ty, vf.deepval(st, a[0])))


@on("core::fmt::Arguments::new")
def _fargs(vf, fr, b, fn, a, tys, g, st, loc):
    t, args = vf.val(st, a[0]), vf.deepval(st, a[1])
    bs = None
    if t.op == "c":
        bs = t.a[0]
    elif t.op == "agg" and all(x.op == "c" for x in t.a[3:]):
        bs = [x.a[0] for x in t.a[3:]]
    if isinstance(bs, str):
        bs = [ord(c) for c in bs]
    if not isinstance(bs, (list, tuple, bytes)) or args.op != "agg":
        return NotImplemented
    args = [x.a[0] if x.op == "fmtarg" else mk("fmtd", "?", x) for x in args.a[3:]]
    out, i, k = C(""), 0, 0
    while i < len(bs) and bs[i] != 0:
        n = bs[i]
        i += 1
        if n <= 0x80:
            if n == 0x80:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out = cat(out, C(bytes(bs[i:i + n]).decode()))
            i += n
        else:
            opt = []
            if n & 1:
                opt.append(("flags", tuple(bs[i:i + 4])))
                i += 4
            w = p = None
            if n & 2:
                w = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                p = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                k = bs[i] | bs[i + 1] << 8
                i += 2
            if w is not None:
                opt.append(("width", args[w] if n & 16 else C(w)))
            if p is not None:
                opt.append(("prec", args[p] if n & 32 else C(p)))
            out = cat(out, mk("fmto", args[k], tuple(opt)) if opt else args[k])
            k += 1
    return mk("fmt", out)


@on("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def _fstr(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("fmt", vf.val(st, a[0]))


@on("alloc::fmt::format")
def _fformat(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.val(st, a[0])
    return cat(C(""), v.a[0]) if v.op == "fmt" else NotImplemented


@on("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "core::fmt::Write::write_char", "core::fmt::Formatter::write_char")
def _fwrite(vf, fr, b, fn, a, tys, g, st, loc):
    v = uncow(vf.val(st, a[1]))
    if v.op == "fmt":
        v = v.a[0]
    elif fn["path"].endswith("write_char"):
        v = chr_(v)
    elif fn["path"].endswith("write_fmt"):
        return NotImplemented
    setref(vf, st, a[0], cat(vf.val(st, a[0]), v))
    return V().Ok(UNIT)


@on("core::str::split_at", "core::slice::split_at")
def _splitat(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    x, n = uncow(vf.val(st, a[0])), vf.val(st, a[1])
    return m.tup(m.mkslice(x, C(0), n), m.mkslice(x, n, m.tlen(x)))


def pieces(x, sep):
    return mk("split", x, sep)


@on("core::str::split")
def _split(vf, fr, b, fn, a, tys, g, st, loc):
    x, s = uncow(vf.val(st, a[0])), vf.val(st, a[1])
    if s.op in ("closure", "fn"):
        return NotImplemented
    if s.op == "c" and isinstance(s.a[0], int):
        s = C(chr(s.a[0]))
    return mk("iter", pieces(x, s))


@on("core::str::rsplit")
def _rsplit(vf, fr, b, fn, a, tys, g, st, loc):
    r = _split(vf, fr, b, fn, a, tys, g, st, loc)
    return r if r is NotImplemented else mk("iter", mk("rev", r.a[0]))


@on("core::str::rsplit_once", "core::str::split_once")
def _rsplit1(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    r = _split(vf, fr, b, fn, a, tys, g, st, loc)
    if r is NotImplemented:
        return r
    x = r.a[0]
    n = m.tlen(x)
    if fn["path"].endswith("rsplit_once"):
        v = m.tup(mk("beforelast", x), m.tindex(x, m.add(n, C(1), -1)))
    else:
        v = m.tup(m.tindex(x, C(0)), mk("afterfirst", x))
    return m.merge(m.lt(C(1), n), m.Some(v), m.NONE)


@on("core::char::methods::to_digit")
def _todigit(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    c, r = vf.val(st, a[0]), vf.val(st, a[1])
    if r is not C(10):
        return NotImplemented
    return m.merge(_rng(c, "0", "9"), m.Some(m.add(c, C(48), -1)), m.NONE)


@on("core::char::methods::is_digit")
def _isdigit(vf, fr, b, fn, a, tys, g, st, loc):
    c, r = vf.val(st, a[0]), vf.val(st, a[1])
    if r is not C(10):
        return NotImplemented
    return V().B(_rng(c, "0", "9"))


NUM = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "char", "u128", "i128"}


def convert(vf, fr, b, frm, to, x, g, st, loc):
    m = V()
    f, t = m.strip_lt(frm), m.strip_lt(to)
    if f == t:
        return x, st, g
    key = "<%s as core::convert::From<%s>>::from" % (t, f)
    tab = vf.__dict__.setdefault("_froms", None)
    if tab is None:
        tab = {}
        for p in vf.F.bodies:
            if " as core::convert::From<" in p and p.endswith("::from"):
                tab[m.strip_lt(p)] = p
            mt = re.search(r"<impl core::convert::From<(.*)> for ([^<>]*)>::from$", p)
            if mt:
                tab[m.strip_lt("<%s as core::convert::From<%s>>::from" % (mt.group(2), mt.group(1)))] = p
        vf._froms = tab
    if key in tab:
        p = tab[key]
        if not vf.is_opaque(p):
            return vf.inline(fr, (b, "from"), p, [x], g, st)
    if f in NUM and t in NUM:
        return vf.castint(vf.val(st, x), f, t), st, g
    if f == "char" and t == "alloc::string::String":
        return cat(C(""), chr_(vf.val(st, x))), st, g
    if _isstr(f) and (_isstr(t) or t.startswith("alloc::boxed::Box<str") or t.startswith("alloc::rc")):
        if t.startswith("alloc::borrow::Cow"):
            owned = f == "alloc::string::String"
            return mk("agg", "alloc::borrow::Cow", "Owned" if owned else "Borrowed", ("0",), x), st, g
        v = vf.val(st, x)
        return v, st, g
    if re.match(r"alloc::(boxed::Box|rcs?::\w*::?(Rc|Arc)|rc::Rc|sync::Arc)<", t) or t.startswith("alloc::vec::Vec<") and (f.startswith("[") or f.startswith("&[") or f.startswith("alloc::vec") or f.startswith("alloc::boxed")):
        return vf.val(st, x) if t.startswith("alloc::vec") else x, st, g
    if t.startswith("core::option::Option<"):
        return m.Some(x), st, g
    if t.startswith("std::collections::hash::map::HashMap") or t.startswith("alloc::collections") or t.startswith("ahash"):
        return mk("conv", norm_ty(t), vf.deepval(st, x)), st, g
    return None


def norm_ty(t):
    return V().norm(re.sub(r"<.*", "", t))


@on("core::convert::Into::into", "core::convert::TryInto::try_into")
def _into(vf, fr, b, fn, a, tys, g, st, loc):
    ar = fn.get("args", [])
    if len(ar) == 2 and "try_into" in fn["path"]:
        mt = re.match(r"^\[.*; (\d+)\]$", ar[1])
        if mt and re.match(r"^&('\w+ )?(mut )?\[", ar[0]):
            m, v = V(), vf.val(st, a[0])
            return m.merge(m.eqint(m.tlen(v), C(int(mt.group(1)))), m.Ok(v), m.Err(mk("TryFromSliceError")))
    if len(ar) < 2:
        return NotImplemented
    if "try_into" in fn["path"]:
        # a type with From never fails to convert
        if norm_ty(ar[0]).split("::")[0] in ("core", "alloc", "std") or not re.match(r"^[a-z_]\w*::", ar[0]):
            return NotImplemented
        fb = [p for p in vf.F.bodies if p.endswith("::from") and "From<%s>" % ar[0] in p and (("<%s as " % ar[1]) in p or "for %s>::" % ar[1] in p)]
        if len(fb) != 1:
            return NotImplemented
        r = convert(vf, fr, b, ar[0], ar[1], a[0], g, st, loc)
        m = V()
        if r is None:
            return NotImplemented
        return (m.Ok(r[0]),) + tuple(r[1:]) if isinstance(r, tuple) else m.Ok(r)
    r = convert(vf, fr, b, ar[0], ar[1], a[0], g, st, loc)
    return r if r is not None else NotImplemented


@on("core::convert::From::from")
def _from(vf, fr, b, fn, a, tys, g, st, loc):
    ar = fn.get("args", [])
    if len(ar) < 2:
        return NotImplemented
    r = convert(vf, fr, b, ar[1], ar[0], a[0], g, st, loc)
    return r if r is not None else NotImplemented


# ------------------------------------------------------------------ ? operator
@on("core::ops::try_trait::Try::branch")
def _branch(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    t = fn["args"][0] if fn.get("args") else ""
    cont = lambda x: mk("agg", m.CF, "Continue", ("0",), x)
    brk = lambda x: mk("agg", m.CF, "Break", ("0",), x)
    if t.startswith("core::option::Option") or t.startswith("core::result::Result"):
        opt = t.startswith("core::option::Option")
        def f(v):
            if v.op == "ite":
                return m.merge(v.a[0], f(v.a[1]), f(v.a[2]))
            if opt:
                return m.merge(m.is_var(v, "Some", m.OPT_VS), cont(m.fld(v, "Some", "0")), brk(m.NONE))
            return m.merge(m.is_var(v, "Ok", m.RES_VS), cont(m.fld(v, "Ok", "0")), brk(m.Err(m.fld(v, "Err", "0"))))
        return f(v)
    return NotImplemented


@on("core::ops::try_trait::FromResidual::from_residual")
def _residual(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    v = vf.val(st, a[0])
    if ar and ar[0].startswith("core::option::Option"):
        return m.NONE
    if ar and ar[0].startswith("core::result::Result"):
        e = m.fld(v, "Err", "0")
        to = split_args(ar[0])
        frm = split_args(ar[1]) if len(ar) > 1 else []
        if len(to) == 2 and len(frm) == 2 and m.strip_lt(to[1]) != m.strip_lt(frm[1]):
            r = convert(vf, fr, b, frm[1], to[1], e, g, st, loc)
            if r is not None:
                return m.Err(r[0]), r[1], r[2]
            return m.Err(mk("conv", norm_ty(m.strip_lt(to[1])), vf.deepval(st, e)))
        return m.Err(e)
    return NotImplemented


def split_args(t):
    """type arguments of a printed type, e.g. Result<Vec<A>, B> -> [Vec<A>, B]"""
    i = t.find("<")
    if i < 0:
        return []
    s, d, cur, out = t[i + 1:t.rfind(">")], 0, "", []
    prev = ""
    for c in s:
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and prev != "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        prev = c
    if cur.strip():
        out.append(cur.strip())
    return out


# ------------------------------------------------------------------ comparison
@on("core::cmp::PartialEq::eq")
def _eq(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    if ar and not local_eq_ok(vf, ar[0]):
        return NotImplemented
    return m.B(eq_any(ar, uncow(vf.deepval(st, a[0])), uncow(vf.deepval(st, a[1]))))


def isseq(ty):
    t = re.sub(r"^(&('\w+ )?(mut )?)+", "", V().strip_lt(ty or "")).strip()
    return t.startswith("[") or t.startswith("alloc::vec::Vec<") or t.startswith("std::vec::Vec<")


def eq_any(ar, x, y):
    """equality of two values; of two sequences: same length, no position where they differ"""
    m = V()
    if ar and isseq(ar[0]) and not (x.op in ("c", "agg", "ite", "bot") or y.op in ("c", "agg", "ite", "bot")):
        return land(m.eqint(m.tlen(x), m.tlen(y)), seq_same(x, y))
    return m.eq_g(x, y)


def seq_same(x, y):
    m = V()
    if x is y:
        return True
    x, y = [z.a[0] if z.op == "slice" and z.a[1] is C(0) else z for z in sorted((x, y), key=lambda t: t.id)]
    L = ("seq", x.id, y.id)
    return lnot(m.mkex(L, lnot(m.eq_g(mk("elem", x, L), mk("elem", y, L)))))


@on("core::slice::starts_with")
def _sw(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    x, y = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if x.op in ("agg", "c", "bot", "ite") or y.op in ("agg", "c", "bot", "ite"):
        return NotImplemented
    return m.B(land(lnot(m.lt(m.tlen(x), m.tlen(y))), seq_same(x, y)))


def _rng(c, lo, hi):
    if c.op == "c" and isinstance(c.a[0], int):
        return ord(lo) <= c.a[0] <= ord(hi)
    if c.op == "ite":
        return ite(c.a[0], _rng(c.a[1], lo, hi), _rng(c.a[2], lo, hi))
    return atom(mk("cls", c, ord(lo), ord(hi)))


CLASSES = {"is_ascii_uppercase": ["AZ"], "is_ascii_lowercase": ["az"], "is_ascii_digit": ["09"], "is_ascii_alphabetic": ["AZ", "az"],
           "is_ascii_alphanumeric": ["AZ", "az", "09"], "is_ascii_hexdigit": ["AF", "af", "09"], "is_ascii": ["\0\x7f"]}


def _mkclass(rs):
    def h(vf, fr, b, fn, a, tys, g, st, loc):
        c = vf.deepval(st, a[0])
        r = False
        for lo, hi in rs:
            r = lor(r, _rng(c, lo, hi))
        return V().B(r)
    return h


# predicates of a character that are evaluated when the character is known (the tables are those of std and regex-syntax)
WS = {9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000} | set(range(0x2000, 0x200B))
META = set(map(ord, "\\.+*?()|[]{}^$#&-~"))


def _known(path, pred):
    def h(vf, fr, b, fn, a, tys, g, st, loc):
        c = vf.deepval(st, a[0])
        if c.op == "c" and isinstance(c.a[0], int):
            return V().B(pred(c.a[0]))
        return NotImplemented
    H[path] = h


_known("core::char::methods::is_whitespace", lambda c: c in WS)
_known("regex_syntax::is_meta_character", lambda c: c in META)
_known("regex_syntax::is_escapeable_character", lambda c: c in META or c < 128 and not (chr(c).isalnum() or chr(c) in "<>") )


for _n, _rs in CLASSES.items():
    H["core::char::methods::" + _n] = _mkclass(_rs)
    H["core::num::" + _n] = _mkclass(_rs)


def uncow(v):
    if v.op == "agg" and v.a[0] == "alloc::borrow::Cow":
        return v.a[3]
    return v


def local_eq_ok(vf, ty):
    return True


@on("core::cmp::PartialEq::ne")
def _ne(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    # a local (non-derived) eq is inlined through the trait default
    ar = fn.get("args", [])
    if ar:
        rhs = ar[1] if len(ar) > 1 else ar[0]
        for p in ("<%s as core::cmp::PartialEq>::eq" % ar[0], "<%s as core::cmp::PartialEq<%s>>::eq" % (ar[0], rhs)):
            bd = vf.F.bodies.get(p)
            if bd is not None and not bd.get("derived") and p not in fr.stack:
                r = vf.inline(fr, (b, "ne"), p, a, g, st)
                return m.B(lnot(m.to_g(r[0]))), r[1], r[2]
    return m.B(lnot(eq_any(ar, uncow(vf.deepval(st, a[0])), uncow(vf.deepval(st, a[1])))))


def _cmpable(vf, ty):
    t = (ty or "").lstrip("&").strip()
    t = re.sub(r"^'\w+ ", "", t)
    return t in NUM


@on("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _pord(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    op = fn["path"].rsplit("::", 1)[1]
    x, y = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if ar and _cmpable(vf, ar[0]):
        l = m.lt(x, y) if op in ("lt", "ge") else m.lt(y, x)
        return m.B(l if op in ("lt", "gt") else lnot(l))
    # user-defined order: go through Ord::cmp / partial_cmp of the type
    r = _cmp_local(vf, fr, b, ar[0] if ar else "", a, g, st)
    if r is not None:
        v, st, g = r
        isv = lambda n: m.is_var(v, n, ORD_VS)
        gd = {"lt": isv("Less"), "gt": isv("Greater"), "le": lnot(isv("Greater")), "ge": lnot(isv("Less"))}[op]
        return m.B(gd), st, g
    at = ltx(x, y) if op in ("lt", "ge") else ltx(y, x)
    return m.B(at if op in ("lt", "gt") else lnot(at))


def ltx(x, y):
    """x < y in an unspecified total order"""
    m = V()
    if x.op == "ite":
        return ite(x.a[0], ltx(x.a[1], y), ltx(x.a[2], y))
    if y.op == "ite":
        return ite(y.a[0], ltx(x, y.a[1]), ltx(x, y.a[2]))
    if x.op == "bool" and y.op == "bool":
        return land(lnot(x.a[0]), y.a[0])
    ne = lnot(m.eq_g(x, y))
    if x.id <= y.id:
        return land(ne, atom(mk("ltx", x, y)))
    return land(ne, lnot(atom(mk("ltx", y, x))))


def derived_cmp(vf, ty, x, y):
    m = V()
    ty = re.sub(r"^(&('\\w+ )?)+", "", ty)
    if _cmpable(vf, ty):
        return m.lt(x, y), m.lt(y, x)
    bd = vf.F.bodies.get("<%s as core::cmp::PartialOrd>::partial_cmp" % ty)
    adt = vf.F.adts.get(re.sub(r"<.*", "", ty))
    if not adt or bd is None or not bd.get("derived"):
        return ltx(x, y), ltx(y, x)
    vs = [v["n"] for v in adt["variants"]]
    less = greater = False
    for i, n in enumerate(adt["variants"]):
        for j, k in enumerate(adt["variants"]):
            c = land(m.is_var(x, n["n"], vs), m.is_var(y, k["n"], vs)) if adt["kind"] == "Enum" else True
            if i == j:
                eq = c
                for f in n["fields"]:
                    v = n["n"] if adt["kind"] == "Enum" else ""
                    l2, g2 = derived_cmp(vf, m.strip_lt(f["ty"]), m.fld(x, v, f["n"]), m.fld(y, v, f["n"]))
                    less, greater = lor(less, land(eq, l2)), lor(greater, land(eq, g2))
                    eq = land(eq, land(lnot(l2), lnot(g2)))
            elif i < j:
                less = lor(less, c)
            else:
                greater = lor(greater, c)
    return less, greater


def _cmp_local(vf, fr, b, ty, a, g, st):
    m = V()
    ty = re.sub(r"^(&('\w+ )?)+", "", ty)
    for p in ("<%s as core::cmp::Ord>::cmp" % ty,):
        bd = vf.F.bodies.get(p)
        if bd is not None and not bd.get("derived") and p not in fr.stack:
            return vf.inline(fr, (b, "cmp"), p, a, g, st)
    p = "<%s as core::cmp::PartialOrd>::partial_cmp" % ty
    bd = vf.F.bodies.get(p)
    if bd is not None and not bd.get("derived") and p not in fr.stack:
        r = vf.inline(fr, (b, "pcmp"), p, a, g, st)
        if r is not None:
            return m.fld(r[0], "Some", "0"), r[1], r[2]
    # derived order: declaration order of the variants, then the fields in order
    adt = vf.F.adts.get(re.sub(r"<.*", "", ty))
    if adt and p in vf.F.bodies:
        less, greater = derived_cmp(vf, ty, vf.deepval(st, a[0]), vf.deepval(st, a[1]))
        return m.merge(less, ordv("Less"), m.merge(greater, ordv("Greater"), ordv("Equal"))), st, g
    return None


@on("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def _cmp(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    wrap = (lambda v: m.Some(v)) if "partial" in fn["path"] else (lambda v: v)
    x, y = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if ar and (ar[0] or "").lstrip("&").strip() == "bool":
        x, y = m.to_g(x), m.to_g(y)
        return wrap(m.merge(land(lnot(x), y), ordv("Less"), m.merge(land(x, lnot(y)), ordv("Greater"), ordv("Equal"))))
    if ar and _cmpable(vf, ar[0]):
        r = m.merge(m.lt(x, y), ordv("Less"), m.merge(m.lt(y, x), ordv("Greater"), ordv("Equal")))
        return wrap(r)
    r = _cmp_local(vf, fr, b, ar[0] if ar else "", a, g, st)
    if r is not None:
        return wrap(r[0]), r[1], r[2]
    l, gt = ltx(x, y), ltx(y, x)
    return wrap(m.merge(l, ordv("Less"), m.merge(gt, ordv("Greater"), ordv("Equal"))))


@on("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def _maxmin(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    mx = fn["path"].endswith("max")
    x, y = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if ar and _cmpable(vf, ar[0]):
        return m.merge(m.lt(y, x) if mx else m.lt(x, y), x, y)
    r = _cmp_local(vf, fr, b, ar[0] if ar else "", a, g, st)
    if r is not None:
        c = m.is_var(r[0], "Greater", ORD_VS)     # x > y
        return (m.merge(c, x, y) if mx else m.merge(c, y, x)), r[1], r[2]
    return NotImplemented


@on("core::cmp::Ordering::reverse")
def _rev(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    return m.merge(m.is_var(v, "Less", ORD_VS), ordv("Greater"), m.merge(m.is_var(v, "Greater", ORD_VS), ordv("Less"), ordv("Equal")))


@on("core::cmp::Ordering::then")
def _then(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    return m.merge(m.is_var(v, "Equal", ORD_VS), vf.val(st, a[1]), v)


@on("core::cmp::Ordering::then_with")
def _thenw(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    e = m.is_var(v, "Equal", ORD_VS)
    r = vf.apply(fr, (b, "tw"), a[1], [], land(g, e), st, loc)
    if r is None:
        return NotImplemented
    return m.merge(e, r[0], v), r[1], g


for _n, _f in (("is_lt", lambda i: i("Less")), ("is_gt", lambda i: i("Greater")), ("is_eq", lambda i: i("Equal")),
               ("is_ne", lambda i: lnot(i("Equal"))), ("is_le", lambda i: lnot(i("Greater"))), ("is_ge", lambda i: lnot(i("Less")))):
    def _mkc(f):
        def h(vf, fr, b, fn, a, tys, g, st, loc):
            m = V()
            v = vf.val(st, a[0])
            return m.B(f(lambda n: m.is_var(v, n, ORD_VS)))
        return h
    H["core::cmp::Ordering::" + _n] = _mkc(_f)


# ------------------------------------------------------------------ integers
@on("core::num::saturating_sub")
def _satsub(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    x, y = vf.val(st, a[0]), vf.val(st, a[1])
    if (fn.get("path", "").find("i64") >= 0):
        return NotImplemented
    return m.merge(m.lt(x, y), C(0), m.add(x, y, -1))


@on("core::num::checked_sub")
def _chksub(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    x, y = vf.val(st, a[0]), vf.val(st, a[1])
    return m.merge(m.lt(x, y), m.NONE, m.Some(m.add(x, y, -1)))


@on("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::unchecked_add", "core::num::unchecked_sub")
def _wrap(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    x, y = vf.val(st, a[0]), vf.val(st, a[1])
    return mk("wrapping", m.add(x, y, -1 if "sub" in fn["path"] else 1))


@on("core::num::abs_diff")
def _absd(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    x, y = vf.val(st, a[0]), vf.val(st, a[1])
    return m.merge(m.lt(x, y), m.add(y, x, -1), m.add(x, y, -1))


@on("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains", "core::ops::range::RangeFrom::contains")
def _rc(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    r, x = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if r.op != "agg" and "Inclusive" in fn["path"]:
        return NotImplemented
    lo = lnot(m.lt(x, m.fld(r, "", "start")))
    if "RangeFrom" in fn["path"]:
        return m.B(lo)
    e = m.fld(r, "", "end")
    return m.B(land(lo, lnot(m.lt(e, x)) if "Inclusive" in fn["path"] else m.lt(x, e)))


@on("core::ops::range::RangeInclusive::new")
def _ri(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("agg", "core::ops::range::RangeInclusive", "", ("start", "end"), vf.val(st, a[0]), vf.val(st, a[1]))


# ------------------------------------------------------------------ Option / Result
def _model(name):
    def h(vf, fr, b, fn, a, tys, g, st, loc):
        return vf.model(fr, b, name, a, g, st)
    return h


for _n in ("map inspect and_then and or or_else filter unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else is_some_and "
           "is_none_or is_some is_none ok_or ok_or_else zip flatten transpose get_or_insert_with").split():
    H["core::option::Option::" + _n] = _model("option::" + _n)
for _n in ("map map_err and_then or_else ok err unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else is_ok is_err "
           "is_ok_and is_err_and").split():
    H["core::result::Result::" + _n] = _model("result::" + _n)


@on("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def _uod(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    opt = "option" in fn["path"]
    ar = fn.get("args") or []
    ty = m.strip_lt(ar[0]) if ar else "T"
    v = vf.val(st, a[0])
    c = m.is_var(v, "Some" if opt else "Ok", m.OPT_VS if opt else m.RES_VS)
    x = m.fld(v, "Some" if opt else "Ok", "0")
    if c is True:
        return x
    d = dodefault(vf, fr, b, ty, land(g, lnot(c)), dict(st))
    if d is None:
        return x
    return m.merge(c, x, d[0] if isinstance(d, tuple) else d)


H["std::panic::catch_unwind"] = _model("panics::catch")
H["core::bool::then"] = _model("boolean::then")
H["core::bool::then_some"] = _model("boolean::then_some")
H["bool::then"] = H["core::bool::then"]
H["bool::then_some"] = H["core::bool::then_some"]


@on("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect",
    "core::option::Option::unwrap_unchecked", "core::result::Result::unwrap_unchecked")
def _unwrap(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    opt = "option" in fn["path"]
    c = m.is_var(v, "Some" if opt else "Ok", m.OPT_VS if opt else m.RES_VS)
    if c is not True:
        vf.emit(fr, "unwrap", m.norm(fn["path"]), [vf.deepval(st, v)], a, g, loc, info=(c,))
    if c is False:
        return None
    return m.fld(v, "Some" if opt else "Ok", "0")


@on("core::result::Result::unwrap_err", "core::result::Result::expect_err")
def _unwraperr(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    return m.fld(vf.val(st, a[0]), "Err", "0")


@on("core::option::Option::take")
def _otake(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    setref(vf, st, a[0], m.NONE)
    return v


@on("core::option::Option::replace")
def _orep(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    setref(vf, st, a[0], m.Some(a[1]))
    return v


@on("core::option::Option::insert")
def _oins(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    setref(vf, st, a[0], m.Some(a[1]))
    r = a[0]
    return mk("ref", r.a[0], r.a[1] + (("Some", "0"),), True) if r.op == "ref" else NotImplemented


def setref(vf, st, r, x):
    if r.op == "ref":
        # follow references stored in places
        root, projs = r.a[0], r.a[1]
        v = vf.read(st, root, projs)
        if v.op == "ref":
            return setref(vf, st, v, x)
        vf.write(st, root, projs, x)
    elif r.op == "ite":
        vf.notes.append("write through merged reference")
        setref(vf, st, r.a[1], mk("maybe", x))
        setref(vf, st, r.a[2], mk("maybe", x))
    else:
        st[("H", r)] = x


# ------------------------------------------------------------------ mem
def default_of(vf, ty):
    m = V()
    ty = m.strip_lt(ty or "")
    if ty.startswith("alloc::vec::Vec") or ty.startswith("smallvec"):
        return EMPTYVEC
    if ty in ("alloc::string::String", "&str", "str"):
        return C("")
    if ty == "bool":
        return m.FALSE
    if ty in NUM:
        return C(0)
    if ty.startswith("core::option::Option"):
        return m.NONE
    if ty == "()":
        return UNIT
    if ty.split("<")[0] in _maps:
        return mk("default", ty.split("<")[0].split("::")[-1])
    return None


@on("core::mem::take")
def _mtake(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.val(st, a[0])
    d = default_of(vf, fn["args"][0] if fn.get("args") else "")
    if d is None:
        r = dodefault(vf, fr, b, fn["args"][0] if fn.get("args") else "", g, st)
        d, st, g = r
    v = frozen(v, a[0])
    setref(vf, st, a[0], d)
    return v, st, g


def frozen(v, ptr):
    """the value behind an opaque pointer before it is overwritten (the pointer's term would be read again later)"""
    return mk("old", v) if v is ptr else v


def dodefault(vf, fr, b, ty, g, st):
    d = default_of(vf, ty)
    if d is not None:
        return d, st, g
    p = "<%s as core::default::Default>::default" % ty
    if p in vf.F.bodies and p not in fr.stack and not vf.is_opaque(p):
        r = vf.inline(fr, (b, "def"), p, [], g, st)
        if r is not None:
            return r
    return mk("default", norm_ty(ty)), st, g


@on("core::default::Default::default")
def _default(vf, fr, b, fn, a, tys, g, st, loc):
    ty = fn["args"][0] if fn.get("args") else ""
    if ty.startswith("regex_automata::") and ty.endswith("Config"):
        return cfg_new("syntax" if "syntax" in ty else "meta")
    return dodefault(vf, fr, b, ty, g, st)


@on("core::mem::replace")
def _mreplace(vf, fr, b, fn, a, tys, g, st, loc):
    v = frozen(vf.val(st, a[0]), a[0])
    setref(vf, st, a[0], vf.val(st, a[1]) if a[1].op != "ref" else a[1])
    return v


@on("core::mem::swap")
def _mswap(vf, fr, b, fn, a, tys, g, st, loc):
    x, y = vf.val(st, a[0]), vf.val(st, a[1])
    setref(vf, st, a[0], y)
    setref(vf, st, a[1], x)
    return UNIT


@on("core::mem::drop")
def _mdrop(vf, fr, b, fn, a, tys, g, st, loc):
    vf.emit(fr, "drop", (fn.get("args") or [""])[0], [vf.val(st, a[0])], a, g, loc)
    return UNIT


# ------------------------------------------------------------------ vectors and strings
def chr_(c):
    if c.op == "c" and isinstance(c.a[0], int):
        return C(chr(c.a[0]))
    return mk("chr", c)


def cat(a, x):
    parts = list(a.a[0]) if a.op == "cat" else [a]
    new = list(x.a[0]) if x.op == "cat" else [x]
    for p in new:
        if parts and parts[-1].op == "c" and p.op == "c" and isinstance(parts[-1].a[0], str) and isinstance(p.a[0], str):
            parts[-1] = C(parts[-1].a[0] + p.a[0])
        else:
            parts.append(p)
    parts = [p for p in parts if not (p.op == "c" and p.a[0] == "")]
    if not parts:
        return C("")
    if len(parts) == 1 and parts[0].op != "chr":
        return parts[0]
    return mk("cat", tuple(parts))


@on("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::vec::Vec::new_in")
def _vnew(vf, fr, b, fn, a, tys, g, st, loc):
    return EMPTYVEC


@on("alloc::string::String::new", "alloc::string::String::with_capacity")
def _snew(vf, fr, b, fn, a, tys, g, st, loc):
    return C("")


_maps = ("ahash::hash_map::AHashMap", "ahash::hash_set::AHashSet", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
         "alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet", "slotmap::basic::SlotMap")


@on(*[m_ + "::" + c_ for m_ in _maps for c_ in ("new", "with_capacity", "with_key", "with_capacity_and_key", "default")])
def _mapnew(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("default", next(m_ for m_ in _maps if V().norm(fn["path"]).startswith(m_ + "::")).split("::")[-1])


@on("alloc::boxed::Box::new_uninit")
def _nu(vf, fr, b, fn, a, tys, g, st, loc):
    root = ("L", fr.fid, ("box", b))
    st[root] = mk("uninit")
    return mk("ref", root, (), True)


@on("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init")
def _bai(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.val(st, a[0])
    if v.op == "upd" and v.a[0].op == "uninit" and len(v.a[1]) == 1:
        v = v.a[1][0][1]
    if v.op == "agg" and v.a[0] == "array":
        return mk("agg", "vec", "", *v.a[2:])
    return v


@on("alloc::vec::from_elem")
def _fe(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("repeat", vf.val(st, a[0]), vf.val(st, a[1]))


def vecpush(old, x):
    if old.op == "agg" and old.a[0] == "vec":
        n = len(old.a) - 3
        return mk("agg", "vec", "", old.a[2] + (str(n),), *(old.a[3:] + (x,)))
    return mk("push", old, x)


@on("alloc::vec::Vec::push")
def _push(vf, fr, b, fn, a, tys, g, st, loc):
    old = vf.val(st, a[0])
    x = a[1]
    vf.emit(fr, "call", "alloc::vec::Vec::push", [old, vf.deepval(st, x)], a, g, loc, UNIT)
    setref(vf, st, a[0], vecpush(old, x if x.op == "ref" else vf.val(st, x)))
    return UNIT


@on("alloc::vec::Vec::pop")
def _pop(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    old = vf.val(st, a[0])
    vf.emit(fr, "call", "alloc::vec::Vec::pop", [old], a, g, loc)
    if old.op == "push":
        setref(vf, st, a[0], old.a[0])
        return m.Some(old.a[1])
    if old.op == "agg" and old.a[0] == "vec":
        n = len(old.a) - 3
        if n == 0:
            return m.NONE
        setref(vf, st, a[0], mk("agg", "vec", "", old.a[2][:-1], *old.a[3:-1]))
        return m.Some(old.a[-1])
    n = m.tlen(old)
    setref(vf, st, a[0], mk("popped", old))
    return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(m.tindex(old, m.add(n, C(1), -1))))


@on("alloc::vec::Vec::truncate")
def _vtrunc(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    old = vf.val(st, a[0])
    vf.emit(fr, "call", "alloc::vec::Vec::truncate", [old, a[1]], a, g, loc, UNIT)
    setref(vf, st, a[0], m.mkslice(old, C(0), a[1]))
    return UNIT


@on("alloc::vec::Vec::clear", "alloc::string::String::clear")
def _vclear(vf, fr, b, fn, a, tys, g, st, loc):
    setref(vf, st, a[0], EMPTYVEC if "vec" in fn["path"] else C(""))
    return UNIT


@on("alloc::vec::Vec::insert")
def _vins(vf, fr, b, fn, a, tys, g, st, loc):
    old = vf.val(st, a[0])
    i = vf.val(st, a[1])
    vf.emit(fr, "call", "alloc::vec::Vec::insert", [old, i, vf.deepval(st, a[2])], a, g, loc, UNIT)
    if old.op == "agg" and old.a[0] == "vec" and i.op == "c" and 0 <= i.a[0] <= len(old.a) - 3:
        xs = list(old.a[3:])
        xs.insert(i.a[0], a[2])
        new = mk("agg", "vec", "", tuple(str(k) for k in range(len(xs))), *xs)
    elif i is C(0):
        new = mkappend(mk("agg", "vec", "", ("0",), vf.val(st, a[2]) if a[2].op != "ref" else a[2]), old)
    else:
        new = mk("vinsert", old, i, vf.val(st, a[2]) if a[2].op != "ref" else a[2])
    setref(vf, st, a[0], new)
    return UNIT


@on("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def _vrem(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    old, i = vf.val(st, a[0]), vf.val(st, a[1])
    vf.emit(fr, "call", "alloc::vec::Vec::remove", [old, i], a, g, loc, UNIT)
    x = m.tindex(old, i)
    swap = "swap" in fn["path"]
    if old.op == "agg" and old.a[0] == "vec" and i.op == "c" and 0 <= i.a[0] < len(old.a) - 3:
        xs = list(old.a[3:])
        if swap:
            xs[i.a[0]] = xs[-1]
            xs.pop()
        else:
            xs.pop(i.a[0])
        new = mk("agg", "vec", "", tuple(str(k) for k in range(len(xs))), *xs)
    elif i is C(0) and not swap:
        new = m.mkslice(old, C(1), m.tlen(old))
    else:
        new = mk("vswaprem" if swap else "vremoved", old, i)
    setref(vf, st, a[0], new)
    return x


@on("alloc::vec::Vec::append")
def _vappend(vf, fr, b, fn, a, tys, g, st, loc):
    old, o2 = vf.val(st, a[0]), vf.val(st, a[1])
    vf.emit(fr, "call", "alloc::vec::Vec::append", [old, o2], a, g, loc, UNIT)
    setref(vf, st, a[0], mkappend(old, o2))
    setref(vf, st, a[1], EMPTYVEC)
    return UNIT


@on("alloc::vec::Vec::extend_from_slice")
def _vextslice(vf, fr, b, fn, a, tys, g, st, loc):
    old, o2 = vf.val(st, a[0]), vf.val(st, a[1])
    vf.emit(fr, "call", "alloc::vec::Vec::extend_from_slice", [old, o2], a, g, loc, UNIT)
    setref(vf, st, a[0], mkappend(old, o2))
    return UNIT


@on("alloc::vec::Vec::drain")
def _vdrain(vf, fr, b, fn, a, tys, g, st, loc):
    r = vf.val(st, a[1])
    if r.op in ("agg", "zst", "const") and "RangeFull" in str(r.a[0]):
        v = vf.val(st, a[0])
        setref(vf, st, a[0], EMPTYVEC)
        return mk("iter", v)
    return NotImplemented


@on("alloc::vec::Vec::retain")
def _vretain(vf, fr, b, fn, a, tys, g, st, loc):
    return retain(vf, fr, b, "coll::retain", a, g, st)


@on("alloc::vec::Vec::retain_mut")
def _vretainm(vf, fr, b, fn, a, tys, g, st, loc):
    return retain(vf, fr, b, "coll::retain_mut", a, g, st)


@on("std::collections::hash::map::HashMap::retain", "alloc::collections::btree::map::BTreeMap::retain", "ahash::hash_map::AHashMap::retain")
def _mretain(vf, fr, b, fn, a, tys, g, st, loc):
    return retain(vf, fr, b, "coll::map_retain", a, g, st)


def retain(vf, fr, b, name, a, g, st):
    old = vf.val(st, a[0])
    r = vf.model(fr, b, name, [a[0], a[1]], g, st)
    if r is None:
        return None
    # the surviving collection is summarised by what the marker removed
    conds = [e for e in vf.effects if e.kind == "call" and e.path.startswith("sdsmodels::coll::removed")]
    key = tuple((e.args[1], restrict(e.guard, g)) for e in conds[-1:])
    setref(vf, r[1], a[0], mk("retained", old, *[x for p in key for x in p]))
    return r


@on("alloc::string::String::push")
def _spush(vf, fr, b, fn, a, tys, g, st, loc):
    old = vf.val(st, a[0])
    x = chr_(vf.val(st, a[1]))
    vf.emit(fr, "call", "alloc::string::String::push", [old, x], a, g, loc, UNIT)
    setref(vf, st, a[0], cat(old, x))
    return UNIT


@on("alloc::string::String::push_str")
def _spushs(vf, fr, b, fn, a, tys, g, st, loc):
    old = vf.val(st, a[0])
    x = uncow(vf.val(st, a[1]))
    vf.emit(fr, "call", "alloc::string::String::push_str", [old, x], a, g, loc, UNIT)
    setref(vf, st, a[0], cat(old, x))
    return UNIT


@on("alloc::vec::Vec::len", "core::slice::len", "core::str::len", "alloc::string::String::len", "std::collections::hash::map::HashMap::len",
    "ahash::hash_map::AHashMap::len", "slotmap::basic::SlotMap::len", "alloc::collections::btree::map::BTreeMap::len")
def _len(vf, fr, b, fn, a, tys, g, st, loc):
    return V().tlen(uncow(vf.val(st, a[0])))


@on("alloc::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "alloc::string::String::is_empty",
    "std::collections::hash::map::HashMap::is_empty", "ahash::hash_map::AHashMap::is_empty", "alloc::collections::btree::map::BTreeMap::is_empty")
def _isempty(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    return m.B(m.eqint(m.tlen(uncow(vf.val(st, a[0]))), C(0)))


@on("core::slice::first", "core::slice::last", "core::slice::first_mut", "core::slice::last_mut")
def _first(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    n = m.tlen(v)
    i = C(0) if "first" in fn["path"] else m.add(n, C(1), -1)
    el = elem_at(vf, st, a[0], v, i, fn["path"].endswith("_mut"))
    return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(el))


def elem_at(vf, st, ref, v, i, mut):
    m = V()
    if ref.op == "ref" and mut:
        return mk("ref", ref.a[0], ref.a[1] + (("i#", i),), mut)
    return m.tindex(v, i)


@on("core::slice::get", "core::slice::get_mut", "alloc::vec::Vec::get", "alloc::vec::Vec::get_mut")
def _get(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v, i = vf.val(st, a[0]), vf.val(st, a[1])
    if i.op in ("agg", "zst", "const") and "Range" in str(i.a[0]):
        rb = range_bounds(v, i)
        if rb is None or fn["path"].endswith("_mut"):
            return NotImplemented
        n = m.tlen(v)
        ok = lnot(m.lt(n, rb[1]))
        if not (rb[0].op == "c" and rb[0].a[0] == 0):
            ok = land(ok, lnot(m.lt(rb[1], rb[0])))
        return m.merge(ok, m.Some(mkslice(v, *rb)), m.NONE)
    el = elem_at(vf, st, a[0], v, i, fn["path"].endswith("_mut"))
    return m.merge(m.lt(i, m.tlen(v)), m.Some(el), m.NONE)


@on("core::slice::split_first")
def _splitf(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    n = m.tlen(v)
    return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(m.tup(m.tindex(v, C(0)), mkslice(v, C(1), n))))


@on("core::slice::split_last")
def _splitl(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    n = m.tlen(v)
    k = m.add(n, C(1), -1)
    return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(m.tup(m.tindex(v, k), mkslice(v, C(0), k))))


def mkslice(v, a, b):
    return V().mkslice(v, a, b)


def range_bounds(v, r):
    m = V()
    n = m.tlen(v)
    nm = str(r.a[0]).rsplit("::", 1)[-1] if r.op in ("agg", "zst", "const") else ""
    if nm.startswith("RangeFull") or "RangeFull" in nm:
        return C(0), n
    if r.op != "agg":
        return None
    if nm == "Range":
        return m.fld(r, "", "start"), m.fld(r, "", "end")
    if nm == "RangeFrom":
        return m.fld(r, "", "start"), n
    if nm == "RangeTo":
        return C(0), m.fld(r, "", "end")
    if nm == "RangeInclusive":
        return m.fld(r, "", "start"), m.add(m.fld(r, "", "end"), C(1))
    if nm == "RangeToInclusive":
        return C(0), m.add(m.fld(r, "", "end"), C(1))
    return None


@on("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _index(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v, i = vf.val(st, a[0]), vf.deepval(st, a[1])
    t = m.strip_lt((fn.get("args") or [""])[0])
    mp = re.match(r"((?:slotmap|std::collections|ahash|alloc::collections)[\w:]*)<", t)
    if mp and not "Mut" in fn["path"]:
        r = vf.opaque_call(fr, b, mp.group(1) + "::get", a, tys, g, st, loc, pure=True)
        return _unwrap(vf, fr, b, {"path": "core::option::Option::unwrap"}, [r[0]], tys, g, st, loc)
    if not (t.startswith("[") or t in ("str", "alloc::string::String") or t.startswith("alloc::vec::Vec")):
        return NotImplemented
    v = uncow(v)
    if i.op in ("agg", "zst", "const") and "Range" in str(i.a[0]):
        rb = range_bounds(v, i)
        if rb is None:
            return NotImplemented
        vf.emit(fr, "slice", "core::ops::index::Index::index", [v, rb[0], rb[1]], a, g, loc)
        return mkslice(v, *rb)
    vf.emit(fr, "index", "core::ops::index::Index::index", [v, i], a, g, loc)
    if a[0].op == "ref":
        return mk("ref", a[0].a[0], a[0].a[1] + (("i#", i),), "Mut" in fn["path"])
    return m.tindex(v, i)


@on("core::slice::contains")
def _contains(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v, x = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if v.op == "agg":
        return m.B(disj(*[m.eq_g(y, x) for y in v.a[3:]]))
    return m.B(atom(mk("contains", v, x)))


@on("alloc::slice::concat")
def _concat(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.deepval(st, a[0])
    if v.op != "agg" or v.a[0] not in ("array", "vec"):
        return NotImplemented
    if re.match(r"^(&('\w+ )?)*(str|alloc::string::String)$", (fn.get("args") or [""])[0]):
        r = C("")
        for x in v.a[3:]:
            r = cat(r, x)
        return r
    if "str" in "".join(fn.get("args") or []):
        return NotImplemented
    r = EMPTYVEC
    for x in v.a[3:]:
        r = mkappend(r, x)
    return r


@on("serde::ser::SerializeSeq::serialize_element", "serde_core::ser::SerializeSeq::serialize_element")
def _serel(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.deepval(st, a[1])
    t = (fn.get("args") or [""])[-1]
    if v.op == "agg" and v.a[0] == "array" and t.startswith("[") and ";" not in t:
        a = [a[0], mk("agg", "vec", *v.a[1:])]      # a slice is written as a sequence, as a Vec is
    return vf.opaque_call(fr, b, fn["path"], a, tys, g, st, loc, fn)


@on("core::slice::fill")
def _fill(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    x = vf.val(st, a[1])
    vf.emit(fr, "call", "core::slice::fill", [v, x], a, g, loc)
    base = v
    while base.op == "store":
        base = base.a[0]
    setref(vf, st, a[0], mk("repeat", x, m.tlen(base)))
    return UNIT


@on("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _cfs(vf, fr, b, fn, a, tys, g, st, loc):
    setref(vf, st, a[0], vf.val(st, a[1]))
    return UNIT


# ------------------------------------------------------------------ ordered maps
BM = "alloc::collections::btree::map::BTreeMap::"


@on(BM + "contains_key")
def _bhas(vf, fr, b, fn, a, tys, g, st, loc):
    return V().B(atom(mk("haskey", vf.deepval(st, a[0]), vf.deepval(st, a[1]))))


@on(BM + "get")
def _bget(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    mp, k = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    return m.merge(atom(mk("haskey", mp, k)), m.Some(mk("mapget", mp, k)), m.NONE)


@on(*["core::sync::atomic::%s::fetch_sub" % t for t in ("Atomic", "AtomicI64", "AtomicUsize", "AtomicU64", "AtomicIsize", "AtomicI32", "AtomicU32")])
def _fsub(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    return vf.opaque_call(fr, b, fn["path"].replace("fetch_sub", "fetch_add"), [a[0], m.scale(vf.val(st, a[1]), -1)] + list(a[2:]), tys, g, st, loc, fn)


@on(BM + "insert")
def _bins(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    old, k, v = vf.deepval(st, a[0]), vf.deepval(st, a[1]), vf.deepval(st, a[2])
    vf.emit(fr, "call", BM + "insert", [old, k, v], a, g, loc, UNIT)
    setref(vf, st, a[0], mk("mapins", old, k, v))
    return m.merge(atom(mk("haskey", old, k)), m.Some(mk("mapget", old, k)), m.NONE)


@on(BM + "entry")
def _bentry(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("bentry", a[0], vf.deepval(st, a[0]), vf.deepval(st, a[1]))


# ------------------------------------------------------------------ hash map entry
@on("std::collections::hash::map::Entry::or_insert_with", "slotmap::secondary::Entry::or_insert_with",
    "std::collections::hash::map::Entry::or_default", "std::collections::hash::map::Entry::or_insert",
    "alloc::collections::btree::map::entry::Entry::or_insert_with", "alloc::collections::btree::map::entry::Entry::or_default",
    "alloc::collections::btree::map::entry::Entry::or_insert")
def _orins(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    e = vf.val(st, a[0])
    vac = lnot(atom(mk("occupied", e)))
    if fn["path"].endswith("or_insert_with"):
        r = vf.apply(fr, (b, "oiw"), a[1], [], land(g, vac), dict(st), loc)
        new = r[0] if r is not None else BOT
    elif fn["path"].endswith("or_insert"):
        new = a[1]
    else:
        new = mk("default", "")
    if e.op == "bentry":
        ref, mp, k = e.a
        nv = vf.deepval(st, new)
        vac = lnot(atom(mk("haskey", mp, k)))
        vf.emit(fr, "call", BM + "insert", [mp, k, nv], a, land(g, vac), loc, UNIT)
        setref(vf, st, ref, m.merge(vac, mk("mapins", mp, k, nv), mp))
        slot = mk("slot", mp, k)
        st[("H", slot)] = m.merge(vac, new, mk("mapget", mp, k))
        return mk("ref", ("H", slot), (), True)
    slot = mk("slot", *(e.a[1] if e.op == "call" else (e,)))
    vf.emit(fr, "call", m.norm(fn["path"]), [e, vf.deepval(st, new)], a, g, loc, slot)
    st[("H", slot)] = m.merge(vac, new, st.get(("H", slot), slot))
    return mk("ref", ("H", slot), (), True)


# ------------------------------------------------------------------ iterators
ITER_OPS = ("iter", "imap", "ifilter", "ifmap", "ienum", "izip", "iproj", "icidx", "ichain", "iflat", "itakew", "iskipw", "iopaque", "adv", "imapw", "ifs", "ienumc")


def itersrc(it):
    """the term whose positions this iterator walks"""
    while it.op in ("imap",):
        it = it.a[0]
    it = unadv(it)
    return it.a[0] if it.op == "iter" else it


def unadv(it):
    """an iterator already advanced k times, as an iterator over the rest"""
    if it.op == "adv" and it.a[0].op == "iter":
        x = it.a[0].a[0]
        return mk("iter", V().mkslice(x, C(it.a[1]), V().tlen(x)))
    if it.op == "adv" and it.a[0].op == "ifs":
        x = filt(it.a[0])
        return mk("iter", V().mkslice(x, C(it.a[1]), V().tlen(x)))
    if it.op == "adv" and it.a[0].op == "imap":
        return mk("imap", unadv(mk("adv", it.a[0].a[0], it.a[1])), it.a[0].a[1])
    return it


def plain_iter(it):
    """source of an iterator that yields each of its elements, one per step"""
    it = unadv(it)
    while it.op in ("imap", "ienum", "iproj"):
        it = unadv(it.a[0])
    return it.a[0] if it.op == "iter" else None


def mkiter(v):
    if v.op in ITER_OPS or (v.op == "agg" and v.a[0] in (RANGE, "core::ops::range::RangeInclusive", "core::ops::range::RangeFrom")):
        return v
    return mk("iter", v)


@on("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::iter", "core::slice::iter_mut", "alloc::vec::Vec::iter",
    "std::collections::hash::map::HashMap::iter", "std::collections::hash::map::HashMap::iter_mut", "serde_json::map::Map::iter",
    "serde_json::map::Map::iter_mut", "alloc::collections::btree::map::BTreeMap::iter", "alloc::collections::btree::map::BTreeMap::iter_mut",
    "std::collections::hash::set::HashSet::iter", "ahash::hash_map::AHashMap::iter", "core::option::Option::iter",
    "std::collections::hash::map::HashMap::drain", "alloc::collections::btree::map::BTreeMap::into_iter",
    # safe code run on each item once: what one item sees of another is nothing (what it shares is behind a lock or an atomic)
    "rayon::iter::IntoParallelRefMutIterator::par_iter_mut", "rayon::iter::IntoParallelRefIterator::par_iter", "rayon::iter::IntoParallelIterator::into_par_iter")
def _iter(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.val(st, a[0])
    if v.op == "agg" and v.a[0] in vf.F.adts and ("<%s" % v.a[0]) and local_iter(vf, v):
        return v
    t = V().strip_lt((fn.get("args") or [""])[0])
    if v.op == "lv" and is_iter_lv(vf, v):
        return a[0] if a[0].op == "ref" else v
    if a[0].op == "ref" and v.op in ITER_OPS and fn["path"].endswith("into_iter") and t.startswith("&mut"):
        return a[0]
    if fn["path"].endswith("iter_mut") or t.startswith("&mut"):
        vf.mutsrc[v] = a[0]
    return mkiter(v)


def is_iter_lv(vf, v):
    while v.op == "lv":
        v = vf.lvinit.get(v, BOT)
    return v.op in ITER_OPS or v.op == "agg" and str(v.a[0]).startswith("core::ops::range::Range")


def is_iter_value(vf, v):
    return is_iter_lv(vf, v) or local_iter(vf, v) is not None or v.op == "adv"


def local_iter(vf, v):
    m = V()
    if v.op not in ("agg", "upd", "lv"):
        return None
    while v.op in ("upd",):
        v = v.a[0]
    if v.op != "agg":
        return None
    tab = vf.__dict__.get("_iters")
    if tab is None:
        tab = {}
        for p in vf.F.bodies:
            if p.endswith("Iterator>::next") and p.startswith("<"):
                tab[m.norm(re.sub(r"<.*", "", m.strip_lt(p[1:].split(" as ")[0])))] = p
        vf._iters = tab
    return tab.get(v.a[0])


def _it(vf, st, x):
    v = vf.val(st, x)
    if v.op == "lv":
        return v if is_iter_lv(vf, v) else mk("iter", v)
    return v if local_iter(vf, v) else mkiter(v)


@on("core::str::chars")
def _chars(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("iter", mk("chars", uncow(vf.val(st, a[0]))))


@on("core::str::bytes")
def _bytes(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("iter", uncow(vf.val(st, a[0])))


@on("core::str::char_indices")
def _ci(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("icidx", uncow(vf.val(st, a[0])))


@on("std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::values_mut", "ahash::hash_map::AHashMap::values",
    "alloc::collections::btree::map::BTreeMap::values", "alloc::collections::btree::map::BTreeMap::values_mut",
    "std::collections::hash::map::HashMap::into_values", "ahash::hash_map::AHashMap::values_mut", "ahash::hash_map::AHashMap::into_values")
def _values(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("iproj", mk("iter", vf.val(st, a[0])), "1")


@on("std::collections::hash::map::HashMap::keys", "ahash::hash_map::AHashMap::keys", "alloc::collections::btree::map::BTreeMap::keys")
def _keys(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("iproj", mk("iter", vf.val(st, a[0])), "0")


def _adapt(op):
    def h(vf, fr, b, fn, a, tys, g, st, loc):
        it = _it(vf, st, a[0])
        if it is None:
            return NotImplemented
        if local_iter(vf, it):
            it = mk("iopaque", it)
        f = a[1]
        if f.op == "ref":
            f = vf.val(st, f)
        return mk(op, it, f)
    return h


H["core::iter::traits::iterator::Iterator::map"] = _adapt("imap")
H["core::iter::traits::iterator::Iterator::filter"] = _adapt("ifilter")
H["core::iter::traits::iterator::Iterator::filter_map"] = _adapt("ifmap")
H["core::iter::traits::iterator::Iterator::take_while"] = _adapt("itakew")
H["core::iter::traits::iterator::Iterator::map_while"] = _adapt("imapw")
H["core::iter::traits::iterator::Iterator::skip_while"] = _adapt("iskipw")


@on("core::iter::traits::iterator::Iterator::enumerate")
def _enum(vf, fr, b, fn, a, tys, g, st, loc):
    it = _it(vf, st, a[0])
    if it is not None and it.op in ("ifilter", "ifmap", "ifs") and len(it.a) < 4:
        # counts the elements that pass: kept in a counter of its own
        root = ("L", fr.fid, ("enum", b))
        st[root] = C(0)
        return mk("ienumc", it, root)
    return mk("ienum", it) if it is not None else NotImplemented


@on("core::iter::traits::iterator::Iterator::zip")
def _zip(vf, fr, b, fn, a, tys, g, st, loc):
    x, y = _it(vf, st, a[0]), _it(vf, st, a[1])
    if x is None or y is None:
        return NotImplemented
    return mk("izip", x, y)


@on("core::iter::traits::iterator::Iterator::chain")
def _chain(vf, fr, b, fn, a, tys, g, st, loc):
    x, y = _it(vf, st, a[0]), _it(vf, st, a[1])
    if x is None or y is None:
        return NotImplemented
    return mk("ichain", x, y)


def _resrc(op):
    def go(it, *x):
        if it.op == "imap":
            return mk("imap", go(it.a[0], *x), it.a[1])
        if it.op == "iter":
            if op == "rev" and it.a[0].op == "rev":
                return mk("iter", it.a[0].a[0])
            if op == "skip":
                return mk("iter", V().mkslice(it.a[0], x[0], V().tlen(it.a[0])))
            return mk("iter", mk(op, it.a[0], *x))
        if it.op == "ienum" and op == "take":
            return mk("ienum", go(it.a[0], *x))
        if it.op in ("ienum", "icidx") and op == "skip" and x[0].op == "c":
            return mk("adv", it, x[0].a[0])
        return mk("iter", mk(op, it, *x))

    def h(vf, fr, b, fn, a, tys, g, st, loc):
        it = _it(vf, st, a[0])
        if it is None:
            return NotImplemented
        return go(it, *[vf.val(st, y) for y in a[1:]])
    h.go = go
    return h


H["core::iter::traits::iterator::Iterator::rev"] = _resrc("rev")
_rev_it = H["core::iter::traits::iterator::Iterator::rev"].go
H["core::iter::traits::iterator::Iterator::skip"] = _resrc("skip")
H["core::iter::traits::iterator::Iterator::take"] = _resrc("take")
H["core::iter::traits::iterator::Iterator::step_by"] = _resrc("step")


@on("core::iter::traits::iterator::Iterator::flatten")
def _flatten(vf, fr, b, fn, a, tys, g, st, loc):
    it = _it(vf, st, a[0])
    ty = (fn.get("args") or [""])[0]
    if it is not None and it.op == "iter" and re.search(r"Iter<('\w+,? ?)?&?('\w+ )?alloc::vec::Vec<", ty):
        return mk("iter", mk("concatof", it.a[0]))
    return mk("iflat", it) if it is not None else NotImplemented


@on("core::iter::traits::iterator::Iterator::flat_map")
def _flatmap(vf, fr, b, fn, a, tys, g, st, loc):
    it = _it(vf, st, a[0])
    return mk("iflat", mk("imap", it, a[1])) if it is not None else NotImplemented


for _n in "for_each any all find find_map fold unzip partition".split():
    H["core::iter::traits::iterator::Iterator::" + _n] = _model("iter::" + _n)
H["rayon::iter::ParallelIterator::for_each"] = _model("iter::for_each")


@on("core::iter::traits::iterator::Iterator::try_for_each", "core::iter::traits::iterator::Iterator::try_fold")
def _tryfold(vf, fr, b, fn, a, tys, g, st, loc):
    ty = str((fn.get("args") or [""])[-1])
    n = fn["path"].split("::")[-1]
    if ty.startswith("core::option::Option"):
        return vf.model(fr, b, "iter::%s_opt" % n, a, g, st)
    if ty.startswith("core::result::Result"):
        return vf.model(fr, b, "iter::" + n, a, g, st)
    return NotImplemented


@on("core::iter::traits::iterator::Iterator::count")
def _count(vf, fr, b, fn, a, tys, g, st, loc):
    it = _it(vf, st, a[0])
    while it is not None and it.op in ("imap", "ienum"):
        it = it.a[0]
    if it is not None and it.op == "iter":
        return V().tlen(it.a[0])
    if it is not None and it.op == "icidx":
        return V().tlen(mk("chars", it.a[0]))
    return vf.model(fr, b, "iter::count", [a[0]], g, st)


@on("alloc::string::String::retain")
def _sretain(vf, fr, b, fn, a, tys, g, st, loc):
    return vf.model(fr, b, "iter::retain_string", a, g, st)


@on("alloc::str::replace")
def _sreplace(vf, fr, b, fn, a, tys, g, st, loc):
    if vf.val(st, a[1]).op in ("closure", "fn") and vf.deepval(st, a[2]) is C(""):
        return vf.model(fr, b, "iter::remove_chars", a[:2], g, st)
    return NotImplemented


@on("core::str::traits::FromStr::from_str")
def _fromstr(vf, fr, b, fn, a, tys, g, st, loc):
    f2 = dict(fn)
    f2["path"] = "core::str::parse"
    return vf.opaque_call(fr, b, "core::str::parse", a, tys, g, st, loc, f2)


@on("core::iter::traits::iterator::Iterator::sum")
def _sum(vf, fr, b, fn, a, tys, g, st, loc):
    return vf.model(fr, b, "iter::sum_usize", [a[0]], g, st) if "sdsmodels::iter::sum_usize" in vf.F.bodies else NotImplemented


@on("core::iter::traits::iterator::Iterator::position")
def _position(vf, fr, b, fn, a, tys, g, st, loc):
    return vf.model(fr, b, "iter::position", [a[0], a[1]], g, st) if "sdsmodels::iter::position" in vf.F.bodies else NotImplemented


def collect_chain(vf, fr, b, fn, it, tys, g, st, loc):
    """one list after the other"""
    out = None
    for i in (0, 1):
        r = _collect(vf, fr, (b, i), fn, [it.a[i]], tys, g, st, loc)
        if r is None:
            return None
        if isinstance(r, tuple):
            r, st, g = r[0], r[1], (r[2] if len(r) > 2 else g)
        out = r if out is None else mkappend(out, r)
    return out, st, g


def mkappend(a, b):
    if a is EMPTYVEC:
        return b
    if a.op == "ite" and len(V().variants(a)) <= 4:
        return V().merge(a.a[0], mkappend(a.a[1], b), mkappend(a.a[2], b))
    return a if b is EMPTYVEC else mk("append", a, b)


@on("core::iter::traits::iterator::Iterator::collect")
def _collect(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    dst = m.strip_lt(ar[1]) if len(ar) > 1 else ""
    it = _it(vf, st, a[0])
    if dst.startswith("alloc::vec::Vec") or dst.startswith("alloc::boxed::Box<[") or dst.startswith("alloc::rc") and "[" in dst or dst.startswith("alloc::sync") and "[" in dst:
        if it is not None and it.op == "iter":
            return it.a[0] if it.a[0].op != "chars" else mk("vecof", it.a[0])
        if it is not None and it.op == "ichain":
            return collect_chain(vf, fr, b, fn, it, tys, g, st, loc)
        return vf.model(fr, b, "iter::collect_vec", a, g, st)
    if dst == "alloc::string::String":
        t = ar[0]
        if it is not None and it.op == "iter" and it.a[0].op == "chars":
            return it.a[0].a[0]
        if it is not None:
            return vf.model(fr, b, "iter::collect_string", a, g, st)
    if dst.startswith("core::result::Result<alloc::vec::Vec"):
        return vf.model(fr, b, "iter::collect_result_vec", a, g, st)
    if dst.startswith("core::option::Option<alloc::vec::Vec"):
        return vf.model(fr, b, "iter::collect_option_vec", a, g, st)
    # maps and sets: run the iterator for its effects, summarise the collection
    r = vf.model(fr, b, "iter::collect_vec", a, g, st)
    if r is None:
        return None
    return mk("collected", norm_ty(dst), r[0]), r[1], r[2]


@on("core::iter::traits::collect::Extend::extend")
def _extend(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    ar = fn.get("args", [])
    dst = m.strip_lt(ar[0]) if ar else ""
    it = _it(vf, st, a[1])
    if dst.startswith("alloc::vec::Vec"):
        if it is not None and it.op == "iter":
            old = vf.val(st, a[0])
            vf.emit(fr, "call", "alloc::vec::Vec::append", [old, it.a[0]], a, g, loc, UNIT)
            setref(vf, st, a[0], mkappend(old, it.a[0]))
            return UNIT
        return vf.model(fr, b, "iter::vec_extend", [a[0], it if it is not None else a[1]], g, st)
    return NotImplemented


def payload(vf, fr, b, it, L, g, st, loc):
    """one iteration of `it` in loop L: (has-guard, keep-guard, value, state) """
    m = V()
    o = it.op
    if o == "iter":
        x = it.a[0]
        return atom(mk("has", x, L)), True, elem(x, L), st
    if o == "agg" and it.a[0] == RANGE:
        s, e = m.fld(it, "", "start"), m.fld(it, "", "end")
        if s.op == "c" and s.a[0] == 0 and e.op == "len":
            return atom(mk("has", e.a[0], L)), True, mk("idx", e.a[0], L), st
        src = mk("range", s, e)
        return atom(mk("has", src, L)), True, m.add(s, mk("idx", src, L)), st
    if o == "agg" and it.a[0] == "core::ops::range::RangeInclusive":
        s, e = m.fld(it, "", "start"), m.fld(it, "", "end")
        src = mk("range", s, m.add(e, C(1)))
        return atom(mk("has", src, L)), True, m.add(s, mk("idx", src, L)), st
    if o == "agg" and it.a[0] == "core::ops::range::RangeFrom":
        src = mk("range", it.a[3], mk("inf"))
        return True, True, m.add(it.a[3], mk("idx", src, L)), st
    if o == "icidx":
        x = mk("chars", it.a[0])
        return atom(mk("has", x, L)), True, m.tup(mk("cpos", it.a[0], L), elem(x, L)), st
    if o == "iproj":
        h, k, v, st = payload(vf, fr, b, it.a[0], L, g, st, loc)
        return h, k, m.fld(v, "", it.a[1]), st
    if o == "ienum":
        h, k, v, st = payload(vf, fr, b, it.a[0], L, g, st, loc)
        src = itersrc(it.a[0])
        return h, k, m.tup(mk("idx", src, L), v), st
    if o == "ienumc":
        h, k, v, st = payload(vf, fr, b, it.a[0], L, g, st, loc)
        n = st.get(it.a[1], C(0))
        st[it.a[1]] = m.merge(land(h, k), m.add(n, C(1)), n)
        return h, k, m.tup(n, v), st
    if o == "ifs":
        h, _, _, st = payload(vf, fr, (b, "m"), it.a[0], L, g, st, loc)
        re_ = lambda t: mk(t.op, *[m.subst(x, re_) if isinstance(x, T) else x for x in t.a[:-1]], L) if t.a and t.a[-1] == "fs" else None
        return h, m.to_g(m.subst(it.a[1], re_)), m.subst(it.a[2], re_), st
    if o == "izip":
        h, k, v, st = payload(vf, fr, (b, 0), it.a[0], L, g, st, loc)
        h2, k2, v2, st = payload(vf, fr, (b, 1), it.a[1], L, g, st, loc)
        for i, (x, y) in enumerate(((it.a[0], it.a[1]), (it.a[1], it.a[0]))):
            if x.op == "iter" and x.a[0].op == "agg" and x.a[0].a[0] in ("array", "vec") and y.op == "iter" and not (y.a[0].op == "agg"):
                # next to a list of known length: at most that many elements
                src = mk("take", y.a[0], C(len(x.a[0].a) - 3))
                p, q = m.tindex(x.a[0], mk("idx", src, L)), elem(src, L)
                return atom(mk("has", src, L)), True, (m.tup(p, q) if i == 0 else m.tup(q, p)), st
        for x, y in ((it.a[0], it.a[1]), (it.a[1], it.a[0])):
            if x.op == "agg" and x.a[0] == "core::ops::range::RangeFrom" and plain_iter(y):
                c = m.add(x.a[3], mk("idx", plain_iter(y), L))
                if x is it.a[0]:
                    v = c
                else:
                    v2 = c
        return land(h, h2), land(k, k2), m.tup(v, v2), st
    if o == "ichain":
        h, k, v, st = payload(vf, fr, (b, 0), it.a[0], L, g, st, loc)
        h2, k2, v2, st = payload(vf, fr, (b, 1), it.a[1], (L, 2), g, st, loc)
        sec = atom(mk("second", it, L))
        return atom(mk("has", it, L)), ite(sec, k2, k), m.merge(sec, v2, v), st
    if o == "imap":
        h, k, v, st = payload(vf, fr, (b, "m"), it.a[0], L, g, st, loc)
        r = vf.apply(fr, (b, "f", L), it.a[1], [v], conj(g, h, k), st, loc)
        if r is None:
            return h, k, BOT, st
        return h, k, r[0], r[1]
    if o in ("ifilter", "itakew", "iskipw"):
        h, k, v, st = payload(vf, fr, (b, "m"), it.a[0], L, g, st, loc)
        root = ("L", fr.fid, ("flt", b))
        st[root] = v
        r = vf.apply(fr, (b, "f", L), it.a[1], [mk("ref", root, (), False)], conj(g, h, k), st, loc)
        if r is None:
            return h, k, v, st
        c = m.to_g(r[0])
        if o == "ifilter":
            return h, land(k, c), r[1].get(root, v), r[1]
        if o == "itakew":
            return land(h, c), k, v, r[1]
        return h, land(k, lor(lnot(c), atom(mk("past", it, L)))), v, r[1]
    if o in ("ifmap", "imapw"):
        h, k, v, st = payload(vf, fr, (b, "m"), it.a[0], L, g, st, loc)
        r = vf.apply(fr, (b, "f", L), it.a[1], [v], conj(g, h, k), st, loc)
        if r is None:
            return h, False, v, st
        x = vf.val(r[1], r[0])
        c = m.is_var(x, "Some", m.OPT_VS)
        if o == "ifmap":
            return h, land(k, c), m.fld(x, "Some", "0"), r[1]
        return land(h, c), k, m.fld(x, "Some", "0"), r[1]
    if o == "iflat":
        h, k, v, st = payload(vf, fr, (b, "m"), it.a[0], L, g, st, loc)
        v = vf.val(st, v)
        if v.op in ITER_OPS:
            h2, k2, v2, st = payload(vf, fr, (b, "fl"), v, (L, "f"), g, st, loc)
            return h, conj(k, k2, h2), v2, st
        if v.op == "agg" and v.a[0] == m.OPT or v.op == "ite":
            c = m.is_var(v, "Some", m.OPT_VS)
            return h, land(k, c), m.fld(v, "Some", "0"), st
        return h, k, mk("elem", v, (L, "f")), st
    if o == "adv":
        u = unadv(it)
        if u is not it:
            return payload(vf, fr, b, u, L, g, st, loc)
        base, n = it.a
        if base.op == "ienum":
            h, k, v, st = payload(vf, fr, b, mk("ienum", mk("adv", base.a[0], n)), L, g, st, loc)
            return h, k, m.tup(m.add(m.fld(v, "", "0"), C(n)), m.fld(v, "", "1")), st
        if base.op == "icidx":
            x = mk("chars", base.a[0])
            x2 = m.mkslice(x, C(n), m.tlen(x))
            return atom(mk("has", x2, L)), True, m.tup(mk("cpos", mk("from", base.a[0], n), L), elem(x2, L)), st
        if base.op == "lv":
            return payload(vf, fr, b, base, L, g, st, loc)
    x = it
    return atom(mk("has", x, L)), True, mk("elem", x, L), st


def elem(x, L):
    m = V()
    if x.op == "ite":
        return m.merge(x.a[0], elem(x.a[1], L), elem(x.a[2], L))
    if x.op == "repeat":
        return x.a[0]
    return mk("elem", x, L)


def at(it, k):
    """value and presence at a constant position outside loops"""
    m = V()
    if it.op == "iter" and it.a[0].op == "rev":
        r = back(it.a[0].a[0], k)
        if r is not None:
            return r
    if it.op == "iter":
        x = it.a[0]
        return m.lt(k, m.tlen(x)), m.tindex(x, k)
    if it.op == "ifs":
        return at(mk("iter", filt(it)), k)
    if it.op == "icidx":
        x = mk("chars", it.a[0])
        pos = C(0) if k.op == "c" and k.a[0] == 0 else mk("cposat", it.a[0], k)
        return m.lt(k, m.tlen(x)), m.tup(pos, m.tindex(x, k))
    if it.op == "ienum":
        p, v = at(it.a[0], k)
        return p, m.tup(k, v)
    if it.op == "iproj":
        p, v = at(it.a[0], k)
        return p, m.fld(v, "", it.a[1])
    if it.op == "agg" and it.a[0] == RANGE:
        s, e = m.fld(it, "", "start"), m.fld(it, "", "end")
        return m.lt(m.add(s, k), e), m.add(s, k)
    return atom(mk("hasnth", it, k)), mk("nth", it, k)


def filt(it):
    """the elements a filtering iterator yields, as a list"""
    return mk("filt", itersrc(it.a[0]), it.a[1], it.a[2])


def toifs(vf, fr, b, it, g, st, loc):
    """filter / filter_map adaptors in one form: source, condition and value over a symbolic element"""
    if it.op not in ("ifilter", "ifmap"):
        return it
    base = it
    while base.op in ("ifilter", "ifmap", "imap"):
        base = base.a[0]
    if base.op not in ("iter", "icidx"):
        return it
    n = len(vf.effects)
    h, k, x, _ = payload(vf, fr, (b, "fs"), it, "fs", True, dict(st), loc)
    del vf.effects[n:]
    return mk("ifs", base, V().B(k), x)


def revit(it):
    r = _rev_it(it)
    return r


def stream(vf, local):
    """(backwards?, condition, value, element) if the function advances its iterator to the next element satisfying a condition"""
    tab = vf.F.__dict__.setdefault("_streams", {})
    if local in tab:
        return tab[local]
    tab[local] = None
    body = vf.F.bodies[local]
    m = V()
    ins, out = body.get("inputs") or [], body.get("output") or ""
    if body["argc"] != 1 or len(ins) != 1 or not m.strip_lt(ins[0]).startswith("&mut ") or not out.startswith("core::option::Option<") or body.get("kind") != "Fn":
        return None
    p = mk("p", "it")
    A = m.VF(vf.F)
    try:
        ret, st = A.analyse(local, [p])
    except Exception:
        return None
    if len(A.loops) != 1 or any(e.kind == "panic" for e in A.effects):
        return None
    L = next(iter(A.loops.values()))
    if len(L.has) != 1 or any(not is_iter_value(A, i) and i is not p for i in L.init.values()):
        return None
    src = next(iter(L.has)).a[0]
    if src is not p and src is not mk("rev", p):
        return None
    c = m.is_var(ret, "Some", m.OPT_VS)
    if isinstance(c, bool):
        return None
    exs = [x for x in m.support(c) if x.op == "ex"]
    if len(exs) != 1 or not isinstance(exs[0].a[1], m.N):
        return None
    ex = exs[0]
    if m.cofactor(c, ex, False) is not False or land(ex.a[1], lnot(m.cofactor(c, ex, True))) is not False:
        return None
    vs = [x for gg, x in m.variants(m.fld(ret, "Some", "0")) if land(m.cofactor(gg, ex, True) if not isinstance(gg, bool) else gg, ex.a[1]) is not False]
    if len(vs) != 1:
        return None
    v = vs[0]
    e = mk("elem", src, L.id)
    ok = lambda t: not m.contains(t, lambda x: x is not e and (x.op in ("lv", "lve", "idx", "cpos", "has", "BOT")))
    if not ok(m.B(ex.a[1])) or not ok(v) or v.op == "ite":
        return None
    tab[local] = (src is not p, m.B(ex.a[1]), v, e)
    return tab[local]


def streamcall(vf, fr, b, local, a, g, st, loc):
    if len(a) != 1 or a[0].op != "ref":
        return None
    v = vf.val(st, a[0])
    if v.op == "adv" and v.a[0].op == "iter" and v.a[1] == 0:
        v = v.a[0]
    if v.op == "ite" and a[0].op == "ref":
        vs = {x for gg, x in V().variants(v) if land(gg, g) is not False}
        if len(vs) == 1:
            v = vs.pop()
            setref(vf, st, a[0], v)
        elif all(x.op == "iter" or x.op == "adv" and x.a[0].op == "ifs" for x in vs):
            # case by case
            r = it = None
            for gg, x in V().variants(v):
                if land(gg, g) is False:
                    continue
                s2 = dict(st)
                setref(vf, s2, a[0], x)
                if x is mk("iter", EMPTYVEC):
                    o = V().NONE
                else:
                    q = streamcall(vf, fr, b, local, a, land(g, gg), s2, loc)
                    if q is None or q[2] is not land(g, gg):
                        return None
                    o, s2 = q[0], q[1]
                j = vf.val(s2, a[0])
                r, it = (o, j) if r is None else (V().merge(gg, o, r), V().merge(gg, j, it))
            setref(vf, st, a[0], it)
            return r, st, g
    if v.op not in ("iter", "lv", "adv"):
        return None
    s = stream(vf, local)
    if s is None:
        return None
    m = V()
    backw, keep, val, e = s

    def mkfs(it):
        it = revit(it) if backw else it
        h, k, x, _ = payload(vf, fr, (b, "fs"), it, "fs", True, dict(st), loc)
        f = lambda t: x if t is e else None
        return mk("ifs", it, m.B(land(k, m.to_g(m.subst(keep, f)))), m.subst(val, f), "u")
    if v.op == "iter":
        fs = mkfs(v)
        setref(vf, st, a[0], mk("adv", fs, 1))
        h, x = at(fs, C(0))
        return m.merge(h, m.Some(x), m.NONE), st, g
    if v.op == "adv":
        if v.a[0].op != "ifs" or len(v.a[0].a) < 4:
            return None
        if v.a[0].a[1:3] != mkfs(v.a[0].a[0] if not backw else revit(v.a[0].a[0])).a[1:3]:
            return None
        setref(vf, st, a[0], mk("adv", v.a[0], v.a[1] + 1))
        h, x = at(v.a[0], C(v.a[1]))
        return m.merge(h, m.Some(x), m.NONE), st, g
    it = v
    while it.op == "lv":
        it = vf.lvinit.get(it, BOT)
    if it is BOT:
        return None
    if v.a[0] not in vf.loopstack:
        fs = mkfs(mk("iter", mk("rest", v)))
        setref(vf, st, a[0], mk("adv", fs, 1))
        h, x = at(fs, C(0))
        return m.merge(h, m.Some(x), m.NONE), st, g
    if it.op == "adv":
        if it.a[0].op == "ifs" and len(it.a[0].a) > 3:
            if it.a[0].a[1:3] != mkfs(it.a[0].a[0] if not backw else revit(it.a[0].a[0])).a[1:3]:
                return None
        else:
            it = unadv(it)
            if it.op == "adv":
                return None
            it = mkfs(it)
    elif it.op in ("iter", "icidx"):
        it = mkfs(it)
    else:
        return None
    return steplv(vf, fr, b, a, v, it, g, st, loc)


def steplv(vf, fr, b, a, v, it2, g, st, loc):
    m = V()
    L = v.a[0]
    form = it2
    if it2.op in ("ifilter", "ifmap", "ifs") and (L in vf.filtloops or not isinstance(g, bool) and any(x.op == "has" and x.a[-1] == L for x in m.support(g))):
        # not what drives the loop: its elements are taken one per iteration of another source
        it2 = toifs(vf, fr, b, it2, g, st, loc)
        if it2.op == "ifs":
            it2 = mk("iter", filt(it2))
    stp = dict(st)
    h, keep, x, stp = payload(vf, fr, b, it2, L, g, stp, loc)
    hs = [x for x in m.support(h) if x.op == "has" and x.a[-1] == L] if not isinstance(h, bool) else []
    if len(hs) == 1 and keep is True:
        vf.iterform[v] = hs[0], form
    # mark the iterator as advanced so that it stays loop-carried
    setref(vf, stp, a[0], mk("adv", v, 1))
    if keep is not True:
        sk = conj(g, h, lnot(keep))
        if sk is not False:
            vf.skips.setdefault(L, []).append((sk, dict(stp)))
        g = land(g, lor(lnot(h), keep))
    return m.merge(h, m.Some(x), m.NONE), stp, g


def back(it, k):
    """presence and value at a position counted from the end"""
    m = V()
    if it.op == "iter" and it.a[0].op == "rev":
        return at(mk("iter", it.a[0].a[0]) if mkiter(it.a[0].a[0]) is None else it.a[0].a[0], k)
    if it.op == "icidx":
        x = mk("chars", it.a[0])
        i = m.add(m.add(m.tlen(x), C(1), -1), k, -1)
        return m.lt(k, m.tlen(x)), m.tup(mk("cposat", it.a[0], i), m.tindex(x, i))
    if it.op in ("ienum", "iproj", "adv", "agg", "iflat", "imap", "ifilter", "iopaque"):
        return None
    x = it.a[0] if it.op == "iter" else it
    i = m.add(m.add(m.tlen(x), C(1), -1), k, -1)
    return m.lt(k, m.tlen(x)), m.tindex(x, i)


@on("core::iter::traits::double_ended::DoubleEndedIterator::nth_back")
def _nthb(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    if v.op == "lv":
        return NotImplemented
    it = mkiter(v)
    if it is None or it.op == "adv":
        return NotImplemented
    k = vf.val(st, a[1])
    r = back(it, k)
    if r is None:
        return NotImplemented
    setref(vf, st, a[0], mk("iopaque", mk("dropback", it, m.add(k, C(1)))))
    return m.merge(r[0], m.Some(r[1]), m.NONE)


@on("core::iter::traits::iterator::Iterator::next")
def _next(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    li = local_iter(vf, v)
    if li and li not in fr.stack and not vf.is_opaque(li):
        return vf.inline(fr, (b, "next"), li, a, g, st)
    if v.op == "lv":
        L = v.a[0]
        it = v
        while it.op == "lv":
            it = vf.lvinit.get(it, BOT)
        if it is BOT:
            return NotImplemented
        li = local_iter(vf, it)
        if li:
            return NotImplemented
        it2 = mkiter(it)
        if v.a[0] not in vf.loopstack:
            # the iterator was advanced by a finished loop: what is left is unknown
            h, x = at(mk("iopaque", v), C(0))
            setref(vf, st, a[0], mk("adv", mk("iopaque", v), 1))
            return m.merge(h, m.Some(x), m.NONE)
        return steplv(vf, fr, b, a, v, it2, g, st, loc)
    it = v if v.op == "adv" else mkiter(v)
    k = 0
    it = toifs(vf, fr, b, it, g, st, loc)
    if it.op == "adv" and it.a[0].op == "ifs" and len(it.a[0].a) > 3:
        it = mk("iopaque", it)
    if it.op == "adv":
        base = it.a[0]
        k = it.a[1]
        if base.op == "lv":
            # second advance inside one iteration: an unknown later element
            setref(vf, st, a[0], mk("adv", base, k + 1))
            return m.merge(atom(mk("hasnth", base, C(k))), m.Some(mk("nth", base, C(k))), m.NONE)
        it = base
    setref(vf, st, a[0], mk("adv", it, k + 1))
    h, x = at(it, C(k))
    return m.merge(h, m.Some(x), m.NONE)


@on("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _nextb(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    if v.op == "lv" and v.a[0] in vf.loopstack:
        it = v
        while it.op == "lv":
            it = vf.lvinit.get(it, BOT)
        it = unadv(it)
        if it.op in ("iter", "icidx") :
            return steplv(vf, fr, b, a, v, revit(it), g, st, loc)
        if it.op == "p":
            return steplv(vf, fr, b, a, v, revit(mk("iter", it)), g, st, loc)
        return NotImplemented
    if v.op == "iter":
        x = v.a[0]
        n = m.tlen(x)
        setref(vf, st, a[0], mk("iter", mkslice(x, C(0), m.add(n, C(1), -1))))
        return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(m.tindex(x, m.add(n, C(1), -1))))
    if v.op == "icidx":
        x = mk("chars", v.a[0])
        n = m.tlen(x)
        k = m.add(n, C(1), -1)
        setref(vf, st, a[0], mk("adv", mk("iopaque", mk("butlast", v)), 0))
        return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(m.tup(mk("cposat", v.a[0], k), m.tindex(x, k))))
    return NotImplemented


@on("core::iter::traits::iterator::Iterator::nth")
def _nth(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    v = vf.val(st, a[0])
    if v.op == "lv":
        return NotImplemented
    it = mkiter(v)
    if it is None or it.op == "adv":
        return NotImplemented
    k = vf.val(st, a[1])
    setref(vf, st, a[0], mk("iopaque", mk("dropn", it, m.add(k, C(1)))))
    h, x = at(it, k)
    return m.merge(h, m.Some(x), m.NONE)


@on("core::iter::traits::iterator::Iterator::last")
def _last(vf, fr, b, fn, a, tys, g, st, loc):
    m = V()
    it = _it(vf, st, a[0])
    if it is not None and it.op == "iter":
        n = m.tlen(it.a[0])
        return m.merge(m.eqint(n, C(0)), m.NONE, m.Some(m.tindex(it.a[0], m.add(n, C(1), -1))))
    if it is not None and it.op == "icidx":
        x = mk("chars", it.a[0])
        k = m.add(m.tlen(x), C(1), -1)
        return m.merge(m.eqint(m.tlen(x), C(0)), m.NONE, m.Some(m.tup(mk("cposat", it.a[0], k), m.tindex(x, k))))
    return NotImplemented


@on("core::iter::traits::iterator::Iterator::size_hint")
def _sh(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("sizehint")


@on("core::mem::size_of")
def _sizeof(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("size_of", (fn.get("args") or [""])[0])


@on("lazy_static::lazy::Lazy::get")
def _lazy(vf, fr, b, fn, a, tys, g, st, loc):
    return NotImplemented


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool"}


def _opty(fn):
    return (fn.get("args") or [""])[0].replace("&", "").replace("'_ ", "").strip()


def _arith(op):
    @on("core::ops::arith::%s::%s" % (op, op.lower()), "core::ops::bit::%s::%s" % (op, op.lower()))
    def f(vf, fr, b, fn, a, tys, g, st, loc):
        ty = _opty(fn)
        if ty == "alloc::string::String" and op == "Add":
            return cat(vf.val(st, a[0]), uncow(vf.val(st, a[1])))
        if ty not in INTS:
            return NotImplemented
        return vf.binop(op, vf.val(st, a[0]), vf.val(st, a[1]), ty)

    @on("core::ops::arith::%sAssign::%s_assign" % (op, op.lower()), "core::ops::bit::%sAssign::%s_assign" % (op, op.lower()))
    def fa(vf, fr, b, fn, a, tys, g, st, loc):
        ty = _opty(fn)
        if ty == "alloc::string::String" and op == "Add":
            return _spushs(vf, fr, b, fn, a, tys, g, st, loc)
        if ty not in INTS:
            return NotImplemented
        setref(vf, st, a[0], vf.binop(op, vf.val(st, a[0]), vf.val(st, a[1]), ty))
        return UNIT


for _o in ("Add", "Sub", "Mul", "Div", "Rem"):
    _arith(_o)


def _bit(op, m):
    @on("core::ops::bit::%s::%s" % (op, m))
    def f(vf, fr, b, fn, a, tys, g, st, loc):
        if _opty(fn) not in INTS:
            return NotImplemented
        return vf.binop(op, vf.val(st, a[0]), vf.val(st, a[1]), _opty(fn))

    @on("core::ops::bit::%sAssign::%s_assign" % (op, m))
    def fa(vf, fr, b, fn, a, tys, g, st, loc):
        if _opty(fn) not in INTS:
            return NotImplemented
        setref(vf, st, a[0], vf.binop(op, vf.val(st, a[0]), vf.val(st, a[1]), _opty(fn)))
        return UNIT


for _o, _m in (("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor"), ("Shl", "shl"), ("Shr", "shr")):
    _bit(_o, _m)


# ------------------------------------------------------------------ regex-automata configuration
# A configuration is the record of the options that differ from the defaults; options that only trade memory for speed are dropped.
CFG_DEFAULT = {"meta": {"utf8_empty": "{true}"},
               "syntax": {"case_insensitive": "{false}", "multi_line": "{false}", "dot_matches_new_line": "{false}", "crlf": "{false}",
                          "swap_greed": "{false}", "ignore_whitespace": "{false}", "unicode": "{true}", "utf8": "{true}", "octal": "{false}",
                          "nest_limit": "250", "line_terminator": "10"}}
CFG_SPEED = {"hybrid_cache_capacity", "hybrid", "dfa", "dfa_size_limit", "dfa_state_limit", "onepass", "onepass_size_limit", "backtrack", "byte_classes",
             "auto_prefilter"}
CFG_META = {"match_kind", "utf8_empty", "nfa_size_limit", "which_captures", "line_terminator", "prefilter"} | CFG_SPEED


def cfg_new(kind):
    return mk("agg", "cfg:" + kind, "", ())


def cfg_set(c, k, v):
    m = V()
    if c.op == "ite":
        return m.merge(c.a[0], cfg_set(c.a[1], k, v), cfg_set(c.a[2], k, v))
    if not (c.op == "agg" and c.a[0].startswith("cfg:")):
        return None
    kind = c.a[0][4:]
    d = dict(zip(c.a[2], c.a[3:]))
    d.pop(k, None)
    if k not in CFG_SPEED and CFG_DEFAULT.get(kind, {}).get(k) != show(v):
        d[k] = v
    ks = sorted(d)
    return mk("agg", c.a[0], "", tuple(ks), *(d[x] for x in ks))


def _setter(kind, k):
    def h(vf, fr, b, fn, a, tys, g, st, loc):
        r = cfg_set(vf.deepval(st, a[0]), k, vf.deepval(st, a[1]))
        return NotImplemented if r is None else r
    return h


for _k in CFG_META:
    H["regex_automata::meta::regex::Config::" + _k] = H["regex_automata::meta::Config::" + _k] = _setter("meta", _k)
for _k in CFG_DEFAULT["syntax"]:
    H["regex_automata::util::syntax::Config::" + _k] = _setter("syntax", _k)


@on("regex_automata::meta::regex::Config::new", "regex_automata::meta::Config::new", "regex_automata::meta::regex::Regex::config", "regex_automata::meta::Regex::config")
def _cfgnew(vf, fr, b, fn, a, tys, g, st, loc):
    return cfg_new("meta")


@on("regex_automata::util::syntax::Config::new")
def _syncfg(vf, fr, b, fn, a, tys, g, st, loc):
    return cfg_new("syntax")


@on("regex_automata::meta::regex::Builder::new", "regex_automata::meta::Builder::new", "regex_automata::meta::regex::Regex::builder", "regex_automata::meta::Regex::builder")
def _bnew(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("agg", "cfg:builder", "", ("meta", "syntax"), cfg_new("meta"), cfg_new("syntax"))


@on("regex_automata::meta::regex::Builder::configure", "regex_automata::meta::Builder::configure", "regex_automata::meta::regex::Builder::syntax", "regex_automata::meta::Builder::syntax")
def _bconf(vf, fr, b, fn, a, tys, g, st, loc):
    old, new = vf.deepval(st, a[0]), vf.deepval(st, a[1])
    if not (old.op == "agg" and old.a[0] == "cfg:builder" and new.op == "agg" and new.a[0].startswith("cfg:")):
        return NotImplemented
    me, sy = old.a[3:]
    if fn["path"].endswith("syntax"):
        sy = new                     # replaces every option
    else:
        for k, v in zip(new.a[2], new.a[3:]):
            me = cfg_set(me, k, v)
    setref(vf, st, a[0], mk("agg", "cfg:builder", "", ("meta", "syntax"), me, sy))
    return a[0], st, g


@on("regex_automata::util::search::Match::range", "regex_automata_fork::util::search::Match::range")
def _matchrange(vf, fr, b, fn, a, tys, g, st, loc):
    p = fn["path"].rsplit("::", 1)[0]
    m = vf.deepval(st, a[0])
    return mk("agg", RANGE, "", ("start", "end"), mk("call", p + "::start", (m,), None), mk("call", p + "::end", (m,), None))


@on(*["<(dyn core::any::Any%s + 'static)>::downcast_ref" % x for x in ("", " + core::marker::Send", " + core::marker::Send + core::marker::Sync")])
def _downcast(vf, fr, b, fn, a, tys, g, st, loc):
    return mk("call", "downcast_ref", (vf.deepval(st, a[0]), mk("default", re.sub(r"[\w:]+::", "", V().strip_lt(fn["args"][0])))), None)


@on("core::any::TypeId::of")
def _typeid(vf, fr, b, fn, a, tys, g, st, loc):
    ty = fn["args"][0] if fn.get("args") else ""
    return mk("default", "TypeId of " + ty.split("::")[-1]), st, g


@on("regex::regex::string::Regex::new", "regex::builders::string::RegexBuilder::new")
def _regexnew(vf, fr, b, fn, a, tys, g, st, loc):
    v = vf.val(st, a[0])
    if v.op != "c" or not isinstance(v.a[0], str) or not fn["path"].endswith("Regex::new"):
        return NotImplemented
    try:
        import warnings
        from re import _parser
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = str(_parser.parse(v.a[0]))
    except Exception:
        s = "text " + v.a[0]
    return mk("agg", "core::result::Result", "Ok", ("0",), mk("default", "regex " + s))
