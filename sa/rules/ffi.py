"""The C interface used from Go: who owns what, and where panics stop."""
import os
import re
from sa.check import rule
from sa.vf import norm
from sa.spec import *
from sa.equiv import compare

RULE = "alloc::rcs::arc::Arc<dyn dd_sds::scanner::config::RuleConfig>"
LIST = "std::sync::poison::mutex::Mutex<alloc::vec::Vec<%s>>" % RULE
SCANNER = "dd_sds::scanner::Scanner"
# function -> {(what it does with a handle, the type behind the handle)}
PROTO = {
    "create_scanner": {("borrow", LIST), ("make", SCANNER), ("make", "CString")},
    "delete_scanner": {("release", SCANNER)},
    "scan": {("borrow", SCANNER), ("make", "Vec"), ("make", "CString")},
    "free_vec": {("release", "Vec")},
    "free_string": {("release", "CString")},
    "create_regex_rule": {("make", RULE), ("make", "CString")},
    "free_any_rule": {("release", RULE)},
    "create_rule_list": {("make", LIST), ("make", "CString")},
    "append_rule_to_list": {("borrow", RULE), ("borrow", LIST)},
    "free_rule_list": {("release", LIST)},
}
KEEP = ("core::mem::manually_drop::ManuallyDrop::new", "core::mem::forget", "alloc::rcs::arc::Arc::into_raw", "alloc::boxed::Box::leak")
DENY = re.compile(r"(^core::(result::Result|option::Option)::(unwrap|expect|unwrap_err|expect_err)$|^core::panicking|^std::panicking::begin|::index(_mut)?$|"
                  r"^dd_sds::|^sds_bindings_utils::|^serde|^std::sync::poison::mutex|::copy_from_slice$|::split_at$|^core::ops::function::Fn)")


def ty(t):
    t = re.sub(r"'[a-z_]+ ?,? ?", "", t)
    t = re.sub(r"\((dyn [^()]*?)( \+ )?\)", r"\1", t)
    return re.sub(r" \+ (?=[>,]|$)", "", t)


def calls(b):
    for i, bl in enumerate(b["blocks"]):
        t = bl["t"]
        if t["k"] == "call" and t["f"].get("fn"):
            yield i, t, norm(t["f"]["fn"]["path"]), t["f"]["fn"]


def closures(b):
    for bl in b["blocks"]:
        for s in bl["st"]:
            r = s.get("r") or {}
            if r.get("k") == "agg" and r.get("closure"):
                yield s["d"]["l"], r["closure"]


def reach(ctx, p, seen):
    """every body of the bindings reached from p"""
    if p in seen or p not in ctx.F.bodies or ctx.F.bodies[p]["crate"] != "dd_sds_go":
        return seen
    seen.add(p)
    b = ctx.F.bodies[p]
    for _, _, n, fn in calls(b):
        for q in (fn.get("res"), fn["path"]):
            reach(ctx, q, seen)
    for _, c in closures(b):
        reach(ctx, c, seen)
    return seen


def escapes(b, local):
    """the calls a value may be moved into, following moves between locals"""
    ls, todo, out = {local}, [local], []
    while todo:
        l = todo.pop()
        for bl in b["blocks"]:
            for s in bl["st"]:
                r = s.get("r") or {}
                ops = [r["o"]] if r.get("k") in ("use", "cast") else r.get("ops", []) if r.get("k") == "agg" else []
                for o in ops:
                    if o.get("k") == "move" and o["p"]["l"] == l and not o["p"]["p"]:
                        d = s["d"]["l"]
                        if d not in ls:
                            ls.add(d)
                            todo.append(d)
            t = bl["t"]
            if t["k"] == "call" and t["f"].get("fn"):
                for o in t["a"]:
                    if o.get("k") == "move" and o["p"]["l"] == l and not o["p"]["p"]:
                        out.append(norm(t["f"]["fn"]["path"]))
    return out, 0 in ls


def uses(ctx, ps):
    """what these bodies do with handles"""
    out = {}
    owned = {}      # function -> type of the handle it returns owned
    for _ in range(3):
        for p in ps:
            b = ctx.F.bodies[p]
            incr = {ty(fn["args"][0]) for _, _, n, fn in calls(b) if n == "alloc::rcs::arc::Arc::increment_strong_count"}
            for i, t, n, fn in calls(b):
                what = None
                if n == "alloc::rcs::arc::Arc::from_raw":
                    what = ty(fn["args"][0])
                elif n == "alloc::vec::Vec::from_raw_parts":
                    what = "Vec"
                elif n == "alloc::ffi::c_str::CString::from_raw":
                    what = "CString"
                elif fn["path"] in owned and fn["path"] != p:
                    what = owned[fn["path"]]
                if what:
                    to, ret = escapes(b, t["d"]["l"])
                    if ret and b["kind"] == "Fn" and not b.get("no_mangle"):
                        owned[p] = what
                        continue
                    kind = "borrow" if any(x in KEEP for x in to) or what in incr else "release"
                    out[(kind, what)] = (p, t["s"])
                if n == "alloc::rcs::arc::Arc::into_raw":
                    out[("make", ty(fn["args"][0]))] = (p, t["s"])
                if n == "alloc::ffi::c_str::CString::into_raw":
                    out[("make", "CString")] = (p, t["s"])
                if n in KEEP[:2] and fn.get("args") and fn["args"][0].startswith("alloc::vec::Vec<"):
                    out[("make", "Vec")] = (p, t["s"])
    return out


def constant_cstring(b, l):
    """is local l the result of CString::new of a literal without NUL?"""
    for i, t, n, fn in calls(b):
        if t["d"]["l"] == l and not t["d"]["p"] and n == "alloc::ffi::c_str::CString::new":
            o = t["a"][0]
            if o.get("k") == "const":
                return isinstance(o.get("v"), str) and "\0" not in o["v"]
            m = o["p"]["l"]
            for _ in range(4):
                for bl in b["blocks"]:
                    for s in bl["st"]:
                        if s.get("d") and s["d"]["l"] == m and not s["d"]["p"]:
                            r = s["r"]
                            if r.get("k") == "use" and r["o"].get("k") == "const":
                                return isinstance(r["o"].get("v"), str) and "\0" not in r["o"]["v"]
                            if r.get("k") == "ref":
                                m = r["p"]["l"]
                            elif r.get("k") == "use" and r["o"].get("p"):
                                m = r["o"]["p"]["l"]
    return False


def uncaught(ctx, p, seen, path):
    """code running outside catch_unwind that may panic"""
    if p in seen:
        return
    seen.add(p)
    b = ctx.F.bodies[p]
    cl = dict(closures(b))
    for l, c in cl.items():
        to, _ = escapes(b, l)
        if to and all(x == "std::panic::catch_unwind" or x.startswith("dd_sds_go::") for x in to):
            continue        # run under catch_unwind, or by a function looked at itself
        yield from uncaught(ctx, c, seen, path + (c,))
    for bl in b["blocks"]:
        t = bl["t"]
        if t["k"] == "assert" and not str(t.get("m")).startswith(("MisalignedPointer", "NullPointer")):
            yield p, t["s"], "an operation that can fail (%s)" % str(t.get("m") or "overflow or bounds")[:60], path
    for i, t, n, fn in calls(b):
        q = fn.get("res") if fn.get("res") in ctx.F.bodies else fn["path"]
        if q in ctx.F.bodies and ctx.F.bodies[q]["crate"] == "dd_sds_go":
            yield from uncaught(ctx, q, seen, path + (q,))
        elif DENY.search(n):
            if n.endswith("Result::unwrap") and t["a"][0].get("p") and constant_cstring(b, t["a"][0]["p"]["l"]):
                continue
            yield p, t["s"], "a call to %s" % n, path


CTY = {"long": "i64", "const char*": "*const i8", "bool": "bool", "const void*": "*const core::ffi::c_void", "long*": "*mut i64", "const char**": "*mut *const i8", "void": "()"}


def header(root):
    txt = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(root, "sds-go/go/dd_sds.h")).read(), flags=re.S)
    out = {}
    for m in re.finditer(r"^\s*([\w][\w \*]*?[\s\*])(\w+)\s*\(([^)]*)\)\s*;", txt, re.M):
        args = [a.strip() for a in m.group(3).split(",") if a.strip() and a.strip() != "void"]
        args = [re.sub(r"\s*(\*+)\s*", r"\1", re.sub(r"\w+$", "", a) if re.search(r"[\s\*]\w+$", a) and a not in CTY else a).strip() for a in args]
        out[m.group(2)] = ([CTY.get(a, a) for a in args], CTY.get(re.sub(r"\s*(\*+)\s*", r"\1", m.group(1)).strip(), m.group(1).strip()))
    return out


@rule("C36", "every function of the C interface borrows, releases or makes exactly the handles its contract says, matches the C header, and runs what can panic under catch_unwind", floor=40)
def c36(ctx):
    ex = {p.rsplit("::", 1)[1]: p for p, b in ctx.F.bodies.items() if b["crate"] == "dd_sds_go" and b.get("no_mangle") and str(b.get("abi", "")).startswith("C")}
    hd = header(os.environ.get("SDS_REPO", "/repo"))
    for n in sorted(set(PROTO) | set(ex) | set(hd)):
        if not ctx.obl("exported:" + n, n in ex, "", "%s is in the C interface but not exported with the C calling convention" % n):
            continue
        p = ex[n]
        b = ctx.F.bodies[p]
        ctx.functions |= reach(ctx, p, set())
        if ctx.obl("header:" + n, n in hd, p, "%s is exported but not declared in dd_sds.h" % n):
            ctx.obl("signature:" + n, (list(b["inputs"]), b["output"]) == hd[n], p, "%s is %s -> %s, declared as %s -> %s in dd_sds.h" % (n, b["inputs"], b["output"], hd[n][0], hd[n][1]))
        got = uses(ctx, sorted(reach(ctx, p, set())))
        if n in PROTO:
            for k in sorted(PROTO[n] - set(got)):
                ctx.obl("owns:%s:%s %s" % ((n,) + k), False, p, "%s no longer does: %s a handle to %s" % ((n,) + k))
            for k in sorted(set(got) - PROTO[n]):
                ctx.obl("owns:%s:%s %s" % ((n,) + k), False, got[k][1], "%s: %s a handle to %s (in %s), which its contract does not say" % ((n,) + k + (got[k][0],)))
            for k in sorted(set(got) & PROTO[n]):
                ctx.obl("owns:%s:%s %s" % ((n,) + k), True)
        bad = list(uncaught(ctx, p, set(), (p,)))
        ctx.obl("panics:" + n, not bad, bad[0][1] if bad else "", "%s: %s outside catch_unwind, reached by %s" % (n, bad[0][2], " -> ".join(bad[0][3])) if bad else "")
    op = ["Scanner::scan", "encode_response", "BinaryEvent::new", "Scanner::builder", "with_keywords_should_match_event_paths", "build", "read_json"]
    if all(n in ex for n in PROTO):
        compare(ctx, "scan", ex["scan"], "ffi::scan", [P(x) for x in "id event size retsize retcapacity error_out".split()], opaque=op, effects=[],
                mut=[P("retsize"), P("retcapacity"), P("error_out")])
        compare(ctx, "create_scanner", ex["create_scanner"], "ffi::create_scanner", [P("list"), P("error_out"), P("paths")], opaque=op, effects=[], mut=[P("error_out")])
        compare(ctx, "create_regex_rule", ex["create_regex_rule"], "ffi::create_regex_rule", [P("json")], opaque=op)
        compare(ctx, "create_rule_list", ex["create_rule_list"], "ffi::create_rule_list", [])
        compare(ctx, "append_rule_to_list", ex["append_rule_to_list"], "ffi::append", [P("rule"), P("list")], effects=["push"], ret=False)
        compare(ctx, "free_vec", ex["free_vec"], "ffi::free_vec", [P("p"), P("len"), P("cap")], effects=["from_raw_parts"], ret=False)
    compare(ctx, "read_json", ctx.body("native::read_json"), "ffi::read", [P("p")])
