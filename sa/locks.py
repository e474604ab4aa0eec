"""Lock discipline over MIR: which guards may be alive at each call, and which locks a call may take."""
import re
from .vf import norm

GUARD = re.compile(r"(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard|ReentrantLockGuard)<")
TAKE = re.compile(r"::(Mutex::lock|Mutex::try_lock|RwLock::read|RwLock::write|RwLock::try_read|RwLock::try_write|ReentrantLock::lock|ReentrantMutex::lock)$")
CLOS = re.compile(r"\{closure@([^:}]+:\d+)")
CALLBACK = re.compile(r"core::ops::(?:async_)?function::\w*Fn\w*::(?:async_)?call")


def guard_class(ty):
    """what the lock protects, from the type of its guard"""
    m = GUARD.search(ty)
    if not m:
        return None
    i, d = m.end(), 1
    j = i
    while j < len(ty) and d:
        d += {"<": 1, ">": -1}.get(ty[j], 0)
        j += 1
    inner = ty[i:j - 1]
    return re.sub(r"^'\w+,\s*", "", inner)


def owns_guard(ty):
    return GUARD.search(ty) and not ty.startswith(("&", "*"))


class Locks:
    def __init__(self, F):
        self.F = F
        self.bodies = {p: b for p, b in F.bodies.items() if not p.startswith(("sdsref::", "<sdsref::", "sdsmodels", "<sdsmodels"))}
        self.clos = {}
        self.impls = {}
        for p, b in self.bodies.items():
            if "{closure#" in p:
                self.clos.setdefault(b["loc"], []).append(p)
            n = norm(p)
            if " as " in p:
                self.impls.setdefault(n.split("::")[-1], []).append(p)
        self.memo = {}

    def targets(self, t, b):
        """bodies a call may run (directly, or through a closure it is given); None in the list: unknown code"""
        fn = (t.get("f") or {}).get("fn")
        out = []
        tys = [self.opty(a, b) for a in t.get("a", [])]
        for ty in tys:
            for loc in CLOS.findall(ty):
                out += self.clos.get(loc, [])
        if not fn:
            return out + [None]
        p = fn.get("res") or fn["path"]
        if p in self.bodies:
            out.append(p)
        elif CALLBACK.search(norm(fn["path"])):
            if not CLOS.search(fn["args"][0]):
                out.append(None)
        elif fn.get("trait") and not fn.get("res"):
            out += [x for x in self.impls.get(norm(p).split("::")[-1], []) if fn["trait"].split("::")[-1].split("<")[0] in x]
        return out

    def opty(self, o, b):
        if o.get("k") in ("move", "copy"):
            return b["locals"][o["p"]["l"]] if not o["p"]["p"] else ""
        return o.get("ty", "")

    def calls(self, b):
        for i, x in enumerate(b["blocks"]):
            if x["t"]["k"] == "call":
                yield i, x["t"]

    def takes(self, t, b):
        fn = (t.get("f") or {}).get("fn")
        if fn and TAKE.search(norm(fn["path"])):
            return guard_class(b["locals"][t["d"]["l"]]) or "?"

    def may(self, p, stack=()):
        """{lock class: path through the call graph} for the locks a call of p may take"""
        if p in self.memo:
            return self.memo[p]
        if p in stack:
            return {}
        out = {}
        b = self.bodies[p]
        for i, t in self.calls(b):
            if b["blocks"][i]["cu"]:
                continue
            k = self.takes(t, b)
            if k:
                out.setdefault(k, (p,))
            for q in self.targets(t, b):
                if q is not None and q != p:
                    for k2, w in self.may(q, stack + (p,)).items():
                        out.setdefault(k2, (p,) + w)
        if not stack:
            self.memo[p] = out
        return out

    def held(self, p):
        """for each call of p with a live guard: (block, call, classes held)"""
        b = self.bodies[p]
        n = len(b["blocks"])
        gl = {i: guard_class(ty) for i, ty in enumerate(b["locals"]) if owns_guard(ty)}
        if not gl:
            return
        ins = {0: frozenset()}
        work = [0]
        seen = {}
        while work:
            i = work.pop()
            x = b["blocks"][i]
            s = set(ins[i])
            for st in x["st"]:
                if "dead" in st:
                    s.discard(st["dead"])
                    continue
                r = st.get("r") or {}
                for o in [r.get("o")] + list(r.get("ops") or []):
                    if isinstance(o, dict) and o.get("k") == "move":
                        if o["p"]["l"] in s:
                            s.discard(o["p"]["l"])
                            if st["d"]["l"] in gl:
                                s.add(st["d"]["l"])
            t = x["t"]
            succ = []
            if t["k"] == "call":
                gone = {a["p"]["l"] for a in t.get("a", []) if a.get("k") == "move"} & s
                if s:
                    seen[i] = (t, frozenset(s - gone), frozenset(gone))
                s -= gone
                if t["d"]["l"] in gl:
                    s.add(t["d"]["l"])
                succ = [t["t"]]
            elif t["k"] == "drop":
                if not t["p"]["p"]:
                    s.discard(t["p"]["l"])
                succ = [t["t"]]
            elif t["k"] == "switch":
                succ = [y for _, y in t["ts"]] + [t["ow"]]
            elif isinstance(t.get("t"), int):
                succ = [t["t"]]
            for j in succ:
                if j is None or b["blocks"][j]["cu"]:
                    continue
                z = frozenset(s) | ins.get(j, frozenset())
                if j not in ins or z != ins[j]:
                    ins[j] = z
                    work.append(j)
        for i, (t, h, gone) in sorted(seen.items()):
            yield i, t, {gl[x] for x in h}, {gl[x] for x in gone}
