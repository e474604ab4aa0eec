"""CLI: python3 -m sa.check <PROPERTY> ; decides one property from /repo's current source."""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
RULES = {}      # id -> (function, rule text, floor)


def rule(pid, text, floor=1):
    def deco(f):
        RULES[pid] = (f, text, floor)
        return f
    return deco


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.obls = []
        self.viols = {}
        self.functions = set()
        self.notes = []
        self.effects = 0
        self._f = None

    @property
    def F(self):
        if self._f is None:
            from . import facts
            self._f = facts.load()
        return self._f

    def vf(self, **kw):
        from . import vf
        return vf.VF(self.F, **kw)

    def analyse(self, path, args=None, **kw):
        """analyse one entry point; returns (engine, return value, final memory)"""
        A = self.vf(**kw)
        r, st = A.analyse(path, args)
        self.functions |= {p for p in A.analysed if not p.startswith("sdsmodels")}
        self.effects += len(A.effects)
        A.notes and self.notes.extend(A.notes)
        return A, r, st

    def find(self, what, pred, n=None):
        """bodies satisfying pred; a missing anchor is reported (fail closed)"""
        out = [p for p in self.F.bodies if not p.startswith("sdsref::") and pred(p, self.F.bodies[p])]
        if n is not None and len(out) != n or not out:
            self.viol("anchor:" + what, "", "expected %s %s, found %d" % (n or "at least one", what, len(out)))
        return out

    def body(self, suffix, what=None):
        """the unique body whose generics-free path ends with suffix"""
        from .vf import norm
        out = [p for p in self.F.bodies if norm(p).endswith(suffix) and not p.startswith("sdsref::")]
        if not out and self.F.base and any(norm(p).endswith(suffix) for p in self.F.base["fns"]):
            self.notes.append("there is no %s any more: what it did is compared as part of its callers" % suffix)
            return None
        if len(out) != 1:
            self.viol("anchor:" + (what or suffix), "", "expected exactly one function %s, found %d" % (suffix, len(out)))
            raise Missing(suffix)
        return out[0]

    def obl(self, key, ok, where="", msg=""):
        """one obligation: holds, or becomes a violation under a line-free key"""
        self.obls.append((key, bool(ok)))
        if not ok:
            self.viol(key, where, msg)
        return bool(ok)

    def viol(self, key, where, msg):
        self.viols.setdefault(key, (where, msg))


class Missing(Exception):
    pass


def load_rules():
    d = os.path.join(VERIF, "sa", "rules")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("sa.rules." + f[:-3])


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}


def run(pid, tier, seed, quiet=False):
    t0 = time.time()
    fn, text, floor = RULES[pid]
    ctx = Ctx(pid)
    try:
        fn(ctx)
    except Missing:
        pass
    except Exception as e:
        from .facts import FactsError
        if os.environ.get("SA_DEBUG"):
            raise
        tb = traceback.format_exc()
        if isinstance(e, FactsError):
            ctx.viol("facts", "/repo", "the source could not be type-checked: " + str(e)[-1500:])
        else:
            ctx.viol("undecided:" + type(e).__name__, "", "the analysis could not interpret the code: " + tb[-1500:])
    if not ctx.viols and len(ctx.obls) < floor:
        ctx.viol("floor", "", "only %d obligations were found, at least %d expected" % (len(ctx.obls), floor))
    kn = known(pid)
    listed = {k: v for k, v in ctx.viols.items() if k in kn}
    fresh = {k: v for k, v in ctx.viols.items() if k not in kn}
    man = manifest_level(pid)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": man[0],
        "coverage": {
            "explanation": "Static analysis of /repo's current source (rustc MIR of all crates). Rule: " + text,
            "obligations": len(ctx.obls), "discharged": sum(1 for _, ok in ctx.obls if ok),
            "functions_analysed": len(ctx.functions), "effects_inspected": ctx.effects,
            "bodies_in_program": len(ctx._f.bodies) if ctx._f else 0,
            "samples": [k for k, _ in ctx.obls][:12],
            "functions": sorted(ctx.functions)[:60],
        },
        "assumptions": man[1], "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in listed:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k], k))
    if fresh:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, text))
            for k, (w, m) in sorted(fresh.items()):
                f.write("- %s\n  at: %s\n  %s\n\n" % (k, w, m))
        for k, (w, m) in sorted(fresh.items()):
            print("  %s | %s | %s" % (k, w, m[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not quiet:
        print("%s holds: %d obligations over %d functions (%.1fs)" % (pid, len(ctx.obls), len(ctx.functions), time.time() - t0))
    return 0


def manifest_level(pid):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == pid:
                    return c["level"], [c["level_note"]]
    except Exception:
        pass
    return "other", []


def main():
    sys.setrecursionlimit(20000)
    import threading
    load_rules()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ids = sorted(RULES) if args == ["all"] else args
    res = []

    def work():
        for i in ids:
            if i not in RULES:
                print("unknown property", i)
                res.append(2)
                continue
            res.append(run(i, tier, seed))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    sys.exit(max(res) if len(res) == len(ids) else 2)


if __name__ == "__main__":
    # the rules register themselves in sa.check, not in __main__
    from sa import check
    check.main()
