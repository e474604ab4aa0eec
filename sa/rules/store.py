"""The shared regex store, its locks, scratch caches, statistics and labels."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare, VF
from sa.terms import *
from sa.vf import norm, subst

S_ = "scanner::regex_rule::regex_store::"
R_ = S_ + "RegexStore::"
STAT = ["add_total_regex_cache", "set_total_regexes"]


@rule("C17", "the store's lookup, insertion and clean-up must leave both maps and return the regex and key exactly as the reference does", floor=4)
def c17(ctx):
    s = [P("s")]
    op = ["gc", "get", "insert"] + STAT
    compare(ctx, "get", ctx.body(R_ + "get"), "store::get", [P("s"), P("pattern")], opaque=STAT)
    compare(ctx, "insert", ctx.body(R_ + "insert"), "store::insert", [P("s"), P("pattern"), P("regex")], mut=s, opaque=["gc", "get"] + STAT)
    compare(ctx, "gc", ctx.body(R_ + "gc"), "store::gc", [P("s")], mut=s, opaque=STAT, ret=False)
    compare(ctx, "new", ctx.body(R_ + "new"), "store::new", [], opaque=STAT)
    compare(ctx, "global", ctx.body(S_ + "get_memoized_regex"), "store::get_memoized_regex", [P("pattern"), P("regex_factory")], opaque=["get_memoized_regex_with_custom_store"])
    key_space(ctx)


def key_space(ctx):
    """what is compiled for a key depends on nothing but the key, and keys of differently compiled regexes never coincide"""
    sites = {}
    fs = [p for p, b in sorted(ctx.F.bodies.items()) if b["crate"] == "dd_sds" and S_ not in p and "get_memoized_regex" in str(b["blocks"])]
    op = lambda q: norm(q).endswith(("::get_memoized_regex", "::validate_and_create_regex"))
    texts = {p: str(b["blocks"]) for p, b in ctx.F.bodies.items() if b["crate"] == "dd_sds"}

    def uses(f):
        A = VF(ctx.F, opaque=op)
        A.analyse(f)
        ctx.functions |= A.analysed
        out = []
        for e in A.effects:
            if not norm(e.path).endswith("::get_memoized_regex"):
                continue
            key, fac = e.args[0], e.args[1]
            ps = key.a[0] if key.op == "cat" else (key,)
            pre = ps[0].a[0] if ps[0].op == "c" and isinstance(ps[0].a[0], str) else ""
            for x in ps:
                fac = subst(fac, lambda t: mk("q", "key") if t is x and t.op != "c" else None)
            free = [t for t in subterms(fac) if t.op in ("p", "lv", "lve", "static")]
            out.append((pre, fac, key, free, "%s (%s)" % (norm(f), e.loc)))
        return A, out

    def record(f, depth):
        A, us = uses(f)
        if depth and any(free for _, _, _, free, _ in us):
            # what it is given decides: look at the functions that use it
            up = [f.split("::{closure")[0]] if "::{closure" in f else sorted(q for q, t in texts.items() if q != f and not q.startswith(f + "::") and repr(f)[1:-1] in t)
            if up and all(q in ctx.F.bodies and f in uses(q)[0].analysed for q in up):
                for q in up:
                    record(q, depth - 1)
                return
        for pre, fac, key, free, w in us:
            sites.setdefault((pre, fac), w)
            ctx.obl("key:%s:%s" % (f, pre), not free, sites[pre, fac], "the regex stored under the key %s is built from %s, which the key does not determine" % (show(key, 5), ", ".join(sorted({show(t, 3) for t in free}))))

    for f in fs:
        record(f, 3)
    order = sorted(sites.items(), key=lambda x: x[1])
    for i, ((p1, f1), w1) in enumerate(order):
        for (p2, f2), w2 in order[i + 1:]:
            if f1 is not f2:
                ctx.obl("keys:%s/%s" % (p1, p2), not (p1.startswith(p2) or p2.startswith(p1)), w1, "keys here (prefix %r) can equal keys in %s (prefix %r), but the two compile their patterns differently" % (p1, w2, p2))
    ctx.obl("key sites", len(sites) > 0, "", "no use of the shared store was found")


@rule("C18", "one thread at a time changes the store, a pattern is compiled outside the lock, and no lock is taken while one is held", floor=3)
def c18(ctx):
    compare(ctx, "memoize", ctx.body(S_ + "get_memoized_regex_with_custom_store"), "store::get_memoized_regex_with_custom_store",
            [P("pattern"), P("regex_factory"), P("store")], effects=["<apply>", "RegexStore::insert"], opaque=["RegexStore::get", "RegexStore::insert"])
    lock_discipline(ctx)


def lock_discipline(ctx):
    from sa.locks import Locks
    L = Locks(ctx.F)
    order = {}
    n = 0
    for p, b in sorted(L.bodies.items()):
        if not any(L.takes(t, b) for _, t in L.calls(b)):
            continue
        n += 1
        ctx.obl("locks:" + p, True)
        for i, t, held, gone in L.held(p):
            where = "%s (%s)" % (p, t["s"])
            if not held:
                continue
            k = L.takes(t, b)
            tg = L.targets(t, b)
            may = {}
            for q in tg:
                if q is not None:
                    for c, w in L.may(q).items():
                        may.setdefault(c, w)
            if k:
                may[k] = (p,)
            for h in sorted(held):
                for c, w in may.items():
                    order.setdefault((h, c), (where, w))
            if None in tg and any(h.startswith("dd_sds") for h in held):
                ctx.obl("callback:" + p, False, where, "calls code it was given while it holds the lock of %s: other threads wait for it, and it deadlocks if that code needs the same lock" % ", ".join(sorted(held)))
    # a cycle in the order in which locks are taken
    for (h, c), (where, w) in sorted(order.items()):
        if h == c or reaches(order, c, h):
            ctx.obl("order:%s<%s" % (h, c), False, where, "takes the lock of %s (through %s) while it holds the lock of %s" % (c, " -> ".join(w), h))
    ctx.obl("locks", n > 0, "", "no function takes a lock: the analysis has lost the store's lock")


def reaches(order, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            st += [c for h, c in order if h == x]
    return False


@rule("C19", "the scratch space handed out for a regex is the one stored under that regex's key, created by that regex", floor=2)
def c19(ctx):
    c = "scanner::regex_rule::regex_cache_store::RegexCaches::"
    compare(ctx, "cache", ctx.body(c + "get"), "store::cache", [P("s"), P("shared")], effects=["Entry::or_insert_with", "create_cache"])
    compare(ctx, "new", ctx.body(c + "new"), "store::no_caches", [])


@rule("C23", "the published totals change exactly with what is stored", floor=3)
def c23(ctx):
    compare(ctx, "insert", ctx.body(R_ + "insert"), "store::insert", [P("s"), P("pattern"), P("regex")], effects=STAT, opaque=["gc", "get"] + STAT, ret=False)
    compare(ctx, "gc", ctx.body(R_ + "gc"), "store::gc", [P("s")], effects=STAT, opaque=STAT, ret=False)
    st = "stats::Stats::"
    eff = ["fetch_add", "fetch_sub", "Gauge::set"]
    compare(ctx, "names", ctx.body(st + "new"), "stats::new", [])
    compare(ctx, "created", ctx.body(st + "increment_total_scanners"), "stats::increment_total_scanners", [P("s")], effects=eff, ret=False)
    compare(ctx, "deleted", ctx.body(st + "decrement_total_scanners"), "stats::decrement_total_scanners", [P("s")], effects=eff, ret=False)
    compare(ctx, "regexes", ctx.body(st + "set_total_regexes"), "stats::set_total_regexes", [P("s"), P("n")], effects=eff, ret=False)
    compare(ctx, "caches", ctx.body(st + "add_total_regex_cache"), "stats::add_total_regex_cache", [P("s"), P("delta")], effects=eff, ret=False)
    compare(ctx, "rule counter", ctx.body("scanner::metrics::RuleMetrics::new"), "stats::rule_metrics", [P("labels")])
    compare(ctx, "scanner counters", ctx.body("scanner::metrics::ScannerMetrics::new"), "stats::scanner_metrics", [P("labels")])


@rule("C24", "labels are combined, built, written and read back as the reference does", floor=6)
def c24(ctx):
    l = "observability::labels::Labels::"
    compare(ctx, "combine", ctx.body(l + "clone_with_labels"), "stats::clone_with_labels", [P("own"), P("additional")])
    compare(ctx, "new", ctx.body(l + "new"), "stats::labels", [P("pairs")])
    compare(ctx, "empty", ctx.body(l + "empty"), "stats::empty", [])
    compare(ctx, "into", ctx.body("observability::labels::Labels as metrics::label::IntoLabels>::into_labels"), "stats::into_labels", [P("l")])
    compare(ctx, "write", ctx.body("observability::labels::Labels as serde::ser::Serialize>::serialize"), "stats::serialize", [P("l"), P("serializer")], effects=["serialize_seq", "serialize_element", "end"], order=True)
    compare(ctx, "read", [p for p in ctx.F.bodies if "dd_sds::observability::labels" in p and p.endswith("::visit_seq")][0], ["stats::alt::visit_seq", "stats::visit_seq"], params=[P("visitor"), P("seq")], refparams=[P("seq")], effects=["next_element"])
