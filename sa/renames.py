"""Names are not behaviour: items of /repo that only changed their name (or private field names) get the name
they had when the rules were written, so that a rename leaves every rule as it was. Only names are mapped;
what the renamed item does is analysed as it is now."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "baseline.json")
OURS = ("dd_sds", "sds_bindings_utils", "dd_sds_go")


def anon(p):
    return "{" in p or "::_::" in p


def snapshot(ds):
    """names, signatures and fields of the items of these crates"""
    out = {"fns": {}, "adts": {}, "vals": {}}
    for c, d in ds.items():
        if c not in OURS:
            continue
        for b in d["bodies"]:
            if "promoted" in b or b.get("derived") or anon(b["path"]) or not b["kind"].endswith("Fn"):
                continue
            out["fns"][b["path"]] = [b.get("inputs"), b.get("output"), b.get("vis") == "Public"]
        for a in d["adts"]:
            if not anon(a["path"]):
                out["adts"][a["path"]] = [a["kind"], [[v["n"], [[f["n"], f["ty"]] for f in v["fields"]]] for v in a["variants"]]]
        for k in ("statics", "consts"):
            for a in d[k]:
                if not anon(a["path"]):
                    out["vals"][a["path"]] = a.get("ty")
    return out


def parent(p):
    """the module or type an item lies in"""
    d = 0
    for i in range(len(p) - 1, 0, -1):
        if p[i] in ">)]":
            d += 1
        elif p[i] in "<([":
            d -= 1
        elif d == 0 and p[i - 1:i + 1] == "::":
            return p[:i - 1]
    return ""


def last(p):
    return p[len(parent(p)) + 2:] if parent(p) else p


def same(a, b):
    return a == b


def pairs(old, new, like):
    """one-to-one matches between names that vanished and names that appeared"""
    gone = [p for p in old if p not in new]
    came = [p for p in new if p not in old]
    out = {}
    for key in (parent, last):              # renamed in place, then moved as it is
        for g in gone:
            if g in out.values():
                continue
            c = [x for x in came if x not in out and key(x) == key(g) and like(old[g], new[x])]
            r = [y for y in gone if y not in out.values() and c and key(y) == key(g) and like(old[y], new[c[0]])]
            if len(c) == 1 and len(r) == 1:
                out[c[0]] = g
    return out


def sub(text, m):
    if not m:
        return text
    # as they are written inside a JSON string
    esc = {json.dumps(k)[1:-1]: json.dumps(v)[1:-1] for k, v in m.items()}
    rx = re.compile(r"(?<![\w:])(%s)(?!\w)" % "|".join(re.escape(k) for k in sorted(esc, key=len, reverse=True)))
    return rx.sub(lambda x: esc[x.group(1)], text)


def fields(d, ren):
    """rename fields: ren is {(adt, index of variant, new): old}"""
    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "field" and "adt" in x and (x["adt"], x.get("n")) in ren:
                x["n"] = ren[(x["adt"], x["n"])]
            if x.get("k") == "agg" and x.get("adt") and x.get("names"):
                x["names"] = [ren.get((x["adt"], n), n) for n in x["names"]]
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for k in ("bodies", "statics", "consts"):
        walk(d[k])
    for a in d["adts"]:
        for v in a["variants"]:
            for f in v["fields"]:
                f["n"] = ren.get((a["path"], f["n"]), f["n"])


def shape(a):
    return [a[0], [[n, f] for n, f in a[1]]] if a[0] == "Enum" else [a[0], [f for _, f in a[1]]]


def apply(texts):
    """texts: {crate: facts as JSON text} -> ({crate: facts}, what was renamed)"""
    ds = {c: json.loads(t) for c, t in texts.items()}
    if not os.path.exists(BASE):
        return ds, [], {}
    base = json.load(open(BASE))
    notes = []
    now = snapshot(ds)
    if now == base:
        return ds, notes, base
    for step in ("adts", "fields", "fns"):
        if step == "adts":
            m = pairs(base["adts"], now["adts"], lambda a, b: shape(a) == shape(b))
        elif step == "fns":
            m = pairs(base["fns"], now["fns"], lambda a, b: a[:2] == b[:2])
        else:
            ren = {}
            for p, a in base["adts"].items():
                b = now["adts"].get(p)
                if not b or a == b or len(a[1]) != len(b[1]) or [v[0] for v in a[1]] != [v[0] for v in b[1]] and a[0] == "Enum":
                    continue
                for (_, fa), (_, fb) in zip(a[1], b[1]):
                    if len(fa) != len(fb):
                        continue
                    na, nb = {n for n, _ in fa}, {n for n, _ in fb}
                    gone, came = [x for x in fa if x[0] not in nb], [x for x in fb if x[0] not in na]
                    for g in gone:
                        c = [x for x in came if x[1] == g[1]]
                        k = [x for x in gone if x[1] == g[1]]
                        if len(c) == len(k) and c:
                            ren[(p, c[k.index(g)][0])] = g[0]
            if ren:
                for c in ds:
                    fields(ds[c], ren)
                texts = {c: json.dumps(d, ensure_ascii=False) for c, d in ds.items()}
                notes += ["field %s of %s is %s now" % (o, p, n) for (p, n), o in ren.items()]
            continue
        if m:
            notes += ["%s is named %s now" % (o, n) for n, o in m.items()]
            texts = {c: sub(t, m) for c, t in texts.items()}
            ds = {c: json.loads(t) for c, t in texts.items()}
            now = snapshot(ds)
            for d in ds.values():
                for b in d["bodies"]:
                    if b["path"] in m.values() and b.get("assoc"):
                        b["assoc"] = last(b["path"])
    return ds, notes, base
