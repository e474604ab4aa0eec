"""The JSON form of rule configurations: what is written, what is read, and that the two agree."""
import re
from sa.check import rule
from sa.vf import norm
from sa.spec import *

PRE = "dd_sds::"
# type -> (style, tag, content, {variant: (name, {member: name})}); structs have the single variant ""
FORM = {
    "scanner::regex_rule::config::RegexRuleConfig": (None, None, None, {"": (None, "pattern match_action scope proximity_keywords validator labels match_validation_type")}),
    "scanner::regex_rule::config::ProximityKeywordsConfig": (None, None, None, {"": (None, "look_ahead_character_count included_keywords excluded_keywords")}),
    "scanner::regex_rule::config::SecondaryValidator": ("internal", "type", None, "LuhnChecksum ChineseIdChecksum GithubTokenChecksum NhsCheckDigit IbanChecker NirChecksum JwtExpirationChecker"),
    "match_action::MatchAction": ("internal", "type", None, {"None": "", "Redact": "replacement", "Hash": "", "Utf16Hash": "", "PartialRedact": "direction character_count"}),
    "match_action::PartialRedactDirection": ("external", None, None, "FirstCharacters LastCharacters"),
    "scanner::scope::Scope": ("adjacent", "type", "paths", {"Include": "include exclude", "Exclude": "0"}),
    "path::Path": (None, None, None, {"": (None, "segments")}),
    "path::PathSegment": ("adjacent", "type", "value", {"Field": "0", "Index": "0"}),
    "match_validation::config::AwsConfig": (None, None, None, {"": (None, "aws_sts_endpoint forced_datetime_utc timeout")}),
    "match_validation::config::AwsType": ("external", None, None, {"AwsId": "", "AwsSecret": "0", "AwsSession": ""}),
    "match_validation::config::HttpMethod": ("external", None, None, "Get Post Put Delete Patch"),
    "match_validation::config::RequestHeader": (None, None, None, {"": (None, "key value")}),
    "match_validation::config::HttpValidatorOption": (None, None, None, {"": (None, "timeout")}),
    "match_validation::config::HttpValidatorConfig": (None, None, None, {"": (None, "endpoints method request_header valid_http_status_code invalid_http_status_code options")}),
    "match_validation::config::MatchValidationType": ("external", None, None, {"Aws": "0", "CustomHttp": "0"}),
}
# members that may be left out, with the value they then take; all others must be there (an Option may be left out anyway)
ABSENT = {"scope": "Scope::Exclude{0:vec[]}", "labels": None, "included_keywords": "vec[]", "excluded_keywords": "vec[]"}
NULLS = ("labels", "included_keywords", "excluded_keywords")


def form(t):
    style, tag, content, vs = FORM[t]
    if isinstance(vs, str):
        vs = {v: "" for v in vs.split()}
    out = {}
    for v, m in vs.items():
        m = m[1] if isinstance(m, tuple) else m
        out[v] = m.split()
    return style, tag, content, out


def text(t):
    return t.a[0] if t.op == "c" and isinstance(t.a[0], str) else None


def mentions(t, x):
    return any(s is x for s in subterms(t))


def last(p):
    return norm(p).rsplit("::", 1)[-1]


def written(ctx, path, me, ser):
    """rows (guard, label, value) of what one serialize function writes"""
    A, ret, st = ctx.analyse(path, [me, ser])
    rows = []
    for e in A.effects:
        if e.kind != "call":
            continue
        n = last(e.path)
        g = exists(e.guard, lambda v: isinstance(v, T) and mentions(v, ser))
        if n in ("serialize_field", "serialize_entry"):
            rows.append((g, e.args[1], e.args[2], e))
        elif n in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_struct_variant", "serialize_tuple_variant"):
            rows.append((g, C("<variant>"), e.args[3], e))
            if n == "serialize_newtype_variant":
                rows.append((g, C("<content>"), e.args[4], e))
    return A, rows


def rows_of(rows, g):
    """label -> [(condition, value)] of the rows written when g holds"""
    out = {}
    for c, label, val, e in rows:
        x = land(c, g)
        if x is False:
            continue
        out.setdefault(text(label) or show(label, 4), []).append((restrict(c, g) if g is not True else c, val, e))
    return out


def tagname(v):
    if v.op == "agg" and v.a[0].endswith("AdjacentlyTaggedEnumVariant"):
        return text(v.a[3 + v.a[2].index("variant_name")])
    return text(v)


def check_ser(ctx, t, path):
    style, tag, content, vs = form(t)
    name = t.rsplit("::", 1)[-1]
    me, ser = P("the " + name), P("out")
    A, rows = written(ctx, path, me, ser)
    where_ = ctx.F.bodies[path].get("span", "") or path
    bare = [e for e in A.effects if e.kind == "call" and e.args and e.args[-1] is ser and last(e.path) == "serialize"
            and strip(e.args[0]) is me and e.args[0] is not me]
    ctx.obl("write:%s:as an object" % name, rows or not bare, where_, "it is written as its part %s alone, without names or tags" % (bare and show(bare[0].args[0], 5)))
    if not rows:
        ctx.notes.append("%s is not written field by field: not decided" % name)
        return
    adtp = PRE + t
    for v, members in vs.items():
        key = "write:%s%s" % (name, v and "::" + v)
        if v and v not in [x["n"] for x in ctx.F.adts[adtp]["variants"]]:
            continue
        g = variant(ctx.F, adtp, v, me) if v else True
        got = rows_of(rows, g)
        if style == "external":
            ctx.obl(key, names(got, "<variant>") == {v}, where_, "the variant %s is written under %s" % (v, sorted(map(str, names(got, "<variant>")))))
        elif style:
            ctx.obl(key, names(got, tag) == {v}, where_, "the variant %s is written with %s = %s" % (v, tag, sorted(map(str, names(got, tag)))))
        if style == "adjacent" or style == "external":
            lab = content or "<content>"
            if members == ["0"]:
                put(ctx, key, me, v, "0", got.get(lab), where_, lab)
                continue
            if not members:
                continue
            inner = got.get(lab) or []
            got = {}
            for c, val, e in inner:
                p = nested(ctx, val, e)
                if p and c is True:
                    got = rows_of(written(ctx, p, val, ser)[1], True)
        for m in members:
            put(ctx, key, me, v, m, got.get(m), where_, m)


def strip(t):
    while t.op == "fld":
        t = t.a[0]
    return t


def nested(ctx, val, e):
    """the serialize function of the value's own type"""
    if val.op != "agg":
        return None
    h = val.a[0]
    ps = [p for p in ctx.F.bodies if p.startswith("<" + h) and re.search(r"serde::ser::Serialize>::serialize$", p)]
    return ps[0] if len(ps) == 1 else None


def names(got, label):
    return {tagname(val) for c, val, e in got.get(label, []) if c is True} | {None for c, val, e in got.get(label, []) if c is not True}


def put(ctx, key, me, v, m, rows, where_, label):
    want = fld(me, v, m)
    ok = bool(rows)
    msg = "%s is never written as '%s'" % (m, label)
    every = False
    for c, val, e in rows or []:
        if cn(val) is not cn(want):
            ok, msg = False, "'%s' is written as %s, not as the member %s" % (label, show(val, 6), m)
        every = lor(every, c)
    if ok and every is not True and not implies(is_var(want, "Some", OPT_VS), every) and not (
            ABSENT.get(m) == "vec[]" and implies(lnot(eqint(tlen(want), C(0))), every)):
        ok, msg = False, "'%s' is only written when %s" % (label, show_g(every, 4, 5))
    ctx.obl(key + "." + m, ok, where_, msg)


# ---- reading -------------------------------------------------------------------------------------------------------

def read_names(ctx, path):
    """visit_str: name -> field index ('__ignore' for the rest, None when the rest is refused)"""
    A, ret, st = ctx.analyse(path, [P("self"), P("name")])
    out, rest = {}, None
    for x in subterms(ret):
        if x.op == "agg" and x.a[1] == "__ignore":
            rest = "__ignore"
    for s in sorted({text(y) for y in all_terms(ret) if text(y) is not None}):
        r, st2 = ctx.vf().analyse(path, [P("self"), C(s)])
        if r.op == "agg" and r.a[1] == "Ok":
            f = r.a[3]
            if f.op == "agg":
                out[s] = f.a[1]
    return out, rest


def all_terms(t):
    from sa.equiv import guards_in
    seen = set(subterms(t))
    for g in guards_in(t):
        for v in support(g):
            if isinstance(v, T):
                seen |= set(subterms(v))
    return seen


def slots(ctx, A):
    """field index -> slot, and the type read into it"""
    out = {}
    for e in A.effects:
        if e.kind == "call" and last(e.path) == "next_value":
            for cube in paths(e.guard):
                f = [val[0] for v, val in cube if len(val) == 1 and str(val[0]).startswith("__field")]
                s = [v.a[1] for v, val in cube if isinstance(v, T) and v.op == "lv" and val == ("None",)]
                if len(f) == 1 and len(s) == 1:
                    out[f[0]] = (s[0], (e.info or {}).get("args", ["", ""])[1])
    return out


def check_map(ctx, t, path, strs, members, v, key):
    name = t.rsplit("::", 1)[-1]
    A, ret, st = ctx.analyse(path, [P("visitor"), P("map of " + path)])
    made = [x for x in subterms(ret) if x.op == "agg" and x.a[0] == PRE + t and x.a[1] == v]
    if len(made) != 1:
        ctx.notes.append("%s: %d constructions while reading: not decided" % (key, len(made)))
        return
    made = made[0]
    where_ = ctx.F.bodies[path].get("span", "") or path
    sl = slots(ctx, A)
    miss = {text(e.args[0]): (e.info or {}).get("args", [""])[0] for e in A.effects if e.kind == "call" and last(e.path) == "missing_field"}
    table, rest = strs
    ctx.obl(key + ":unknown", rest == "__ignore", where_, "a field %s does not know is refused" % name)
    for m in members:
        val = made.a[3 + made.a[2].index(m)]
        src = {x.a[1] for x in all_terms(val) if x.op == "lve"}
        f = table.get(m)
        k = key + "." + m
        if not ctx.obl(k, f in sl and src == {sl[f][0]}, where_, "the field '%s' is not what %s is read from" % (m, m)):
            continue
        s = sl[f]
        gone = [(g, x) for x, g in _leaves(val) if not any(y.op == "lve" and y.a[1] == s[0] for y in subterms(x))]
        opt = any(n == m and ty.startswith("core::option::Option<") for n, ty in miss.items())
        if m in ABSENT:
            want = ABSENT[m]
            ctx.obl(k + ":absent", len(gone) == 1 and gone[0][1].op != "bot" and "missing_field" not in show(gone[0][1], 6)
                    and (want is None or show(gone[0][1], 6) == want), where_,
                    "a configuration without '%s' reads as %s" % (m, [show(x, 6) for g, x in gone]))
        else:
            req = m in miss or not gone
            ctx.obl(k + ":absent", opt or req and all("missing_field" in show(x, 6) for g, x in gone), where_,
                    "a configuration without '%s' is accepted, as %s" % (m, [show(x, 6) for g, x in gone]))
        if m in NULLS:
            ctx.obl(k + ":null", "__DeserializeWith" in s[1] or s[1].startswith("core::option::Option<"), where_, "null for '%s' is refused" % m)


def _leaves(t):
    from sa.equiv import leaves
    return list(leaves(t).items())


def null_default(ret, how):
    """an optional value was read, and the result is that value or, for none, a default"""
    if not how or not all(h.startswith("core::option::Option<") for h in how):
        return False
    vals = [x.a[3 + x.a[2].index("value")] for x in subterms(ret) if x.op == "agg" and "value" in x.a[2] and "__DeserializeWith" in x.a[0]]
    if len(vals) != 1:
        return False
    ls = _leaves(vals[0])
    got = [(x, g) for x, g in ls if x.op == "fld" and x.a[1:] == ("Some", "0")]
    rest = [(x, g) for x, g in ls if (x, g) not in got]
    return len(got) == 1 and len(rest) == 1 and got[0][1] is is_var(got[0][0].a[0], "Some", OPT_VS) and not list(y for y in subterms(rest[0][0]) if y is got[0][0].a[0])


def check_de(ctx, t, D):
    style, tag, content, vs = form(t)
    name = t.rsplit("::", 1)[-1]
    under = [p for p in ctx.F.bodies if D in p and p != D]
    fv = {}
    for p in under:
        m = re.search(r"^<?(.*)::__FieldVisitor as serde::de::Visitor<'de>>::visit_str(#\d+)?$", p)
        if m:
            fv[(m.group(1), m.group(2) or "")] = p
    if not fv:
        ctx.notes.append("%s is not read by generated code: not decided" % name)
        return
    for p in under:
        if re.search(r"visit_map::__DeserializeWith(<.*>)? as serde::de::Deserialize<'de>>::deserialize(#\d+)?$", p):
            A, ret, st = ctx.analyse(p, [P("in")])
            how = [(e.info or {}).get("args", [""])[0] for e in A.effects if e.kind == "call" and last(e.path) == "deserialize"]
            ctx.obl("read:%s:through:%s" % (name, p.rsplit("deserialize", 1)[1]), how and all(h.startswith("serde_with::DefaultOnNull") for h in how) or null_default(ret, how), p,
                    "a field is read through %s" % (how or "something else than its own type"))
    where_ = ctx.F.bodies[D].get("span", "") or D
    if not style:
        maps = [p for p in under if re.search(r"::deserialize::__Visitor(<.*>)? as serde::de::Visitor<'de>>::visit_map$", p)]
        strs = [p for (h, n), p in fv.items() if h == D]
        if len(maps) == 1 and len(strs) == 1:
            check_map(ctx, t, maps[0], read_names(ctx, strs[0]), vs[""], "", "read:" + name)
        else:
            ctx.notes.append("%s: %d maps %d names" % (name, len(maps), len(strs)))
        return
    order = [x["n"] for x in ctx.F.adts[PRE + t]["variants"]]
    outer = fv.get((D, ""))
    if outer is None:
        ctx.notes.append("%s: names of the variants not found" % name)
        return
    table, rest = read_names(ctx, outer)
    for v in vs:
        if v in order:
            ctx.obl("read:%s::%s" % (name, v), table.get(v) == "__field%d" % order.index(v), where_, "'%s' is read as %s" % (v, table.get(v)))
    tags = set()
    for p in [D] + [p for p in under if p.endswith("visit_map")]:
        A, ret, st = ctx.analyse(p, [P("visitor"), P("map of " + p)][: 1 if p == D else 2])
        for e in A.effects:
            if e.kind != "call":
                continue
            if norm(e.path).endswith("TaggedContentVisitor::new"):
                tags.add(("internal", text(e.args[0]), None))
            for a in e.args:
                for x in subterms(a):
                    if x.op == "agg" and re.search(r"Tag(ContentOther|OrContent)FieldVisitor$", x.a[0]):
                        d = dict(zip(x.a[2], x.a[3:]))
                        tags.add(("adjacent", text(d["tag"]), text(d["content"])))
    want = {(style, tag, content)} if style != "external" else set()
    ctx.obl("read:%s:tag" % name, tags == want, where_, "the variant is read from %s, not %s" % (sorted(map(str, tags)), sorted(map(str, want))))
    for p in under:
        if not re.search(r"(__Seed(<.*>)? as serde::de::DeserializeSeed<'de>>::deserialize|__Visitor(<.*>)? as serde::de::Visitor<'de>>::visit_enum)$", p):
            continue
        A, ret, st = ctx.analyse(p, [P(p), P("in of " + p)])
        for x in subterms(ret):
            if x.op == "agg" and x.a[0] == PRE + t and x.a[2] == ("0",) and vs.get(x.a[1]) == ["0"]:
                s = show(x.a[3], 6)
                ctx.obl("read:%s::%s.0" % (name, x.a[1]), re.match(r"(<impl Deserialize<'de> for [^()]*>::deserialize|newtype_variant)\(.*\)\.Ok\.0$", s), p,
                        "what %s holds is read as %s" % (x.a[1], s))
    for p in under:
        m = re.search(r"^<?(.*)::__Visitor(<.*>)? as serde::de::Visitor<'de>>::visit_map(#\d+)?$", p)
        if not m:
            continue
        h, n = m.group(1), m.group(3) or ""
        A, ret, st = ctx.analyse(p, [P("visitor"), P("map of " + p)])
        for x in subterms(ret):
            if x.op == "agg" and x.a[0] == PRE + t and x.a[1] in vs and vs[x.a[1]] not in ([], ["0"]):
                cand = [q for (hh, nn), q in fv.items() if hh == h]
                best = [q for q in cand if q != outer and same_fields(ctx, A, q)]
                if len(best) == 1:
                    check_map(ctx, t, p, read_names(ctx, best[0]), vs[x.a[1]], x.a[1], "read:%s::%s" % (name, x.a[1]))
                else:
                    ctx.notes.append("%s::%s: %d candidate name tables" % (name, x.a[1], len(best)))
                break


def same_fields(ctx, A, q):
    """the name table q has every name the reading code would report as given twice"""
    twice = {text(e.args[0]) for e in A.effects if e.kind == "call" and last(e.path) == "duplicate_field"}
    return bool(twice) and twice <= set(read_names(ctx, q)[0])


@rule("C37", "For every configuration type that has a JSON form, the names, tags and members written by its serialize function are exactly those its "
      "reading code accepts, member by member; what may be left out or null, and the value it then takes, is fixed.", floor=60)
def c37(ctx):
    for t in FORM:
        if PRE + t not in ctx.F.adts:
            ctx.notes.append("%s is gone" % t)
            continue
        for p in list(ctx.F.bodies):
            if re.search(r"(<impl serde::ser::Serialize for dd_sds::%s(<[^>]*>)?>|^<dd_sds::%s(<[^>]*>)? as serde::ser::Serialize>)::serialize$" % (re.escape(t), re.escape(t)), p):
                check_ser(ctx, t, p)
            if re.search(r"<impl serde::de::Deserialize<'de> for dd_sds::%s(<[^>]*>)?>::deserialize$" % re.escape(t), p):
                check_de(ctx, t, p)
