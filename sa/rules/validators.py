"""Checksum validators."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare, leaves
from sa import automata

S = "dd_sds::secondary_validation::"


def v(ctx, key, ty, ref):
    m = [p for p in ctx.F.bodies if p.endswith("Validator>::is_valid_match") and p[1:].split(" as ")[0].split("::")[-1] == ty and p.startswith("<dd_sds")]
    if len(m) != 1:
        ctx.viol("anchor:" + ty, "", "expected one Validator implementation for %s, found %d" % (ty, len(m)))
        raise Missing(ty)

    def decide(path, ref):
        A, r, _ = ctx.analyse(path, [P("self"), P("text")])
        A2, r2, _ = ctx.analyse(ref, [P("text")])
        return automata.agree((A, r), (A2, r2), P("text"))
    compare(ctx, key, m[0], "validators::" + ref, None, post=None, params=[P("self"), P("text")], refparams=[P("text")], decide=decide)


def dispatch(ctx, names):
    """each kind of checksum a rule can ask for is decided by the validator of that name, applied to the matched text"""
    m = [p for p in ctx.F.bodies if p.endswith("Validator>::is_valid_match") and p.startswith("<dd_sds")]
    d = [p for p in m if p[1:].split(" as ")[0].split("::")[-1] == "SecondaryValidator"]
    if len(d) != 1:
        ctx.viol("anchor:dispatch", "", "expected one Validator implementation for SecondaryValidator, found %d" % len(d))
        raise Missing("SecondaryValidator")
    A, ret, st = ctx.analyse(d[0], [P("validator"), P("text")], opaque=lambda p: p in m and p != d[0])
    E = [p for p in ctx.F.adts if p.endswith("::SecondaryValidator")][0]
    ev = [e for e in A.effects if e.kind == "call" and e.path in m]
    for v in ctx.F.adts[E]["variants"]:
        n = v["n"]
        if n not in names:
            continue
        g = variant(ctx.F, E, n, P("validator"))
        hit = [e for e in ev if land(e.guard, g) is not False]
        ok = len(hit) == 1 and hit[0].path[1:].split(" as ")[0].split("::")[-1] == n and hit[0].args[1] is P("text") and land(hit[0].guard, g) is g
        r = cofactor_t(ret, g) if ok else None
        ctx.obl("dispatch:" + n, ok and r is hit[0].res, hit[0].loc if hit else d[0],
                "a rule with the %s check is decided by %s" % (n, ", ".join(e.path for e in hit) or "no validator") if not ok else "the answer of the %s validator is not returned unchanged: `%s`" % (n, show(r, 6)))


def cofactor_t(t, g):
    L = [x for x, c in leaves(t).items() if land(c, g) is not False]
    return L[0] if len(L) == 1 else t


@rule("C21", 'is_valid_match of the Luhn, Chinese ID, NHS and NIR validators must have the same result as the reference for every text; SecondaryValidator must dispatch each variant to the validator of that name and return its answer', floor=4)
def c21(ctx):
    v(ctx, "luhn", "LuhnChecksum", "luhn")
    v(ctx, "chinese id", "ChineseIdChecksum", "chinese_id")
    v(ctx, "nhs", "NhsCheckDigit", "nhs")
    v(ctx, "nir", "NirChecksum", "nir")
    dispatch(ctx, ("LuhnChecksum", "ChineseIdChecksum", "NhsCheckDigit", "NirChecksum"))


@rule("C22", 'is_valid_match of the GitHub, IBAN and JWT validators must have the same result as the reference for every text; SecondaryValidator must dispatch each variant to the validator of that name and return its answer', floor=3)
def c22(ctx):
    v(ctx, "github", "GithubTokenChecksum", "github")
    v(ctx, "iban", "IbanChecker", "iban")
    v(ctx, "jwt", "JwtExpirationChecker", "jwt")
    dispatch(ctx, ("GithubTokenChecksum", "IbanChecker", "JwtExpirationChecker"))
