"""Small value types: match statuses, displayed names, index encoding."""
from sa.check import rule
from sa.spec import *
from sa.equiv import compare


def display(ctx, n, ref):
    """the text shown for a value of type n"""
    m = [p for p in ctx.F.bodies if p.startswith("<dd_sds") and p.endswith("fmt::Display>::fmt") and p[1:].split(" as ")[0].split("<")[0].split("::")[-1] == n]
    if len(m) != 1:
        ctx.viol("anchor:Display " + n, "", "expected one Display implementation for %s, found %d" % (n, len(m)))
        return
    compare(ctx, "Display " + n, m[0], "misc::" + ref, [P(n), P("f")], mut=(P("f"),))


@rule("C20", 'MatchStatus::merge must leave the same status as the reference for every pair', floor=1)
def c20(ctx):
    st = P("status")
    compare(ctx, "merge", ctx.body("MatchStatus::merge"), "misc::merge", [st, P("new")], mut=(st,), ret=False)


@rule("C15", 'BinaryEvent::visit_event and visit_string_mut must perform the same visitor calls (guards, arguments, order), panics and state changes as the reference', floor=3)
def c15(ctx):
    e = P("event")
    compare(ctx, "new", ctx.body("BinaryEvent::new"), "wire::made::new_event", [P("bytes"), P("valid")])
    vm = ctx.find("BinaryEvent::visit_event", lambda p, b: "BinaryEvent" in p and p.endswith("::visit_event"), 1)[0]
    vs = ctx.find("BinaryEvent::visit_string_mut", lambda p, b: "BinaryEvent" in p and p.endswith("::visit_string_mut"), 1)[0]
    compare(ctx, "decode", vm, "wire::visit_event", [e, P("visitor")], effects=("push_segment", "pop_segment", "visit_string"), mut=(e,), ret=False, order=True, panics=True, ident=("into_static",))
    compare(ctx, "rewrite", vs, "wire::visit_string_mut", [e, P("path"), P("visit")], mut=(e,), ret=False, heap=True, ident=("into_static",))


@rule("C16", 'encode_response must produce the same bytes as the reference, and Display of Path and ReplacementType the same text', floor=4)
def c16(ctx):
    compare(ctx, "encode", ctx.body("encode_response"), "wire::encode_response", [P("storage"), P("matches")])
    display(ctx, "Path", "path_fmt")
    display(ctx, "ReplacementType", "replacement_fmt")
