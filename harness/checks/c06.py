"""C06: to_dict/from_dict round trip."""
import copy
import json

import enc
import gen
from vlib import call

MODES = [("clean,alias", True, True), ("clean", True, False), ("alias", False, True), ("full", False, False)]


def types(ctx, n_quick=1500, n_thorough=40000, **genkw):
    """Types from TLC's exhaustive construction, then random larger ones."""
    out, seen = [], set()
    for steps, rich in [(1, True), (2, False)] if ctx.quick else [(2, True), (3, False)]:
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n MaxSteps = %d\n Rich = %s\nINVARIANTS TypeOK DescriptionsAreLossless "
               "NullabilityOK EquivalenceIsReflexive EquivalenceDiscriminates Emit\nCHECK_DEADLOCK FALSE\n"
               % (steps, "TRUE" if rich else "FALSE"))
        r = ctx.explore("MC_Types", cfg, workers=6, heap="6g")
        for x in r.lines:
            t = norm(x["t"])
            h = json.dumps(t, sort_keys=True)
            if h not in seen:
                seen.add(h)
                out.append(t)
    ctx.extra["types_enumerated_by_tlc"] = len(out)
    n = n_quick if ctx.quick else n_thorough
    for _ in range(n):
        g = gen.Gen(ctx.rng, **genkw)
        out.append(g.type(ctx.rng.choice([1, 2, 3, 3, 4]), top=ctx.rng.random() < 0.7))
    return out


def norm(t):
    """TLC prints an empty function as []."""
    if t["a"] == []:
        t["a"] = {}
    for c in t["c"]:
        norm(c)
    return t


def observe(t):
    from recap.types import from_dict, to_dict

    x = enc.build(t)
    outs = []
    for mode, clean, alias in MODES:
        st, d = call(to_dict, x, clean=clean, alias=alias)
        o = {"mode": mode, "st": st, "d": enc.j(d if st == "ok" else None), "back": {"st": "none", "t": enc.T("null")}}
        if st == "ok":
            st2, b = call(from_dict, copy.deepcopy(d))
            o["back"] = {"st": st2, "t": enc.t(b) if st2 == "ok" else enc.T("null")}
        outs.append(o)
    return {"op": "roundtrip", "t": t, "outs": outs, "after": enc.t(x)}


def run(ctx):
    recs = []
    for t in ([ctx.replay["record"]["t"]] if ctx.replay else types(ctx)):
        recs.append(observe(t))
    for r in recs[-2:]:
        ctx.sample({"type": r["t"], "compact": r["outs"][0]["d"]})
    ctx.judge("Trace_Types", recs)
