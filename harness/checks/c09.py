"""C09: make_nullable / is_nullable."""
import enc
from checks import c06
from vlib import call


def boolean(st, v):
    return st if st != "ok" else ("true" if v is True else "false" if v is False else repr(v))


def observe(t):
    from recap.types import NullType, UnionType

    x = enc.build(t)
    null = enc.T("null")
    isn = boolean(*call(x.is_nullable))
    opt = boolean(*call(lambda: x.is_optional)) if isinstance(x, UnionType) else "none"
    st, r = call(x.make_nullable)
    rec = {"op": "nullable", "t": t, "st": st, "r": enc.t(r) if st == "ok" else null, "rn": "none", "isn": isn,
           "opt": opt, "after": enc.t(x), "st2": "none", "r2": null}
    if st == "ok":
        rec["rn"] = boolean(*call(r.is_nullable))
        rec["st2"], r2 = call(r.make_nullable)
        if rec["st2"] == "ok":
            rec["r2"] = enc.t(r2)
            rec["r3"] = enc.t(r)
            for y in (r2, r):
                y.doc = "changed"
                y.extra_attrs["zz"] = 1
                y.extra_attrs["default"] = "changed"
                y.types.append(NullType(name="extra"))
                y.types.reverse()
    rec["after2"] = enc.t(x)
    return rec


def run(ctx):
    ts = [ctx.replay["record"]["t"]] if ctx.replay else c06.types(ctx, 2500, 60000)
    recs = [observe(t) for t in ts]
    for r in recs[-2:]:
        ctx.sample({"type": r["t"], "nullable": r["r"]})
    ctx.judge("Trace_Types", recs)
