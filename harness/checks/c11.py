"""C11: writing Avro schemas."""
import copy
import json

import convgen
import enc
import produced
from checks import c06, c10
from vlib import call


def observe(t):
    from recap.converters.avro import AvroConverter

    x = enc.build(t)
    st, s = call(AvroConverter().from_recap, x)
    back = {"st": "none", "t": enc.T("null"), "refs": []}
    if st == "ok" and t["k"] == "struct":
        st2, b = call(lambda: AvroConverter().to_recap(json.dumps(s)))
        back = {"st": st2, "t": enc.t(b) if st2 == "ok" else enc.T("null"), "refs": c10.resolutions(b) if st2 == "ok" else []}
    return {"op": "write", "t": t, "st": st, "s": enc.j(s if st == "ok" else None), "after": enc.t(x), "back": back}


def in_domain(t):
    """Sizes whose digits the specification can count, and attributes that mean something."""
    import gen
    if convgen.dangling(t):
        return False
    for p, n in gen.walk(t):
        a = enc.attrs(n)
        if n["k"] == "int" and int(a["bits"]["v"]) > 2000:
            return False
        if p and "name" in a and gen_parent(t, p)["k"] != "struct":
            return False
        if "doc" in a and a["doc"]["t"] != "str" or "name" in a and not a["name"].get("v"):
            return False
    return True


def plain(t):
    """Without blank docs, and with names that have no dots (Avro's names have none)."""
    a = {k: v for k, v in t["a"].items() if not (k == "doc" and v == enc.j(""))}
    if "name" in a:
        a["name"] = enc.j(a["name"]["v"].replace(".", "_"))
    return {**t, "a": a, "c": [plain(c) for c in t["c"]]}


def gen_parent(t, p):
    for i in p[:-1]:
        t = t["c"][i]
    return t


def run(ctx):
    if ctx.replay:
        ts = [ctx.replay["record"]["t"]]
    else:
        ts = [t for t in c06.types(ctx, 0, 0) if in_domain(t)]
        ts += convgen.logicals()
        ts += convgen.key_aliases(ctx.rng, 60 if ctx.quick else 600)
        ts += [convgen.ConvGen(ctx.rng, blankdoc=False).root(ctx.rng.choice([1, 2, 3, 4])) for _ in range(1500 if ctx.quick else 40000)]
        ts += [t for t in map(plain, produced.types(ctx.rng, 800 if ctx.quick else 15000)) if produced.buildable(t)]
        ts = [t for t in ts if in_domain(t)]
    recs = [observe(t) for t in ts]
    ctx.extra["written"] = sum(r["st"] == "ok" for r in recs)
    ctx.extra["rejected"] = sum(r["st"] == "err" for r in recs)
    for r in recs[-2:]:
        ctx.sample({"type": r["t"], "outcome": r["st"]})
    ctx.judge("Trace_Avro", recs)
