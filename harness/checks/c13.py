"""C13: writing JSON schemas."""
import convgen
import enc
import gen
import produced
from checks import c06
from vlib import call


def observe(t):
    from recap.converters.json_schema import JSONSchemaConverter

    x = enc.build(t)
    st, s = call(JSONSchemaConverter().from_recap, x)
    return {"op": "write", "t": t, "st": st, "s": enc.j(s if st == "ok" else None, ordered=True), "after": enc.t(x),
            "dangling": convgen.dangling(t)}


def in_domain(t):
    for _, n in gen.walk(t):
        a = enc.attrs(n)
        if "doc" in a and (a["doc"]["t"] != "str" or not a["doc"]["v"]) or "name" in a and not a["name"].get("v"):
            return False
        if n["k"] == "union" and all(c["k"] == "null" for c in n["c"]):
            return False
        if n["k"] == "union" and sum(c["k"] == "null" for c in n["c"]) > 1:
            return False
        if n["k"] == "struct":
            names = [enc.attrs(f).get("name", {}).get("v") for f in n["c"]]
            if len(set(names)) != len(names):
                return False
        if n["k"] == "map" and any("alias" in enc.attrs(y) for _, y in gen.walk(n["c"][0])):
            return False
    return True


def nameless(rng, t):
    """t with one field's name removed or emptied."""
    import copy
    t = copy.deepcopy(t)
    fs = [f for _, n in gen.walk(t) if n["k"] == "struct" for f in n["c"]]
    if fs:
        f = rng.choice(fs)
        f["a"].pop("name", None)
        if rng.random() < 0.3:
            f["a"]["name"] = enc.j(None)
    return t


def run(ctx):
    if ctx.replay:
        ts = [ctx.replay["record"]["t"]]
    else:
        ts = c06.types(ctx, 0, 0)
        ts += convgen.logicals()
        ts += [convgen.ConvGen(ctx.rng, blankdoc=False).root(ctx.rng.choice([1, 2, 3, 4])) for _ in range(1500 if ctx.quick else 40000)]
        ts += [t for t in produced.types(ctx.rng, 800 if ctx.quick else 15000) if produced.buildable(t)]
        ts = [t for t in ts if in_domain(t)]
        ts += [nameless(ctx.rng, t) for t in ts[-200:]]
    recs = [observe(t) for t in ts]
    ctx.extra["written"] = sum(r["st"] == "ok" for r in recs)
    ctx.extra["rejected"] = sum(r["st"] == "err" for r in recs)
    for r in recs[-2:]:
        ctx.sample({"type": r["t"], "outcome": r["st"]})
    ctx.judge("Trace_JsonSchema", recs)
