"""C10: reading Avro schemas."""
import json

import convgen
import enc
from checks import c07
from vlib import call


def resolutions(t):
    out = []
    for p in enc.refs(t):
        st, v = call(p.resolve)
        out.append({"st": st, "t": enc.t(v) if st == "ok" else enc.T("null")})
    return out


def observe(s):
    from recap.converters.avro import AvroConverter

    st, t = call(AvroConverter().to_recap, json.dumps(s))
    return {"op": "read", "s": enc.j(s), "st": st, "t": enc.t(t) if st == "ok" else enc.T("null"), "refs": resolutions(t) if st == "ok" else []}


def schemas(ctx):
    r = ctx.explore("MC_Avro", "SPECIFICATION Spec\nCONSTANT MaxSteps = %d\nINVARIANTS ReadIsStruct SelfRefsResolve WrittenIsWide Emit\n"
                    "CHECK_DEADLOCK FALSE\n" % (2 if ctx.quick else 3), workers=6, heap="6g")
    out, seen = [], set()
    for ln in r.lines:
        for x in ln["x"]:
            s = enc.unj(c07.norm(x))
            h = json.dumps(s, sort_keys=True)
            if h not in seen and names_ok(s):
                seen.add(h)
                out.append(s)
    ctx.extra["schemas_enumerated_by_tlc"] = len(out)
    for _ in range(1500 if ctx.quick else 40000):
        out.append(convgen.AvroGen(ctx.rng).root())
    return out


def names_ok(s):
    """A schema that defines a name twice is not valid Avro."""
    names = []

    def go(x, ns):
        if isinstance(x, list):
            for y in x:
                go(y, ns)
        if not isinstance(x, dict):
            return
        n = x.get("namespace", ns)
        if x.get("type") in ("record", "enum", "fixed") and "name" in x:
            full = x["name"] if "." in x["name"] else f"{n}.{x['name']}"
            names.append(full)
            n = full.rsplit(".", 1)[0]
        for k in ("type", "types", "items", "values"):
            go(x.get(k), n)
        for f in x.get("fields", []):
            go({k: v for k, v in f.items() if k != "name"}, n)
    go(s, "")
    return len(set(names)) == len(names)


def run(ctx):
    ss = [enc.unj(ctx.replay["record"]["s"])] if ctx.replay else schemas(ctx)
    recs = [observe(s) for s in ss]
    ctx.extra["accepted"] = sum(r["st"] == "ok" for r in recs)
    for r in recs[-2:]:
        ctx.sample({"schema": enc.unj(r["s"]), "outcome": r["st"]})
    ctx.judge("Trace_Avro", recs)
