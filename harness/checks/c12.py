"""C12: reading JSON schemas."""
import json

import convgen
import enc
from checks.c10 import resolutions
from vlib import call


def observe(s, docs, web=False):
    import httpx
    import referencing
    from recap.converters.json_schema import JSONSchemaConverter
    from referencing.jsonschema import DRAFT202012

    def retrieve(uri):
        if uri in docs:
            return referencing.Resource.from_contents(json.loads(json.dumps(docs[uri])), DRAFT202012)
        raise referencing.exceptions.NoSuchResource(ref=uri)

    def get(uri, **_):
        if str(uri) in docs:
            return httpx.Response(200, text=json.dumps(docs[str(uri)]), request=httpx.Request("GET", uri))
        raise httpx.ConnectError("no such host", request=httpx.Request("GET", uri))

    old = httpx.get
    httpx.get = get
    try:
        conv = JSONSchemaConverter() if web else JSONSchemaConverter(json_registry=referencing.Registry(retrieve=retrieve))
        st, t = call(conv.to_recap, json.dumps(s))
    finally:
        httpx.get = old
    return {"op": "read", "web": web, "s": enc.j(s, ordered=True), "docs": {u: enc.j(d, ordered=True) for u, d in docs.items()}, "st": st,
            "t": enc.t(t) if st == "ok" else enc.T("null"), "refs": resolutions(t) if st == "ok" else []}


def onorm(x):
    """TLC prints an empty function as []; key order is kept."""
    if x["t"] == "obj":
        x["m"] = x["m"] or {}
        for v in x["m"].values():
            onorm(v)
    for v in x.get("c", []):
        onorm(v)
    return x


def schemas(ctx):
    r = ctx.explore("MC_JsonSchema", "SPECIFICATION Spec\nCONSTANT MaxSteps = %d\nINVARIANTS FieldsInOrder OptionalIffNotRequired RefsResolve "
                    "WrittenMatches Emit\nCHECK_DEADLOCK FALSE\n" % (2 if ctx.quick else 3), workers=6, heap="6g")
    out, seen = [], set()
    for ln in r.lines:
        docs = {u: enc.unj(onorm(d)) for u, d in ln["docs"].items()}
        for x in ln["x"]:
            s = enc.unj(onorm(x))
            h = json.dumps(s)
            if h not in seen:
                seen.add(h)
                out.append((s, docs))
    ctx.extra["schemas_enumerated_by_tlc"] = len(out)
    for _ in range(1500 if ctx.quick else 40000):
        out.append(convgen.JsonGen(ctx.rng).case())
    return out


def run(ctx):
    if ctx.replay:
        rec = ctx.replay["record"]
        cases = [(enc.unj(rec["s"]), {u: enc.unj(d) for u, d in rec["docs"].items()})]
    else:
        cases = schemas(ctx)
    recs = [observe(*c, web) for i, c in enumerate(cases) for web in (True, False) if ctx.replay or i % 2 == web]
    ctx.extra["accepted"] = sum(r["st"] == "ok" for r in recs)
    ctx.assumptions.append("documents are retrieved from memory, through a given registry or a replaced httpx.get, instead of the network")
    for r in recs[-2:]:
        ctx.sample({"schema": enc.unj(r["s"]), "outcome": r["st"]})
    ctx.judge("Trace_JsonSchema", recs)
