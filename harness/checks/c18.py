"""C18: BigQuery schemas."""
import json

import bqemu
import enc
from enc import j
from vlib import call

TYPES = ["STRING", "JSON", "BYTES", "INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT", "FLOAT", "FLOAT64", "BOOLEAN", "BOOL", "TIMESTAMP", "DATETIME",
         "TIME", "DATE", "NUMERIC", "DECIMAL", "BIGNUMERIC", "BIGDECIMAL"]
UNKNOWN = ["GEOGRAPHY", "INTERVAL", "RANGE", "STRINGS", "FOREIGN", "UNKNOWN"]
TEXTS = [None, None, "", "a doc", "ünï 日本", "0", "CURRENT_TIMESTAMP()", "'x'", "null", " ", "line\nbreak"]


def field(r, depth, names, bad=0.01):
    name = r.choice(["id", "name", "a_b", "A", "a", "x1", "_", "type", "default", "ünï", "fields", "doc"]) if r.random() < .7 else f"f{len(names)}"
    while name in names:
        name += "_"
    names.add(name)
    f = {"name": name, "type": r.choice(UNKNOWN if r.random() < bad else TYPES), "mode": r.choice(["REQUIRED", "NULLABLE", "REPEATED"]), "desc": j(r.choice(TEXTS)),
         "def": j(r.choice(TEXTS)), "maxlen": j(None), "prec": j(None), "scale": j(None), "fields": []}
    if depth and r.random() < .35:
        f["type"] = r.choice(["RECORD", "STRUCT"])
        inner = set()
        f["fields"] = [field(r, depth - 1, inner, bad) for _ in range(r.randint(1, 4) if r.random() < .97 else r.choice([9, 21, 40]))]
    elif f["type"] in ("STRING", "JSON", "BYTES") and r.random() < .6:
        f["maxlen"] = j(r.choice([1, 2, 255, 65536, 10485760, 9223372036854775807]))
    elif "NUMERIC" in f["type"] or "DECIMAL" in f["type"]:
        big = f["type"].startswith("BIG")
        if r.random() < .7:
            f["prec"] = j(r.randint(1, 76 if big else 38))
            if r.random() < .7:
                f["scale"] = j(r.randint(0, min(int(f["prec"]["v"]), 38 if big else 9)))
    return f


def observe(fs, via):
    from recap.converters.bigquery import BigQueryConverter
    if via == "converter":
        st, t = call(BigQueryConverter().to_recap, [bqemu.schema_field(f) for f in fs])
    else:
        from recap.clients.bigquery import BigQueryClient
        srv = bqemu.Server({"p": {"d": {"other": [], "t": fs}}})
        with srv.installed():
            def read():
                with BigQueryClient.create() as c:
                    return c.schema("p", "d", "t")
            st, t = call(read)
    return {"fs": fs, "via": via, "st": st, "t": enc.t(t) if st == "ok" else enc.T("null")}


def norm(f):
    f["fields"] = [norm(x) for x in (f["fields"] or [])]
    return f


def run(ctx):
    bqemu.install()
    r = ctx.rng
    if ctx.replay:
        rec = ctx.replay["record"]
        ctx.judge("Trace_BigQuery", [observe(rec["fs"], rec["via"])])
        return
    cases = []
    for mf, d in ((1, 0), (2, 1)) if ctx.quick else ((1, 0), (2, 1), (1, 5)):
        res = ctx.explore("MC_BigQuery", "SPECIFICATION Spec\nCONSTANTS\n MaxFields = %d\n Depth = %d\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n" % (mf, d), workers=6, heap="8g")
        seen = {}
        for ln in res.lines:
            seen[json.dumps(ln, sort_keys=True)] = [norm(f) for f in ln["fs"]]
        got = [seen[k] for k in sorted(seen)]
        if len(got) > (2500 if ctx.quick else 40000):
            got = r.sample(got, 2500 if ctx.quick else 40000)
        cases += got
    ctx.extra["schemas_enumerated_by_tlc"] = len(cases)
    for _ in range(700 if ctx.quick else 20000):
        names = set()
        cases.append([field(r, r.randint(0, 4), names) for _ in range(r.randint(0, 5) if r.random() < .98 else r.choice([9, 30, 60]))])
    for d in (6, 10, 15):                 # BigQuery allows 15 levels of nesting
        f = field(r, 0, set(), 0)
        for _ in range(d - 1):
            f = {**f, "type": r.choice(["RECORD", "STRUCT"]), "mode": r.choice(["REQUIRED", "NULLABLE", "REPEATED"]), "maxlen": j(None), "prec": j(None), "scale": j(None), "fields": [f]}
        cases.append([f])
    recs = [observe(fs, "client" if r.random() < .4 else "converter") for fs in cases]
    ctx.extra["accepted"] = sum(x["st"] == "ok" for x in recs)
    for x in recs[-2:]:
        ctx.sample({"fields": [bqemu.api(f) for f in x["fs"]], "outcome": x["st"]})
    ctx.judge("Trace_BigQuery", recs)
