"""C19: Hive tables and column statistics, through pymetastore over a stand-in Thrift client."""
import json

import enc
import hiveemu
from enc import j
from vlib import call

PRIMS = ["void", "boolean", "tinyint", "smallint", "int", "bigint", "float", "double", "string", "binary", "date", "timestamp", "timestamp with local time zone",
         "interval_year_month", "interval_day_time"]
COMMENTS = ["", "", "c", "a comment", "ünï 日本", "0", "None", " ", "x'y\"z"]


def P(h, n=(), names=(), c=()):
    return {"h": h, "n": list(n), "names": list(names), "c": list(c)}


def htype(r, depth):
    x = r.random()
    if depth == 0 or x < .4:
        k = r.randint(0, len(PRIMS) + 5)
        if k < len(PRIMS):
            return P(PRIMS[k])
        if k < len(PRIMS) + 2:
            p = r.randint(1, 38)
            return P("decimal", [str(p), str(r.randint(0, p))])
        if k < len(PRIMS) + 4:
            return P("varchar", [str(r.choice([1, 255, 256, 65535]))])
        return P("char", [str(r.choice([1, 10, 255]))])
    if x < .5:
        return P("array", c=[htype(r, depth - 1)])
    if x < .6:
        return P("map", c=[htype(r, depth - 1 if r.random() < .3 else 0), htype(r, depth - 1)])
    if x < .78:
        n = r.randint(1, 4) if r.random() < .97 else r.choice([9, 21, 40])
        return P("struct", names=[f"{r.choice(['a', 'name', 'x_y', 'type', 'default', 'doc'])}{i or ''}" for i in range(n)], c=[htype(r, depth - 1) for _ in range(n)])
    alts = [htype(r, depth - 1) for _ in range(r.randint(1, 4))]
    if r.random() < .4:
        alts.append(json.loads(json.dumps(r.choice(alts))))
    if r.random() < .3:        # nearly the same alternative: must not be merged
        alts.append(P("array", c=[json.loads(json.dumps(r.choice(alts)))]))
    r.shuffle(alts)
    return P("uniontype", c=alts)


def stats(r):
    kind = r.choice(["none", "long", "double", "string", "boolean", "binary", "decimal", "date", "unknown"])
    big = lambda: r.choice([0, 1, -1, 7, 12345678901, -(2**63), 2**63 - 1])
    opt = lambda x: x if r.random() < .75 else None
    v = {}
    if kind in ("long", "date"):
        v = {"lowValue": opt(big()), "highValue": opt(big()), "numDVs": big(), "numNulls": big()}
    elif kind == "double":
        v = {"lowValue": opt(r.choice([0.0, -1.5, 3.25e100])), "highValue": opt(r.choice([0.0, 1.5, 1e-9])), "numDVs": big(), "numNulls": big()}
    elif kind == "string":
        v = {"avgColLen": r.choice([0.0, 2.5]), "maxColLen": big(), "numDVs": big(), "numNulls": big()}
    elif kind == "binary":
        v = {"avgColLen": r.choice([0.0, 2.5]), "maxColLen": big(), "numNulls": big()}
    elif kind == "boolean":
        v = {"numTrues": big(), "numFalses": big(), "numNulls": big()}
    elif kind == "decimal":
        d = lambda: {"scale": r.choice([0, 1, 2, 5, 18, 38]), "hex": r.choice(["00", "ff", "1234", "80", "7fff", "ff00", "0" * 30 + "7b", f"{r.getrandbits(128):032x}"])}
        v = {"lowValue": opt(d()), "highValue": opt(d()), "numDVs": big(), "numNulls": big()}
    return {"kind": kind, "v": {k: j(x) for k, x in v.items()}}


NONE = {"kind": "none", "v": {}}


def field(x):
    """Thrift's objects by their content."""
    for k, v in list(x.extra_attrs.items()):
        if type(v).__name__ == "Decimal" and hasattr(v, "unscaled"):
            x.extra_attrs[k] = {"scale": v.scale, "hex": v.unscaled.hex()}
        elif type(v).__name__ == "Date" and hasattr(v, "daysSinceEpoch"):
            x.extra_attrs[k] = {"days": v.daysSinceEpoch}
    return x


def encoded(t):
    for f in getattr(t, "fields", []):
        field(f)
    return enc.t(t)


def observe(name, cols, want):
    from recap.clients.hive_metastore import HiveMetastoreClient
    srv = hiveemu.Server({"other": {name: []}, "db": {"x": [], name: cols}})
    c = HiveMetastoreClient(srv.hms())
    st, t = call(lambda: c.schema("db", name, want) if want else c.schema("db", name))
    sent = [{**c, "stats": NONE if c["stats"]["kind"] == "unknown" else c["stats"]} for c in cols]
    return {"name": name, "cols": sent, "want": want, "st": st, "t": encoded(t) if st == "ok" else enc.T("null")}


def hnorm(h):
    return {"h": h["h"], "n": list(h["n"] or []), "names": list(h["names"] or []), "c": [hnorm(c) for c in (h["c"] or [])]}


def run(ctx):
    r = ctx.rng
    if ctx.replay:
        rec = ctx.replay["record"]
        ctx.judge("Trace_Hive", [observe(rec["name"], rec["cols"], rec["want"])])
        return
    res = ctx.explore("MC_Hive", "SPECIFICATION Spec\nCONSTANTS\n Steps = %d\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n" % (2 if ctx.quick else 3), workers=6, heap="8g")
    seen = {}
    for ln in res.lines:
        seen[json.dumps(ln, sort_keys=True)] = hnorm(ln["h"])
    types = [seen[k] for k in sorted(seen)]
    ctx.extra["types_enumerated_by_tlc"] = len(types)
    if len(types) > (6000 if ctx.quick else 80000):
        types = r.sample(types, 6000 if ctx.quick else 80000)
    r.shuffle(types)
    recs = []
    for i in range(0, len(types), 4):
        cols = [{"name": f"c{k}", "comment": r.choice(COMMENTS), "type": h, "stats": NONE} for k, h in enumerate(types[i:i + 4])]
        recs.append(observe("t", cols, False))
    for _ in range(900 if ctx.quick else 20000):
        names = r.sample(["id", "name", "a", "b", "low", "high", "default", "type", "x_y", "ünï"], r.randint(1, 6))
        names += ["w%d" % i for i in range(40)] if r.random() < .02 else []
        cols = [{"name": n, "comment": r.choice(COMMENTS), "type": htype(r, r.randint(0, 3)), "stats": stats(r)} for n in names]
        recs.append(observe(r.choice(["t", "a_b", "default", "x1"]), cols, r.random() < .75))
    for x in recs[-2:]:
        ctx.sample({"columns": [(c["name"], hiveemu.text(c["type"]), c["stats"]["kind"]) for c in x["cols"]], "statistics": x["want"], "outcome": x["st"]})
    ctx.judge("Trace_Hive", recs)
