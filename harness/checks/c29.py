"""C29: what recap's readers produce are types that survive recap's own format."""
import copy
import json
import os
import re
import tempfile

import enc
import hiveemu
import sqlgen
from checks import c06, c10, c12, c14, c17, c19, c25
from vlib import call

LANGS = ["avro", "json", "protobuf", "mysql", "postgresql", "snowflake", "sqlite", "bigquery", "hive"]


def read(d):
    """The type the real reader makes of a source."""
    lang = d["lang"]
    if lang == "sqlite":
        from recap.clients.sqlite import SQLiteClient
        con = c17.sqlite_db({"t": d["cols"]})
        try:
            return SQLiteClient(con).schema("t")
        finally:
            con.close()
    if d.get("stats"):
        from recap.clients.hive_metastore import HiveMetastoreClient
        return HiveMetastoreClient(hiveemu.Server({"db": {"t": d["cols"]}}).hms()).schema("db", "t", True)
    kind, x = c25.make(d)
    if lang == "postgresql":
        return c17.converter(lang, d.get("enforce", False), d.get("ns")).to_recap(x)
    if lang == "json":
        import httpx

        def get(uri, **_):
            if str(uri) in d.get("docs", {}):
                return httpx.Response(200, text=json.dumps(d["docs"][str(uri)]), request=httpx.Request("GET", uri))
            raise httpx.ConnectError("no such host", request=httpx.Request("GET", uri))

        old, httpx.get = httpx.get, get
        try:
            return c25.Converters().read(lang, x, True)
        finally:
            httpx.get = old
    return c25.Converters().read(lang, x, True)


def user_refs(t):
    """(alias, what it denotes) for the references."""
    out = []
    for p in enc.refs(t):
        st, v = call(p.resolve)
        out.append({"alias": p.alias, "st": st, "t": enc.t(v) if st == "ok" else enc.T("null")})
    return out


def observe(d, store):
    from recap.types import from_dict, to_dict

    st, x = call(read, d)
    rec = {"op": "produced", "lang": d["lang"], "src": json.dumps(d), "read": st, "t": enc.T("null"), "outs": [], "after": enc.T("null"), "refs": [],
           "stored": {"st": "none", "t": enc.T("null"), "refs": []}}
    if st != "ok":
        return rec
    rec["t"], rec["refs"] = enc.t(x), user_refs(x)
    for mode, clean, alias in c06.MODES:
        st, v = call(to_dict, x, clean=clean, alias=alias)
        o = {"mode": mode, "st": st, "d": enc.j(v if st == "ok" else None), "back": {"st": "none", "t": enc.T("null")}, "refs": []}
        if st == "ok":
            st2, b = call(from_dict, copy.deepcopy(v))
            o["back"] = {"st": st2, "t": enc.t(b) if st2 == "ok" else enc.T("null")}
            o["refs"] = user_refs(b) if st2 == "ok" else []
        rec["outs"].append(o)
    rec["after"] = enc.t(x)

    def keep():
        store.put("t", x, 1)
        return store.get("t", 1)[0]

    st, b = call(keep)
    rec["stored"] = {"st": st, "t": enc.t(b) if st == "ok" else enc.T("null"), "refs": user_refs(b) if st == "ok" else []}
    return rec


def distinct_ids(s, docs):
    """No two schemas have $ids that make the same alias."""
    ids = []

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get("$id"), str):
                u = x["$id"].split("?")[0] + "#".join(x["$id"].split("#")[1:2])
                ids.append(re.sub("[^a-z0-9]+", ".", u.split("://")[-1].lower()).strip("."))
            x = list(x.values())
        if isinstance(x, list):
            for y in x:
                go(y)

    go(s)
    for d in docs.values():
        go(d)
    return len(ids) == len(set(ids))


def sources(ctx):
    r = ctx.rng
    few = lambda xs, n: xs if not ctx.quick or len(xs) <= n else r.sample(xs, n)
    out = []
    out += [{"lang": "avro", "text": json.dumps(s)} for s in few(c10.schemas(ctx), 500)]
    out += [{"lang": "json", "text": json.dumps(s), "docs": docs} for s, docs in few([x for x in c12.schemas(ctx) if distinct_ids(*x)], 500)]
    out += [{"lang": "protobuf", "text": text} for _, text in few(c14.files(ctx), 300)]
    out += [{"lang": sys, "cols": cols} for sys, cols in few(c17.tables(ctx, False), 400)]
    for i in range(1500 if ctx.quick else 40000):
        lang = LANGS[i % len(LANGS)]
        d = {"lang": lang, "cols": sqlgen.table(lang, r)} if lang == "sqlite" else c25.source(r, lang)
        if lang == "postgresql":
            d["enforce"], d["ns"] = r.random() < .5, r.choice([None, "v.w"])
        if lang != "json" or distinct_ids(json.loads(d["text"]), {}):
            out.append(d)
    for _ in range(150 if ctx.quick else 4000):
        cols = [{"name": n, "comment": r.choice(["", "c"]), "type": c19.htype(r, r.randint(0, 2)), "stats": c19.stats(r)} for n in r.sample(["id", "name", "a", "low", "high"], r.randint(1, 4))]
        out.append({"lang": "hive", "stats": True, "cols": cols})
    return out


def run(ctx):
    from recap.storage.registry import RegistryStorage
    ds = [json.loads(ctx.replay["record"]["src"])] if ctx.replay else sources(ctx)
    with tempfile.TemporaryDirectory() as tmp:
        store = RegistryStorage("file://" + os.path.join(tmp, "reg"))
        recs = [observe(d, store) for d in ds]
    per = {}
    for x in recs:
        a = per.setdefault(x["lang"], [0, 0])
        a[x["read"] != "ok"] += 1
    ctx.extra["read_and_rejected_per_language"] = per
    ctx.sample({"per_language": per})
    for x in recs[-2:]:
        ctx.sample({"source": x["src"], "type": x["t"]})
    ctx.judge("Trace_Types", [x for x in recs if x["read"] != "err"])
