"""C25: histories of conversions over shared inputs."""
import hashlib
import json
import os

import bqemu
import child
import convgen
import enc
import hiveemu
import proto
import sqlgen
from checks import c17, c18, c19, c23
from checks.c10 import resolutions
from vlib import call

FORMATS = ["avro", "json", "protobuf", "recap", "raw"]
SOURCES = ["avro", "json", "protobuf", "recap", "raw", "mysql", "postgresql", "snowflake", "bigquery", "hive"]


def source(r, lang):
    """The description of a document, from which each run makes its own object."""
    if lang in ("avro", "json", "protobuf") and r.random() < .25:
        return {"lang": lang, "text": c23.wide(r, lang, r.randint(2, 8))}
    if lang == "avro":
        return {"lang": lang, "text": json.dumps(convgen.AvroGen(r).root())}
    if lang == "json":
        return {"lang": lang, "text": json.dumps(convgen.JsonGen(r).case()[0])}
    if lang == "protobuf":
        return {"lang": lang, "text": proto.text(proto.ProtoGen(r).file(), r)}
    if lang in ("recap", "raw"):
        return {"lang": lang, "t": convgen.close(convgen.ConvGen(r, blankdoc=False).root(r.randint(1, 3)))}
    if lang == "bigquery":
        names = set()
        return {"lang": lang, "cols": [c18.field(r, r.randint(0, 2), names) for _ in range(r.randint(0, 4))]}
    if lang == "hive":
        return {"lang": lang, "cols": [{"name": n, "comment": r.choice(c19.COMMENTS), "type": c19.htype(r, r.randint(0, 2)), "stats": c19.NONE}
                                       for n in r.sample(["id", "name", "a", "b"], r.randint(1, 3))]}
    return {"lang": lang, "cols": sqlgen.table(lang, r)}


def make(d):
    """(kind, object) for a description."""
    from recap.types import to_dict
    lang = d["lang"]
    if lang == "type":
        return "type", enc.build(d["t"])
    if "text" in d:
        return lang, d["text"]
    if lang in ("recap", "raw"):
        return lang, to_dict(enc.build(d["t"]), clean=lang == "recap", alias=lang == "recap")
    if lang == "bigquery":
        return lang, [bqemu.schema_field(f) for f in d["cols"]]
    if lang == "hive":
        return lang, hiveemu.Server({"db": {"t": d["cols"]}}).hms().get_table("db", "t")
    return lang, c17.rows(lang, d["cols"])


def plain(x):
    """Any object as text, by content."""
    from recap.types import RecapType
    if isinstance(x, RecapType):
        return json.dumps([enc.t(x), resolutions(x)], sort_keys=True, default=repr)
    if isinstance(x, (str, dict, list)) or x is None:
        return json.dumps(x, sort_keys=True, default=repr)
    return repr(x) if "object at 0x" not in repr(x) else json.dumps(vars(x), sort_keys=True, default=lambda y: vars(y) if hasattr(y, "__dict__") else repr(y))


def digest(x):
    return hashlib.sha1(plain(x).encode("utf-8", "surrogatepass")).hexdigest()[:16]


class Converters:
    """Fresh ones, or one per language kept for the whole run."""

    def __init__(self):
        self.kept = {}

    def get(self, lang, fresh):
        if not fresh:
            if lang not in self.kept:
                self.kept[lang] = self.get(lang, True)
            return self.kept[lang]
        if lang == "avro":
            from recap.converters.avro import AvroConverter
            return AvroConverter()
        if lang == "json":
            from recap.converters.json_schema import JSONSchemaConverter
            return JSONSchemaConverter()
        if lang == "protobuf":
            from recap.converters.protobuf import ProtobufConverter
            return ProtobufConverter()
        if lang == "bigquery":
            from recap.converters.bigquery import BigQueryConverter
            return BigQueryConverter()
        if lang == "hive":
            from recap.converters.hive_metastore import HiveMetastoreConverter
            return HiveMetastoreConverter()
        return c17.converter(lang)

    def read(self, lang, x, fresh):
        from recap.types import from_dict
        if lang in ("recap", "raw"):
            return from_dict(x)
        if lang in ("avro", "json") and not isinstance(x, str):
            x = json.dumps(x)
        if lang == "protobuf" and not isinstance(x, str):
            from proto_schema_parser.generator import Generator
            x = Generator().generate(x)
        return self.get(lang, fresh).to_recap(x)

    def write(self, fmt, t, fresh):
        from recap.types import to_dict
        if fmt in ("recap", "raw"):
            return to_dict(t, clean=fmt == "recap", alias=fmt == "recap")
        return self.get(fmt, fresh).from_recap(t)


def replay(start, h):
    """One run: the recorded steps, and the contents of the inputs."""
    objs = [make(d) for d in start]
    conv, out = Converters(), []
    inputs = {f"o{i}": digest(x) for i, (_, x) in enumerate(objs, 1)}
    for s in h:
        kind, x = objs[s["i"] - 1]
        n = len(objs) + 1
        if kind is None:
            objs.append((None, None))
            continue
        if kind == "type":
            st, v = call(conv.write, s["fmt"], x, s["fresh"])
            f, new = "write " + s["fmt"], s["fmt"]
        else:
            st, v = call(conv.read, kind, x, s["fresh"])
            f, new = "read " + kind, "type"
        objs.append((new, v) if st == "ok" else (None, None))
        out.append({"f": f, "in": f"o{s['i']}", "out": f"o{n}" if st == "ok" else "", "fresh": bool(s["fresh"]) or kind in ("recap", "raw"), "made": digest(v) if st == "ok" else "error",
                    "now": {f"o{i}": digest(y) for i, (k, y) in enumerate(objs, 1) if k is not None and i < n}})
    return inputs, out


def chain(h, k):
    """The steps that step k needs, alone and with fresh converters."""
    need, todo = [], [k]
    while todo:
        s = todo.pop()
        need.append(s)
        if h[s]["i"] > 2:
            todo.append(h[s]["i"] - 3)
    need = sorted(set(need))
    at = {s: n for n, s in enumerate(need)}
    return [{**h[s], "fresh": True, "i": h[s]["i"] if h[s]["i"] <= 2 else 3 + at[h[s]["i"] - 3]} for s in need]


def behaviour(start, h, solo):
    inputs, run = replay(start, h)
    runs = [run]
    for k in solo:
        i2, r2 = child.forked(replay, start, chain(h, k))
        if i2 != inputs:
            r2 = [{"f": "making the inputs", "in": "o1", "out": "", "fresh": True, "made": "error", "now": {}}]
        runs.append(r2)
    return {"inputs": inputs, "runs": runs, "start": start, "h": h, "solo": solo}


def _child(jobs):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    import importlib
    for m in ("avro", "json_schema", "protobuf", "bigquery", "hive_metastore", "mysql", "postgresql", "snowflake", "sqlite"):
        importlib.import_module("recap.converters." + m)
    out = []
    for j in jobs:      # each in a process that has not converted anything yet
        out.append(child.forked(behaviour, *j))
    return out


def observe(jobs):
    jobs = [(a, b, c) for a, b, c in jobs]
    got = child.forked_all(_child, [(jobs[i:i + 100],) for i in range(0, len(jobs), 100)], limit=800, at_once=8)
    return [x for xs in got for x in xs]


SWAPS = {"avro": [('"int"', '"string"'), ('"long"', '"bytes"'), ('"string"', '"double"'), ('"boolean"', '"float"')],
         "json": [('"integer"', '"string"'), ('"string"', '"number"'), ('"boolean"', '"null"'), ('"number"', '"boolean"')],
         "protobuf": [("int32 ", "fixed64 "), ("int64 ", "uint32 "), ("string ", "bytes "), ("double ", "float ")]}


def variant(r, d):
    """The same names with other contents."""
    x = d["text"]
    for a, b in r.sample(SWAPS[d["lang"]], 4):
        if d["lang"] == "protobuf":
            x = x.replace(" " + a, " " + b)
        else:
            x = x.replace(a, b)
    return {**d, "text": x}


def starts(r, kinds):
    """Two inputs, often with the same names in them."""
    out = []
    lang = r.choice(SOURCES)
    for k in kinds:
        if k == "type":
            out.append({"lang": "type", "t": convgen.close(convgen.ConvGen(r, blankdoc=False).root(r.randint(1, 3)))})
        else:
            if out and "text" in out[0] and r.random() < .4:
                out.append(variant(r, out[0]))
                continue
            out.append(source(r, lang))
            if r.random() < .5:
                lang = r.choice(SOURCES)
    return out


def run(ctx):
    r = ctx.rng
    child.preload()
    if ctx.replay:
        rec = ctx.replay["record"]
        ctx.judge("Trace_Histories", observe([(rec["start"], rec["h"], rec["solo"])]))
        return
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Formats = {%s}\n Steps = %d\n Tampering = %s\nINVARIANTS Sound Complete Functional Emit\nCHECK_DEADLOCK FALSE\n"
    ctx.explore("MC_Histories", cfg % ('"avro", "json"', 2 if ctx.quick else 3, "TRUE"), workers=6)
    res = ctx.explore("MC_Histories", cfg % (", ".join(f'"{f}"' for f in FORMATS[:3 if ctx.quick else 4]), 3, "FALSE"), workers=6, heap="8g")
    lines = sorted(res.lines, key=lambda x: json.dumps(x, sort_keys=True))
    ctx.extra["histories_enumerated_by_tlc"] = len(lines)
    n = 1500 if ctx.quick else 12000
    jobs = []
    for ln in r.sample(lines, min(n, len(lines))):
        h = [{**s, "fmt": r.choice(["recap", "raw"]) if s["fmt"] and r.random() < .2 else s["fmt"]} for s in ln["h"]]
        jobs.append((starts(r, ln["start"]), h, [len(h) - 1]))
    for _ in range(500 if ctx.quick else 8000):      # longer ones
        kinds = [r.choice(["type", "source"]) for _ in range(2)]
        k, h = list(kinds), []
        for _ in range(r.randint(3, 10)):
            i = r.randint(1, len(k))
            fmt = r.choice(FORMATS) if k[i - 1] == "type" else ""
            h.append({"i": i, "fmt": fmt, "fresh": r.random() < .7})
            k.append(fmt or "type")
        jobs.append((starts(r, kinds), h, sorted(r.sample(range(1, len(h)), 2))))
    recs = observe(jobs)
    ctx.extra["conversions"] = sum(len(x) for rec in recs for x in rec["runs"])
    ctx.extra["conversions_that_failed"] = sum(s["made"] == "error" for rec in recs for x in rec["runs"] for s in x)
    for x in recs[-2:]:
        ctx.sample([(s["f"], s["in"], s["out"], s["made"]) for s in x["runs"][0]])
    ctx.judge("Trace_Histories", recs, per_chunk=300)
