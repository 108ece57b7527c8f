"""C23: library, gateway and command line over sources whose content changes."""
import copy
import json
import os
import pathlib
import shutil
import tempfile
import urllib.parse as up

import child
import convgen
import enc
import proto
import sqlgen
from checks import c16, c17, c18, c19

FORMATS = ["avro", "json", "protobuf", "recap"]
CTYPES = {"avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf", "recap": "application/x-recap+json"}
OTHER = ["application/json", "text/plain", "text/html", "application/avro", "application/protobuf", "application/x-avro+json", "application/octet-stream", "*/*",
         "application/x-recap", "avro", "recap"]
EXT = ["avsc", "avro", "avdl", "avpr", "json", "jsonschema", "jsons", "proto", "protobuf", "protos", "proto2", "proto3"]
ODD = ["txt", "yaml", "yml", "avsc2", "avs", "protox", "proto4", "jso", "jsonl", "schema", "xml", "pb", "bak", "js", "py", "avsc~", "csv"]
CONFIG = ["mysql://u:p@h:1", "postgresql://u:p@h", "snowflake://u:p@h", "bigquery://", "thrift+hms://h:1", "http+csr://h:1", "sqlite:///{dir}/one.sqlite", "file://"]
DB = {"mysql": "mysql://{a}h:1/s/t", "postgresql": "postgresql://{a}h/c/s/t", "snowflake": "snowflake://{a}h/c/s/t", "bigquery": "bigquery:///p/d/t",
      "hive": "thrift+hms://h:1/db/t", "hive stats": "thrift+hms://h:1/db/t?include_stats=true", "sqlite": "sqlite:///{dir}/one.sqlite/t"}
LANG = {"avro": "AVRO", "json": "JSON", "protobuf": "PROTOBUF"}


def canon(v):
    if isinstance(v, str):
        return "text " + v.rstrip("\n")
    return json.dumps(v, sort_keys=True)


def strict_json(v):
    try:
        json.dumps(v, allow_nan=False, ensure_ascii=False).encode()
        return True
    except (ValueError, TypeError):
        return False


BARE = [False] * 6 + [True, True, "rel", "rel"]      # a URL, a path, or a path relative to the working directory


class Run:
    """Replays histories inside a child process."""

    def __init__(self, dir):
        import world
        from vlib import call
        self.call, self.dir = call, dir
        self.w = world.World({"csr": []}, dir).install()
        from typer.testing import CliRunner
        import recap.cli
        from recap import commands
        from recap.server.app import app
        from recap.settings import RecapSettings
        self.cli, self.cliapp, self.commands, self.app = CliRunner(), recap.cli.app, commands, app
        self.known = {}               # of the contents used again and again
        self.roots = list(RecapSettings().safe_urls)

    # -- what the conversions give when called directly ---------------------------
    def written(self, read):
        from proto_schema_parser.generator import Generator
        from recap.converters.avro import AvroConverter
        from recap.converters.json_schema import JSONSchemaConverter
        from recap.converters.protobuf import ProtobufConverter
        from recap.types import to_dict
        out = {}
        ok, t = self.call(read)
        for f, w in (("avro", lambda t: AvroConverter().from_recap(t)), ("json", lambda t: JSONSchemaConverter().from_recap(t)),
                     ("protobuf", lambda t: Generator().generate(ProtobufConverter().from_recap(t))), ("recap", to_dict)):
            st, v = self.call(lambda: w(copy.deepcopy(t))) if ok == "ok" else (ok, t)
            if st == "ok" and not (isinstance(v, (dict, str)) and strict_json(v)):
                return None
            out[f] = {"st": st if st == "ok" else "err", "v": canon(v) if st == "ok" else ""}
        return out

    def direct(self, ver, langs):
        """langs: the languages in which it may be read, by where it is put."""
        if ver["lang"] == "db":
            from recap.clients import create_client
            sys, args = ver["sys"], ver["args"]
            self.put("db", sys, "", ver)

            def read():
                with create_client(self.place(DB[sys]).rsplit("/", len(args))[0] if sys not in ("hive", "hive stats", "bigquery") else {"bigquery": "bigquery://"}.get(sys, "thrift+hms://h:1")) as c:
                    return c.schema(*args, **({"include_stats": True} if sys == "hive stats" else {}))
            x = self.written(read)
            return None if x is None else {"db": x}
        from recap.converters.avro import AvroConverter
        from recap.converters.json_schema import JSONSchemaConverter
        from recap.converters.protobuf import ProtobufConverter
        out = {}
        for lang, conv in (("avro", AvroConverter), ("json", JSONSchemaConverter), ("protobuf", ProtobufConverter)):
            if lang not in langs:
                continue
            x = self.written(lambda: conv().to_recap(ver["text"]))
            if x is None:
                return None
            out[lang] = x
        return out

    # -- the sources ------------------------------------------------------------------
    def place(self, s, auth="u:p@"):
        return s.replace("{dir}", self.dir).replace("{a}", auth)

    def put(self, kind, name, lang, ver):
        w = self.w
        if kind == "file":
            f = pathlib.Path(self.dir) / "files" / name
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_text(ver["text"], encoding="utf-8")
        elif kind == "csr":
            for o in w.objects["csr"]:
                if o[0] == name:
                    o[1:3] = [lang, ver["text"]]
                    return
            w.objects["csr"].append([name, lang, ver["text"], ""])
        else:
            cols = ver["cols"]
            if name in ("mysql", "postgresql", "snowflake"):
                w.sql[name] = [{"cat": "def" if name == "mysql" else "c", "sch": "s", "tab": "t", "cols": cols}]
            elif name == "bigquery":
                w.rich["bigquery", "p", "d", "t"] = cols
            elif name == "sqlite":
                p = pathlib.Path(self.dir) / "one.sqlite"
                p.unlink(missing_ok=True)
                import sqlite3
                keep, sqlite3.connect = sqlite3.connect, w.real_sqlite
                try:
                    c17.sqlite_db({"t": cols, "other": cols}, str(p)).close()
                finally:
                    sqlite3.connect = keep
            else:
                w.rich["hive", "db", "t"] = cols

    def drop(self, kind, name):
        if kind == "file":
            top = pathlib.Path(self.dir) / "files"
            (top / name).unlink()
            for p in (top / name).parents:
                if p == top or any(p.iterdir()):
                    break
                p.rmdir()
        elif kind == "csr":
            self.w.objects["csr"] = [o for o in self.w.objects["csr"] if o[0] != name]

    def clear(self):
        shutil.rmtree(pathlib.Path(self.dir) / "files", ignore_errors=True)
        (pathlib.Path(self.dir) / "files").mkdir()
        self.w.objects["csr"] = []
        self.w.rich.clear()

    # -- the fronts ---------------------------------------------------------------------
    def url(self, kind, name, front, bare):
        if kind == "file" and bare == "rel" and front != "http":
            return "files" + ("/" + name if name else "")
        if kind == "file":
            return ("" if bare and front != "http" else "file://") + f"{self.dir}/files" + ("/" + name if name else "")
        if kind == "csr":
            # one that the settings list, or (gateways need the former) another
            return ("http+csr://elsewhere:2" if bare and front != "http" else "http+csr://h:1") + ("/" + name if name else "")
        return self.place(DB[name], "" if front == "http" else "u:p@")

    def get(self, x):
        url = self.url(x["kind"], x["name"], x["front"], x.get("bare"))
        if x["front"] == "lib":
            a = [self.commands.SchemaFormat(x["arg"])] if x["arg"] else []
            st, v = self.call(lambda: self.commands.schema(url, *a, strict=False))
            return {"st": "ok" if st == "ok" else "err", "v": canon(v) if st == "ok" else ""}
        if x["front"] == "http":
            a = child.http(self.app, "GET", "/gateway/schema/" + up.quote(url, safe=""), headers=[(k.encode(), v.encode()) for k, v in (([("content-type", x["arg"])] if x["arg"] else []) + x.get("also", []))])
            if a["status"] == 200:
                return {"st": "ok", "v": canon(json.loads(a["body"]))}
            return {"st": "415" if a["status"] == 415 else "err" if a["status"] >= 400 else f"status {a['status']}", "v": ""}
        r = self.invoke(self.cliapp, ["schema", url] + (["-of" if x.get("bare") else "--output-format", x["arg"]] if x["arg"] else []))
        if r.exit_code:
            return {"st": "err", "v": ""}
        try:
            return {"st": "ok", "v": canon(r.stdout if x["arg"] == "protobuf" else json.loads(r.stdout))}
        except ValueError:
            return {"st": "ok", "v": "not JSON: " + r.stdout}

    def invoke(self, app, args):
        st, r = self.call(lambda: self.cli.invoke(app, args))
        if st != "ok":
            raise RuntimeError("the command line does not end")
        return r

    def ls(self, x):
        url = self.url(x["kind"], x["name"], x["front"], x.get("bare")) if x["ev"] == "ls" else None
        if x["front"] == "lib":
            st, v = self.call(lambda: self.commands.ls(url, strict=False))
            ok = st == "ok"
        elif x["front"] == "http":
            a = child.http(self.app, "GET", "/gateway/ls/" + up.quote(url or "", safe=""))
            ok, v = a["status"] == 200, child.as_json(a["body"])
        else:
            r = self.invoke(self.cliapp, ["ls"] + ([url] if url else []))
            ok, v = r.exit_code == 0, child.as_json(r.stdout) if r.stdout.strip() else []
        return {"st": "ok", "names": v} if ok and isinstance(v, list) and all(isinstance(n, str) for n in v) else {"st": "err", "names": []}

    def history(self, h, vers):
        self.clear()
        direct = {}
        for x in h:
            if x["ev"] == "put" and x["ver"] not in direct:
                langs = {lang_of_name(y["name"]) if y["kind"] == "file" else {v: k for k, v in LANG.items()}.get(y["arg"], "avro") for y in h if y["ev"] == "put" and y["ver"] == x["ver"]}
                key = json.dumps([vers[x["ver"]], sorted(langs)])
                if key not in self.known:
                    self.known[key] = self.direct(vers[x["ver"]], langs)
                direct[x["ver"]] = self.known[key]
                if direct[x["ver"]] is None:
                    return None
        self.clear()
        out = []
        for x in h:
            x = {"names": [], "st": "", "v": "", **x}
            self.w.fresh()
            if x["ev"] == "put":
                self.put(x["kind"], x["name"], x["arg"], vers[x["ver"]])
            elif x["ev"] == "drop":
                self.drop(x["kind"], x["name"])
            elif x["ev"] == "get":
                x.update(self.get(x))
            else:
                x.update(self.ls(x))
            out.append(x)
        return {"events": out, "direct": direct, "roots": self.roots, "vers": {k: vers[k] for k in direct}}


def _child(dir, jobs):
    os.chdir(dir)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)      # parsers complain there
    run = Run(dir)
    return [run.history(h, vers) for h, vers in jobs]


def observe(ctx, jobs):
    chunks = [jobs[i:i + 200] for i in range(0, len(jobs), 200)]
    dirs = [tempfile.mkdtemp(dir=ctx.work) for _ in chunks]
    try:
        got = child.forked_all(_child, list(zip(dirs, chunks)), [{"RECAP_URLS": json.dumps([c.replace("{dir}", d) for c in CONFIG])} for d in dirs], limit=800)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    return [x for xs in got for x in xs if x is not None]


def long(r, lang):
    """Long names and texts that terminals like to interpret."""
    name = lambda: "".join(r.choice(["Customer", "Order", "With", "Extremely", "Long", "Name", "Of", "Everything", "A", "Z9"]) for _ in range(r.randint(8, 22)))
    doc = r.choice(["[red]x[/red]", "[bold]", ":smile: [/]", "x" * 200, "a  b\tc\nd", "[link=http://x]y[/link]", "\x1b[31mred", "\\[x]", "'\"`", "日本 ü", "NaN", "</script>"])
    ns = ".".join(name().lower() for _ in range(r.randint(1, 3)))
    fs = ["f_" + name() for _ in range(3)]
    if lang == "avro":
        return json.dumps({"type": "record", "name": name(), "namespace": ns, "doc": doc, "fields": [
            {"name": fs[0], "type": "int", "doc": doc}, {"name": fs[1], "type": "string", "default": doc},
            {"name": fs[2], "type": {"type": "record", "name": name(), "fields": [{"name": "a", "type": {"type": "map", "values": "long"}}]}}]})
    if lang == "json":
        return json.dumps({"$id": "http://x/" + name(), "type": "object", "description": doc, "properties": {
            fs[0]: {"type": "integer", "description": doc}, fs[1]: {"type": "string", "default": doc}, fs[2]: {"type": "array", "items": {"type": "string"}}}, "required": fs[:1]})
    n = name()
    return (f'syntax = "proto3";\npackage {ns};\n// {doc[:5].strip()}\nmessage {name()} {{ repeated {n} {fs[0]} = 1; map<string, {n}> {fs[1]} = 2; oneof {fs[2]} {{ int32 x = 3; {n} y = 4; }} }}\n'
            f'message {n} {{ int64 a = 1; enum {name()} {{ A = 0; {name().upper()} = 1; }} }}\n').replace("\x1b", "")


def wide(r, lang, n=None):
    """Many fields, most of them of types that were defined before."""
    n, deep = n or r.randint(9, 40), r.randint(1, 6)
    if lang == "avro":
        t = "int"
        for k in range(deep):
            t = {"type": "record", "name": f"N{k}", "fields": [{"name": "a", "type": t}, {"name": "b", "type": ["null", f"N{k}"]}]}
        return json.dumps({"type": "record", "name": "R", "namespace": "n", "fields": [
            {"name": f"f{i}", "type": t if not i else r.choice([f"N{deep - 1}", "int", "string", {"type": "array", "items": f"N{r.randrange(deep)}"}, ["null", f"N{r.randrange(deep)}"], "bytes"])} for i in range(n)]})
    if lang == "json":
        defs = {f"N{k}": {"$id": f"http://x/N{k}", "type": "object", "properties": {"a": {"$ref": f"http://x/N{k - 1}"} if k else {"type": "integer"}}} for k in range(deep)}
        return json.dumps({"$id": "http://x/R", "type": "object", "$defs": defs, "properties": {
            f"f{i}": r.choice([{"$ref": f"http://x/N{r.randrange(deep)}"}, {"type": "string"}, {"type": "array", "items": {"$ref": f"http://x/N{r.randrange(deep)}"}}]) for i in range(n)},
            "required": [f"f{i}" for i in range(n) if r.random() < .5]})
    ms = "".join(f"message N{k} {{ {'N%d' % (k - 1) if k else 'int32'} a = 1; repeated N{k} b = 2; }}\n" for k in range(deep))
    fs = " ".join(f"{r.choice(['N%d' % r.randrange(deep), 'int64', 'repeated N%d' % r.randrange(deep), 'map<string, N%d>' % r.randrange(deep), 'string'])} f{i} = {i + 1};" for i in range(n))
    return f'syntax = "proto3";\npackage n;\nmessage R {{ {fs} }}\n{ms}'


def content(r, lang):
    if r.random() < .1:
        return {"lang": lang, "text": wide(r, lang)}
    if r.random() < .15:
        return {"lang": lang, "text": long(r, lang)}
    if lang == "avro":
        return {"lang": lang, "text": json.dumps(convgen.AvroGen(r).root(), ensure_ascii=r.random() < .5)}
    if lang == "json":
        return {"lang": lang, "text": json.dumps(convgen.JsonGen(r).case()[0], ensure_ascii=r.random() < .5)}
    return {"lang": lang, "text": proto.text(proto.ProtoGen(r).file(), r)}


def dbversion(r, sys):
    args = {"mysql": ["s", "t"], "postgresql": ["c", "s", "t"], "snowflake": ["c", "s", "t"], "bigquery": ["p", "d", "t"], "sqlite": ["t"]}.get(sys, ["db", "t"])
    if sys == "bigquery":
        names = set()
        cols = [c18.field(r, r.randint(0, 2), names) for _ in range(r.randint(0, 4))]
    elif sys.startswith("hive"):
        cols = [{"name": n, "comment": r.choice(c19.COMMENTS), "type": c19.htype(r, r.randint(0, 2)), "stats": c19.stats(r)} for n in r.sample(["id", "name", "a", "b"], r.randint(1, 3))]
    elif sys == "sqlite":
        cols = c16.sqlite_ok(sqlgen.table("sqlite", r, r.randint(1, 5)), r)
    else:
        cols = sqlgen.table(sys, r)
    return {"lang": "db", "sys": sys, "args": args, "cols": cols}


def filename(r):
    x = r.random()
    e = r.choice(EXT)
    if x < .35:
        e = r.choice([e, e, e.upper(), e.title()])
    elif x < .5:
        e = r.choice(ODD)
    elif x < .6:
        e = e + "." + r.choice(ODD + EXT)
    elif x < .7:
        e = r.choice(ODD + EXT) + "." + e
    d = r.choice(["", "", "d/", "x.json/", "x.proto/", "x.avsc/y/"])
    stem = r.choice(["a", "schema", "a-b_c", "v1.2", "json", "proto", "x y"])
    return d + (stem if r.random() < .06 else stem + "." + e)


def subject(r):
    return r.choice(["s", "s-key", "s-value", "s-keys", "value", "key", "a-value-x", "s-Value", "s_value", "-value", "orders.v1", "s-value-value", "s-key-value", "svalue"])


def lang_of_name(n):
    e = n.rpartition(".")[2].lower()
    return "json" if e.startswith("json") else "protobuf" if e.startswith("proto") else "avro"


def also(r):
    """Other headers that requests have; they do not choose the format."""
    kinds = list(CTYPES.values()) + OTHER
    return [list(x) for x in (("accept", r.choice(kinds)), ("user-agent", "curl/8"), ("x-content-type", r.choice(kinds)), ("accept-encoding", "gzip"), ("accept-language", "de")) if r.random() < .25]


def history(r):
    """A random history over files, subjects and tables."""
    vers, h, live, n = {}, [], [], 0
    kinds = r.choice([["file"], ["csr"], ["db"], ["file", "csr"], ["file", "csr", "db"]])
    files, subs = [filename(r) for _ in range(3)], [subject(r) for _ in range(3)]
    files = [f for i, f in enumerate(files) if not any(g.startswith(f + "/") or f.startswith(g + "/") for g in files[:i])]
    dbs = r.sample(list(DB), 2)
    for _ in range(r.randint(3, 10)):
        x = r.random()
        if not live or x < .3:
            k = r.choice(kinds)
            n += 1
            v = f"v{n}"
            if k == "db":
                name = r.choice(dbs)
                if name.startswith("hive"):       # they are the same table
                    dbs = [d for d in dbs if not d.startswith("hive")] + [name]
                vers[v] = dbversion(r, name)
                h.append({"ev": "put", "front": "", "kind": k, "name": name, "arg": "", "ver": v})
            else:
                name = r.choice(files) if k == "file" else r.choice(subs) if r.random() < .5 else r.choice(subs) + "-value"
                lang = lang_of_name(name) if k == "file" else r.choice(list(LANG))
                vers[v] = content(r, lang if r.random() < .8 else r.choice(list(LANG)))
                h.append({"ev": "put", "front": "", "kind": k, "name": name, "arg": "" if k == "file" else LANG[lang] if r.random() < .93 else r.choice(["XML", "THRIFT", "PROTOBUF_NATIVE", "JSON5", ""]), "ver": v})
            if (k, name) not in live:
                live.append((k, name))
        elif x < .35 and len(live) > 1:
            k, name = r.choice(live)
            if k != "db":
                live.remove((k, name))
                h.append({"ev": "drop", "front": "", "kind": k, "name": name, "arg": "", "ver": ""})
        elif x < .43:
            k = r.choice(["file", "csr"])
            h.append({"ev": "root" if r.random() < .1 else "ls", "front": r.choice(["lib", "http", "cli"]), "kind": k, "name": "", "arg": "", "ver": "", "bare": r.choice(BARE)})
        else:
            k, name = r.choice(live)
            if k == "csr" and r.random() < .5:
                name = r.choice(subs)
            front, f = r.choice(["lib", "http", "cli"]), r.choice(FORMATS)
            if r.random() < .15:
                f = ""
            arg = f if front != "http" or not f else r.choice(OTHER) if r.random() < .12 else CTYPES[f]
            h.append({"ev": "get", "front": front, "kind": k, "name": name, "arg": arg, "ver": "", "bare": r.choice(BARE), "also": also(r)})
    return h, vers


def all_ways(r, k, name, ver, lang=""):
    """One source through every front in every format, in random order."""
    h = [{"ev": "get", "front": f, "kind": k, "name": name, "arg": (CTYPES[a] if f == "http" and a else a), "ver": "", "bare": r.choice(BARE), "also": also(r)}
         for f in ("lib", "http", "cli") for a in FORMATS + [""]]
    r.shuffle(h)
    return [{"ev": "put", "front": "", "kind": k, "name": name, "arg": lang, "ver": "v1"}] + h, {"v1": ver}


def run(ctx):
    r = ctx.rng
    child.preload()
    if ctx.replay:
        rec = ctx.replay["record"]
        keep = lambda x: {k: v for k, v in x.items() if k not in ("st", "v", "names")}
        ctx.judge("Trace_Front", observe(ctx, [([keep(x) for x in rec["events"]], rec["vers"])]))
        return
    fixed = {f"{lang}#{i}": content(r, lang) for lang in LANG for i in range(3)}
    for lang in LANG:           # contents that can be written in every format
        fixed[f"{lang}#0"] = {"lang": lang, "text": {
            "avro": json.dumps({"type": "record", "name": "R", "namespace": "n", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": ["null", "string"], "default": None}]}),
            "json": json.dumps({"$id": "http://x/R", "type": "object", "properties": {"a": {"type": "integer"}, "b": {"type": "string"}}, "required": ["a"]}),
            "protobuf": 'syntax = "proto3";\npackage n;\nmessage R { int32 a = 1; string b = 2; }\n'}[lang]}
    jobs = []
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    for cfg in ([dict(Files=["x." + e for e in EXT + ODD] + ["x.AVSC", "x.Proto", "x.json.proto", "x.avsc.txt", "d.json/x.avsc", "noext"], Subjects=["s-value", "s"], Names=["s", "s-key", "s-value"],
                      Types=["AVRO", "JSON", "PROTOBUF", "XML"], Contents=["avro#0", "json#0", "protobuf#0"], ContentTypes=list(CTYPES.values()) + OTHER[:4], Steps=2, Fronts=["lib", "http", "cli"])]
                + [dict(Files=["x.avsc", "x.json"], Subjects=["s-value", "s"], Names=["s", "s-value"], Types=["AVRO", "JSON"], Contents=["avro#0", "json#0", "avro#1"], ContentTypes=[CTYPES["avro"], OTHER[0]],
                        Steps=3 if ctx.quick else 4, Fronts=["lib", "http"] if not ctx.quick else ["lib", "http", "cli"])]):
        res = ctx.explore("MC_Front", "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f" {k} = {q(v) if isinstance(v, list) else v}\n" for k, v in cfg.items())
                          + "INVARIANTS Sound Unique Emit\nCHECK_DEADLOCK FALSE\n", workers=6, heap="8g")
        got = sorted((ln["h"] for ln in res.lines), key=lambda h: json.dumps(h, sort_keys=True))
        ctx.extra[f"histories_of_{cfg['Steps']}_steps_enumerated_by_tlc"] = len(got)
        n = 3000 if ctx.quick else 30000
        if len(got) > n:
            got = r.sample(got, n)
        jobs += [(h, fixed) for h in got]
    for _ in range(60 if ctx.quick else 1500):
        for lang in LANG:
            e = r.choice([x for x in EXT if lang_of_name("a." + x) == lang])
            jobs.append(all_ways(r, "file", "a." + e, content(r, lang)))
            jobs.append(all_ways(r, "csr", "s-value", content(r, lang), LANG[lang]))
        for sys in r.sample(list(DB), 3):
            jobs.append(all_ways(r, "db", sys, dbversion(r, sys)))
    for _ in range(600 if ctx.quick else 15000):
        jobs.append(history(r))
    recs = observe(ctx, jobs)
    ctx.extra["histories_replayed"], ctx.extra["not_representable_as_json"] = len(recs), len(jobs) - len(recs)
    outcomes = {}
    for x in recs:
        for ev in x["events"]:
            if ev["ev"] == "get":
                k = f"{ev['kind']} {ev['front']} {ev['st']}"
                outcomes[k] = outcomes.get(k, 0) + 1
    ctx.extra["outcomes"] = outcomes
    for x in recs[-2:]:
        ctx.sample([{k: ev[k] for k in ("ev", "front", "kind", "name", "arg", "st")} for ev in x["events"]])
    ctx.judge("Trace_Front", recs, per_chunk=300)
