"""C24: the life of connections, with failures at every step and interleaved requests."""
import json
import os
import shutil
import tempfile
import threading
import urllib.parse as up

import child
from checks import c22

DEPTH = 9
URLS = {
    "mysql": ("mysql://u:p@h:1/a", "mysql://u:p@h:1/a/c"),
    "postgresql": ("postgresql://u:p@h/a", "postgresql://u:p@h/a/a/c"),
    "snowflake": ("snowflake://u:p@h/a", "snowflake://u:p@h/a/a/c"),
    "bigquery": ("bigquery:///a", "bigquery:///a/a/c"),
    "hive": ("thrift+hms://h:1/a", "thrift+hms://h:1/a/c"),
    "hive stats": ("thrift+hms://h:1", "thrift+hms://h:1/a/c?include_stats=true"),
    "csr": ("http+csr://h:1", "http+csr://h:1/a"),
    "sqlite": ("sqlite:///one.sqlite", "sqlite:///one.sqlite/t"),
    "file": ("file://{dir}", "file://{dir}/one.avsc"),
}
#: what the gateway is configured with: everything
CONFIG = ["mysql://u:p@h:1", "postgresql://u:p@h", "snowflake://u:p@h", "bigquery://", "thrift+hms://h:1", "http+csr://h:1", "sqlite:///one.sqlite", "file://"]
SYSTEMS = list(URLS)


class Turns:
    """Lets one request at a time take its next step, in a given order."""

    def __init__(self, order, alive):
        self.order, self.alive = list(order), set(alive)
        self.cond = threading.Condition()
        self.waiting, self.current = set(), None

    def pick(self, force=False):
        if self.current is None and self.waiting and (force or self.waiting == self.alive):
            while self.order:
                q = self.order.pop(0)
                if q in self.waiting:
                    self.current = q
                    break
            else:
                self.current = min(self.waiting)
            self.cond.notify_all()

    def gate(self, q):
        with self.cond:
            if self.current == q:
                self.current = None
            self.waiting.add(q)
            self.pick()
            while self.current != q:
                if not self.cond.wait(3):
                    self.pick(force=True)      # the others wait for something else
            self.waiting.discard(q)

    def end(self, q):
        with self.cond:
            self.alive.discard(q)
            if self.current == q:
                self.current = None
            self.pick()


class Own(Exception):
    """An exception of the caller's own code."""


OWN = {"Own": Own, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit, "ValueError": ValueError, "OSError": OSError, "KeyError": KeyError}
KINDS = ["OSError", "ConnectionError", "TimeoutError", "KeyError", "ValueError", "RuntimeError", "LookupError", "AttributeError", "TypeError", "FileNotFoundError", "PermissionError",
         "NotImplementedError", "EOFError", "UnicodeDecodeError", "Driver", "Fault"]
ABRUPT = ["KeyboardInterrupt", "SystemExit"]


def perform(w, app, cli, q, c):
    """One request by its description [via, sys, op, fmt, own]; returns nothing, the events tell."""
    from recap import commands
    from recap.clients import create_client, parse_url
    ls, schema = URLS[c["sys"]]
    url = (ls if c["op"] == "ls" else schema).replace("{dir}", w.dir)
    fault = bool(c["own"]) or (w.badcol and c["op"] == "schema" and c["sys"] not in ("sqlite",))
    ok = False
    try:
        if c["via"] == "lib":
            if c["op"] == "ls":
                commands.ls(url, strict=False)
            else:
                commands.schema(url, commands.SchemaFormat(c["fmt"]), strict=False)
            ok = True
        elif c["via"] == "client":
            conn, args = parse_url(c["op"], url, strict=False)
            with create_client(conn) as cl:
                getattr(cl, c["op"])(*args)
                if c["own"]:
                    raise OWN[c["own"]]()
                getattr(cl, c["op"])(*args)
            ok = True
        elif c["via"] == "gateway":
            ct = {"recap": "application/x-recap+json", "avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf"}[c["fmt"]]
            bare = url.replace("u:p@", "").split("?")[0]
            a = child.http(app, "GET", f"/gateway/{c['op']}/" + up.quote(bare, safe=""), headers=[(b"content-type", ct.encode())])
            ok = a["status"] == 200
        else:
            args = ["ls", url] if c["op"] == "ls" else ["schema", url, "-of", c["fmt"]]
            ok = cli.invoke(app_of_cli(), args).exit_code == 0
    except BaseException:  # noqa: BLE001
        w.ended(q, False, fault)      # while the exception and what it refers to are still there
        return
    w.ended(q, ok, fault)


def app_of_cli():
    from recap.cli import app
    return app


def _child(objs, dir, badcol, jobs):
    """jobs: [calls, order, fails]; calls run concurrently when there are several."""
    import world
    w = world.World(objs, dir, badcol=badcol)
    os.chdir(dir)
    w.install()
    from typer.testing import CliRunner
    from recap.server.app import app
    import recap.cli  # noqa: F401
    for m in ("bigquery", "confluent_registry", "fs", "hive_metastore", "mysql", "postgresql", "snowflake", "sqlite"):
        try:
            __import__("recap.clients." + m)
        except ImportError:
            pass
    out = []
    for calls, order, fails in jobs:
        if len(calls) == 1:
            w.fresh(fails, excs={1: calls[0]["exc"]})
            perform(w, app, CliRunner(), 1, calls[0])
        else:
            turns = Turns(order, range(1, len(calls) + 1))
            w.fresh(fails, turns.gate, {q: c["exc"] for q, c in enumerate(calls, 1)})

            def go(q, c):
                w.q.set(q)
                try:
                    perform(w, app, None, q, c)
                finally:
                    turns.end(q)
            ts = [threading.Thread(target=go, args=(q, c), daemon=True) for q, c in enumerate(calls, 1)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        out.append({"n": len(calls), "events": list(w.events), "files": [q for q, c in enumerate(calls, 1) if c["sys"] == "file"], "calls": calls, "order": order,
                    "fails": {str(k): v for k, v in fails.items()}, "badcol": badcol})
    return out


def observe(ctx, jobs, badcol=False):
    recs = []
    for i in range(0, len(jobs), 400):
        d = tempfile.mkdtemp(dir=ctx.work)
        try:
            import world
            world.files(d, {"one.avsc": "{" if badcol else json.dumps({"type": "record", "name": "R", "fields": [{"name": "f", "type": "int"}]}), "one.sqlite": {"t": "f", "u": "g"}})
            objs = c22.objects()
            if badcol:
                objs["csr"] = [[s, k, "{", c] for s, k, _, c in objs["csr"]]
            recs += child.forked(_child, objs, d, badcol, jobs[i:i + 400], env={"RECAP_URLS": json.dumps(CONFIG)}, limit=600)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return recs


def C(sys, op="schema", via="lib", fmt="recap", own="", exc="Fault"):
    return {"sys": sys, "op": op, "via": via, "fmt": fmt, "own": own, "exc": exc}


def run(ctx):
    r = ctx.rng
    child.preload()
    if ctx.replay:
        rec = ctx.replay["record"]
        ctx.judge("Trace_Conn", observe(ctx, [(rec["calls"], rec["order"], {int(k): v for k, v in rec["fails"].items()})], rec["badcol"]))
        return
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Requests = %s\n MaxUses = %d\nINVARIANTS Sound Owned Emit\nCHECK_DEADLOCK FALSE\n"
    one = ctx.explore("MC_Conn", cfg % ("{1}", DEPTH)).lines
    two = ctx.explore("MC_Conn", cfg % ("{1, 2}", 3 if ctx.quick else 4), workers=4).lines
    three = ctx.explore("MC_Conn", cfg % ("{1, 2, 3}", 1), workers=4).lines
    fails = lambda ln: {q: k for q, k in enumerate(ln["fails"], 1) if k}
    jobs = []
    singles = [fails(ln) for ln in one]
    for s in SYSTEMS:
        for op in ("ls", "schema"):
            for via in ("lib", "gateway", "cli", "client"):
                for f in singles:
                    jobs.append(([C(s, op, via)], [], f))
                    if f:
                        kinds = r.sample(KINDS, 3 if ctx.quick else len(KINDS)) + (ABRUPT if via in ("lib", "client") else [])
                        jobs += [([C(s, op, via, r.choice(["recap", "recap", "avro"]), exc=k)], [], f) for k in kinds]
        for fmt in ("avro", "json", "protobuf"):
            for via in ("lib", "gateway", "cli"):
                for f in (singles if not ctx.quick else r.sample(singles, 3) + [{}]):
                    jobs.append(([C(s, "schema", via, fmt)], [], f))
        for op in ("ls", "schema"):
            for f in singles:
                jobs += [([C(s, op, "client", own=k, exc=r.choice(KINDS))], [], f) for k in OWN]
    bad = [([C(s, "schema", via, fmt)], [], f) for s in SYSTEMS for via in ("lib", "gateway", "cli", "client") for fmt in ("recap", "avro") for f in (singles if not ctx.quick else r.sample(singles, 2) + [{}])]
    ctx.extra["failure_points"] = len(singles)
    conc = []
    for group, k, n in ((two, 2, 900 if ctx.quick else 20000), (three, 3, 300 if ctx.quick else 6000)):
        for ln in (r.sample(group, n) if len(group) > n else group):
            s = r.choice(SYSTEMS)
            conc.append(([C(s if r.random() < .5 else r.choice(SYSTEMS), r.choice(["ls", "schema"]), r.choice(["lib", "lib", "client"]), r.choice(["recap", "avro", "protobuf"])) for _ in range(k)],
                         ln["order"], fails(ln)))
    for c in conc:
        for x in c[0]:
            x["own"] = r.choice(list(OWN)) if x["via"] == "client" and r.random() < .2 else ""
            x["exc"] = r.choice(KINDS)
    recs = observe(ctx, jobs + conc) + observe(ctx, bad, badcol=True)
    ok = sum(1 for x in recs for e in x["events"] if e["ev"] == "end" and e["ok"])
    fl = sum(1 for x in recs for e in x["events"] if e["ev"].startswith("fail"))
    ctx.extra["requests"], ctx.extra["requests_ok"], ctx.extra["failures_injected"] = sum(x["n"] for x in recs), ok, fl
    by = {}
    for x in recs:
        if x["n"] == 1 and not x["fails"] and not x["badcol"]:
            c = x["calls"][0]
            by[f"{c['sys']} {c['op']} {c['via']} {c['fmt']} {c['own']}"] = [e["ev"] for e in x["events"]].__len__(), x["events"][-1]["ok"]
    ctx.extra["undisturbed"] = {k: list(v) for k, v in by.items()}
    for x in recs[-2:]:
        ctx.sample({"calls": x["calls"], "fails": x["fails"], "events": [f"{e['q']}:{e['ev']}" for e in x["events"]]})
    ctx.judge("Trace_Conn", recs, per_chunk=500)
