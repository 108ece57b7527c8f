"""C05: failed registry writes leave everything stored intact."""
import json
import os
import resource
import signal
import sys
import tempfile

import enc
import regdrv
from checks import c01
from vlib import call, MachineryError

LEVEL = "fault_enumeration"
AUDITED = ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.listdir",
           "os.scandir", "os.chmod", "os.utime")


def scenarios(rng, n):
    """(earlier writes, the write that will fail)"""
    out = []
    for i in range(n):
        a, b = rng.sample(["a", "b c", "d/e", "é", "..", "x.y.Z"], 2)
        t = [c01.some_type(rng) for _ in range(5)]
        if i % 2:
            t[4] = {"k": "struct", "a": {"doc": enc.j("d" * rng.choice([40, 200, 9000]))}, "c": [t[4]]}
        prior = [{"op": "put", "n": a, "v": "", "t": t[0]}, {"op": "put", "n": b, "v": "", "t": t[1]}, {"op": "put", "n": a, "v": "", "t": t[2]}]
        last = [{"n": a, "v": ""}, {"n": "fresh", "v": ""}, {"n": a, "v": "2"}, {"n": a, "v": "1"}, {"n": b, "v": "5"}, {"n": "fresh", "v": "3"}][i % 6]
        out.append((prior, {"op": "faultput", **last, "t": t[4]}))
    return out


def finish(s, op):
    """Everything is read back with a new storage object, the write is repeated, everything is read again."""
    s.failed.append(op["n"])
    s.objs = []
    s.do_open()
    names = sorted({e["n"] for e in s.events if "n" in e})
    s.audit(names, ("1", "2", "3", "5"))
    s.do({"op": "put", "n": op["n"], "v": op["v"], "t": op["t"]})
    s.audit(names, ("1", "2", "3", "5"))
    return s.record()


class Store(regdrv.Store):
    def do_open(self):
        self.open()

    def fault(self, op, st, v):
        self.events.append({**op, "st": st, "rv": v, "outside": [], "changed": []})


def on_virtual(kind, prior, op, at=None, mode=None):
    """Fail the at-th step the write makes on the virtual disk; at=None only counts the steps."""
    s = Store(kind)
    for p in prior:
        s.do(p)
    x = enc.build(op["t"])
    d = s.disk
    size = len(json.dumps(enc.longdict(op["t"])))
    d.chunk = max(16, size // 6)
    d.heal()
    d.fail_at, d.fail_mode = at, mode
    v = int(op["v"]) if op["v"] else None
    st, r = call(s.objs[0].put, op["n"], x, v) if v is not None else call(s.objs[0].put, op["n"], x)
    steps = d.n
    d.heal()
    if at is None:
        return steps
    s.fault({**op, "fault": f"{kind} step {at} {mode}"}, "ok" if st == "ok" else "err", str(r) if st == "ok" else "")
    return finish(s, op)


def on_disk(scratch, prior, op, how):
    """how: ("count",) | ("error"|"exit", n) at the n-th file operation | ("limit", bytes, kill)"""
    s = Store("file", scratch)
    for p in prior:
        s.do(p)
    x = enc.build(op["t"])
    v = int(op["v"]) if op["v"] else None
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            os.close(rd)
            n = 0

            def hook(ev, args):
                nonlocal n
                if ev in AUDITED and args and isinstance(args[0], str) and args[0].startswith(scratch):
                    n += 1
                    if how[0] == "error" and n == how[1]:
                        raise OSError(28, "injected", args[0])
                    if how[0] == "exit" and n == how[1]:
                        os._exit(9)

            sys.addaudithook(hook)
            if how[0] == "limit":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how[2] else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (how[1], how[1]))
            st, r = call(s.objs[0].put, op["n"], x, v) if v is not None else call(s.objs[0].put, op["n"], x)
            os.write(wr, json.dumps([st, str(r) if st == "ok" else "", n]).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    data = b""
    while chunk := os.read(rd, 65536):
        data += chunk
    os.close(rd)
    os.waitpid(pid, 0)
    st, r, n = json.loads(data) if data else ["crash", "", 0]
    if how[0] == "count":
        return n
    s.fault({**op, "fault": "file " + " ".join(map(str, how))}, "ok" if st == "ok" else "err", r)
    return finish(s, op)


def unrepresentable(rng):
    import recap.types as rt
    deep = {}
    deep["self"] = deep
    yield "set attribute", rt.StructType([rt.IntType(32, name="a")], tags={1, 2})
    yield "bytes attribute", rt.StructType([rt.StringType(name="x" * 9000), rt.IntType(32, name="a", default=b"x")])
    yield "object attribute", rt.IntType(32, default=object())
    yield "cyclic attribute", rt.BoolType(x=deep)
    yield "too small", rt.StructType([rt.IntType(0, name="z")])
    yield "no length", rt.ListType(rt.StringType(variable=False))
    yield "unknown type", rt.StructType([rt.RecapType("foo", name="f")])


def run(ctx):
    if ctx.replay:
        raise MachineryError("replay a fault by running the check with the same VERIF_SEED")
    recs = []
    # the failing write as an action of the specification: exhaustively explored
    ctx.explore("MC_Faults", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nPROPERTIES Intact Retry\nCHECK_DEADLOCK FALSE\n" % (3 if ctx.quick else 5),
                workers=6, heap="6g")
    points = 0
    for kind in ("step-local", "step-object"):
        for prior, op in scenarios(ctx.rng, 12 if ctx.quick else 120):
            n = on_virtual(kind, prior, op)
            for at in range(1, n + 1):
                for mode in ("error", "errors", "crash"):
                    recs.append(on_virtual(kind, prior, op, at, mode))
                    points += 1
    for prior, op in scenarios(ctx.rng, 12 if ctx.quick else 100):
        def one(how):
            with tempfile.TemporaryDirectory(dir=ctx.work) as d:
                return on_disk(d, prior, op, how)
        n = one(("count",))
        for at in range(1, n + 1):
            recs.append(one(("error", at)))
            recs.append(one(("exit", at)))
            points += 2
        size = len(json.dumps(enc.longdict(op["t"])))
        for lim in sorted({0, 1, 2, 17, size // 2, 4096, 8192} | {ctx.rng.randint(0, size) for _ in range(2)}):
            if lim < size:
                for kill in (False, True):
                    recs.append(one(("limit", lim, kill)))
                    points += 1
    for kind in ("step-local", "step-object", "memory", "file"):
        for what, x in unrepresentable(ctx.rng):
            for nm, v in (("a", ""), ("a", "1"), ("new", ""), ("new", "4")):
                with tempfile.TemporaryDirectory(dir=ctx.work) as d:
                    s = Store(kind, d)
                    s.do({"op": "put", "n": "a", "v": "", "t": c01.some_type(ctx.rng)})
                    s.do({"op": "put", "n": "b", "v": "", "t": c01.some_type(ctx.rng)})
                    s.do({"op": "failput", "n": nm, "v": v, "x": x, "t": enc.T("null"), "fault": what})
                    s.audit(["a", "b", "new"], ("1", "4"))
                    s.do({"op": "put", "n": nm, "v": v, "t": c01.some_type(ctx.rng)})
                    s.audit(["a", "b", "new"], ("1", "4"))
                    recs.append(s.record())
                    points += 1
    ctx.extra["fault_points"] = points
    ctx.sample([[e["op"], e.get("n"), e.get("v"), e["st"], e.get("fault")] for e in recs[0]["events"]][:8])
    ctx.judge_some("Trace_Faults", recs, per_chunk=120)
