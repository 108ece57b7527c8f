"""C01: RegistryStorage is a versioned map."""
import os
import tempfile

import enc
import gen
import regdrv
from checks.c06 import norm

NAMES = ["a", "A", "ab", "a b", "a.b", "com.example.User", "ü", "日本語", "x-1", "10", "9", "_", "a+b", "a%20b", "Z", "zz", "~", "user_created"]


def tlc_histories(ctx, depth):
    r = ctx.explore("MC_Registry", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANTS ReadsLast Emit\n"
                    "PROPERTIES Frame NothingLost Fresh\nCHECK_DEADLOCK FALSE\n" % depth, workers=6, heap="8g")
    out = []
    for x in r.lines:
        for op in x["hist"]:
            if "t" in op:
                norm(op["t"])
        out.append(x["hist"])
    return out


def some_type(rng):
    return gen.Gen(rng).type(rng.choice([0, 1, 2, 3]), top=rng.random() < 0.6)


def replay_hist(kind, hist, names, scratch):
    s = regdrv.Store(kind, scratch)
    for i, op in enumerate(hist):
        if op["op"] in ("put", "get", "versions", "latest", "failput"):
            op = {**op, "n": names.get(op["n"], op["n"])}
        if op["op"] == "open":
            s.do(op)
            continue
        s.do(op, who=i)
        if i == 1:
            s.do({"op": "open"})
    s.audit(sorted({e["n"] for e in s.events if "n" in e}), ("1", "3"))
    return s.record()


def random_history(kind, rng, scratch, pool, n):
    s = regdrv.Store(kind, scratch)
    names = rng.sample(pool, min(len(pool), rng.randint(1, 5)))
    for _ in range(n):
        roll = rng.random()
        nm = rng.choice(names)
        v = rng.choice(["", "", "", str(rng.randint(0, 12)), str(rng.choice([7, 99, 100, 2**31, 2**63]))])
        who = rng.randint(0, 5)
        if roll < 0.5:
            s.do({"op": "put", "n": nm, "v": v, "t": some_type(rng)}, who)
        elif roll < 0.7:
            s.do({"op": "get", "n": nm, "v": v}, who)
        elif roll < 0.8:
            s.do({"op": rng.choice(["versions", "latest"]), "n": nm}, who)
        elif roll < 0.9:
            s.do({"op": "ls"}, who)
        elif roll < 0.95:
            s.do({"op": "open"})
        else:
            s.do({"op": "get", "n": nm + "x", "v": v}, who)
    s.audit(names, ("5",), rng.randint(0, 5))
    return s.record()


def run(ctx):
    recs = []
    if ctx.replay:
        rec = ctx.replay["record"]
        with tempfile.TemporaryDirectory() as d:
            s = regdrv.Store(rec["kind"], d)
            for i, e in enumerate(rec["events"]):
                s.do({k: e[k] for k in ("op", "n", "v", "t") if k in e}, i)
            recs.append(s.record())
    else:
        hists = tlc_histories(ctx, 3 if ctx.quick else 4)
        if ctx.quick:
            hists = ctx.rng.sample(hists, min(len(hists), 700))
        elif len(hists) > 20000:
            hists = ctx.rng.sample(hists, 20000)
        ctx.extra["histories_from_tlc"] = len(hists)
        kinds = ["step-local", "memory", "file", "step-object"]
        for i, h in enumerate(hists):
            with tempfile.TemporaryDirectory(dir=ctx.work) as d:
                a, b = ctx.rng.sample(NAMES, 2)
                recs.append(replay_hist(kinds[i % 4], h, {"n1": a, "n2": b}, d))
        for i in range(240 if ctx.quick else 4000):
            with tempfile.TemporaryDirectory(dir=ctx.work) as d:
                recs.append(random_history(kinds[i % 4], ctx.rng, d, NAMES, ctx.rng.randint(5, 25)))
    ctx.extra["operations"] = sum(len(r["events"]) for r in recs)
    ctx.sample([[e["op"], e.get("n"), e.get("v"), e["st"]] for e in recs[-1]["events"]][:12])
    ctx.judge("Trace_Registry", recs, cfg=regdrv.CFG, per_chunk=100)
