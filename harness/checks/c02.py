"""C02: published versions are immutable under concurrent HTTP requests."""
import itertools

import enc
import httpdrv
from checks.c07 import norm as jnorm


def follow(app, sched, pieces=1, ticks=None):
    """A schedule printed by TLC: arrivals, body deliveries and disconnects.  Between its steps the server either does all it
    can, or (ticks) takes only so many turns of its event loop."""
    aborted = {e["i"] for e in sched if e["a"] == "abort"}
    tight = ticks is not None and not aborted

    async def body(w):
        names = set()
        for e in sched:
            if e["a"] == "arrive":
                r = {**e["r"], "aborts": e["i"] in aborted}
                names.add(r["n"])
                w.arrive(r, e["i"], pieces)
                await (w.pause(next(ticks)) if tight else w.quiet())
                if pieces > 1 and r["m"] in ("post", "put") and not w.requests[e["i"]].task.done():
                    w.deliver(e["i"])
            elif e["a"] == "deliver":
                q = w.requests[e["i"]]
                while q.chunks:
                    w.deliver(e["i"])
            else:
                w.abort(e["i"])
            await (w.pause(next(ticks)) if tight else w.quiet())
        await w.drain()
        await w.audit(sorted(names))
    return httpdrv.World(app).go(body)


def jb(t):
    return {"kind": "json", "d": enc.j(enc.longdict(t))}


TYPES = [enc.T("bool"), enc.T("int", {"bits": 17}), enc.T("string", {"bytes": 3}), enc.T("struct", {"doc": "x" * 300}), enc.T("proxy", {"alias": "int32"}),
         enc.T("enum", {"symbols": ["A"]})]


def rand_request(rng, names):
    m = rng.choice(["post", "post", "put", "put", "put", "get", "get", "versions", "ls"])
    b = jb(rng.choice(TYPES))
    ct = rng.choice(["none", "recap"])
    if m in ("post", "put") and rng.random() < 0.1:
        b = {"kind": "json", "d": enc.j(3)}
    if m in ("post", "put") and rng.random() < 0.08:
        ct = "other"
    v = "" if m in ("post", "ls", "versions") else str(rng.randint(1, rng.choice([4, 4, 4, 14])))
    if m == "get" and rng.random() < 0.4:
        v = ""
    return {"m": m, "n": "" if m == "ls" else rng.choice(names), "v": v, "ct": ct, "b": b}


def wander(app, rng, nreq):
    """Random schedule over arrivals, partial bodies, disconnects and held file system steps."""
    names = rng.sample(["a", "b", "a b", ".."], rng.choice([1, 1, 1, 2]))
    tight = rng.random() < 0.6

    older = rng.choice([0, 0, 0, 0, 1, 3, 9, 10, 12])

    async def body(w):
        for _ in range(older):
            await w.ask({"m": "post", "n": names[0], "v": "", "ct": "recap", "b": jb(rng.choice(TYPES))})
        left = nreq
        for _ in range(nreq * 14):
            acts = []
            if left:
                acts += ["arrive"] * 2
            wait = [q for q in w.requests.values() if not q.task.done() and q.chunks and not q.aborted]
            acts += ["deliver"] * min(2, len(wait))
            acts += ["release"] * min(2, len(w.held))
            ab = [q for q in wait if q.r["aborts"]]
            if ab:
                acts += ["abort"]
            if not acts:
                break
            a = rng.choice(acts)
            if a == "arrive":
                r = rand_request(rng, names)
                r["aborts"] = r["m"] in ("post", "put") and r["ct"] != "other" and rng.random() < 0.08
                w.arrive(r, pieces=rng.choice([1, 1, 2, 3]))
                left -= 1
            elif a == "deliver":
                q = rng.choice(wait)
                if q.r["aborts"] and len(q.chunks) == 1:
                    if q.waiting or True:
                        w.abort(q.i)
                        q.chunks = []
                else:
                    w.deliver(q.i)
            elif a == "abort":
                q = rng.choice(ab)
                q.chunks = []
                w.abort(q.i)
            else:
                w.release(rng.randrange(len(w.held)))
            if tight and not any(q.r["aborts"] for q in w.requests.values()):
                await w.pause(rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 21, 34]))
            else:
                await w.quiet()
        for q in w.requests.values():
            if q.r["aborts"] and not q.aborted and not q.task.done():
                q.chunks = []
                w.abort(q.i)
                await w.quiet()
        await w.drain()
        await w.audit(names)
    return httpdrv.World(app, gated=True).go(body)


def run(ctx):
    app = httpdrv.setup()
    recs = []
    r = ctx.explore("MC_Http", "SPECIFICATION Spec\nCONSTANTS\n NReq = %d\n Rich = %s\nINVARIANTS Acknowledged NoSharing Emit\n"
                    "PROPERTIES Immutable ErrorsChangeNothing\nCHECK_DEADLOCK FALSE\n" % ((2, "TRUE") if ctx.quick else (3, "FALSE")), workers=6, heap="8g")
    seen = set()
    for x in r.lines:
        for e in x["sched"]:
            if "r" in e:
                jnorm(e["r"]["b"]["d"])
        h = repr(x["sched"])
        if h not in seen:
            seen.add(h)
    import ast
    scheds = [ast.literal_eval(h) for h in sorted(seen)]
    ctx.extra["schedules_from_tlc"] = len(scheds)
    cap = 500 if ctx.quick else 12000
    if len(scheds) > cap:
        scheds = ctx.rng.sample(scheds, cap)
    for i, s in enumerate(scheds):
        recs.append(follow(app, s, 1 + i % 2))
    for i, s in enumerate(scheds):
        recs.append(follow(app, s, 1, itertools.repeat(ctx.rng.randint(0, 30)) if i % 2 else iter(lambda: ctx.rng.choice([0, 1, 2, 3, 5, 8, 13, 21]), None)))
    for _ in range(500 if ctx.quick else 12000):
        recs.append(wander(app, ctx.rng, ctx.rng.randint(2, 6)))
    ctx.extra["requests"] = sum(e["a"] == "arrive" for r in recs for e in r["events"])
    ctx.sample([[e["a"], e["i"], e.get("status")] for e in recs[-1]["events"]])
    ctx.judge_some("Trace_Http", recs, per_chunk=100)
