"""C03: the registry's HTTP contract; errors have no effect."""
import enc
import gen
import httpdrv
from checks import c07

NAMES = ["a", "A", "com.example.User", "a b", "é", "a+b", "a%20b", "..", ".", "x-1", "1", "versions", "日本", "a;b", "a,b", "%2F", "~x", "a.json"]
TEXTS = ["bool", "string", "int32", "my.Unknown", "uuid", "int", "struct", "list", "enum", "union", "float", "map", "bytes", "{", "[", "{\"type\":",
         " bool", "bool ", "int32\n", "\tstring", "some text", "int 32", "{'type': 'bool'}", "tru", "é"]
BINARY = ["ff", "80", "fffe41", "c328", "22ff22", "e28228", "f0288cbc"]
OTHER = ["application/json", "text/plain", "application/x-protobuf", "application/schema+json", "application/avro+json", "application/x-recap", "x",
         "application/x-recap+jsonx", "text/html"]


def bodies(rng):
    roll = rng.random()
    if roll < 0.08:
        return {"kind": "text", "s": rng.choice(TEXTS)}
    if roll < 0.12:
        return {"kind": "binary", "x": rng.choice(BINARY)}
    for _ in range(50):
        g = gen.Gen(rng)
        d = c07.desc(g.type(rng.choice([0, 1, 2, 3]), top=rng.random() < 0.5), rng)
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            d = c07.mutate(d, rng)
        if c07.in_domain(d):
            return {"kind": "json", "d": enc.j(d)}
    return {"kind": "json", "d": enc.j("bool")}


def request(rng, names):
    m = rng.choice(["post", "post", "put", "put", "get", "get", "versions", "ls"])
    r = {"m": m, "n": "" if m == "ls" else rng.choice(names), "v": "", "ct": "none", "b": {"kind": "json", "d": {"t": "null"}}, "ascii": rng.random() < 0.6}
    if m in ("post", "put"):
        r["b"] = bodies(rng)
        r["ct"] = rng.choice(["none", "recap", "recap", "recap", "other"]) if rng.random() < 0.5 else "recap"
        if r["ct"] == "other":
            r["cts"] = rng.choice(OTHER)
    if m == "put" or (m == "get" and rng.random() < 0.6):
        r["v"] = str(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9, 10, 11, 100, 2**40]))
    return r


def session(app, rng, n):
    names = rng.sample(NAMES, rng.randint(1, 3))

    async def body(w):
        for _ in range(n):
            await w.ask(request(rng, names))
            if rng.random() < 0.1:
                await w.audit(names)
        await w.audit(names)
    return httpdrv.World(app).go(body)


def long_history(app, rng, n):
    """Many versions of one name (and of a second one), then publishes and reads all over them."""
    async def body(w):
        for i in range(n):
            await w.ask({"m": "post", "n": "n" if i % 5 else "m", "v": "", "ct": "recap", "b": {"kind": "json", "d": enc.j({"type": "int", "bits": 1 + i})}})
        for i in list(range(n + 2)) + [2**31, 2**53 + 1, 10**12]:
            v = str(i)
            await w.ask({"m": "put", "n": "n", "v": v, "ct": "none", "b": {"kind": "json", "d": enc.j({"type": "float", "bits": 1 + i % 64})}})
            if rng.random() < 0.3:
                await w.ask({"m": "get", "n": "n", "v": v, "ct": "none", "b": {"kind": "json", "d": {"t": "null"}}})
        await w.ask({"m": "post", "n": "n", "v": "", "ct": "recap", "b": {"kind": "json", "d": enc.j("bool")}})
        await w.audit(["n", "m"])
    return httpdrv.World(app).go(body)


def each_answer(app, rng):
    """Every kind of publish against every relevant state."""
    good = {"kind": "json", "d": enc.j({"type": "int", "bits": 12})}
    recs = []
    variants = [("none", good), ("recap", good), ("other", good)] + [("recap", {"kind": "text", "s": s}) for s in TEXTS] + [
        ("recap", {"kind": "binary", "x": x}) for x in BINARY] + [("recap", {"kind": "json", "d": enc.j(d)}) for d in (
            3, None, True, [], {}, 1.5, "bool", ["null", "int32"], {"type": "int"}, {"type": "int", "bits": 0}, {"type": ["null", "bool"]},
            {"type": "bool", "alias": "nodots"}, {"type": "string", "bytes": 2**63}, {"type": "struct", "fields": [{"type": "bool", "alias": "a.B"}, {"type": "a.B"}]},
            {"type": "struct", "fields": [{"type": "bool", "alias": "a.B"}, {"type": "int32", "name": "q"}, {"type": "null", "alias": "a.B"}]})]
    variants += [("other", good, c) for c in OTHER]
    for va in variants:
        ct, b = va[0], va[1]
        for m, v in (("post", ""), ("put", "1"), ("put", "3")):
            r = {"m": m, "n": "n", "v": v, "ct": ct, "b": b}
            if ct == "other":
                r["cts"] = va[2] if len(va) > 2 else "text/plain"

            async def body(w):
                await w.ask(r)
                await w.audit(["n"])
                await w.ask({"m": "post", "n": "n", "v": "", "ct": "recap", "b": good})
                await w.ask({"m": "post", "n": "other", "v": "", "ct": "recap", "b": good})
                await w.ask(r)
                await w.audit(["n", "other"])
            recs.append(httpdrv.World(app).go(body))
    return recs


def run(ctx):
    app = httpdrv.setup()
    ctx.explore("MC_Http", "SPECIFICATION Spec\nCONSTANTS\n NReq = 2\n Rich = TRUE\nINVARIANTS Acknowledged NoSharing\n"
                "PROPERTIES Immutable ErrorsChangeNothing\nCHECK_DEADLOCK FALSE\n", workers=6, heap="8g")
    recs = each_answer(app, ctx.rng)
    recs += [long_history(app, ctx.rng, n) for n in ((3, 11, 23) if ctx.quick else (1, 2, 5, 9, 10, 11, 12, 17, 23, 40, 80))]
    for _ in range(220 if ctx.quick else 6000):
        recs.append(session(app, ctx.rng, ctx.rng.randint(4, 16)))
    st = {}
    for r in recs:
        for e in r["events"]:
            if e["a"] == "respond":
                st[e["status"]] = st.get(e["status"], 0) + 1
    ctx.extra["answers"] = st
    ctx.sample([[e["a"], e["i"], e.get("status"), (e.get("r") or {}).get("m")] for e in recs[-1]["events"]][:20])
    ctx.judge_some("Trace_Http", recs, per_chunk=60)
