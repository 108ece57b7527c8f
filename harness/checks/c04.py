"""C04: registry names are isolated and confined."""
import itertools
import tempfile

import enc
import regdrv
from checks import c01

NASTY = ["a", "A", "a/b", "a/b/c", "a b", "a+b", "a%20b", "a%2Fb", "a%2fb", "a%252Fb", "a.b", ".", "..", "...", ". ", "../x", "../../x",
         "..%2Fx", "%2E%2E", "%2e%2e", "%2E", "a/..", "a/.", "./a", "a//b", "a/", "/a", "//a", "/", "//", "1.json", "1", "a/1.json", "a.json",
         "a/1", ".hidden", "~", "~root", "~/x", "*", "?", "[a]", "a*", "a?", "{a}", "a\\b", "..\\x", "\\", "a:b", "file://x", "memory://x", "C:\\x",
         "a\nb", "a\tb", "a\u0000b", " a", "a ", " ", "%", "%%", "%41", "+", "++", "a;b", "a&b", "a=b", "a#b", "é", "e\u0301", "ÅNG", "日本/語",
         "😀", "\u202e", "a.tmp", "1.json.tmp", "1.tmp", "versions", "a::b", "'", "\"", "`x`", "$HOME", "-rf", "nul", "con", "ß", "ẞ", "İ", "ı"]
#: names that are harmless on a real disk even when the code fails to quote them
SAFE = ["a", "A", "a/b", "a b", "a+b", "a%20b", "a%2Fb", "a.b", "..", ".", "../x", "..%2Fx", "%2E%2E", "...", "a/..", "1.json", "1", "a/1.json",
        "a/1", "é", "e\u0301", "日本/語", "+", "%", "a;b", "1.json.tmp", "a*", "[a]", "?"]
#: names that differ in their last character only (the real disk allows 255 bytes)
LONG = ["n" * 120 + "a", "n" * 120 + "b", "n" * 230 + "a", "n" * 230 + "b", "é" * 38 + "a", "é" * 38 + "b"]
LONGER = ["n" * 2000 + "a", "n" * 2000 + "b", "日" * 300 + "a", "日" * 300 + "b", "a/" * 400 + "a", "a/" * 400 + "b"]


def pair(kind, names, rng, d):
    s = regdrv.Store(kind, d)
    ts = [c01.some_type(rng) for _ in names]
    for n, t in zip(names, ts):
        s.do({"op": "put", "n": n, "v": "", "t": t})
    s.do({"op": "put", "n": names[0], "v": "", "t": c01.some_type(rng)})
    s.audit(list(names), ("1", "2"))
    s.do({"op": "put", "n": names[-1], "v": "7", "t": c01.some_type(rng)}, 1)
    s.audit(list(names))
    return s.record()


def run(ctx):
    recs = []
    rng = ctx.rng
    if ctx.replay:
        return c01.run(ctx)
    # the versioned-map model with names quantified away; every history is replayed under hostile names
    hists = c01.tlc_histories(ctx, 2 if ctx.quick else 3)
    kinds = ["step-local", "step-object", "memory"]

    def one(f, *a):
        with tempfile.TemporaryDirectory(dir=ctx.work) as d:
            recs.append(f(*a, d))

    for n in NASTY:
        for k in kinds:
            one(lambda d: pair(k, [n], rng, d))
    for n in SAFE:
        one(lambda d: pair("file", [n], rng, d))
    for i in range(0, 6, 2):
        one(lambda d: pair("file", LONG[i:i + 2], rng, d))
        for k in kinds:
            one(lambda d: pair(k, LONG[i:i + 2] + LONGER[i:i + 2], rng, d))
    groups = []
    allpairs = list(itertools.combinations(NASTY, 2))
    if ctx.quick:
        # every pair of names shares at least one store of 14 names
        for _ in range(60):
            groups.append(rng.sample(NASTY, 14))
    else:
        groups = [list(p) for p in allpairs] + [rng.sample(NASTY, 20) for _ in range(600)]
    for i, g in enumerate(groups):
        one(lambda d: pair(kinds[i % 3], g, rng, d))
    for i in range(20 if ctx.quick else 300):
        one(lambda d: pair("file", rng.sample(SAFE, 8), rng, d))
    for i, h in enumerate(rng.sample(hists, min(len(hists), 150 if ctx.quick else 4000))):
        a, b = rng.sample(NASTY, 2)
        one(lambda d: c01.replay_hist(kinds[i % 3], h, {"n1": a, "n2": b}, d))
    for i in range(40 if ctx.quick else 1500):
        one(lambda d: c01.random_history(kinds[i % 3], rng, d, NASTY, rng.randint(5, 20)))
    ctx.extra["operations"] = sum(len(r["events"]) for r in recs)
    ctx.extra["names"] = len(NASTY + LONG + LONGER)
    ctx.sample(groups[0])
    ctx.judge("Trace_Registry", recs, cfg=regdrv.CFG, per_chunk=60)
