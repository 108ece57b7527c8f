"""C20: the public list of configured URLs."""
import json

import child
import urlgen
from vlib import call


def enc_call(fn, *a):
    st, v = call(fn, *a)
    return {"st": st, "text": v if st == "ok" and isinstance(v, str) else "" if st != "ok" else repr(v)}


def listing(urls, http=None):
    from recap.settings import RecapSettings
    st, s = call(lambda: RecapSettings(urls=urls))
    if st == "ok":
        st, listed = call(lambda: list(s.safe_urls))
    if st != "ok":
        return {"kind": "list", "urls": urls, "st": st, "listed": [], "back": [], "http": []}
    listed = [x if isinstance(x, str) else repr(x) for x in listed]
    return {"kind": "list", "urls": urls, "st": "ok", "listed": listed, "back": [enc_call(s.unsafe_url, u) for u in listed], "http": listed if http is None else http}


def _server():
    from recap.server.app import app
    a = child.http(app, "GET", "/gateway/ls/")
    from recap import commands
    st, lib = call(commands.ls)
    return a["status"], child.as_json(a["body"]), lib if st == "ok" else None


def served(urls):
    """The same through the environment, the gateway and the library."""
    status, body, lib = child.forked(_server, env={"RECAP_URLS": json.dumps(urls)})
    bad = status != 200 or not isinstance(body, list) or not all(isinstance(x, str) for x in body)
    got = ["the gateway answers " + str(status)] if bad else body
    if not bad and (lib or []) != body:
        got = ["the library lists " + repr(lib)]
    return listing(urls, http=got)


def run(ctx):
    r = ctx.rng
    child.preload()
    if ctx.replay:
        rec = ctx.replay["record"]
        ctx.judge("Trace_Urls", [listing(rec["urls"]), served(rec["urls"])])
        return
    res = ctx.explore("MC_Urls", 'SPECIFICATION Spec\nCONSTANTS\n Full = TRUE\n Mode = "list"\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n', workers=6)
    urls = sorted({ln["c"] for ln in res.lines})
    ctx.extra["urls_enumerated_by_tlc"] = len(urls)
    r.shuffle(urls)
    recs = []
    for i in range(0, len(urls), 3):
        recs.append(listing(urls[i:i + 3]))
    for _ in range(1200 if ctx.quick else 25000):
        recs.append(listing([urlgen.url(r) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]))
    for _ in range(25 if ctx.quick else 300):
        us = [urlgen.url(r) for _ in range(r.randint(0, 5))]
        if us and r.random() < .4:
            us.append(r.choice(us))
        recs.append(served(us))
    for x in recs[-2:]:
        ctx.sample({"configured": x["urls"], "listed": x["listed"]})
    ctx.judge("Trace_Urls", recs, per_chunk=150)
