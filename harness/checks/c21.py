"""C21: when a requested URL is completed with a configured one, and how."""
import re

import urlgen
from checks.c20 import enc_call
from vlib import call, MachineryError


def ask(urls, req):
    from recap.settings import RecapSettings
    st, s = call(lambda: RecapSettings(urls=urls))
    if st != "ok":
        bad = {"st": "config " + st, "text": ""}
        return {"kind": "ask", "urls": urls, "req": req, "s": bad, "n": bad}
    return {"kind": "ask", "urls": urls, "req": req, "s": enc_call(s.unsafe_url, req), "n": enc_call(lambda: s.unsafe_url(req, strict=False))}


def near(r, urls, config=False):
    """A request close to one of the configured URLs."""
    u = r.choice(urls)
    scheme, _, rest = u.partition("://")
    rest = rest.split("#")[0].split("?")[0]
    auth, sl, path = rest.partition("/")
    path = sl + path
    hp = auth.rpartition("@")[2]
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9, 10, 11, 12])
        if k <= 2:
            path = path.rstrip("/") + "/" + r.choice(urlgen.WORDS)
        elif k == 3:
            path = path.rstrip("/") + r.choice(["x", "-", "."]) if path.strip("/") else path
        elif k == 4:
            path = path.rstrip("/").rpartition("/")[0]
        elif k == 5:
            path = path.rstrip("/") + r.choice(["/../x", "/..", "/x/../..", "/./x", "/."])
        elif k == 6 and hp and not hp.startswith("[") and not hp[0].isdigit():
            hp = r.choice([hp.swapcase(), hp + "x", "x" + hp, hp.split(":")[0] + ":1", hp.split(":")[0], hp + ".evil.example", "x." + hp, "www." + hp, "127.0.0.1" if hp.startswith("localhost") else "localhost", hp[1:], hp[:1], "", hp.partition(".")[2], hp.split(":")[0] + ":0", hp.split(":")[0][:-1]])
            if hp.count(":") > 1:
                hp = hp.split(":")[0]
            if ":" in hp and not hp.rpartition(":")[2].isdigit():
                hp = hp.split(":")[0]
            if not hp or hp.startswith((":", ".", "-")):
                hp = "x" if config or scheme.startswith("http") else ""
            if ":" in hp and int(hp.rpartition(":")[2]) > 65535:
                hp = hp.split(":")[0]
        elif k == 7 and not config:
            scheme = r.choice(urlgen.SCHEMES)
        elif k == 8 and path.strip("/"):
            path = "/" + "/".join(w.swapcase() if "%" not in w else w for w in path.strip("/").split("/"))
        elif k == 9 and path.strip("/") and scheme != "sqlite":
            path = r.choice(["/x" + path, path.replace("/", "//", 1)])
    ui = r.choice(["", "", "", "other@", "u:p@"]) if hp else ""
    q, f = urlgen.query(r), r.choice(["", "", "g"])
    return f"{scheme}://{ui}{hp}{path}{'?' + q if q else ''}{'#' + f if f else ''}"


def ambiguous(urls, req):
    """Requests whose reading is a matter of taste: sqlite://X//abs against a relative configured path, default ports, ..."""
    def dbl(u):
        return u.partition("://")[2].startswith("//")
    if req.startswith("sqlite:") and (not req[9:].split("?")[0].split("#")[0].strip("/") or any(u.startswith("sqlite:") and dbl(u) != dbl(req) for u in urls)):
        return True
    for u in urls + [req]:
        if u.startswith(("http://", "https://")) and any(p in u for p in (":80/", ":443/")):
            return True
    return False


def run(ctx):
    r = ctx.rng
    if ctx.replay:
        rec = ctx.replay["record"]
        ctx.judge("Trace_Urls", [ask(rec["urls"], rec["req"])])
        return
    res = ctx.explore("MC_Urls", 'SPECIFICATION Spec\nCONSTANTS\n Full = FALSE\n Mode = "pairs"\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n', workers=6)
    pairs = sorted({(ln["c"], ln["r"]) for ln in res.lines})
    ctx.extra["pairs_enumerated_by_tlc"] = len(pairs)
    recs = [ask([c], q) for c, q in (r.sample(pairs, 5000) if ctx.quick and len(pairs) > 5000 else pairs)]
    n = 0
    while n < (3500 if ctx.quick else 60000):
        urls = [urlgen.url(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        if urls and r.random() < .3:     # several paths of one host
            urls.append(near(r, urls, True))
            urls[-1] = re.sub(r"/\.\.(?=[/?#]|$)", "", urls[-1])
        req = near(r, urls) if urls and r.random() < .85 else urlgen.url(r, dots=True)
        if ambiguous(urls, req):
            continue
        n += 1
        recs.append(ask(urls, req))
    cov = sum(1 for x in recs if x["s"]["st"] == "ok")
    ctx.extra["requests_completed"], ctx.extra["requests_refused"] = cov, len(recs) - cov
    if not 200 < cov < len(recs) - 200:
        ctx.assumptions.append("few requests were covered or refused")
    for x in recs[-2:]:
        ctx.sample({k: x[k] for k in ("urls", "req", "s", "n")})
    ctx.judge("Trace_Urls", recs, per_chunk=300)
