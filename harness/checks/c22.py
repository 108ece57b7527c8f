"""C22: which system, connection settings and object a URL reaches."""
import json
import os
import pathlib
import re
import shutil
import tempfile

import child
import urlgen

NAMES = ["a", "b%20c", "b c", "c", "A", "db", "public", "t1", "x-y", "x_y", "x.y", "ü", "%C3%BC", "a+b", "select", "a;b", "a:b", "a=b", "a@b", "'", "a,b", "ls", "schema", "http", "https", "thrift", "mysql", "x+csr", "a+hms", "snowflake"]
LIBPQ = ["channel_binding", "fallback_application_name", "gssencmode", "gsslib", "hostaddr", "keepalives", "keepalives_count", "keepalives_idle", "keepalives_interval", "krbsrvname", "options", "passfile", "replication", "requirepeer", "service", "ssl_max_protocol_version", "ssl_min_protocol_version", "sslcert", "sslcompression", "sslcrl", "sslcrldir", "sslkey", "sslpassword", "sslrootcert", "sslsni", "target_session_attrs", "tcp_user_timeout"]
VALUES = {"detect_types": ["0", "1", "3"], "isolation_level": ["DEFERRED", "EXCLUSIVE", "IMMEDIATE"], "check_same_thread": ["0", "1", "false", "False", "FALSE", "true", "True"], "cached_statements": ["0", "1", "200"],
          "timeout": ["5", "30"], "connect_timeout": ["5", "30"], "connection_timeout": ["5", "30"], "include_stats": ["true"]}
PARAMS = {"mysql": ["charset", "collation", "time_zone", "connection_timeout", "ssl_ca"], "postgresql": ["sslmode", "application_name", "connect_timeout", "client_encoding"] + LIBPQ,
          "snowflake": ["warehouse", "role", "authenticator"], "csr": ["ssl.ca.location", "ssl.key.location", "ssl.certificate.location"], "hive": ["include_stats"],
          "sqlite": ["timeout", "detect_types", "isolation_level", "check_same_thread", "cached_statements"], "bigquery": [], "file": [], "none": []}
COMPONENTS = ["host", "hostname", "scheme", "path", "paths", "netloc", "url", "params", "fragment", "query", "dialect", "driver"]
SYS = {"mysql": "mysql", "postgresql": "postgresql", "snowflake": "snowflake", "http+csr": "csr", "https+csr": "csr", "thrift+hms": "hive", "bigquery": "bigquery",
       "sqlite": "sqlite", "file": "file"}
LEVELS = {"mysql": 2, "hive": 2, "postgresql": 3, "snowflake": 3, "bigquery": 3}


def objects(r=None):
    """Names for every system; small ones for the enumerated URLs when r is None."""
    o = {}
    for s, n in LEVELS.items():
        names = ["a", "b%20c", "b c", "c"] if r is None else r.sample(NAMES, 4)
        if s == "bigquery" and r is not None:
            names = [x for x in names if "." not in x] or ["a"]
        paths = [[]]
        for _ in range(n):
            paths = [p + [x] for p in paths for x in names]
        if r is not None:
            paths = r.sample(paths, min(len(paths), 12))
        o[s] = [p + [f"col{i}"] for i, p in enumerate(paths)]
    subs = ["a-value", "b%20c-value", "b c-value", "a-key", "c-value"] if r is None else [x + y for x in r.sample(NAMES, 5) for y in r.sample(["-value", "-key", "-other-value"], 2)]
    o["csr"] = [[x, "AVRO", json.dumps({"type": "record", "name": "R", "fields": [{"name": f"col{i}", "type": "int"}]}), f"col{i}"] for i, x in enumerate(subs)]
    return o


def tree(r):
    """Files below the scratch folder, with their answers."""
    files, lite = {}, {}
    n = 0
    for d in ["", "d/", "d/e f/", "a%20b/", "x.avsc/"]:
        for f in ["one.avsc", "two.avsc", "Three.avsc", "a%20b.avsc", "a b.avsc", "x;y.avsc", "x+y.avsc"]:
            if d and f != "one.avsc" and r.random() < .4:
                continue
            n += 1
            files[d + f] = (json.dumps({"type": "record", "name": "R", "fields": [{"name": f"f{n}", "type": "int"}]}), f"f{n}")
    for d in ["", "d/"]:
        for f in ["one.sqlite", "two.db", "a%20b.db", "x y.db"]:
            tabs = {}
            for t in r.sample(["t", "u", "T t", "t%20t", "ü", "a+b", "select", "x;y", "t.u"], 4):
                if t.lower() not in {x.lower() for x in tabs}:
                    n += 1
                    tabs[t] = f"f{n}"
            lite[d + f] = tabs
    return files, lite


def _child(objs, dir, calls):
    import world
    w = world.World(objs, dir)
    os.chdir(dir)
    w.install()
    from recap import commands
    out = []
    for op, url, strict in calls:
        w.fresh()
        fn = {"ls": commands.ls, "schema": lambda u, strict: commands.schema(u, strict=strict)}[op]
        a = world.answer(lambda: fn(url, strict=strict))
        out.append({**a, "conns": [dict(c) for c in w.conns]})
    return out


def observe(ctx, objs, cfgs, calls, disk=None):
    """calls: (op, url, strict, objects of the URL's system)"""
    d = pathlib.Path(tempfile.mkdtemp(dir=ctx.work))
    try:
        if disk:
            import world
            files, lite = disk
            world.files(d, {k: v[0] for k, v in files.items()} | lite)
        place = lambda s: s.replace("{dir}", str(d))
        cfgs = [place(c) for c in cfgs]
        got = child.forked(_child, objs, str(d), [(op, place(u), s) for op, u, s, _ in calls], env={"RECAP_URLS": json.dumps(cfgs)})
        return [{"op": op, "url": place(u), "cfgs": cfgs, "strict": s, **g, "objs": [[place(x) for x in o] for o in os_]} for (op, u, s, os_), g in zip(calls, got)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def params(r, sys, full):
    ps = [(k, r.choice(VALUES.get(k, urlgen.VALUES)))
          for k in PARAMS[sys] if r.random() < (.15 if k in LIBPQ else .35)]
    if r.random() < .3 and sys != "snowflake":
        ps.append(("foo", "1"))
    if r.random() < .4:      # parameters named like components that the URL has
        ps += [(k, r.choice(["evil", "x", "/evil", "file"])) for k in r.sample(COMPONENTS, r.randint(1, 4)) if k != "query" or r.random() < .3]
        ps += [(k, "evil") for k in full if r.random() < .5]
    r.shuffle(ps)
    return "&".join(urlgen.up.quote(k, safe=".") + "=" + urlgen.up.quote(v, safe="") for k, v in ps)


def request(r, objs, disk, auth=True):
    """A URL that names something, mostly."""
    scheme = r.choice(list(SYS) + ["postgresql", "mysql", "snowflake"])
    sys = SYS[scheme]
    op = r.choice(["ls", "schema"])
    files, lite = disk
    if sys == "file":
        pre = r.choice(["file://", "file://", ""])
        objs = [["{dir}/" + k, v[1]] for k, v in files.items()]
        if op == "ls":
            d = r.choice(["d", "d/e f", "a%20b", "x.avsc"])
            kids = dict.fromkeys(k[len(d) + 1:].split("/")[0] for k in list(files) + list(lite) if k.startswith(d + "/"))
            return op, f"{pre}{{dir}}/{d}" + r.choice(["", "/"]), [["{dir}/" + d, k, ""] for k in kids], pre
        # a path without a scheme is a file URL to the specification
        return op, pre + "{dir}/" + r.choice(list(files)), objs, pre
    if sys == "sqlite":
        f = r.choice(list(lite))
        q = params(r, sys, [])
        root = r.choice(["", "{dir}/"])
        objs = [[root + k, t, c] for k, ts in lite.items() for t, c in ts.items()]
        return op, f"sqlite:///{root}{f}" + (f"/{r.choice(list(lite[f]))}" if op == "schema" else "") + ("?" + q if q else ""), objs, "sqlite"
    host = "" if sys == "bigquery" else r.choice(urlgen.HOSTS)
    port = r.choice(urlgen.PORTS) if host else ""
    ui, full = "", []
    if sys in ("mysql", "postgresql", "snowflake", "csr") and auth:
        x = r.random()
        if x < .6:
            ui = urlgen.secret(r.choice(urlgen.SECRETS)) + ":" + urlgen.secret(r.choice(urlgen.SECRETS)) + "@"
            full = ["user", "username", "password"] if sys != "csr" else []
        elif x < .75:
            ui = urlgen.secret(r.choice(urlgen.SECRETS)) + "@"
            full = ["user", "username"] if sys != "csr" else []
    if port:
        full.append("port")
    my = objs[sys]
    if sys == "csr":
        base = [r.choice(["api", "v1", "x%20y", "a.b", "x+csr", "http", "+csr"]) for _ in range(r.choice([0, 0, 1, 2]))]
        subj = r.choice(my)[0]
        if subj.endswith("-value") and r.random() < .5 and not subj[:-6].endswith(("-key", "-value")):
            subj = subj[:-6]
        path = base + ([subj] if op == "schema" else [])
        spec = [[o[0], o[-1]] + ([""] if op == "ls" else []) for o in my]
    else:
        o = r.choice(my)
        k = len(o) - 1
        path = o[:k] if op == "schema" else o[:r.randint(0, k - 1)]
        spec = my
        if path:
            full += {"mysql": ["database", "db"], "postgresql": ["dbname"], "snowflake": ["account", "database"]}.get(sys, [])
        elif sys == "snowflake":
            full.append("account")
    q = params(r, sys, full)
    if r.random() < .06 and path and sys != "csr":        # incomplete or too long
        path = path[:-1] if op == "schema" else path + ["a", "b", "c"]
    sl = r.choice(["", "", "", "/"])
    f = r.choice(["", "", "", "#f"])
    return op, f"{scheme}://{ui}{host}{':' + port if port else ''}" + "".join("/" + p for p in path) + sl + ("?" + q if q else "") + f, spec, ui


def configs(r, op, url):
    """A configuration for the request and what is left of its URL; credentials move into the configuration."""
    scheme, _, rest = url.partition("://")
    sys = SYS[scheme] if scheme in SYS else "none"
    main = rest.split("#")[0].split("?")[0]
    auth, sl, path = main.partition("/")
    hp = auth.rpartition("@")[2]
    own = rest[len(auth):]
    first = path.strip("/").split("/")[0]
    ui = urlgen.secret(r.choice(urlgen.SECRETS)) + ":" + urlgen.secret(r.choice(urlgen.SECRETS)) + "@"
    plain = re.fullmatch(r"[\w.~%+;:@=,/{}-]*", main, re.A)      # other characters are escaped in configured URLs, and then differ
    if not plain:
        first = ""
    if sys in ("mysql", "postgresql", "snowflake"):
        at = r.choice(["", "", "/" + first if first else "/other", "/other"])
        q = params(r, sys, []).replace("foo=1", "foo=2")
        q = "&".join(x for x in q.split("&") if x.split("=")[0] in PARAMS[sys])
        return [f"{scheme}://{ui}{hp}{at}" + ("?" + q if q else "")], f"{scheme}://{hp}{own}"
    if sys == "csr":
        return [f"{scheme}://{ui}{hp}"], f"{scheme}://{hp}{own}"
    if sys == "hive":
        return [f"{scheme}://{hp}"], url
    if sys == "bigquery":
        return ["bigquery://"], url
    if sys == "sqlite":
        if not plain:
            return None, url
        p = "/" + path.rstrip("/")
        if op == "schema":
            p = p.rpartition("/")[0]
        return [f"sqlite://{p}"], url
    return ["file://"], url


def run(ctx):
    r = ctx.rng
    child.preload()
    if ctx.replay:
        rec = ctx.replay["record"]
        print("replaying only the recorded observation")
        ctx.judge("Trace_Systems", [rec])
        return
    res = ctx.explore("MC_Systems", "SPECIFICATION Spec\nCONSTANTS\n Full = %s\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n" % ("FALSE" if ctx.quick else "TRUE"), workers=6)
    urls = sorted({(ln["op"], ln["u"]) for ln in res.lines})
    ctx.extra["urls_enumerated_by_tlc"] = len(urls)
    if ctx.quick and len(urls) > 4000:
        urls = r.sample(urls, 4000)
    objs = objects()
    spec = lambda sys, op: [[o[0], o[-1]] + ([""] if op == "ls" else []) for o in objs["csr"]] if sys == "csr" else objs.get(sys, [])
    calls = [(op, u, False, spec(SYS.get(u.partition("://")[0], "none"), op)) for op, u in urls]
    recs = []
    for i in range(0, len(calls), 1500):
        recs += observe(ctx, objs, [], calls[i:i + 1500])
    for _ in range(25 if ctx.quick else 400):
        os_, disk = objects(r), tree(r)
        calls = []
        for _ in range(60):
            op, u, sp, _ = request(r, os_, disk)
            calls.append((op, u, False, sp))
        recs += observe(ctx, os_, [], calls, disk)
    for _ in range(40 if ctx.quick else 600):
        os_, disk = objects(r), tree(r)
        calls, cfgs = [], []
        for _ in range(10):
            op, u, sp, pre = request(r, os_, disk, auth=False)
            if "://" not in u:
                continue
            cs, u = configs(r, op, u)
            if cs is None:
                continue
            cfgs += cs
            calls += [(op, u, True, sp), (op, u, False, sp)]
            scheme, _, rest = u.partition("://")
            if SYS[scheme] not in ("bigquery", "sqlite", "file") and not rest.startswith("["):
                calls.append((op, f"{scheme}://not{rest}", True, sp))
        r.shuffle(cfgs)
        recs += observe(ctx, os_, cfgs, calls, disk)
    for x in recs:      # without a scheme it is a file
        if "://" not in x["url"]:
            x["url"] = "file://" + x["url"]
    kinds = {}
    for x in recs:
        k = (x["url"].partition("://")[0], x["op"], x["strict"], x["st"])
        kinds[str(k)] = kinds.get(str(k), 0) + 1
    ctx.extra["outcomes"] = kinds
    for x in recs[-2:]:
        ctx.sample({k: x[k] for k in ("op", "url", "cfgs", "strict", "st", "names", "conns")})
    ctx.judge("Trace_Systems", recs, per_chunk=300)
