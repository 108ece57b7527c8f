"""C27: what the sources of configuration decide."""
import json
import os
import pathlib
import shutil
import tempfile
import urllib.parse as up

import child
from vlib import REPO

ASCII = "".join(chr(i) for i in range(32, 127) if chr(i) != "%")
PIECES = ["a", "b", "a b", "x%20y", "100%", "ü", "日本", "x#y", "x?y", "a+b", "a&b=c", "[x]", "a;b", "a@b", "a:b", "it's", "%C3%BC", "{x}", "a,b", "~x", "A", "x*", "schemas", ".x", "x.json", "$x", "a\"b", " lead", "trail ", "$HOME", "${HOME}", "~", "%HOME%", "..."]
NAMES = ["n", "a b", "ü", "x%20y", ".", "n.json", "schemas", "a+b"]
VARS = {"HOME": "RECAP_HOME", "SECRETS": "RECAP_SECRETS", "URL": "RECAP_REGISTRY_STORAGE_URL", "URLS": "RECAP_URLS", "ARGS": "RECAP_REGISTRY_STORAGE_URL_ARGS"}


def enc(p):
    return up.quote(p, safe=ASCII)


def plain(u):
    return "".join(c if ord(c) < 128 else up.quote(c) for c in u)


def variable(k):
    return VARS["ARGS"] + "__" + k[6:].upper() if k.startswith("ARGS__") else VARS[k]


def text(k, v):
    """A value as it stands in a variable or file."""
    return json.dumps(v) if k == "URLS" else json.dumps({a: json.loads(b) for a, b in v}) if k == "ARGS" else json.loads(v) if k.startswith("ARGS__") else v


def _files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            s = os.stat(os.path.join(r, f))
            out[os.path.join(r, f)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return out


def _run(base, c, puts):
    """A server's run; c as for the specification, but with plain values."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    for k in list(os.environ):
        if k.lower().startswith("recap_"):
            del os.environ[k]
    os.environ["HOME"] = c["user"]
    os.environ["TMPDIR"] = base + "/tmp"
    tempfile.tempdir = None
    low = c.get("low")
    for k, v in c["env"]:
        n = variable(k)
        os.environ[n.lower() if low and k not in ("HOME", "SECRETS") else n] = text(k, v)
    os.chdir(c["cwd"])
    import sys
    sys.path.insert(0, base + "/app")
    sys.path[:] = [p for p in sys.path if p != str(REPO)]
    seen, paths = [], []
    if any(k == "URL" and v.startswith("probe:") for k, v in c["env"] + c["dot"] + [x[1:] for x in c["sec"]]):
        import fsspec
        from fsspec.implementations.local import LocalFileSystem

        class Probe(LocalFileSystem):
            protocol = "probe"

            def __init__(self, **kw):
                seen.append(kw)
                super().__init__()

            def ls(self, path, *a, **kw):
                paths.append(path)
                return super().ls(path, *a, **kw)

            def makedirs(self, path, *a, **kw):
                paths.append(path)
                return super().makedirs(path, *a, **kw)

            @classmethod
            def _strip_protocol(cls, path):
                return "/" + (path[8:] if path.startswith("probe://") else path).strip("/")
        fsspec.register_implementation("probe", Probe, clobber=True)
    before = _files(base)
    out = {"st": "ok", "names": [], "read": [], "files": [], "urls": [], "args": [], "path": []}
    try:
        from recap.server.app import app
        from recap import commands
        if not sys.modules["recap.settings"].__file__.startswith(base + "/app/"):
            raise SystemExit("another package than the copy was imported")
        out["urls"] = [plain(x) for x in commands.ls() or []]
        a = child.http(app, "GET", "/registry/")
        names = child.as_json(a["body"])
        out["path"] = [enc(x) for x in Probe._strip_protocol(str(paths[-1])).split("/") if x] if paths else []
        out["args"] = [[k, json.dumps(v)] for k, v in (seen[-1] if seen else {}).items() if k not in ("target_protocol", "target_options", "fo")]
        if a["status"] != 200 or not isinstance(names, list):
            return {**out, "st": f"ls answers {a['status']}"}
        out["names"] = [enc(x) for x in names]
        q = lambda n: up.quote(n, safe="")
        for n in names:
            a = child.http(app, "GET", "/registry/" + q(n))
            b = child.as_json(a["body"])
            out["read"].append([enc(n), b[0].get("doc", "") if a["status"] == 200 and isinstance(b, list) and isinstance(b[0], dict) else f"status {a['status']}"])
        for n, x in puts:
            a = child.http(app, "POST", "/registry/" + q(n), headers=[(b"content-type", b"application/x-recap+json")], body=json.dumps({"type": "int", "bits": 32, "doc": x}).encode())
            if a["status"] != 200:
                return {**out, "st": f"post answers {a['status']}"}
    except Exception as e:  # noqa: BLE001
        return {**out, "st": f"{type(e).__name__}: {str(e)[:200]}"}
    after = _files(base)
    out["files"] = [enc(f) for f, s in after.items() if before.get(f) != s]
    return out


def record(c):
    """The configuration as the specification reads it."""
    def v(k, x):
        return enc(x) if k in ("HOME", "SECRETS") else plain(x) if k == "URL" else [plain(u) for u in x] if k == "URLS" else x
    pairs = lambda ps: [[k, v(k, x)] for k, x in ps]
    return {"cwd": enc(c["cwd"]), "user": enc(c["user"]), "env": pairs(c["env"]), "dot": pairs(c["dot"]), "sec": [[enc(d), k, v(k, x)] for d, k, x in c["sec"]]}


def place(c, d):
    def p(x):
        return x.replace("/S/", d + "/") if isinstance(x, str) else [p(y) for y in x] if isinstance(x, list) else {k: p(y) for k, y in x.items()} if isinstance(x, dict) else x
    return p(c)


def history(work, runs):
    """runs: (configuration with /S for the scratch folder, puts)"""
    base = tempfile.mkdtemp(dir=work)
    try:
        os.chmod(base, 0o755)
        shutil.copytree(REPO / "recap", base + "/app/recap", ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        for x in ("w", "me", "tmp"):
            os.mkdir(f"{base}/{x}")
        out = []
        for c0, puts in runs:
            c = place(c0, base)
            dot = pathlib.Path(base + "/app/.env")
            dot.unlink(missing_ok=True)
            if c["dot"]:
                dot.write_text("# settings\n" + "".join(f"{'export ' if c.get('low') else ''}{variable(k)}='{esc(text(k, v))}'\n" for k, v in c["dot"]), encoding="utf-8")
            secs = []
            for d, k, v in c["sec"]:
                p = pathlib.Path(d)
                p.mkdir(parents=True, exist_ok=True)
                f = p / (variable(k) if c.get("low") else variable(k).lower())
                f.write_text(text(k, v) + ("\n" if c.get("low") else ""), encoding="utf-8")
                secs.append(f)
            if os.getuid() == 0:
                for r, ds, fs in os.walk(base):
                    for f in [r] + [os.path.join(r, x) for x in fs]:
                        if os.stat(f).st_uid != 65534:
                            os.chown(f, 65534, 65534)
            got = child.forked(_run, base, c, puts)
            for f in secs:
                f.unlink()
            out.append({"c": record(c), "puts": [[enc(n), x] for n, x in puts], **got, "give": [c0, puts]})
        return {"runs": out}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def esc(s):
    return s.replace("\\", "\\\\").replace("'", "\\'")


def spell(r, path):
    """A file: URL of a path."""
    x = r.random()
    if x < .4:
        t = up.quote(path)
    elif x < .5:
        t = up.quote(path).lower() if path.isascii() and path == path.lower() else up.quote(path)
    else:
        t = "".join(c if c not in '#?%[]"\\^`{|}' and not (c == " " and x < .7) else up.quote(c) for c in path)
        if t.endswith(" "):
            t = t[:-1] + "%20"
    return ("FILE" if r.random() < .05 else "file") + "://" + t + r.choice(["", "", "/", "//"])


def config(r, places):
    homes, roots, secs = places
    env, dot, sec = [], [], []
    if r.random() < .6:
        env.append(["HOME", r.choice(homes + [""])])
    if r.random() < .4:
        dot.append(["HOME", r.choice(homes)])
    if r.random() < .45:
        env.append(["URL", spell(r, r.choice(roots))])
    if r.random() < .25:
        dot.append(["URL", spell(r, r.choice(roots))])
    if r.random() < .5:
        r.choice([env, dot]).append(["SECRETS", r.choice(secs)])
    url = lambda: r.choice(["mysql://u:p@h/a", "postgresql://h:5/b", "http+csr://h/x?k=1", "sqlite:////x.db", "bigquery://", "mysql://u:p%40@[::1]/a#f"])
    for src in (env, dot):
        if r.random() < .3:
            src.append(["URLS", [url() for _ in range(r.randint(0, 3))]])
    for s in secs:
        if r.random() < .5:
            d = s if s.startswith("/") else "/S/w/" + s
            if r.random() < .5:
                sec.append([d, "URL", spell(r, r.choice(roots))])
            if r.random() < .5:
                sec.append([d, "URLS", [url() for _ in range(r.randint(0, 3))]])
    if r.random() < .3:        # files of secrets elsewhere mean nothing
        d = r.choice(homes + ["/S/me", "/S/me/.recap", "/S/w", "/S/app"])
        sec.append([d if d.startswith("/") else "/S/w/" + d, r.choice(["URLS"]), [url()]])
    dot = [x for x in dot if "${" not in str(x[1])]        # .env files have references to variables
    low = r.random() < .3
    if low:        # one variable, not two that differ in case
        dot = [x for x in dot if not any(x[0] == e[0] for e in env)]
    r.shuffle(env)
    return {"cwd": "/S/w", "user": "/S/me", "env": env, "dot": dot, "sec": sec, "low": low}


def options(r):
    """A storage whose file system records its options."""
    val = lambda: json.dumps(r.choice(["v", "a b", "5", "true", "", "ü", "{}", 5, True, None, 0.5, ["x"]]))
    sval = lambda: json.dumps(r.choice(["v", "a b", "5", "true", "ü", "x=y", "a,b"]))
    keys = ["key", "secret_key", "anon", "endpoint_url", "k2"]
    env, dot, sec = [], [], []
    (env if r.random() < .7 else dot).append(["URL", "probe:///S/" + r.choice(["p1", "p2/x"])])
    for src in (env, dot):
        if r.random() < .5:
            src.append(["ARGS", [[k, val()] for k in r.sample(keys, r.randint(0, 3))]])
        for k in r.sample(keys, r.choice([0, 1, 2])):
            if "__" not in k and r.random() < .6:
                src.append(["ARGS__" + k, sval()])
    if r.random() < .4:
        env.append(["SECRETS", "/S/s1"])
        sec.append(["/S/s1", "ARGS", [[k, val()] for k in r.sample(keys, r.randint(0, 3))]])
    return {"cwd": "/S/w", "user": "/S/me", "env": env, "dot": dot, "sec": sec}


def random_history(r):
    p = lambda: "/".join(r.choice(PIECES) for _ in range(r.choice([1, 1, 2])))
    homes = list(dict.fromkeys(["/S/H" + p(), "H" + p(), "/S/H" + p()]))
    roots = ["/S/U" + p(), "/S/V" + p()]
    if r.random() < .4:
        h = r.choice(homes)
        roots.append((h if h.startswith("/") else "/S/w/" + h) + "/schemas")
    if r.random() < .3:
        roots.append("/S/me/.recap/schemas")
    secs = ["/S/s1", "s2" + r.choice(["", "/ü x"])]
    runs, n = [], 0
    for _ in range(r.choice([2, 3, 4])):
        puts = []
        for nm in r.sample(NAMES, r.choice([0, 1, 2, 3])):
            n += 1
            puts.append([nm, f"x{n}"])
        runs.append((config(r, (homes, roots, secs)), puts))
        if r.random() < .4:
            runs.append((runs[-1][0], []))
    return runs if not nested(runs) else random_history(r)


def nested(runs):
    """One storage inside another: a listing of the outer one has names nobody stored."""
    rs = set()
    for c, _ in runs:
        for src in (c["env"], c["dot"], [x[1:] for x in c["sec"]]):
            for k, v in src:
                if k == "URL":
                    rs.add(up.unquote(v.partition("://")[2]).strip("/") + "/")
                if k == "HOME":
                    rs.add(((v if v.startswith("/") else "/S/w/" + v).strip("/") if v else "S/me/.recap") + "/schemas/")
    rs = {x.replace("//", "/") for x in rs}
    return any(a != b and a.startswith(b) for a in rs for b in rs)


def run(ctx):
    r = ctx.rng
    child.preload()
    os.chmod(ctx.work, 0o755)
    if ctx.replay:
        ctx.judge("Trace_Config", [history(ctx.work, [x["give"] for x in ctx.replay["record"]["runs"]])])
        return
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Pairs = %s\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n"
    res = ctx.explore("MC_Config", cfg % "FALSE", workers=6)
    ctx.explore("MC_Config", cfg % "TRUE", workers=6)
    ctx.extra["configurations_enumerated_by_tlc"] = len(res.lines)
    singles = sorted(res.lines, key=json.dumps)
    r.shuffle(singles)
    hs = []
    for i in range(0, len(singles) if not ctx.quick else 120, 3):
        runs = []
        for j, c in enumerate(singles[i:i + 3]):
            c = {**c, "env": [[k, up.unquote(v) if k in ("HOME", "SECRETS") else v] for k, v in c["env"]]}
            runs += [(c, [["n", f"x{j}"]]), (c, [])] if j == 1 else [(c, [["n", f"x{j}"]])]
        hs.append(runs)
    for _ in range(60 if ctx.quick else 1500):
        hs.append(random_history(r))
    for _ in range(30 if ctx.quick else 600):
        hs.append([(options(r), [])])
    recs = child.forked_all(history, [(ctx.work, h) for h in hs], limit=300)
    for x in recs[45:47]:
        ctx.sample([{"config": y["c"], "put": y["puts"], "files": y["files"][:4]} for y in x["runs"]])
    ctx.extra["server_runs"] = sum(len(x["runs"]) for x in recs)
    ctx.judge("Trace_Config", recs, per_chunk=40)
