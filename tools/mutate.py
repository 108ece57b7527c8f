"""Developer tool: mutation analysis of the checks.  Makes one-place changes of recap's sources, keeps those that pass the
repository's tests, and runs the checks of the changed file on them (in scratch copies).
  tools/mutate.py gen OUT.jsonl [file-substring...]   list mutants that pass the tests
  tools/mutate.py run IN.jsonl OUT.jsonl [-j N]       run the checks on them (tools/devcheck.py with $DEV_CACHE filled by DEV_LEARN=1)"""
import ast, concurrent.futures, json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
CHECKS = {
 "recap/types.py": "C06 C07 C08 C09 C25 C28", "recap/storage/registry.py": "C01 C04 C05 C27", "recap/server/registry.py": "C03 C02 C27",
 "recap/settings.py": "C20 C21 C22 C27", "recap/clients/__init__.py": "C22 C24", "recap/clients/dbapi.py": "C26 C22 C16 C24",
 "recap/clients/mysql.py": "C22 C24 C26 C16", "recap/clients/postgresql.py": "C16 C17 C22 C24 C26", "recap/clients/snowflake.py": "C22 C24 C26 C16",
 "recap/clients/sqlite.py": "C17 C16 C26 C22 C24", "recap/clients/fs.py": "C23 C22", "recap/clients/confluent_registry.py": "C23 C22 C24",
 "recap/clients/bigquery.py": "C22 C24 C18", "recap/clients/hive_metastore.py": "C19 C22 C24", "recap/converters/avro.py": "C10 C11 C25 C29",
 "recap/converters/json_schema.py": "C12 C13 C25 C29", "recap/converters/protobuf.py": "C14 C15 C25 C29", "recap/converters/dbapi.py": "C16 C17 C29",
 "recap/converters/mysql.py": "C17 C16 C29", "recap/converters/postgresql.py": "C17 C16 C29", "recap/converters/snowflake.py": "C17 C16 C29",
 "recap/converters/sqlite.py": "C17 C16 C29", "recap/converters/bigquery.py": "C18 C29", "recap/converters/hive_metastore.py": "C19 C29",
 "recap/commands.py": "C23 C24 C22", "recap/cli.py": "C23", "recap/server/gateway.py": "C23 C24", "recap/server/app.py": "C23 C03",
}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
def mutants(src):
    tree = ast.parse(src); lines = src.splitlines(True)
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    def span(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def text(n): s, e = span(n); return b[s:e].decode()
    out = []
    def rep(n, new, what): s, e = span(n); out.append((s, e, new, f"{n.lineno}: {what}"))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value); docs.add(n.body[0])
    anns = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            if getattr(n, a, None) is not None:
                for m in ast.walk(getattr(n, a)): anns.add(m)
    for n in ast.walk(tree):
        if n in anns or n in docs: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            rep(n, f"({l} {SWAP[type(n.ops[0])]} {r})", "compare")
            if isinstance(n.ops[0], ast.IsNot) and r == "None": rep(n, f"bool({l})", "truthy")
            if isinstance(n.ops[0], ast.In) and isinstance(n.left, ast.Constant): rep(n, f"bool({r}.get({l}))", "get") 
            rep(n, "True", "cond true"); rep(n, "False", "cond false")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", "and/or")
            sep = " and " if isinstance(n.op, ast.And) else " or "
            for i in range(len(n.values)):
                rest = [f"({text(v)})" for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + sep.join(rest) + ")", f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, f"bool({text(n.operand)})", "drop not")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int): rep(n, str(n.value + 1), "+1"); rep(n, f"({n.value - 1})", "-1")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            if not isinstance(n.test, (ast.Compare, ast.NamedExpr)): rep(n.test, f"(not ({text(n.test)}))", "negate if"); rep(n.test, "True", "if true"); rep(n.test, "False", "if false")
        elif isinstance(n, ast.match_case):
            if n.guard is not None: rep(n.guard, "True", "guard true"); rep(n.guard, "False", "guard false")
            elif not (isinstance(n.pattern, ast.MatchAs) and n.pattern.pattern is None): rep(n.pattern, text(n.pattern) + " if False", "drop case")
        elif isinstance(n, ast.MatchOr):
            for i in range(len(n.patterns)): rep(n, " | ".join(text(p) for j, p in enumerate(n.patterns) if j != i), f"drop alt {i}")
        elif isinstance(n, ast.MatchClass):
            for i in range(len(n.kwd_attrs)):
                kw = [f"{a}={text(p)}" for j, (a, p) in enumerate(zip(n.kwd_attrs, n.kwd_patterns)) if j != i]
                rep(n, text(n.cls) + "(" + ", ".join(kw) + ")", f"drop pattern {n.kwd_attrs[i]}")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.keywords: rep(n, text(n.func.value), f"drop call .{n.func.attr}()")
            if isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and n.func.id[0].islower(): rep(n, text(n.args[0]), f"drop {n.func.id}()")
            for k in n.keywords:
                kws = [text(a) for a in n.args] + [(f"{q.arg}={text(q.value)}" if q.arg else f"**{text(q.value)}") for q in n.keywords if q is not k]
                rep(n, text(n.func) + "(" + ", ".join(kws) + ")", f"drop kw {k.arg}")
        elif isinstance(n, ast.comprehension):
            for t in n.ifs: rep(t, "True", "no filter")
        elif isinstance(n, ast.BinOp):
            rep(n, text(n.left), "left"); rep(n, text(n.right), "right")
            if isinstance(n.op, ast.BitOr): rep(n, f"{text(n.right)} | {text(n.left)}", "swap |")
            if isinstance(n.op, ast.Add): rep(n, f"{text(n.right)} + {text(n.left)}", "swap +")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Delete)) and n not in docs:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.Await))): rep(n, "pass", "drop statement")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice): rep(n, text(n.value), "drop slice")
        elif isinstance(n, (ast.List, ast.Set)) and len(n.elts) > 1 and isinstance(n.ctx if isinstance(n, ast.List) else ast.Load(), ast.Load):
            for i in range(len(n.elts)):
                o, c = ("[", "]") if isinstance(n, ast.List) else ("{", "}")
                rep(n, o + ", ".join(text(x) for j, x in enumerate(n.elts) if j != i) + c, f"drop element {i}")
    seen, res = set(), []
    for s, e, new, what in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m in seen or m == src: continue
        seen.add(m)
        try: t2 = ast.parse(m)
        except SyntaxError: continue
        if ast.dump(t2) == ast.dump(tree): continue
        res.append((m, what, b[s:e].decode()[:120], new[:120]))
    return res
def copy(tmp):
    R = pathlib.Path(tmp) / "repo"; subprocess.run(["cp", "-a", "/repo", str(R)], check=True); return R
def gen(out, pats):
    work = []
    for f in CHECKS:
        if pats and not any(p in f for p in pats): continue
        for m in mutants((REPO / f).read_text()): work.append((f, *m))
    print(len(work), "mutants", flush=True)
    import threading, queue
    q = queue.Queue(); [q.put((i, w)) for i, w in enumerate(work)]; lock = threading.Lock(); kept = []; n = [0]
    def worker():
        with tempfile.TemporaryDirectory(prefix="mut.") as tmp:
            R = copy(tmp)
            env = os.environ | {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "RECAP_HOME": f"{tmp}/home", "PYTHONPATH": str(R)}
            while True:
                try: i, (f, m, what, old, new) = q.get_nowait()
                except queue.Empty: return
                orig = (R / f).read_text(); (R / f).write_text(m)
                try:
                    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", f"--basetemp={tmp}/base", "tests/unit", "tests/integration/clients/test_fs.py"], cwd=R, env=env, capture_output=True, text=True, timeout=200)
                    ok = t.returncode == 0 and "532 passed" in t.stdout
                except subprocess.TimeoutExpired: ok = False
                (R / f).write_text(orig)
                with lock:
                    n[0] += 1
                    if ok: kept.append({"i": i, "file": f, "what": what, "old": old, "new": new, "text": m})
                    if n[0] % 100 == 0: print(n[0], len(kept), flush=True)
    ts = [threading.Thread(target=worker) for _ in range(8)]; [t.start() for t in ts]; [t.join() for t in ts]
    kept.sort(key=lambda k: k["i"])
    with open(out, "w") as fh:
        for k in kept: fh.write(json.dumps(k) + "\n")
    print("kept", len(kept))
def run(inp, out, j):
    ms = [json.loads(l) for l in open(inp)]
    done = {json.loads(l)["i"] for l in open(out)} if os.path.exists(out) else set()
    def one(m):
        with tempfile.TemporaryDirectory(prefix="mutrun.") as tmp:
            R = copy(tmp); (R / m["file"]).write_text(m["text"])
            res = {}
            for c in CHECKS[m["file"]].split():
                try: r = subprocess.run(["/opt/venv/bin/python", "tools/devcheck.py", c], cwd=V, capture_output=True, text=True, errors="replace", timeout=900, env=os.environ | {"RECAP_REPO": str(R), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "PYTHONUTF8": "1", "DEV_CACHE": os.environ.get("DEV_CACHE", "/tmp/devcache")}); res[c] = r.returncode
                except subprocess.TimeoutExpired: res[c] = "timeout"
                if res[c] == 1: break
                if res[c] not in (0, 1): res[c + "_out"] = (r.stdout + r.stderr)[-600:] if res[c] != "timeout" else ""
            return m, res
    with concurrent.futures.ThreadPoolExecutor(j) as ex, open(out, "a") as fh:
        for f in concurrent.futures.as_completed([ex.submit(one, m) for m in ms if m["i"] not in done]):
            m, res = f.result()
            fh.write(json.dumps({k: m[k] for k in ("i", "file", "what", "old", "new")} | {"res": res}) + "\n"); fh.flush()
if __name__ == "__main__":
    if sys.argv[1] == "gen": gen(sys.argv[2], sys.argv[3:])
    else: run(sys.argv[2], sys.argv[3], int(sys.argv[5]) if len(sys.argv) > 5 else 3)
