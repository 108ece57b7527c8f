"""Developer tool: runs a check against planted bugs, each in a scratch copy of /repo.  tools/trybugs.py [-j N] [id-prefixes...]"""
import concurrent.futures, json, os, pathlib, shutil, subprocess, sys, tempfile, time
V = pathlib.Path(__file__).resolve().parent.parent
def one(d):
    pid = json.loads((d / "meta.json").read_text())["property"]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="bug."))
    try:
        subprocess.run(["cp", "-a", "/repo", str(tmp / "repo")], check=True)
        a = subprocess.run(["git", "-C", str(tmp / "repo"), "apply", str(d / "patch.diff")], capture_output=True, text=True)
        if a.returncode: return f"{d.name} DOES NOT APPLY {a.stderr}"
        t = time.time()
        r = subprocess.run(["bin/check", pid], cwd=V, capture_output=True, text=True, env=os.environ | {"RECAP_REPO": str(tmp / "repo")})
    finally:
        shutil.rmtree(tmp)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return f"{d.name} {pid} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {len(v)} violations {time.time()-t:.0f}s " + ((r.stdout + r.stderr)[-400:] if r.returncode not in (0, 1) else "")
def main():
    want, n = sys.argv[1:], 1
    if want[:1] == ["-j"]: n, want = int(want[1]), want[2:]
    ds = [d for d in sorted((V / "seeded").iterdir()) if not want or any(d.name.startswith(w) for w in want)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, d) for d in ds]): print(f.result(), flush=True)
main()
