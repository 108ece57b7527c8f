"""Developer tool: plant one bug.  python3 tools/seed.py DIR...  where DIR holds edits.py (list EDITS of (file, old, new)) or
patch.diff, demo.py or demo.sh, and meta.json.  In a scratch copy of /repo: the demo passes, the change is made, the stable
tests pass, the demo fails; then patch.diff is written."""
import json, pathlib, runpy, shutil, subprocess, sys, tempfile
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export RECAP_HOME="$W/home" DEMO_DIR="$W/demo"; mkdir -p "$DEMO_DIR"
timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def seed(d):
    d = pathlib.Path(d).resolve()
    if (d / "demo.py").exists():
        (d / "demo.sh").write_text(DEMO)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed."))
    R = tmp / "repo"
    try:
        sh(f"cp -a /repo {R}"); assert sh(f"git -C {R} status --porcelain").stdout == "", "dirty"
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode: print(r.stdout, r.stderr); print(f"{d.name}: demo fails on the unchanged tree"); return False
        if (d / "edits.py").exists():
            for f, old, new in runpy.run_path(str(d / "edits.py"))["EDITS"]:
                p = R / f; s = p.read_text()
                assert s.count(old) == 1, (f, old, s.count(old))
                p.write_text(s.replace(old, new))
            (d / "patch.diff").write_text(sh(f"git -C {R} diff").stdout)
        else:
            assert sh(f"git -C {R} apply {d}/patch.diff").returncode == 0, "does not apply"
        # every removed line has to be one of the original repository
        mine = [l[1:] for l in (d / "patch.diff").read_text().splitlines() if l.startswith("-") and not l.startswith("---")]
        base = "\n".join(sh(f"git -C {R} show bb24c87:{f}").stdout for f in sh(f"git -C {R} diff --name-only").stdout.split())
        old = [l for l in mine if l.strip() and l not in base.splitlines()]
        t = sh(f"cd {R} && export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC RECAP_HOME={tmp}/home && /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
               f"--timeout=300 --continue-on-collection-errors --basetemp={tmp}/base tests/unit tests/integration/clients/test_fs.py")
        last = t.stdout.strip().splitlines()[-1]
        r = sh(f"bash {d}/demo.sh", cwd=R)
    finally:
        shutil.rmtree(tmp)
    ok = "532 passed" in last and " failed" not in last and r.returncode != 0
    print(d.name, "OK" if ok else "BAD", "|", last, "| demo rc", r.returncode, (r.stderr or r.stdout).strip().splitlines()[-1:], "| changed lines of mine:", old if old else "none")
    if ok and (d / "edits.py").exists(): (d / "edits.py").unlink()
    return ok
if __name__ == "__main__":
    sys.exit(0 if all([seed(d) for d in sys.argv[1:]]) else 1)
