"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (by subject)."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
PROP = json.loads((V / "tools" / "fixed_props.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bb24c87..HEAD"], capture_output=True, text=True).stdout
f = V / "known_findings.json"
d = json.loads(f.read_text())
d["fixed"] = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        pid = next((v for k, v in PROP.items() if k in s), None)
        if pid is None:
            raise SystemExit("no property for: " + s)
        d["fixed"].append(f"fixed: property={pid} {h} {s[5:]}")
f.write_text(json.dumps(d, indent=1, ensure_ascii=False) + "\n")
