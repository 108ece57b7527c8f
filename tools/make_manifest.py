"""Writes /verif/MANIFEST.json: a property is claimed when harness/checks/<id>.py exists."""
import json
import pathlib
import subprocess

V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
NOTE = {
 "types": "TLC explores the TLA+ specification of Recap types and descriptions within the stated bounds and decides every recorded call of the real code against it; trusted: the encoding of Python objects (harness/enc.py) and that inputs outside the generated ones behave alike.",
}
META = json.loads((V / "tools" / "meta.json").read_text())
checks, na = [], []
for i in ids:
    if (V / "harness" / "checks" / f"{i.lower()}.py").exists():
        m = META.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.get("technique", "TLA+ specification checked with TLC; recorded behaviour of the real code decided by TLC against it"),
            "level": m.get("level", "model_checking"),
            "level_note": m.get("note", NOTE["types"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo: the checks drive the public interfaces, with stand-ins for database drivers and storage at library level."}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
