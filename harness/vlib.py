"""Shared machinery of all checks: scratch space, TLC, verdicts, evidence, findings.

A check is a module harness/checks/<id>.py with a function run(ctx).  It drives the
real code in /repo through its public interface, records what it observed, and hands
the records to TLC, which decides them against the specification in /verif/spec.
"""
from __future__ import annotations

import concurrent.futures
import hashlib
import json
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("RECAP_REPO", "/repo"))
SPEC = VERIF / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_JOBS", "6"))


class MachineryError(Exception):
    pass


def stable_hash(obj) -> str:
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr).encode()
    ).hexdigest()[:12]


class TlcResult:
    def __init__(self):
        self.lines: list = []      # decoded JSON values printed by the specification
        self.states = 0            # states generated
        self.distinct = 0
        self.depth = 0
        self.ok = False
        self.error = None          # None | "invariant:<name>" | "eval" | "other"
        self.error_at = None       # last value of the trace position l, if any
        self.out = ""


def run_tlc(module: str, cfg: str, *, env=None, workers=1, extra=(), timeout=800,
            heap="3g", simulate=None) -> TlcResult:
    """Run TLC on spec/<module>.tla with spec/<cfg> (or a literal cfg text)."""
    work = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=os.environ.get("VERIF_WORK")))
    try:
        for f in SPEC.glob("*.tla"):
            os.symlink(f, work / f.name)
        cfg_path = work / f"{module}.run.cfg"
        cfg_path.write_text((SPEC / cfg).read_text() if cfg.endswith(".cfg") else cfg)
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-XX:+UseParallelGC", f"-Xmx{heap}",
               "-Xss512m", "-XX:ParallelGCThreads=2",
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.MSBDiskFPSet",
               "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers), "-metadir", str(work / "meta"),
               "-config", str(cfg_path)]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [str(work / f"{module}.tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
            out = p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as x:
            raise MachineryError(f"TLC timed out on {module} after {timeout}s") from x
    finally:
        shutil.rmtree(work, ignore_errors=True)
    r = TlcResult()
    r.out = out
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.lines.append(json.loads(_unquote(line)))
            except ValueError:
                pass
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    if simulate:
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            r.states = r.distinct = int(m.group(1))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))
    if "No error has been found" in out or (simulate and "Error:" not in out and p.returncode == 0):
        r.ok = True
    else:
        m = re.search(r"Invariant (\S+) is violated", out)
        if m:
            r.error = "invariant:" + m.group(1)
        elif re.search(r"Action property (\S+) .*is violated|Temporal properties were violated|property.*is violated", out):
            r.error = "property"
        elif "Deadlock reached" in out:
            r.error = "deadlock"
        elif "evaluating" in out or "TLC threw an unexpected exception" in out or "Attempted to" in out:
            r.error = "eval"
        else:
            r.error = "other"
        ls = re.findall(r"(?:^|/\\ |\s)l = (\d+)", out)
        if ls:
            r.error_at = int(ls[-1])
    return r


def _unquote(line: str) -> str:
    """TLC prints a string value with only \\ and \" (and control characters) escaped."""
    s = line[1:-1]
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            n = s[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


def call(fn, *args, limit=20, **kw):
    """Run the real code; return ("ok", value) | ("err", exception) | ("hang", None)."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return "ok", fn(*args, **kw)
    except Hang:
        return "hang", None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001 - any failure is an observation
        return "err", e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Ctx:
    def __init__(self, pid: str, tier: str, seed: int, replay=None):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{pid}/{seed}")
        self.t0 = time.time()
        self.work = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        os.environ["VERIF_WORK"] = str(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples: list = []
        self.violations: list[dict] = []
        self.known_seen: dict[str, str] = {}
        self.extra: dict = {}
        self.assumptions: list[str] = []
        self.replay = replay
        kf = json.loads((VERIF / "known_findings.json").read_text())
        self.known = {k["key"]: k for k in kf["known"] if k["property"] == pid}

    # -- exploring the specification itself -------------------------------------
    def explore(self, module, cfg, **kw) -> TlcResult:
        """Model-check a specification; its own properties must hold."""
        r = run_tlc(module, cfg, **kw)
        if not r.ok:
            raise MachineryError(f"specification {module} fails its own check: {r.error}\n" + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.states
        return r

    # -- validating recorded behaviour ------------------------------------------
    def judge(self, module, records, *, cfg=None, per_chunk=400, what=lambda rec, bad: "", key=None, env=None, heap="3g"):
        """Let TLC step through the recorded behaviours; report each record it rejects.

        The trace module prints one JSON object {"i": index, "bad": [clauses]} for a
        rejected record and consumes every record (total verdict).
        """
        records = list(records)
        if not records:
            return []
        cfg = cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION AllConsumed\n"
        n = max(1, min(NPROC, -(-len(records) // per_chunk)))
        n = max(n, -(-len(records) // (per_chunk * 8)))
        chunks = [list(range(k, len(records), n)) for k in range(n)]
        bad: list[tuple[int, list]] = []

        def one(idx):
            res, todo = [], list(idx)
            st = tr = 0
            while todo:
                f = self.work / f"trace-{os.getpid()}-{todo[0]}-{len(todo)}.ndjson"
                with open(f, "w") as fh:
                    for i in todo:
                        fh.write(json.dumps(records[i], ensure_ascii=True) + "\n")
                r = run_tlc(module, cfg, env={"TRACE": str(f), **(env or {})}, heap=heap)
                f.unlink()
                st += r.distinct
                tr += r.states
                for ln in r.lines:
                    if isinstance(ln, dict) and "bad" in ln:
                        res.append((todo[ln["i"] - 1], ln["bad"]))
                if r.ok:
                    break
                if r.error == "eval" and r.error_at:
                    at = r.error_at - 1
                    res.append((todo[at], ["outside the specification: " + _first_error(r.out)]))
                    todo = todo[at + 1:]
                    if len([b for b in res if str(b[1]).find("outside") >= 0]) > 5:
                        break
                    continue
                raise MachineryError(f"{module}: {r.error}\n" + r.out[-3000:])
            return res, st, tr

        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            for res, st, tr in ex.map(one, chunks):
                bad += res
                self.states += st
                self.transitions += tr
        self.traces += len(records)
        seen = set()
        for i, clauses in sorted(bad, key=lambda b: b[0]):
            rec = records[i]
            if (i, str(clauses)) in seen:
                continue
            seen.add((i, str(clauses)))
            self.violation(clauses, rec, key=(key(rec, clauses) if key else None))
        return bad

    def judge_some(self, module, records, *, cfg=None, per_chunk=100, key=None, workers=1, heap="3g", env=None):
        """As judge, for specifications with hidden choices: a record is accepted if TLC finds some
        behaviour that explains it to its end (the module prints {"done": index})."""
        records = list(records)
        if not records:
            return
        cfg = cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n"
        n = max(1, min(NPROC, -(-len(records) // per_chunk)))
        n = max(n, -(-len(records) // (per_chunk * 4)))
        chunks = [list(range(i, len(records), n)) for i in range(n)]

        def one(idx):
            f = self.work / f"some-{os.getpid()}-{idx[0]}-{len(idx)}.ndjson"
            with open(f, "w") as fh:
                for i in idx:
                    fh.write(json.dumps(records[i], ensure_ascii=True) + "\n")
            r = run_tlc(module, cfg, env={"TRACE": str(f), **(env or {})}, heap=heap, workers=workers)
            f.unlink()
            if not r.ok and r.error == "eval" and len(idx) > 1:
                # isolate the record that the specification cannot evaluate
                a, b = one(idx[:len(idx) // 2]), one(idx[len(idx) // 2:])
                return a[0] + b[0], a[1] + b[1], a[2] + b[2]
            if not r.ok and r.error != "eval":
                raise MachineryError(f"{module}: {r.error}\n" + r.out[-3000:])
            done = {ln["done"] for ln in r.lines if isinstance(ln, dict) and "done" in ln}
            res = []
            for pos, i in enumerate(idx, 1):
                if pos in done:
                    continue
                notes = [ln for ln in r.lines if isinstance(ln, dict) and ln.get("i") == pos]
                far = max((x["k"] for x in notes), default=0)
                why = sorted({w for x in notes if x["k"] == far for w in x["bad"]}) or [
                    "outside the specification: " + _first_error(r.out) if not r.ok else "no behaviour explains it"]
                res.append((i, [f"at event {far}: " + w for w in why]))
            return res, r.distinct, r.states

        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            out = list(ex.map(one, chunks))
        self.traces += len(records)
        for res, st, tr in out:
            self.states += st
            self.transitions += tr
            for i, why in res:
                self.violation(why, records[i], key=(key(records[i], why) if key else None))

    def violation(self, clauses, rec, key=None):
        if key is not None and key in self.known:
            self.known_seen[key] = self.known[key]["what"]
            return
        self.violations.append({"clauses": clauses, "record": rec, "key": key})

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    # -- finishing --------------------------------------------------------------
    def finish(self, level, replaying=False) -> int:
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples or ["(none)"], **self.extra},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.id}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        for k, what in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.id} {what}")
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            d = VERIF / "replays"
            d.mkdir(exist_ok=True)
            for v in self.violations[:5]:
                f = d / f"{self.id}-{stable_hash(v)}.json"
                f.write_text(json.dumps(v, indent=1, default=repr) + "\n")
                print(f"VIOLATION property={self.id} replay={f}")
                print("  " + "; ".join(map(str, v["clauses"]))[:600])
                print("  " + json.dumps(v["record"], default=repr)[:1200])
            if len(self.violations) > 5:
                print(f"  ... and {len(self.violations) - 5} more")
            return 1
        print(f"{self.id} ok: {self.states} states, {self.traces} recorded behaviours validated, "
              f"{time.time() - self.t0:.1f}s")
        return 0


def _first_error(out: str) -> str:
    m = re.search(r"Error: (.*(?:\n.*){0,3})", out)
    return (m.group(1) if m else "?").replace("\n", " ")[:300]
