"""Developer tool: as bin/check, but remembers (in $DEV_CACHE) what TLC enumerated and which recorded behaviours it accepted, so that
on a changed tree only recordings that differ are judged.  For mutation analysis; the registered checks do none of this."""
import hashlib, json, os, pathlib, pickle, sys
HERE = pathlib.Path(__file__).resolve().parent.parent / "harness"
sys.path.insert(0, str(HERE)); sys.dont_write_bytecode = True
import main, vlib
CACHE = pathlib.Path(os.environ["DEV_CACHE"]); CACHE.mkdir(exist_ok=True)
def deps(m, seen=None):
    import re
    seen = seen if seen is not None else {}
    f = vlib.SPEC / (m + ".tla")
    if m in seen or not f.exists(): return seen
    s = f.read_text(); seen[m] = hashlib.sha256(s.encode()).hexdigest()
    for x in re.findall(r"[A-Za-z_]+", " ".join(re.findall(r"(?:EXTENDS|INSTANCE)([^\n]*)", s))): deps(x, seen)
    return seen
def h(m, *a): return hashlib.sha256(json.dumps([m, deps(m), *a], sort_keys=True, default=repr).encode()).hexdigest()
def envh(env):
    return {k: (hashlib.sha256(pathlib.Path(v).read_bytes()).hexdigest() if os.path.isfile(str(v)) else str(v)) for k, v in (env or {}).items()}
_explore = vlib.Ctx.explore
def explore(self, module, cfg, **kw):
    f = CACHE / ("x" + h(module, cfg, {k: v for k, v in kw.items() if k != "env"}, envh(kw.get("env"))))
    if f.exists(): return pickle.loads(f.read_bytes())
    r = _explore(self, module, cfg, **kw); r.out = ""
    t = f.with_suffix(f".{os.getpid()}"); t.write_bytes(pickle.dumps(r)); t.rename(f)
    return r
def wrap(orig):
    def judge(self, module, records, *, cfg=None, env=None, **kw):
        records = list(records)
        eh = envh(env)
        good = CACHE / f"good-{self.id}"
        known = set(good.read_text().split()) if good.exists() else set()
        ks = [h(module, cfg, eh, r) for r in records]
        rest = [i for i, k in enumerate(ks) if k not in known]
        print(f"{module}: {len(records)} records, {len(rest)} new", flush=True)
        before = len(self.violations)
        res = orig(self, module, [records[i] for i in rest], cfg=cfg, env=env, **kw)
        if os.environ.get("DEV_LEARN") and len(self.violations) == before:
            with open(good, "a") as fh: fh.write("\n".join(ks[i] for i in rest) + "\n")
        return res
    return judge
vlib.Ctx.explore = explore
vlib.Ctx.judge = wrap(vlib.Ctx.judge); vlib.Ctx.judge_some = wrap(vlib.Ctx.judge_some)
vlib.VERIF = vlib.VERIF
if __name__ == "__main__":
    sys.stdout.reconfigure(encoding="utf-8", errors="replace")
    rc = main.main(sys.argv[1:]); sys.stdout.flush(); os._exit(rc)
