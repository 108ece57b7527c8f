"""bin/check <property> [--replay FILE]: decide one property on /repo's working tree."""
import importlib
import json
import os
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True


def main(argv):
    pid = argv[0]
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    sys.path.insert(0, HERE)
    import vlib
    sys.path.insert(0, str(vlib.REPO))
    home = tempfile.mkdtemp(prefix="recap-home-")
    for k in list(os.environ):
        if k.lower().startswith("recap_") and k != "RECAP_REPO":
            del os.environ[k]
    os.environ["RECAP_HOME"] = home
    os.chdir(home)          # no .env file of the caller is picked up
    import shutil
    try:
        ctx = vlib.Ctx(pid, tier, seed, replay)
        mod = importlib.import_module("checks." + pid.lower())
        mod.run(ctx)
        return ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        os.chdir("/")
        shutil.rmtree(home, ignore_errors=True)
        try:
            shutil.rmtree(ctx.work, ignore_errors=True)
        except NameError:
            pass


if __name__ == "__main__":
    sys.stdout.reconfigure(encoding="utf-8", errors="replace")
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
