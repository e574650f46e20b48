"""run.py check <ID> | replay <ID> <file> | list"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1", "TZ": "UTC"}


def main():
    env = os.environ
    if any(env.get(k) != v for k, v in WANT.items()) and not env.get("DST_KEEP_ENV"):
        env.update(WANT)
        env["DST_KEEP_ENV"] = "1"
        os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
    os.environ["TZ"] = env.get("TZ", "UTC")
    sys.path.insert(0, HERE)
    from dst import engine, props
    cmd, pid = sys.argv[1], sys.argv[2]
    mod = importlib.import_module(f"dst.props.{pid.lower()}")
    if cmd == "check":
        tier = env.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        code = engine.run_check(mod.CHECK, tier, int(env.get("VERIF_SEED", "1")))
    elif cmd == "replay":
        code = engine.replay(mod.CHECK, sys.argv[3])
    else:
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(2)
