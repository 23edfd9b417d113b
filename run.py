#!/usr/bin/env python3
"""usage: run.py PROPERTY [--replay FILE] [--scale X] | --selftest

Runs the generated-case check of one property against /repo's working tree.
VERIF_SEED chooses every random choice, VERIF_TIER is quick or thorough.
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "NO_GCE_CHECK": "true",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent",
    "TZ": "UTC",
    "PYTHONWARNINGS": "ignore",
}


def main():
    if os.environ.get("VCHK_CHILD") != "1":
        env = dict(os.environ, **ENV)
        env["VCHK_CHILD"] = "1"
        for k in ("PYTHONPATH", "PYTHONSTARTUP", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
            env.pop(k, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path[:] = [p for p in sys.path if p not in ("", "/repo")]
    from vchk.boot import boot

    boot()
    args = sys.argv[1:]
    scale = 1.0
    if "--scale" in args:
        i = args.index("--scale")
        scale = float(args[i + 1])
        del args[i : i + 2]
    from vchk import registry

    if args == ["--selftest"]:
        return registry.selftest()
    from vchk import engine

    check = registry.load(args[0])
    if len(args) == 3 and args[1] == "--replay":
        return engine.replay(check, args[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return engine.run_check(check, tier, seed, scale=scale)


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
