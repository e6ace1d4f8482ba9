#!/usr/bin/env python3
"""checks/run.py <ID> [--replay FILE | --only CAMPAIGN]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(os.path.dirname(HERE), "lib")

KEEP = ("PATH", "HOME", "VERIF_", "VH_", "TMPDIR", "USER", "LANG_")
if os.environ.get("VH_REEXEC") != "1":
    env = {k: v for k, v in os.environ.items() if k.startswith(KEEP)}
    env.update(VH_REEXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache", LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC",
               PYTHONUTF8="1")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

sys.dont_write_bytecode = True
sys.path.insert(0, LIB)
sys.path.insert(0, HERE)


def run():
    import importlib
    import traceback
    try:
        mod = importlib.import_module(sys.argv[1].lower())
        from vh import core
        rc = core.main(mod, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    run()
