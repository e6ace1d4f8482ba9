"""Gyp runs in processes with chosen hash seeds and directory-listing orders.

One server process per hash seed (started lazily, one set per shard) forks a child per request.
"""
import atexit
import json
import os
import subprocess
import sys

LIB = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_servers = {}


def ask(seed, args, cwd, env=None, order=0):
    key = (os.getpid(), seed)
    p = _servers.get(key)
    if p is None or p.poll() is not None:
        e = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen([sys.executable, "-c",
                              "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True\n"
                              "from vh import hashserver; hashserver.serve()" % LIB],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=e)
        _servers[key] = p
        atexit.register(stop, p)
    p.stdin.write(json.dumps({"args": args, "cwd": cwd, "env": env or {}, "order": order}) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        from .core import HarnessError
        raise HarnessError("hash server died")
    return json.loads(line)


def stop(p):
    try:
        p.stdin.close()
        p.wait(5)
    except Exception:
        p.kill()


def shutdown():
    for k in list(_servers):
        stop(_servers.pop(k))


def shuffled(order):
    import random
    rnd = random.Random(order)
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(*a):
        r = sorted(real_listdir(*a))
        rnd.shuffle(r)
        return r

    class Scan:
        def __init__(self, it):
            self.e = sorted(it, key=lambda x: str(x.name))
            rnd.shuffle(self.e)
            self.i = iter(self.e)

        def __iter__(self):
            return self.i

        def __next__(self):
            return next(self.i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass
    os.listdir = listdir
    os.scandir = lambda *a: Scan(real_scandir(*a))


def serve():
    from vh import gyprun
    gyprun.load()
    reply = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)

        def fn():
            import gyp
            shuffled(q["order"])
            sys.argv[0] = os.path.join(gyprun.REPO, "gyp", "gyp_main.py")
            rc = gyp.main(list(q["args"]))
            if rc:
                sys.exit(rc)
            return 0
        e = {"HOME": None, "GYP_CONFIG_DIR": None}
        e.update(q["env"])
        r = gyprun.forked(fn, cwd=q["cwd"], env=e, cpu=60)
        reply.write(json.dumps({"rc": r.rc, "out": r.out, "err": r.err}) + "\n")
        reply.flush()
