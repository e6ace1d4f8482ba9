"""Drive gyp's command line in a forked child; observe through a custom output format."""
import io
import json
import os
import resource
import shutil
import signal
import sys

from .core import HarnessError, REPO, VERIF, fresh_dir, rmtree

PYLIB = os.path.join(REPO, "gyp", "pylib")
VDUMP = os.path.join(VERIF, "lib", "vdump.py")
FMT = VDUMP + "-linux"
if PYLIB not in sys.path:
    sys.path.insert(0, PYLIB)

_loaded = False


def load():
    """Import the code under test (once, before sharding)."""
    global _loaded
    if _loaded:
        return
    import gyp
    import gyp.input
    import gyp.common
    import gyp.simple_copy
    assert os.path.realpath(gyp.__file__).startswith(os.path.realpath(PYLIB)), gyp.__file__
    _loaded = True


class Result:
    __slots__ = ("rc", "out", "err", "crash", "timeout", "dump", "sig", "value", "ref_commands", "ref_filelists")

    def ok(self):
        return self.rc == 0


def forked(fn, cwd=None, env=None, cpu=60, raw_env=False, wall=None):
    """Run fn() in a forked child with stdout/stderr captured. Returns Result (value = JSON result)."""
    load()
    base = fresh_dir("fork")
    fo, fe, fv = (os.path.join(base, n) for n in ("out", "err", "val"))
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            os.setpgid(0, 0)
            o = os.open(fo, os.O_CREAT | os.O_WRONLY, 0o600)
            e = os.open(fe, os.O_CREAT | os.O_WRONLY, 0o600)
            n = os.open(os.devnull, os.O_RDONLY)
            os.dup2(n, 0)
            os.dup2(o, 1)
            os.dup2(e, 2)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, "w"), encoding="utf-8", line_buffering=False)
            sys.stderr = io.TextIOWrapper(io.FileIO(2, "w"), encoding="utf-8", line_buffering=True)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if env:
                for k, v in env.items():
                    if v is None:
                        os.environ.pop(k, None)
                    else:
                        os.environ[k] = v
            if cwd:
                os.chdir(cwd)
            try:
                v = fn()
                with open(fv, "w") as f:
                    json.dump(v, f)
                rc = 0
            except SystemExit as x:
                if x.code is None:
                    rc = 0
                elif isinstance(x.code, int):
                    rc = x.code & 255
                else:
                    sys.stderr.write(str(x.code) + "\n")
                    rc = 1
            except BaseException:
                import traceback
                traceback.print_exc()
                rc = 70
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    if wall:
        def expire(*a):
            os.killpg(pid, signal.SIGKILL)
        old = signal.signal(signal.SIGALRM, expire)
        signal.setitimer(signal.ITIMER_REAL, wall)
    _, st = os.waitpid(pid, 0)
    if wall:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    try:
        os.killpg(pid, signal.SIGKILL)   # stray pool workers
    except OSError:
        pass
    r = Result()
    r.dump = None
    r.value = None
    r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
    r.timeout = r.sig in (signal.SIGXCPU, signal.SIGKILL)
    r.rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -r.sig
    r.crash = r.rc == 70

    def rd(p):
        if not os.path.exists(p):
            return ""
        with open(p, encoding="utf-8", errors="replace") as f:
            return f.read()
    r.out, r.err = rd(fo), rd(fe)
    if r.rc == 0 and os.path.exists(fv):
        with open(fv) as f:
            r.value = json.load(f)
    return r


def gyp_main(args, cwd, env=None, cpu=60, argv0=None):
    """gyp.main(args) with the process state of a fresh command-line run."""
    def fn():
        import gyp
        sys.argv[0] = argv0 or os.path.join(REPO, "gyp", "gyp_main.py")
        rc = gyp.main(list(args))
        if rc:
            sys.exit(rc)
        return 0
    e = {"HOME": None, "GYP_CONFIG_DIR": None}
    e.update(env or {})
    return forked(fn, cwd=cwd, env=e, cpu=cpu)


def dump(args, cwd, cfg=None, env=None, cpu=60):
    """Run gyp with the dumping format; r.dump = what a generator receives (None if rejected)."""
    out = os.path.join(fresh_dir("dumpout"), "dump.json")
    e = {"VDUMP_OUT": out, "VDUMP_CFG": json.dumps(cfg or {})}
    e.update(env or {})
    r = gyp_main(["-f", FMT] + list(args), cwd, env=e, cpu=cpu)
    if r.rc == 0:
        if not os.path.exists(out):
            raise HarnessError("no dump: %s" % r.err)
        with open(out) as f:
            r.dump = json.load(f)
    return r


def write_tree(root, files):
    """files: {relative path: str content or Python object (written as a gyp literal)}"""
    for rel, content in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not isinstance(content, str):
            content = literal(content)
        with open(p, "w", encoding="utf-8") as f:
            f.write(content)


def literal(x):
    return repr(x) + "\n"
