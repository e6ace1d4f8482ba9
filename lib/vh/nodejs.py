"""Drives node-gyp's JavaScript: a helper process answering requests about its modules, and runs of its command line."""
import json
import os
import shutil
import subprocess

from . import core
from .core import HarnessError, REPO, VERIF, Violation

NODE = os.path.realpath(shutil.which("node") or "/usr/bin/node")
BIN = os.path.join(REPO, "bin", "node-gyp.js")
_npm = shutil.which("npm")
MODULES = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(_npm))), "node_modules") if _npm else ""


def base_env(**kw):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "NODE_PATH": MODULES, "LC_ALL": "C.UTF-8", "TZ": "UTC",
         "HOME": "/nonexistent-home", "VERIF_REPO": REPO}
    e.update(kw)
    return {k: v for k, v in e.items() if v is not None}


class Driver:
    def __init__(self, uid=None, repo=None, extra=None):
        r, w = os.pipe()
        os.set_inheritable(w, True)

        def pre():
            os.dup2(w, 3)
            if uid is not None:
                drop(uid)
        script = os.path.join(VERIF, "lib", "js", "driver.js")
        env = base_env()
        if uid is not None:
            here = os.path.join(core.scratch_root(), "driver.js")
            shutil.copy(script, here)
            os.chmod(here, 0o644)
            script = here
            env["VERIF_REPO"] = repo
        env.update(extra or {})
        self.p = subprocess.Popen([NODE, script], stdin=subprocess.PIPE,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=env, preexec_fn=pre, close_fds=False, cwd="/")
        os.close(w)
        self.r = os.fdopen(r, "r", encoding="utf-8", newline="\n")

    def ask(self, op, **kw):
        line = json.dumps(dict(kw, op=op)) + "\n"
        self.p.stdin.write(line.encode())
        self.p.stdin.flush()
        out = self.r.readline()
        if not out:
            raise HarnessError("the node helper died on %s" % line[:2000])
        return json.loads(out)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_drivers = {}


def ask(op, uid=None, binary=None, start_env=None, **kw):
    """Answer of the helper: {"ok": value} or {"error": message, "stack": ...}."""
    key = (os.getpid(), uid, json.dumps(start_env))
    d = _drivers.get(key)
    if d is None:
        d = _drivers[key] = Driver(uid, os.path.dirname(os.path.dirname(binary)) if binary else None, start_env)
    r = d.ask(op, **kw)
    if r.get("fatal"):
        d.close()
        del _drivers[key]
    return r


def value(op, uid=None, binary=None, start_env=None, **kw):
    r = ask(op, uid, binary, start_env, **kw)
    if "error" in r:
        if (os.path.dirname(os.path.dirname(binary)) if binary else REPO) + "/" not in r["stack"]:
            raise HarnessError("%s: %s" % (op, r["stack"] or r["error"]))
        raise Violation("the code failed with %s\n%s\nrequest: %s" % (r["error"], r["stack"][:1500], json.dumps(kw)[:3000]),
                        sig="crash")
    return r["ok"]


_unpriv = None


def unprivileged():
    """(uid, directory of its own, path of the command line readable to it): for runs whose deletions must reach nothing else."""
    global _unpriv
    if _unpriv is None or _unpriv[0] != os.getpid():
        uid = 61000 + os.getpid() % 2000
        root = core.scratch_root()
        for d in (os.path.dirname(root), root):
            os.chmod(d, 0o711)
        binary = BIN
        probe = subprocess.run([NODE, BIN, "-v"], env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/",
                               preexec_fn=lambda: drop(uid))
        if probe.returncode != 0:
            copy = os.path.join(root, "code")
            shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "test"))
            for p, ds, fs in os.walk(copy):
                os.chmod(p, 0o755)
                for f in fs:
                    os.chmod(os.path.join(p, f), 0o755)
            binary = os.path.join(copy, "bin", "node-gyp.js")
        _unpriv = (os.getpid(), uid, binary)
    d = os.path.join(core.scratch_root(), "u")
    if os.path.lexists(d):
        core.rmtree(d)
    os.makedirs(d)
    return _unpriv[1], d, _unpriv[2]


def own(d, uid):
    for p, ds, fs in os.walk(d):
        os.lchown(p, uid, uid)
        for f in ds + fs:
            os.lchown(os.path.join(p, f), uid, uid)


def drop(uid):
    os.setgroups([])
    os.setgid(uid)
    os.setuid(uid)


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def text(self, n=3000):
        return "exit status %s\nstdout: %s\nstderr: %s" % (self.rc, self.out[-n:], self.err[-n:])


def cli(args, cwd, env=None, timeout=60, preexec_fn=None, binary=None, uid=None):
    """Run node-gyp's command line; env is added to a clean environment (None removes a name)."""
    e = base_env()
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    e.pop("VERIF_REPO", None)
    if uid is not None:
        preexec_fn = lambda: drop(uid)
    try:
        p = subprocess.run([NODE, binary or BIN] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, preexec_fn=preexec_fn)
    except subprocess.TimeoutExpired as x:
        return Run("timeout", (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace"))
    return Run(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))
