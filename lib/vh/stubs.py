"""Stand-in tools for real make / ninja builds of generated projects."""
import json
import os
import resource
import signal
import subprocess

from .core import HarnessError, VERIF

TOOLS = ("vcc", "vcxx", "var", "vld", "vact", "nm", "readelf")
_dir = None


def setup():
    """Compile the stand-ins once (before sharding)."""
    global _dir
    base = os.path.join(os.environ["VH_SCRATCH"], "tools")
    os.makedirs(base, exist_ok=True)
    exe = os.path.join(base, "vtool")
    r = subprocess.run(["gcc", "-O1", "-w", "-o", exe, os.path.join(VERIF, "lib", "stubs", "vtool.c")],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("cannot build vtool: " + r.stderr)
    for t in TOOLS:
        p = os.path.join(base, t)
        if not os.path.lexists(p):
            os.symlink("vtool", p)
    _dir = base


def bindir():
    return _dir


def env(log=None, seed=None, jitter=0, mkdir=False, extra=None):
    e = {"PATH": _dir + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8",
         "CC": "vcc", "CXX": "vcxx", "AR": "var", "LD": "vld", "CC_host": "vcc", "CXX_host": "vcxx",
         "AR_host": "var", "LINK": "vcxx", "LD_host": "vld", "NM": "nm", "READELF": "readelf",
         "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/nonexistent", "TMPDIR": os.environ.get("VH_SCRATCH", "/tmp")}
    if log:
        e["VLOG"] = log
    if seed is not None:
        e["VSEED"] = str(seed)
    if jitter:
        e["VJIT"] = str(jitter)
    if mkdir:
        e["VMKDIR"] = "1"
    e.update(extra or {})
    return e


class Build:
    __slots__ = ("rc", "out", "log", "timeout")

    def errors(self):
        return [x for x in self.log if "err" in x]


def run(argv, cwd, log, timeout=120, environ=None, **kw):
    if os.path.exists(log):
        os.unlink(log)
    p = subprocess.Popen(argv, cwd=cwd, env=environ or env(log, **kw), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    b = Build()
    b.timeout = False
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        b.timeout = True
    b.rc = p.returncode
    b.out = out.decode("utf-8", "replace")
    b.log = []
    if os.path.exists(log):
        with open(log, encoding="utf-8", errors="surrogateescape") as f:
            for line in f:
                b.log.append(json.loads(line))
    return b


def decode(s):
    """Arguments are logged one byte per character."""
    return s.encode("latin-1").decode("utf-8", "surrogateescape")


def make(root, *targets, jobs=1, conf=None, log=None, extra=(), **kw):
    a = ["make", "-j%d" % jobs] + (["BUILDTYPE=" + conf] if conf else []) + list(extra) + list(targets)
    return run(a, root, log or os.path.join(root, "..", "vlog"), **kw)


def ninja(root, conf, *targets, jobs=1, log=None, **kw):
    a = ["ninja", "-C", os.path.join("out", conf), "-j%d" % jobs] + list(targets)
    return run(a, root, log or os.path.join(root, "..", "vlog"), **kw)
