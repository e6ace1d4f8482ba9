"""C40: whole invocations with sequences of commands, stand-in tools and failures, against a sequential model.

Oracle: a model that runs the commands one after another says which tools must have run with which result, what is printed,
what is in build/ and the development directory afterwards, and whether the exit status is zero.
"""
import json
import os

from hypothesis import strategies as st

from vh import distserver, nodejs
from vh.core import Campaign, Violation

ID = "C40"
LEVEL = "fault_enumeration"
RULE = "a case is non-trivial when it has at least two commands, or one that fails"

COMMANDS = ["clean", "configure", "configure", "build", "build", "rebuild", "rebuild", "list", "ls", "install", "remove", "rm"]
OUT = [0] * 5 + [1, 3, 255, "KILL", "TERM", "vanish"]


@st.composite
def cases(draw):
    cmds = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4, 5]))):
        c = draw(st.sampled_from(COMMANDS))
        cmds.append([c, draw(st.sampled_from(["8.1.2", "v9.0.0", "9.1.1"]))] if c in ("install", "remove", "rm") else [c])
    if len(cmds) > 1 and draw(st.integers(0, 3)) == 2:
        cmds.insert(draw(st.integers(0, len(cmds))), ["rebuild"])
    return {"cmds": cmds, "python": draw(st.lists(st.sampled_from(OUT), min_size=4, max_size=4)),
            "make": draw(st.lists(st.sampled_from(OUT[:-1]), min_size=4, max_size=4)), "good": draw(st.booleans()),
            "build": draw(st.sampled_from(["no", "yes", "yes", "file", "stale"])), "server": draw(st.sampled_from(["up", "up", "up", "down", "badsum", "404"])),
            "have": draw(st.lists(st.sampled_from(["8.1.2", "9.0.0", "x"]), max_size=2, unique=True)),
            "chdir": draw(st.sampled_from(["", "", "", "ok", "missing", "file"])), "devdir": draw(st.sampled_from(["dir", "dir", "dir", "file"])),
            "spelled": draw(st.sampled_from(["abs", "abs", "home", "tilde", "rel", "env"])),
            "level": draw(st.sampled_from([None, None, None, "silent", "error", "silly"])), "extra": draw(st.booleans())}


TOOL = """#!/bin/sh
%(probe)s
n=0; while [ -e "%(d)s/%(name)s.$n" ]; do n=$((n+1)); done
: > "%(d)s/%(name)s.$n"
echo "start %(name)s $n" >> "%(d)s/events"
sleep 0.01
echo "end %(name)s $n" >> "%(d)s/events"
case $n in
%(cases)s
esac
exit 0
"""
PROBE = """if [ "$1" = -c ]; then
  case "$2" in
    *sys.executable*) echo "%(path)s";;
    *version_info*) echo 3.12.1; n=0; while [ -e "%(d)s/python.$n" ]; do n=$((n+1)); done
      case $n in %(vanish)s) mv "%(path)s" "%(path)s.gone";; esac;;
  esac
  exit 0
fi"""


def tool(path, d, name, plan, probe=False):
    body = "\n".join("%d) %s;;" % (i, "exit %d" % p if isinstance(p, int) else ":" if p == "vanish" else "kill -%s $$; sleep 5" % p) for i, p in enumerate(plan))
    v = "|".join(str(i) for i, p in enumerate(plan) if p == "vanish") or "none"
    with open(path, "w") as f:
        f.write(TOOL % {"d": d, "name": name, "cases": body, "probe": PROBE % {"path": path, "d": d, "vanish": v} if probe else ""})
    os.chmod(path, 0o755)


_server = {}


def server():
    if _server.get("pid") != os.getpid():
        _server.update(pid=os.getpid(), s=distserver.Server())
    return _server["s"]


def teardown():
    if _server.get("pid") == os.getpid():
        _server["s"].close()


def evaluate(case):
    uid, d, binary = nodejs.unprivileged()
    srv = server()
    proj, bins, nd, dev, ev = [os.path.join(d, n) for n in ("proj", "bin", "nd", "d~v" if case["spelled"] == "tilde" else "dev", "ev")]
    for q in (proj, bins, nd, ev):
        os.makedirs(q)
    py = os.path.join(bins, "pyth")
    plans = {"python": [0 if case["good"] else x for x in case["python"]], "make": [0 if case["good"] and i else x for i, x in enumerate(case["make"])]}
    tool(py, ev, "python", plans["python"], True)
    tool(os.path.join(bins, "make"), ev, "make", plans["make"])
    bd = os.path.join(proj, "build")
    cfg = "# x\n" + json.dumps({"target_defaults": {"default_configuration": "Release"}, "variables": {"python": py, "target_arch": "x64", "nodedir": nd}}) + "\n"
    if case["build"] == "file":
        open(bd, "w").write("f")
    elif case["build"] != "no":
        os.makedirs(bd)
        open(os.path.join(bd, "old"), "w").write("old")
        if case["build"] == "yes":
            open(os.path.join(bd, "config.gypi"), "w").write(cfg)
    model_dev = {}
    if case["devdir"] == "file":
        open(dev, "w").write("f")
    else:
        for n in case["have"]:
            os.makedirs(os.path.join(dev, n))
            open(os.path.join(dev, n, "installVersion"), "w").write("11\n")
            model_dev[n] = True
    answers = {}
    for v in ("8.1.2", "9.0.0", "9.1.1"):
        tar = distserver.tarball([["include/node/node.h", "file", "x"]], "r")
        name = "node-v%s-headers.tar.gz" % v
        answers["/v%s/%s" % (v, name)] = {"body": tar} if case["server"] != "404" else {"status": 500}
        answers["/v%s/SHASUMS256.txt" % v] = {"body": ("%s  %s\n" % (distserver.sha(tar if case["server"] != "badsum" else b""), name)).encode()}
    srv.reset(answers)
    # the model
    state = {"build": {"no": None, "yes": "config", "file": "file", "stale": "dir"}[case["build"]], "old": case["build"] in ("yes", "stale")}
    counts = {"python": 0, "make": 0}
    events, printed = [], []
    words = []
    todo = []
    for c in case["cmds"]:
        words += c
        todo += [["clean"], ["configure"], ["build"]] if c[0] == "rebuild" else [c]

    def use(what):
        i = counts[what]
        counts[what] += 1
        out = plans[what][i] if i < 4 else 0
        if out == "vanish":
            return False
        events.append("%s %d" % (what, i))
        return out == 0

    failed = None
    for c in todo:
        ok = True
        if c[0] == "clean":
            state["build"], state["old"] = None, False
        elif c[0] == "configure":
            if state["build"] == "file":
                # found out only after the interpreter was looked up
                ok = False
                if plans["python"][min(counts["python"], 3)] == "vanish":
                    counts["python"] = 4
            else:
                state["build"] = "config"
                ok = use("python")
        elif c[0] == "build":
            if state["build"] == "config":
                ok = use("make")
            else:
                ok = False
        elif c[0] in ("list", "ls"):
            if case["devdir"] == "file":
                ok = False
            else:
                printed.append(sorted(model_dev))
        elif c[0] == "install":
            v = c[1].lstrip("v")
            if case["devdir"] == "file":
                ok = False
            elif case["server"] != "up":
                ok = False
                model_dev.pop(v, None)
            else:
                model_dev[v] = True
        else:
            v = c[1].lstrip("v")
            if case["devdir"] == "file":
                ok = False
            elif v in model_dev:
                del model_dev[v]
            else:
                printed.append("version was already uninstalled: " + v)
        if not ok:
            failed = c[0]
            break
    argv = words + ["--python=" + py, "--nodedir=" + nd, "--dist-url=" + (srv.url if case["server"] != "down" else "http://127.0.0.1:1")]
    env = {"HOME": d, "TMPDIR": d, "PATH": bins + ":/usr/bin:/bin", "MAKE": None, "JOBS": None}
    if case["spelled"] == "env":
        env["npm_config_devdir"] = dev
    else:
        argv.append("--devdir=" + {"home": "~/dev", "rel": "../dev"}.get(case["spelled"], dev))
    cwd = proj
    if case["chdir"] == "ok":
        cwd = d
        argv += ["-C", "proj"]
    elif case["chdir"] == "missing":
        argv += ["-C", "nowhere"]
    elif case["chdir"] == "file":
        argv += ["--directory=../bin/make"]
    if case["level"]:
        argv.append("--loglevel=" + case["level"])
    if case["extra"]:
        argv.insert(0, "unknown-word")
    nodejs.own(d, uid)
    r = nodejs.cli(argv, cwd, env, uid=uid, binary=binary, timeout=40)
    log = open(os.path.join(ev, "events")).read().split("\n")[:-1] if os.path.exists(os.path.join(ev, "events")) else []
    detail = "\n%s\n$ node-gyp %s\n%s\ntools ran: %s" % (json.dumps(case), " ".join(argv), r.text(1800), log)

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    if r.rc == "timeout":
        bad("it hangs", "hang")
    want = [w for e in events for w in ("start " + e, "end " + e)]
    if log != want:
        bad("tools ran %s, expected %s" % (log, want), "order")
    if (r.rc == 0) != (failed is None):
        bad("exit status %s, expected %s" % (r.rc, "0" if failed is None else "another, as %s fails" % failed), "status")
    if case["level"] in (None, "silly"):
        last = [x.strip() for x in r.err.split("\n") if x.strip()][-1:]
        if failed is None and last != ["gyp info ok"]:
            bad("it does not end with ok: %s" % last, "ok")
        if failed is not None and "gyp info ok" in [x.strip() for x in r.err.split("\n")]:
            bad("it says ok although %s failed" % failed, "ok")
    if failed is not None and case["level"] != "silent" and "ERR!" not in r.err:
        bad("nothing tells that %s failed" % failed, "silent")
    # what was printed
    lines = [x for x in r.out.split("\n") if x]
    at = 0
    for p in printed:
        if isinstance(p, str):
            part, k = [p], 1
        elif not p:
            part, k = ["No node development files installed. Use `node-gyp install` to install a version."], 1
        else:
            part, k = p, len(p)
        if sorted(lines[at:at + k]) != sorted(part):
            bad("printed %s, expected %s in its place" % (lines[at:at + k], part), "printed")
        at += k
    if lines[at:]:
        bad("also printed: %s" % lines[at:], "printed")
    # what is left
    if case["devdir"] != "file":
        have = sorted(os.listdir(dev)) if os.path.isdir(dev) else []
        if have != sorted(model_dev):
            bad("development directory has %s, expected %s" % (have, sorted(model_dev)), "devdir")
    kind = None if not os.path.lexists(bd) else "file" if os.path.isfile(bd) else "config" if os.path.exists(os.path.join(bd, "config.gypi")) else "dir"
    if kind != state["build"] or os.path.exists(os.path.join(bd, "old")) != state["old"]:
        bad("build is %s, expected %s" % (kind, state), "build")
    return {"nontrivial": len(case["cmds"]) > 1 or failed is not None, "labels": ["commands:%d" % len(case["cmds"]), "fails:%s" % failed, "exit:%s" % r.rc]}


# a command whose end is never reported: the process runs out of things to do

STUCK = """'use strict'
const fs = require('fs')
const wanted = process.env.VERIF_STUCK.split(',')
let n = 0
for (const k of wanted) {
  const was = fs.promises[k]
  fs.promises[k] = function (...a) {
    if (!/proj|dev/.test(String(a[0])) || n++ < +process.env.VERIF_STUCK_AT) return was.apply(this, a)
    fs.appendFileSync(process.env.VERIF_STUCK_LOG, k + '\\n')
    return new Promise(() => {})
  }
}
"""


def stuck_cases():
    return st.fixed_dictionaries({
        "cmds": st.lists(st.sampled_from(["list", "clean", "build", "remove 9.0.0", "configure"]), min_size=1, max_size=3),
        "what": st.sampled_from([["rm"], ["readdir"], ["stat"], ["readFile"], ["mkdir"], ["writeFile"], ["rm", "readdir", "stat", "readFile", "mkdir", "writeFile"]]),
        "at": st.sampled_from([0, 0, 1, 2]), "level": st.sampled_from([None, None, "silent", "error"])})


def stuck(case):
    uid, d, binary = nodejs.unprivileged()
    proj, dev = os.path.join(d, "proj"), os.path.join(d, "dev")
    os.makedirs(os.path.join(proj, "build"))
    for n in ("9.0.0", "8.1.2"):
        os.makedirs(os.path.join(dev, n))
    pre, log = os.path.join(d, "pre.js"), os.path.join(d, "hit")
    open(pre, "w").write(STUCK)
    nodejs.own(d, uid)
    argv = [w for c in case["cmds"] for w in c.split()] + ["--devdir=" + dev, "--nodedir=" + d, "--python=/nowhere/python"]
    if case["level"]:
        argv.append("--loglevel=" + case["level"])
    r = nodejs.cli(argv, proj, {"HOME": d, "TMPDIR": d, "PATH": "/usr/bin:/bin", "NODE_OPTIONS": "--require=" + pre, "VERIF_STUCK": ",".join(case["what"]),
                                "VERIF_STUCK_AT": str(case["at"]), "VERIF_STUCK_LOG": log}, uid=uid, binary=binary, timeout=40)
    hit = open(log).read().split() if os.path.exists(log) else []
    detail = "\n%s\n$ node-gyp %s\n%s\nnever answered: %s" % (json.dumps(case), " ".join(argv), r.text(1500), hit)
    if r.rc == "timeout":
        raise Violation("it hangs" + detail, sig="hang")
    if hit and (r.rc == 0 or "gyp info ok" in [x.strip() for x in r.err.split("\n")]):
        raise Violation("exit status %s although a command never came to its end%s" % (r.rc, detail), sig="stuck")
    return {"nontrivial": bool(hit), "labels": ["stuck:%s" % (hit[0] if hit else "no"), "exit:%s" % r.rc]}


CAMPAIGNS = [Campaign("invocations", cases, evaluate, quick=640, thorough=20000, shrink_evals=120),
             Campaign("never-ending", stuck_cases, stuck, quick=120, thorough=3000, shrink_evals=60)]
