"""C36: the search for Python over generated sets of interpreters, settings and platforms.

Oracle: a model of the documented order; every candidate is a generated interpreter that may be missing, may fail,
may print anything, or may report any version.
"""
import json
import os
import re
import stat

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, Violation, fresh_dir

ID = "C36"
LEVEL = "exploration"
RULE = "a case is non-trivial when at least two candidates have to be tried, or a broken one precedes an acceptable one"

GOOD = ["3.6.0", "3.12.3", "3.8.19", "3.100.0", "4.0.0", "10.2.1"]
OLD = ["2.7.18", "3.5.10", "3.5.99", "3.0.0", "0.0.0", "2.99.99"]
JUNK = ["", "Python 3.9.1", "3.9", "3.9.1 ", "junk", "3.9.x", "3.12.0rc1", "\n", "/usr/bin/python", "3.11.4\nwarning: x", "None",
        "-1.0.0", "3.9.1.2", "v", "é"]
WIN_LOC = ["C:\\A\\Python311\\python.exe", "C:\\B\\Python310\\python.exe", "C:\\C\\Python39-32\\python.exe"]
COMMANDS = ["python3", "python", "/opt/a/python", "/o p/py'3", "pypy", "./rel/py", "C:\\my py\\python.exe", "py3.bat"]
PATHS = ["/real/a", "/real/b c", "/real/é", "C:\\real\\python.exe", "/opt/a/python"]

version = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(OLD), st.sampled_from(JUNK))
pad = st.sampled_from(["%s", "%s\n", "%s\r\n", " %s \n"])


@st.composite
def answer(draw, text):
    k = draw(st.integers(0, 9))
    if k == 5:
        return {"fails": draw(st.sampled_from([1, 9009, "EACCES"])), "out": draw(st.sampled_from(["", "", text])), "err": "boom"}
    if k == 7:
        return {"throws": "spawn error"}
    return {"out": draw(pad) % text, "err": draw(st.sampled_from(["", "warning"]))}


@st.composite
def cases(draw):
    win = draw(st.booleans())
    exes = {}

    def put(name, **kw):
        exes.setdefault(name, {}).update(kw)
    env = {}
    force = draw(st.sampled_from([None, None, None, ""] + COMMANDS[:5]))
    if force is not None:
        env["NODE_GYP_FORCE_PYTHON"] = force
    pyenv = draw(st.sampled_from([None, None, ""] + COMMANDS))
    if pyenv is not None:
        env["PYTHON"] = pyenv
    config = draw(st.sampled_from([None, None, ""] + COMMANDS))
    for c in sorted({x for x in (force, pyenv, config, "python3", "python") if x}):
        if draw(st.integers(0, 4)) == 2:
            continue
        target = draw(st.sampled_from(PATHS + ["", "garbage"]))
        put(c, path=draw(answer(target)))
        if target and draw(st.integers(0, 4)):
            put(target, version=draw(answer(draw(version))))
    if win:
        if draw(st.booleans()):
            target = draw(st.sampled_from(PATHS))
            put("py.exe", launch=draw(answer(target)))
            put(target, version=draw(answer(draw(version))))
        for l in WIN_LOC:
            if draw(st.booleans()):
                put(l, version=draw(answer(draw(version))))
    return {"win": win, "exes": exes, "env": env, "config": config}


def run(exes, name, what):
    """What the interpreter prints, or None when it cannot be run or fails."""
    a = exes.get(name, {}).get(what)
    if a is None or "throws" in a or "fails" in a:
        return None
    return a["out"].strip()


SEM = re.compile(r"^v?(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)$")


def acceptable(exes, path):
    v = run(exes, path, "version")
    m = v is not None and SEM.match(v)
    return bool(m) and tuple(map(int, m.groups())) >= (3, 6, 0)


def command(exes, c):
    p = run(exes, c, "path")
    return p if p is not None and acceptable(exes, p) else None


def model(case):
    env, exes = case["env"], case["exes"]
    tried = []

    def go(kind, c):
        tried.append((kind, c))
        if kind == "loc":
            return c if acceptable(exes, c) else None
        if kind == "launch":
            p = run(exes, c, "launch")
            return p if p is not None and acceptable(exes, p) else None
        return command(exes, c)
    if env.get("NODE_GYP_FORCE_PYTHON"):
        order = [("cmd", env["NODE_GYP_FORCE_PYTHON"])]
    else:
        order = [("cmd", c) for c in (case["config"], env.get("PYTHON")) if c]
        if case["win"]:
            order.append(("launch", "py.exe"))
        order += [("cmd", "python3"), ("cmd", "python")]
        if case["win"]:
            order += [("loc", l) for l in WIN_LOC]
    for kind, c in order:
        r = go(kind, c)
        if r is not None:
            return r, tried
    return None, tried


def evaluate(case):
    got = nodejs.value("python", configPython=case["config"], env=case["env"], win=case["win"], exes=case["exes"],
                       locations=WIN_LOC)
    want, tried = model(case)
    d = "\n" + json.dumps(case) + "\ncalls: " + json.dumps(got["calls"])
    if want is None:
        if "found" in got:
            raise Violation("found %r although no candidate is acceptable%s" % (got["found"], d), sig="accepted")
        for kind, c in tried:
            if ("py launcher" if kind == "launch" else c) not in got["shown"]:
                raise Violation("the error does not mention %r, which was tried\n%s%s" % (c, got["shown"], d), sig="message")
    elif got.get("found") != want:
        raise Violation("found %r (error %r), expected %r%s" % (got.get("found"), got.get("error"), want, d), sig="choice")
    # nothing beyond the candidate that was chosen is run, each with a dumb terminal
    names = [c[0].strip('"') if case["win"] and c[2] else c[0] for c in got["calls"]]
    allowed = {c for _, c in tried} | {run(case["exes"], c, w) for _, c in tried for w in ("path", "launch")}
    extra = [n for n in names if n not in allowed and n != ""]
    if extra:
        raise Violation("%r was run although only %r had to be tried%s" % (extra[0], tried, d), sig="extra")
    if any(c[3] != "dumb" for c in got["calls"]):
        raise Violation("an interpreter was run without TERM=dumb%s" % d, sig="term")
    return {"nontrivial": len(tried) > 1, "labels": ["win" if case["win"] else "posix", "found" if want else "none",
                                                     "tried:%d" % min(4, len(tried))]}


# the same on real programs of a generated search path, through the command line
SCRIPTS = {
    "good": None, "missing": None,
    "old": "#!/bin/sh\ncase \"$2\" in *executable*) printf '%s' \"$0\";; *) echo 2.7.18;; esac\n",
    "junk": "#!/bin/sh\necho hello\n", "fail": "#!/bin/sh\nexit 3\n", "noexec": "not executable", "hang": "#!/bin/sh\nread x; exit 1\n",
    "printfail": "#!/bin/sh\ncase \"$2\" in *executable*) printf '%s' \"$0\";; *) echo 3.9.1;; esac\nexit 1\n",
    "signal": "#!/bin/sh\nkill -9 $$\n", "badinterp": "#!/nonexistent/interp\n", "dir": None,
}
KINDS = sorted(SCRIPTS)
FAKE = """#!/bin/sh
case "$2" in
*executable*) printf '%s' "$0"; exit 0;;
*version_info*) echo 3.11.2; exit 0;;
esac
echo "$0" > "$RECORD"
mkdir -p build
exit 0
"""


def real_cases():
    k = st.sampled_from(KINDS + ["good"] * 3)
    return st.fixed_dictionaries({"force": st.one_of(st.none(), st.none(), k), "config": st.one_of(st.none(), k), "env": st.one_of(st.none(), k),
                                  "python3": k, "python": k, "via": st.sampled_from(["--python=", "--python ", "npm_config_python"])})


def evaluate_real(case):
    d = fresh_dir()
    bindir = os.path.join(d, "bin")
    os.makedirs(bindir)
    os.symlink("/bin/sh", os.path.join(bindir, "sh"))
    for t in ("mkdir", "kill"):
        os.symlink("/bin/" + t, os.path.join(bindir, t))
    where = {}
    for slot in ("force", "config", "env", "python3", "python"):
        k = case[slot]
        if k is None:
            continue
        p = os.path.join(bindir, slot) if slot.startswith("python") else os.path.join(d, "my " + slot)
        where[slot] = p
        if k == "dir":
            os.mkdir(p)
        elif k != "missing":
            with open(p, "w") as f:
                f.write(FAKE if k == "good" else SCRIPTS[k])
            if k != "noexec":
                os.chmod(p, 0o755)
    proj = os.path.join(d, "proj")
    os.makedirs(proj)
    nd = os.path.join(d, "nd", "include", "node")
    os.makedirs(nd)
    for n, t in (("common.gypi", "{}"), ("config.gypi", '{"variables":{},"target_defaults":{}}')):
        with open(os.path.join(nd, n), "w") as f:
            f.write(t)
    env = {"PATH": bindir, "RECORD": os.path.join(d, "record")}
    args = ["configure", "--nodedir=" + os.path.join(d, "nd")]
    if case["force"] is not None:
        env["NODE_GYP_FORCE_PYTHON"] = where["force"]
    if case["env"] is not None:
        env["PYTHON"] = where["env"]
    if case["config"] is not None:
        if case["via"] == "npm_config_python":
            env["npm_config_python"] = where["config"]
        else:
            args += (case["via"] + where["config"]).split(" ", 1) if case["via"].endswith(" ") else [case["via"] + where["config"]]
    r = nodejs.cli(args, proj, env)
    order = ["force"] if case["force"] is not None else ["config", "env", "python3", "python"]
    want = next((s for s in order if case[s] == "good"), None)
    rec = None
    if os.path.exists(env["RECORD"]):
        rec = open(env["RECORD"]).read().strip()
    if want is None:
        if r.rc == 0 or rec or "Could not find any Python installation to use" not in r.err:
            raise Violation("no interpreter is acceptable, yet %s\nran: %s\n%s" % (r.text(), rec, json.dumps(case)), sig="accepted")
    elif r.rc != 0 or rec != where[want]:
        raise Violation("the generator was run by %s, expected %s\n%s\n%s" % (rec, where[want], r.text(), json.dumps(case)), sig="choice")
    return {"nontrivial": want is None or order.index(want) > 0 and any(case[s] not in (None, "good") for s in order[:order.index(want)]),
            "labels": ["real:" + (want or "none")]}


CAMPAIGNS = [Campaign("model", cases, evaluate, quick=6000, thorough=100000),
             Campaign("programs", real_cases, evaluate_real, quick=240, thorough=5000)]
