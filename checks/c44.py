"""C44: generated sequences of log calls and settings against a model, and whole runs at every level against the silly run.

Oracle: a model of levels, pausing and line prefixes says exactly what every stream receives; a run of the command line at
one level must print exactly the lines of the same run at the loudest level that belong to that level or above.
"""
import json
import os
import re

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, Violation

ID = "C44"
LEVEL = "exploration"
RULE = "a sequence is non-trivial when a message is shown and another is held back or suppressed; a run when the level hides and shows lines"

LEVELS = ["silly", "verbose", "info", "http", "notice", "warn", "error"]
SHOWN = {"silly": "sill", "verbose": "verb", "warn": "WARN", "error": "ERR!"}
TEXTS = ["hello", "", "a b", " lead", "trail  ", "two\nlines", "x\r\n y \n", "100%", "%s and %s", "%j", "%d", "%%", "é日", "\t", "%s", "%o_", "a%"]
PREFIXES = ["find Python", "", "spawn args", "x", "%s"]
ARGS = ["str", "", 5, 1.5, True, "two\nlines", "50%", "%s"]


@st.composite
def steps(draw):
    k = draw(st.integers(0, 11))
    if k == 0:
        return ["level", draw(st.sampled_from(LEVELS + ["silent", "silent", "nonsense"]))]
    if k == 1:
        return ["stream", draw(st.sampled_from(["plain", "tty", "other", "none", "broken"]))]
    if k == 2:
        return ["pause"]
    if k == 3:
        return ["resume"]
    args = draw(st.one_of(st.lists(st.sampled_from(TEXTS), min_size=1, max_size=1), st.tuples(st.sampled_from(TEXTS), st.lists(st.sampled_from(ARGS), max_size=2)).map(
        lambda t: [t[0]] + t[1])))
    return [draw(st.sampled_from(["log", "prefixed"])), draw(st.sampled_from(LEVELS)), draw(st.sampled_from(PREFIXES)), args]


def cases():
    return st.lists(steps(), min_size=1, max_size=14).map(lambda s: [["stream", "plain"]] + s if s[0][0] != "stream" else s)


def show(a):
    return ("true" if a else "false") if isinstance(a, bool) else str(a)


def formatted(args):
    """What util.format gives for these arguments."""
    first, rest = args[0], list(args[1:])
    if not rest:
        return first

    def repl(m):
        c = m.group(1)
        if c == "%":
            return "%"
        if not rest:
            return m.group(0)
        v = rest.pop(0)
        if c == "s":
            return show(v)
        if c == "j":
            return json.dumps(v, ensure_ascii=False)
        if isinstance(v, bool):
            return "1" if v else "0"
        if isinstance(v, str):
            return "0" if v == "" else "NaN"
        return show(v)
    out = re.sub(r"%([sjd%])", repl, first)
    return " ".join([out] + [show(v) for v in rest])


def line_text(level, prefix, args):
    head = ("gyp " + SHOWN.get(level, level) + (" " + prefix if prefix else "")).strip() + " "
    return "".join(head + x.strip() + "\n" for x in re.split(r"\r?\n", formatted(args)))


ANSI = re.compile("\x1b\\[([0-9;]*)m")


def evaluate(case):
    if any(s[0] in ("log", "prefixed") and "%o" in s[3][0] and len(s[3]) > 1 for s in case):
        case = [s for s in case if not (s[0] in ("log", "prefixed") and "%o" in s[3][0])] or [["pause"]]
    got = nodejs.value("log", steps=case)
    level, stream, paused, held = "info", None, False, []
    want, hidden, seen = [], 0, []

    def emit(m):
        nonlocal hidden
        if level is None or LEVELS.index(m[1]) < LEVELS.index(level):
            hidden += 1
            return
        if stream in (None, "none", "broken"):
            return
        want.append([stream, line_text(m[1], m[2], m[3])])
    for s in case:
        if s[0] == "level":
            level = s[1] if s[1] in LEVELS else None
        elif s[0] == "stream":
            stream = s[1]
        elif s[0] == "pause":
            paused = True
        elif s[0] == "resume":
            paused = False
            for m in held:
                emit(m)
            held = []
        elif paused:
            held.append(s)
            hidden += 1
        else:
            emit(s)
        seen.append([level, sum(x[1].count("\n") for x in want)])
    d = "\n" + json.dumps(case, ensure_ascii=False)
    # the pieces a stream receives do not matter, only what is written to it in order
    have = []
    for name, text in got["chunks"]:
        plain = ANSI.sub("", text)
        if name == "tty":
            open_ = False
            for m in ANSI.finditer(text):
                open_ = m.group(1) not in ("0", "")
            if open_:
                raise Violation("a colour is left on after %r%s" % (text, d), sig="colour")
            if "\x1b" not in text:
                raise Violation("no colours on a terminal: %r%s" % (text, d), sig="colour")
        elif plain != text:
            raise Violation("escape codes in %r%s" % (text, d), sig="colour")
        have.append([name, plain])

    def joined(x):
        out = []
        for n, t in x:
            if out and out[-1][0] == n:
                out[-1][1] += t
            else:
                out.append([n, t])
        return out
    if joined(have) != joined(want):
        raise Violation("written %s, expected %s%s" % (json.dumps(joined(have), ensure_ascii=False), json.dumps(joined(want), ensure_ascii=False), d), sig="lines")
    chunks = got["seen"]
    for (lv, n), (wl, wn) in zip(chunks, seen):
        if lv != wl:
            raise Violation("the level is %s, expected %s%s" % (lv, wl, d), sig="level")
        if sum(x[1].count("\n") for x in have[:n]) != wn:
            raise Violation("%d lines are out where there should be %d%s" % (sum(x[1].count("\n") for x in have[:n]), wn, d), sig="when")
    return {"nontrivial": bool(want) and hidden > 0, "labels": ["level:%s" % level] + (["paused"] if paused else [])}


# whole runs

@st.composite
def runs(draw):
    return {"cmds": draw(st.lists(st.sampled_from(["list", "clean", "build", "remove 9.0.0", "remove ../x", "configure", "remove"]), min_size=1, max_size=3)),
            "level": draw(st.sampled_from(LEVELS + ["silent", "silent", "silly"])), "how": draw(st.sampled_from(["env", "env", "option"])), "dev": draw(st.booleans())}


RANK = {"sill": 0, "verb": 1, "info": 2, "http": 3, "notice": 4, "WARN": 5, "ERR!": 6}


def invoke(case, level):
    uid, d, binary = nodejs.unprivileged()
    proj, dev = os.path.join(d, "proj"), os.path.join(d, "dev")
    os.makedirs(os.path.join(proj, "build"))
    if case["dev"]:
        for n in ("9.0.0", "8.1.2"):
            os.makedirs(os.path.join(dev, n))
    nodejs.own(d, uid)
    argv = [w for c in case["cmds"] for w in c.split()] + ["--devdir=" + dev, "--nodedir=" + d, "--python=/nowhere/python"]
    env = {"HOME": d, "TMPDIR": d, "PATH": "/nonexistent-path", "PYTHON": None, "NODE_GYP_FORCE_PYTHON": None}
    if case["how"] == "env":
        env["npm_config_loglevel"] = level
    else:
        argv.append("--loglevel=" + level)
    r = nodejs.cli(argv, proj, env, uid=uid, binary=binary, timeout=40)
    return r, argv, d


def evaluate_run(case):
    loud, argv, d1 = invoke(case, "silly")
    r, argv2, d2 = invoke(case, case["level"])
    # every case has its own directory; what names the level or a time differs by nature
    norm = lambda t, d: [x for x in re.sub(r"case\w*|uid\d+", "", t.replace(d, "$D")).split("\n") if x and "loglevel" not in x]
    detail = "\n%s\n$ node-gyp %s\n%s" % (json.dumps(case), " ".join(argv2), r.text(1500))
    if loud.rc != r.rc:
        raise Violation("exit status %s, at the loudest level %s%s" % (r.rc, loud.rc, detail), sig="status")
    if norm(loud.out, d1) != norm(r.out, d2):
        raise Violation("the output depends on the level: %r, at the loudest %r%s" % (r.out, loud.out, detail), sig="output")
    least = LEVELS.index(case["level"]) if case["level"] in LEVELS else 99
    want = []
    for x in norm(loud.err, d1):
        m = re.match(r"gyp (\S+) ", x)
        if not m or m.group(1) not in RANK:
            raise Violation("a line without its level: %r%s" % (x, detail), sig="prefix")
        if RANK[m.group(1)] >= least:
            want.append(x)
    have = norm(r.err, d2)
    if have != want:
        k = [i for i in range(max(len(have), len(want))) if have[i:i + 1] != want[i:i + 1]][0]
        raise Violation("line %d is %r, expected %r%s" % (k, have[k:k + 1], want[k:k + 1], detail), sig="lines")
    return {"nontrivial": 0 < len(want) < len(norm(loud.err, d1)), "labels": ["level:" + case["level"], "rc:%s" % r.rc]}


CAMPAIGNS = [Campaign("sequences", cases, evaluate, quick=8000, thorough=200000),
             Campaign("runs", runs, evaluate_run, quick=160, thorough=4000, shrink_evals=60)]
