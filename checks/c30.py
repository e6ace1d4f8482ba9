"""C30: generated command lines and environments against a model of the documented command line.

Oracle: an independent model of the documented words, options, types and shorthands; the parsed queue, options and
log level of the real parser must equal the model's.
"""
import json

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, Violation

ID = "C30"
LEVEL = "exploration"
RULE = "a command line is non-trivial when it holds a command with an argument and at least one option or environment setting"

COMMANDS = ["build", "clean", "configure", "rebuild", "install", "list", "remove"]
ALIASES = {"ls": "list", "rm": "remove"}
BOOLS = ["debug", "help", "ensure", "force-process-config"]
STRINGS = ["arch", "cafile", "directory", "make", "msvs-version", "solution", "proxy", "noproxy", "devdir", "nodedir",
           "loglevel", "python", "dist-url", "tarball", "jobs", "thin"]
UNKNOWN = ["target", "disturl", "shared-libxml2", "foo", "x_y", "with-a.b", "Zed", "9p"]
WORDS = ["v1.2.3", "6.2.1", "all", "hello", "Build", "help", "lists", "toString", "constructor", "hasOwnProperty", "valueOf",
         "a=b", "BUILDTYPE=x", "x/y", "-", "é", "a b", "", "0", "true1", "build/x", "listen"]
VALUES = ["x", "max", "4", "0", "/a/b", "~/q", "a b", "é", "http://h:1/p?q=r", "true", "false", "null", "build", "clean", "ls",
          "x=y=z", "1.5", "undefined", "2015", "a,b"]
LEVELS = ["silly", "verbose", "info", "http", "warn", "error", "silent", "notice"]
SHORT = {"d": ("debug", True), "debug": ("debug", True), "release": ("debug", False), "silly": ("loglevel", "silly"),
         "verbose": ("loglevel", "verbose"), "silent": ("loglevel", "silent")}
ENVNAMES = [n.replace("-", "_") for n in BOOLS + STRINGS + ["target", "disturl", "foo", "user_agent", "x_y"] if n != "loglevel"]

word = st.one_of(st.sampled_from(COMMANDS), st.sampled_from(COMMANDS), st.sampled_from(sorted(ALIASES)), st.sampled_from(WORDS))
val = st.sampled_from(VALUES)


@st.composite
def token(draw):
    k = draw(st.integers(0, 13))
    if k < 5:
        return ["w", draw(word)]
    if k == 5:
        return ["s=", draw(st.sampled_from(STRINGS)), draw(val)]
    if k == 6:
        return ["s", draw(st.sampled_from(STRINGS)), draw(val)]
    if k == 7:
        return ["b", draw(st.sampled_from(BOOLS)), draw(st.sampled_from(["", "no-", "=true", "=false", " true", " false"]))]
    if k == 8:
        return ["u=", draw(st.sampled_from(UNKNOWN)), draw(val)]
    if k == 9:
        return ["u", draw(st.sampled_from(UNKNOWN)), draw(st.sampled_from(["", "", "no-", " true", " false"]))]
    if k == 10:
        return ["h", draw(st.sampled_from(sorted(SHORT))), draw(st.sampled_from(["-", "--"]))]
    if k == 11:
        return ["j", draw(st.sampled_from(["-j", "--jobs", "-C", "--C"])), draw(val), draw(st.booleans())]
    if k == 12:
        return ["l", draw(st.sampled_from(LEVELS))]
    return ["m", draw(st.sampled_from(["msvs_version"])), draw(val)]


def cases():
    return st.fixed_dictionaries({
        "tokens": st.lists(token(), max_size=9),
        "rest": st.one_of(st.none(), st.none(), st.lists(st.one_of(word, st.sampled_from(
            ["-Dx=1", "--foo", "--debug", "-f", "--jobs=3", "--"])), max_size=4)),
        "env": st.dictionaries(st.sampled_from(ENVNAMES), st.sampled_from(VALUES + [""]), max_size=3),
        "envlevel": st.sampled_from([None, None, None] + LEVELS)})


def argv_of(case):
    a = []
    for t in case["tokens"]:
        k = t[0]
        if k == "w":
            a.append(t[1])
        elif k in ("s=", "u=", "m"):
            a.append("--%s=%s" % (t[1], t[2]))
        elif k == "s":
            a += ["--" + t[1], t[2]]
        elif k in ("b", "u"):
            x = t[2]
            if x == "no-":
                a.append("--no-" + t[1])
            elif x.startswith(" "):
                a += ["--" + t[1], x[1:]]
            else:
                a.append("--" + t[1] + x)
        elif k == "h":
            a.append(t[2] + t[1])
        elif k == "j":
            a += [t[1] + "=" + t[2]] if t[3] and t[1].startswith("--") else [t[1], t[2]]
        elif k == "l":
            a.append("--loglevel=" + t[1])
    if case["rest"] is not None:
        a += ["--"] + case["rest"]
    return a


def js_bool(s):
    return {"true": True, "false": False}.get(s)


def model(case):
    opts, words = {}, []

    def unknown(name, v):
        if name in opts:
            opts[name] = (opts[name] if isinstance(opts[name], list) else [opts[name]]) + [v]
        else:
            opts[name] = v
    # a boolean word directly after an option that may take one belongs to the option
    toks = case["tokens"]
    for t in toks:
        k = t[0]
        if k == "w":
            words.append(t[1])
        elif k in ("s", "s="):
            opts[t[1]] = t[2]
        elif k == "j":
            opts["jobs" if t[1] in ("-j", "--jobs") else "directory"] = t[2]
        elif k == "m":
            opts["msvs-version"] = t[2]
        elif k == "l":
            opts["loglevel"] = t[1]
        elif k == "b":
            opts[t[1]] = {"": True, "no-": False, "=true": True, "=false": False, " true": True, " false": False}[t[2]]
        elif k == "u=":
            unknown(t[1], t[2])
        elif k == "u":
            unknown(t[1], {"": True, "no-": False, " true": True, " false": False}[t[2]])
        elif k == "h":
            n, v = SHORT[t[1]]
            opts[n] = v
    for n in list(opts):
        if n in BOOLS or n in STRINGS:
            continue
        conv = lambda v: {"true": True, "false": False, "null": None}.get(v, v) if isinstance(v, str) else v
        opts[n] = [conv(v) for v in opts[n]] if isinstance(opts[n], list) else conv(opts[n])
    if case["rest"]:
        words += case["rest"]
    todo, known = [], [ALIASES.get(w, w) for w in words]
    for w in known:
        if w in COMMANDS:
            todo.append({"name": w, "args": []})
        elif todo:
            todo[-1]["args"].append(w)
    level = "info"
    if case["envlevel"]:
        level = case["envlevel"]
    for n, v in case["env"].items():
        opts[n.replace("_", "-")] = v
    if opts.get("loglevel"):
        level = opts["loglevel"]
    return todo, opts, level


REAL_LEVELS = {"silly", "verbose", "info", "http", "notice", "warn", "error"}


def evaluate(case):
    argv = argv_of(case)
    env = {"npm_config_" + k: v for k, v in case["env"].items()}
    if case["envlevel"]:
        env["npm_config_loglevel"] = case["envlevel"]
    env["npm_config_"] = "zero"
    env["NPM_CONFIG_ARCH"] = "upper"
    got = nodejs.value("parse", argv=argv, env=env)
    todo, opts, level = model(case)
    d = "\nwords: %s\nenvironment: %s" % (json.dumps(argv), json.dumps(env))
    if got["todo"] != todo:
        raise Violation("commands %s, expected %s%s" % (json.dumps(got["todo"]), json.dumps(todo), d), sig="commands")
    if got["opts"] != opts or canon(got["opts"]) != canon(opts):
        raise Violation("options %s, expected %s%s" % (json.dumps(got["opts"]), json.dumps(opts), d), sig="options")
    want = level if level in REAL_LEVELS else None
    if got["level"] != want:
        raise Violation("log level %s, expected %s%s" % (got["level"], want, d), sig="level")
    labels = ["todo:%d" % min(3, len(todo))] + sorted({"tok:" + t[0] for t in case["tokens"]})
    return {"nontrivial": any(t["args"] for t in todo) and (len(opts) > 0), "labels": labels}


def canon(x):
    return json.dumps(x, sort_keys=True)


CAMPAIGNS = [Campaign("command-lines", cases, evaluate, quick=8000, thorough=250000)]
