"""C43: generated command lines, environments and home directories of the generator, and what regenerating with its own flags gives.

Oracle: a model of the documented sources of each option; what a project and an output format see must equal the model's,
and a second run with the saved flags, from the directory they are saved for and under another environment, must see the same.
"""
import json
import os
import shlex

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, VERIF, Violation, fresh_dir

ID = "C43"
LEVEL = "exploration"
RULE = "a case is non-trivial when at least two sources (command line, environment, home or configuration directory) give options"

VOPTS = os.path.join(VERIF, "lib", "vopts.py")
NAMES = ["foo", "bar", "with_x", "library"]
VALUES = ["1", "0", "-3", "x", "", "a b", "it's", 'say "hi"', "a=b", "=", "x,y", "é", "12abc", "1.5", "a\\b", "$HOME", "#x", "True", "static_library"]
FLAGS = ["auto_regeneration", "f2", "config", "my-flag", "f1"]


@st.composite
def settings(draw, names, n):
    out = []
    for _ in range(draw(st.integers(0, n))):
        k = draw(st.sampled_from(names))
        out.append(k if draw(st.integers(0, 7)) == 3 else k + "=" + draw(st.sampled_from(VALUES)))
    if len(out) > 1 and draw(st.integers(0, 3)) == 2:
        # the same name again, with another value between
        out += [out[0].split("=")[0] + "=between", out[0]]
    return out


@st.composite
def cases(draw):
    src = draw(st.integers(0, 3)) == 2
    return {
        "D": draw(settings(NAMES, 3)), "envD": draw(st.one_of(st.just([]), settings(NAMES, 3))), "G": draw(settings(FLAGS, 2)),
        "envG": draw(st.one_of(st.just([]), settings(FLAGS, 3))), "split": draw(st.booleans()), "quote": draw(st.sampled_from(["shlex", "double", "escape"])),
        "formats": draw(st.lists(st.sampled_from(["", "-linux", "-x-y"]), max_size=3)),
        "envformats": draw(st.lists(st.sampled_from(["", "-mac", "-q"]), max_size=3)), "sep": draw(st.sampled_from([" ", ",", ",", "\t", ", ", "  "])),
        "fstyle": draw(st.sampled_from(["-f", "-f+", "--format="])),
        "ignore": draw(st.integers(0, 3)) == 1, "out": draw(st.sampled_from([None, None, "o", "../o 2", "$W/deep/o"])),
        "envout": draw(st.sampled_from([None, None, None, "eo", "$W/eo"])),
        "home": draw(st.sampled_from(["none", "none", "dir", "empty", "nohome"])), "config": draw(st.sampled_from([None, None, None, "cfg", "cfg0", "nocfg", "~/c2"])),
        "envconfig": draw(st.sampled_from([None, None, None, "cfg", "nocfg", "~/c2", "$W/cfg"])),
        "I": draw(st.lists(st.sampled_from(["i1.gypi", "p/i2.gypi", "$W/i3.gypi", "./i1.gypi"]), max_size=3, unique=True)), "istyle": draw(st.sampled_from(["-I", "--include="])),
        "files": ["src/q/c.gyp"] if src else draw(st.lists(st.sampled_from(["a.gyp", "p/b.gyp", "src/q/c.gyp", "$W/p/b.gyp"]), max_size=3, unique_by=lambda f: f[-5:])),
        "place": draw(st.integers(0, 9)), "depth": "auto" if src else draw(st.sampled_from([".", ".", "p", "$W", "..", "../w"])),
        "top": draw(st.sampled_from([None, None, None, ".", "p"])), "suffix": draw(st.sampled_from(["", "", "", ".s", " x"])), "check": draw(st.booleans()),
        "debug": draw(st.sampled_from([[], [], ["-d", "general"], ["--debug=variables"]])), "parallel": draw(st.integers(0, 9)) == 4,
        "empty": draw(st.integers(0, 29)) == 7}


def number(s):
    try:
        return int(s)
    except ValueError:
        return s


def pairs(items):
    return {i.split("=", 1)[0]: number(i.split("=", 1)[1]) if "=" in i else True for i in items}


def env_text(items, how):
    out = []
    for i in items:
        if how == "double":
            out.append('"' + i.replace("\\", "\\\\").replace('"', '\\"') + '"')
        elif how == "escape" and i:
            out.append("".join(c if c.isalnum() or c in "_-=." or ord(c) > 127 else "\\" + c for c in i))
        else:
            out.append(shlex.quote(i))
    return " ".join(out)


def project(name, D):
    """A definition without a value counts as true and can only be asked for in conditions."""
    t = {"target_name": name, "type": "none", "v_depth": "<(DEPTH)/z"}
    for n in NAMES:
        if D.get(n) is not True:
            t["v_" + n] = "<(%s)" % n
    return {"variables": dict((n + "%", "unset") for n in NAMES), "marks": ["own"], "targets": [t],
            "target_defaults": {"conditions": [["%s==1" % n, {"v_is_" + n: "yes"}] for n in NAMES]}}


def run(d, args, cwd, env):
    out = os.path.join(fresh_dir("vo"), "out")
    e = {k: None for k in ("GYP_DEFINES", "GYP_GENERATORS", "GYP_GENERATOR_FLAGS", "GYP_GENERATOR_OUTPUT", "GYP_CONFIG_DIR", "HOME")}
    e.update(env, VOPTS_OUT=out)
    r = gyprun.gyp_main(args, cwd, env=e)
    return r, [json.loads(x) for x in open(out)] if os.path.exists(out) else []


def evaluate(case):
    d = os.path.realpath(fresh_dir())
    w, home = os.path.join(d, "w"), os.path.join(d, "home")
    sub = lambda s: s.replace("$W", w)
    os.makedirs(home)
    read_env = not case["ignore"]
    D = pairs((case["envD"] if read_env else []) + case["D"])
    if case["empty"]:
        os.makedirs(os.path.join(w, "p"))
        case = dict(case, files=[], I=[])
    else:
        for n in ("a.gyp", "p/b.gyp", "src/q/c.gyp"):
            gyprun.write_tree(w, {n: project(n[-5], D)})
    os.makedirs(w, exist_ok=True)
    for q, m in (("w/i1.gypi", "i1"), ("w/p/i2.gypi", "i2"), ("w/i3.gypi", "i3"), ("w/cfg/include.gypi", "cfg"), ("home/c2/include.gypi", "c2")):
        gyprun.write_tree(d, {q: {"marks": [m]}})
    os.makedirs(os.path.join(w, "cfg0"))
    if case["home"] in ("dir", "empty"):
        os.makedirs(os.path.join(home, ".gyp"))
        if case["home"] == "dir":
            gyprun.write_tree(home, {".gyp/include.gypi": {"marks": ["home"]}})
    env = {} if case["home"] == "nohome" else {"HOME": home}
    # with no HOME, ~ is whatever the password file says
    tilde = case["home"] != "nohome"
    conf = None if (case["config"] or "").startswith("~") and not tilde else case["config"]
    envconf = None if (case["envconfig"] or "").startswith("~") and not tilde else case["envconfig"]
    if case["envD"]:
        env["GYP_DEFINES"] = env_text(case["envD"], case["quote"])
    if case["envG"]:
        env["GYP_GENERATOR_FLAGS"] = env_text(case["envG"], case["quote"])
    if case["envformats"]:
        env["GYP_GENERATORS"] = case["sep"].join(VOPTS + f for f in case["envformats"])
    if case["envout"]:
        env["GYP_GENERATOR_OUTPUT"] = sub(case["envout"])
    if envconf:
        env["GYP_CONFIG_DIR"] = sub(envconf)
    args = []
    for x in case["D"]:
        args += ["-D", x] if case["split"] else ["-D" + x]
    for x in case["G"]:
        args += ["-G", x] if not case["split"] else ["-G" + x]
    for f in case["formats"]:
        v = VOPTS + f
        args += {"-f": ["-f" + v], "-f+": ["-f", v], "--format=": ["--format=" + v]}[case["fstyle"]]
    for x in case["I"]:
        args += ["-I", sub(x)] if case["istyle"] == "-I" else ["--include=" + sub(x)]
    if case["out"]:
        args.append("--generator-output=" + sub(case["out"]))
    if conf:
        args += ["--config-dir", sub(conf)]
    if case["ignore"]:
        args.append("--ignore-environment")
    depth = case["depth"]
    if depth != "auto":
        args += ["--depth", sub(depth)] if case["split"] else ["--depth=" + sub(depth)]
    if case["top"]:
        args.append("--toplevel-dir=" + case["top"])
    if case["suffix"]:
        args += ["--suffix=" + case["suffix"]]
    if case["check"]:
        args.append("--check")
    if not case["parallel"]:
        args.append("--no-parallel")
    args += case["debug"]
    files = [sub(f) for f in case["files"]]
    # build files may stand anywhere among the options that are complete
    args = files + args if case["place"] < 3 else args + files
    r, got = run(d, args, w, env)
    # the model
    G = pairs((case["envG"] if read_env else []) + case["G"])
    formats = case["formats"] or (case["envformats"] if read_env else [])
    output = case["out"] or (case["envout"] if read_env else None)
    confdir = conf or (envconf if read_env else None)
    if confdir:
        confdir = os.path.join(w, sub(confdir).replace("~", home))
    elif case["home"] == "dir":
        confdir = os.path.join(home, ".gyp")
    marks = ["own"]
    if confdir:
        q = os.path.join(confdir, "include.gypi")
        marks += [{"w/cfg": "cfg", "home/c2": "c2", "home/.gyp": "home"}[os.path.relpath(confdir, d)]] if os.path.exists(q) else []
    for x in case["I"]:
        m = os.path.basename(x)[:2]
        marks += [m] if m not in marks else []
    marks = [m for i, m in enumerate(marks) if m not in marks[:i]]
    want_files = {os.path.normpath(os.path.join(w, f)) for f in files or ["a.gyp"]}
    dep = os.path.join(w, "src") if depth == "auto" else os.path.normpath(os.path.join(w, sub(depth)))
    detail = "\n%s\n$ gyp %s   (in w)\nenvironment: %s\nrc %s\n%s%s" % (json.dumps(case), " ".join(shlex.quote(a) for a in args), env, r.rc, r.out[-600:], r.err[-1500:])

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    if case["empty"]:
        if r.rc in (0, 70):
            bad("no project file and yet it ends with %s" % r.rc, "nofile")
        return {"nontrivial": False, "labels": ["nofile"]}
    if not formats:
        # make is the default here
        if r.rc != 0:
            bad("it fails", "fails")
        top = os.path.join(w, case["top"] or dep)
        # a relative output directory counts from the top directory in this format
        q = os.path.normpath(os.path.join(top, sub(output or "."), "Makefile" + case["suffix"]))
        if not os.path.exists(q) or got:
            bad("without any format there is no Makefile at %s" % q, "default")
        return {"nontrivial": False, "labels": ["default-format"]}
    if r.rc != 0:
        bad("it fails", "fails")
    if sorted(g["flavor"] for g in got) != sorted({f[1:] for f in formats}):
        bad("formats %s were written, expected %s" % ([g["flavor"] for g in got], formats), "formats")

    def compare(g, when, given):
        if set(g["files"]) != want_files:
            bad("%sproject files %s, expected %s" % (when, sorted(g["files"]), sorted(want_files)), "files")
        for f, x in g["files"].items():
            rel = os.path.relpath(dep, os.path.dirname(f))
            exp = {"v_" + n: str(D.get(n, "unset")) for n in NAMES if D.get(n) is not True}
            exp.update({"v_is_" + n: "yes" for n in NAMES if n in D and D[n] == 1})
            exp["v_depth"] = os.path.normpath(rel + "/z")
            have = dict(x["set"], v_depth=os.path.normpath(x["set"]["v_depth"]))
            if have != exp:
                bad("%s%s sees %s, expected %s" % (when, f, have, exp), "values")
            if x["marks"] != marks:
                bad("%s%s includes %s, expected %s" % (when, f, x["marks"], marks), "includes")
        if json.dumps(g["flags"], sort_keys=True) != json.dumps(G, sort_keys=True):
            bad("%sgenerator flags %s, expected %s" % (when, g["flags"], G), "flags")
        exp_out = os.path.normpath(os.path.join(w, sub(output))) if output else None
        exp_top = os.path.normpath(os.path.join(w, case["top"])) if case["top"] else dep
        if [g["output"], g["depth"], g["toplevel"], g["suffix"], g["check"]] != [exp_out, dep, exp_top, case["suffix"], case["check"]]:
            bad("%soutput, depth, top, suffix, check: %s, expected %s" % (when, [g["output"], g["depth"], g["toplevel"], g["suffix"], g["check"]],
                                                                         [exp_out, dep, exp_top, case["suffix"], case["check"]]), "places")

    for g in got:
        compare(g, "", files)
    if len({json.dumps(g["again"]) for g in got}) > 1:
        bad("formats save different flags", "again")
    # as a generated build does it: from the depth, in another environment
    again = got[0]["again"]
    env2 = dict(env)
    for k in ("GYP_DEFINES", "GYP_GENERATOR_FLAGS"):
        env2[k] = "foo=evil f1=evil"
    env2["GYP_GENERATORS"] = "none_such"
    env2["GYP_GENERATOR_OUTPUT"] = "evil"
    env2["GYP_CONFIG_DIR"] = os.path.join(w, "cfg0")
    plain = conf is None and not (read_env and envconf) or os.path.isabs(sub(conf or envconf)) or (conf or envconf).startswith("~")
    if plain or dep == w:
        args2 = ["-f" + VOPTS] + again + ["--no-parallel"] + [os.path.relpath(f, dep) for f in sorted(want_files)]
        r2, got2 = run(d, args2, dep, env2)
        detail += "\nagain: $ gyp %s   (in %s)\nrc %s\n%s%s" % (" ".join(shlex.quote(a) for a in args2), dep, r2.rc, r2.out[-600:], r2.err[-1500:])
        if r2.rc != 0 or len(got2) != 1:
            bad("the saved flags do not work", "again")
        compare(got2[0], "with the saved flags, ", files)
        if got2[0]["again"] != again:
            bad("the saved flags become %s" % got2[0]["again"], "again")
    src = [bool(case["D"] or case["G"]), bool(read_env and (case["envD"] or case["envG"])), case["home"] == "dir", bool(conf or envconf), bool(case["I"])]
    return {"nontrivial": sum(src) > 1, "labels": ["formats:%d" % len(got), "ignore" if case["ignore"] else "env", "depth:" + depth]}


def setup():
    gyprun.load()


CAMPAIGNS = [Campaign("options", cases, evaluate, quick=1600, thorough=40000, shrink_evals=200)]
