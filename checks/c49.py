"""C49: the formats that describe a project to other tools: dependency dump, debugging dump (gypd) and Eclipse settings.

Oracle: the dependency dump and the Eclipse settings are computed from the generated case itself (an independent model);
the debugging dump is read back as a Python literal and compared with what a custom output format is given for the same
project.
"""
import ast
import json
import os
import posixpath
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, Violation, fresh_dir

ID = "C49"
LEVEL = "exploration"
RULE = ("a project is non-trivial when it has at least two targets in different directories, a dependency, an include "
        "directory and a define, one of them holding a character special to XML or Python")

FILES = ["a.gyp", "s/b.gyp", "s/t/a.gyp", "u v/b.gyp"]
TYPES = ["executable", "static_library", "shared_library", "none", "loadable_module"]
NAMES = ["t", "lib", "a-b", "x.y", "q&r", "d<e", "ü"]
INC = ["inc", ".", "../up", "in/deep", "sp ace", "a&b", "x<y", "/abs/dir", "/abs/x&y", "é", "in/../other",
       "<(SHARED_INTERMEDIATE_DIR)/g", "q'\"r"]
DEF = ["A", "B=1", "C=a b", "D=<x>", "E=&amp;", 'F="s"', "G=x=y", "H=", "I=é", "J=]]>", "A=2", "B=other", "M=\\n"]
CFLAGS = ["-I/flag/inc", "-Irel&x", "-O2", "-I/flag/<two>", "-Wall"]
JAVA = ["A.java", "src/p/B.java", "java/q/r/C.java", "x/src/y/D.java", "lib/e.jar", "/abs/f.jar", "<(PRODUCT_DIR)/g.jar", "n&m/h.jar",
        "z.txt", "deep/er/E.java"]
CONFIGS = [["Default"], ["Debug", "Release"], ["Release", "D & R"]]
FOUND = ["/cc/include", "/cc/a b/c++"]
MACROS = {"__CC__": "1", "__V__": '"x <y> & z"', "__EMPTY__": ""}


def some(x, n):
    return st.lists(st.sampled_from(x), unique=True, max_size=n)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    nf = draw(st.integers(1, len(FILES)))
    ts = []
    for i in range(n):
        # (files do not depend on each other in circles: a target depends on files at or below its own)
        t = {"f": draw(st.integers(0, nf - 1)), "name": "%s%d" % (draw(st.sampled_from(NAMES)), i), "type": draw(st.sampled_from(TYPES)),
             "inc": draw(some(INC, 3)), "def": draw(some(DEF, 4)), "cflags": draw(some(CFLAGS, 3)), "java": draw(some(JAVA, 3)),
             "cinc": draw(st.lists(some(INC, 1), min_size=2, max_size=2)), "cdef": draw(st.lists(some(DEF, 2), min_size=2, max_size=2))}
        t["deps"] = [j for j in draw(st.lists(st.integers(0, i - 1), unique=True, max_size=3))] if i else []
        ts.append(t)
    used = sorted({t["f"] for t in ts})
    return {"t": ts, "cfg": draw(st.integers(0, len(CONFIGS) - 1)),
            "give": draw(st.lists(st.sampled_from(used), unique=True, min_size=1)),
            "what": draw(st.sampled_from(["deps", "gypd", "eclipse", "eclipse"])), "cc": draw(st.sampled_from(["CC", "CXX", "CC_target", None])),
            "out": draw(st.sampled_from([None, "o", "o/p"])), "suffix": draw(st.sampled_from(["", "_x"])),
            "mgs": draw(st.booleans()), "only": draw(st.booleans())}


def build(case):
    docs = {}
    cn = CONFIGS[case["cfg"]]
    for t in case["t"]:
        g = FILES[t["f"]]
        base = posixpath.dirname(g)
        d = {"target_name": t["name"], "type": t["type"]}
        for k, v in (("include_dirs", t["inc"]), ("defines", t["def"]), ("cflags", t["cflags"])):
            if v:
                d[k] = v
        if t["java"]:
            d["actions"] = [{"action_name": "j", "inputs": t["java"], "outputs": ["o.txt"], "action": ["true"]}]
        if t["deps"]:
            d["dependencies"] = []
            for j in t["deps"]:
                o = case["t"][j]
                d["dependencies"].append(o["name"] if o["f"] == t["f"] else "%s:%s" % (
                    posixpath.relpath("/" + FILES[o["f"]], "/" + base), o["name"]))
        d["configurations"] = {}
        for k, c in enumerate(cn):
            x = d["configurations"][c] = {}
            if t["cinc"][k % 2]:
                x["include_dirs"] = t["cinc"][k % 2]
            if t["cdef"][k % 2]:
                x["defines"] = t["cdef"][k % 2]
        d["default_configuration"] = cn[0]
        docs.setdefault(g, {"targets": []})["targets"].append(d)
    return docs


def qual(t):
    return "%s:%s#target" % (FILES[t["f"]], t["name"])


def loaded(case, give):
    """indices of the targets of the files given and of the files they reach"""
    seen, todo = set(), list(give)
    while todo:
        f = todo.pop()
        if f not in seen:
            seen.add(f)
            todo += [case["t"][j]["f"] for t in case["t"] if t["f"] == f for j in t["deps"]]
    return [i for i, t in enumerate(case["t"]) if t["f"] in seen]


def compiler(root):
    p = os.path.join(root, "fake-cc")
    with open(p, "w") as f:
        f.write("#!/bin/sh\ncase \"$*\" in\n*-dM*)\n")
        for k, v in MACROS.items():
            f.write("echo '#define %s %s'\n" % (k, v))
        f.write(";;\n*)\nexec >&2\necho junk\necho '#include \"...\" search starts here:'\necho '#include <...> search starts here:'\n")
        for d in FOUND:
            f.write("echo ' %s'\n" % d)
        f.write("echo 'End of search list.'\necho ' /not/this'\n;;\nesac\n")
    os.chmod(p, 0o755)
    return p


def check(case):
    docs = build(case)
    j = json.dumps(case)
    root = fresh_dir("desc")
    tree = os.path.join(root, "tree")
    cc = compiler(root)
    env = {"CC": None, "CXX": None, "CC_target": None}
    if case["what"] == "eclipse":
        if case["mgs"] or not case["cc"]:
            for d in docs.values():
                d["make_global_settings"] = [["LD", "/no/ld"], ["CC", cc]]
        else:
            env[case["cc"]] = cc
    gyprun.write_tree(tree, docs)
    args = ["--depth=.", "--no-parallel", "--no-circular-check"] + [FILES[i] for i in case["give"]]
    live = loaded(case, case["give"])
    ts = case["t"]

    def fail(msg):
        raise Violation("%s: %s\n%s\n%s" % (case["what"], msg, json.dumps(docs, indent=1)[:4000], j))

    def run(fmt, *more):
        r = gyprun.gyp_main(["-f", fmt] + list(more) + args, tree, env=env)
        if r.rc:
            fail("a valid project was refused: %s" % r.err[-2000:])
        return r
    if case["what"] == "deps":
        more = []
        if case["out"]:
            os.makedirs(os.path.join(tree, case["out"]))
            more = ["-Goutput_dir=" + case["out"]]
        run("dump_dependency_json", *more)
        try:
            with open(os.path.join(tree, case["out"] or "", "dump.json")) as f:
                got = json.load(f)
        except (OSError, ValueError) as e:
            fail("no dump of the dependencies: %s" % e)
        want = {qual(ts[i]): [qual(ts[k]) for k in ts[i]["deps"]] for i in live}
        if got != want:
            fail("the dependencies are dumped as %s instead of %s" % (got, want))
    elif case["what"] == "gypd":
        run("gypd", *(["--suffix=" + case["suffix"]] if case["suffix"] else []))
        ident = ["CONFIGURATION_NAME", "EXECUTABLE_PREFIX", "EXECUTABLE_SUFFIX", "INTERMEDIATE_DIR", "LIB_DIR", "PRODUCT_DIR",
                 "RULE_INPUT_ROOT", "RULE_INPUT_DIRNAME", "RULE_INPUT_EXT", "RULE_INPUT_NAME", "RULE_INPUT_PATH",
                 "SHARED_INTERMEDIATE_DIR", "SHARED_LIB_DIR", "SHARED_LIB_PREFIX", "SHARED_LIB_SUFFIX", "STATIC_LIB_PREFIX",
                 "STATIC_LIB_SUFFIX"]
        d = gyprun.dump(args, tree, cfg={"variables": {k: "<(%s)" % k for k in ident}, "toolsets": True, "adjust": True})
        if d.rc:
            fail("another format refuses the project: %s" % d.err[-500:])
        for f in sorted({ts[i]["f"] for i in live}):
            name = FILES[f][:-4] + case["suffix"] + ".gypd"
            try:
                with open(os.path.join(tree, name), encoding="utf-8") as h:
                    got = ast.literal_eval(h.read())
            except (OSError, ValueError, SyntaxError) as e:
                fail("%s cannot be read back: %s" % (name, e))
            mine = {t["target_name"]: t for t in got["targets"]}
            want = {v["target_name"]: v for q, v in d.dump["dicts"].items() if q.split(":")[0] == FILES[f]}
            if mine != want or len(mine) != len(got["targets"]):
                fail("%s holds %s instead of %s" % (name, json.dumps(mine)[:1500], json.dumps(want)[:1500]))
    else:
        cn = CONFIGS[case["cfg"]]
        run("eclipse", *(["-Gconfig=" + cn[-1]] if case["only"] else []))
        made = sorted(os.listdir(os.path.join(tree, "out")))
        confs = cn[-1:] if case["only"] else cn
        if made != sorted(confs):
            fail("the configurations described are %s" % made)
        for k, c in enumerate(cn):
            if c in confs:
                eclipse(case, tree, k, c, live, fail)
    special = any(ch in s for i in live for s in ts[i]["inc"] + ts[i]["def"] for ch in "&<>\"'é\\")
    return {"nontrivial": len({ts[i]["f"] for i in live}) > 1 and any(ts[i]["deps"] for i in live) and special
            and any(ts[i]["inc"] for i in live) and any(ts[i]["def"] for i in live), "labels": [case["what"]]}


def eclipse(case, tree, k, conf, live, fail):
    top = os.path.join(tree, "out", conf)
    gen = [os.path.join(top, "obj", "gen"), os.path.join(top, "gen")]
    dirs, flags, macros, jars, srcs = set(), list(FOUND), {}, set(), set()
    # (the order in which targets come decides which of two defines of one name is shown: both are accepted)
    alt = {}
    for i in live:
        t = case["t"][i]
        base = posixpath.dirname(FILES[t["f"]])
        for d in t["inc"] + t["cinc"][k % 2]:
            for g in gen:
                p = d.replace("<(SHARED_INTERMEDIATE_DIR)", g)
                dirs.add(os.path.normpath(os.path.join(tree, base, p)))
        flags += [x[2:] for x in t["cflags"] if x.startswith("-I")]
        first = {}
        for d in t["def"] + t["cdef"][k % 2]:
            n, _, v = d.partition("=")
            first.setdefault(n, v if "=" in d else "1")
        for n, v in first.items():
            alt.setdefault(n, set()).add(v)
        for x in t["java"]:
            if x.startswith("<"):
                continue
            q = x if x.startswith("/") else posixpath.normpath(posixpath.join(base, x))
            if q.endswith(".jar"):
                jars.add(posixpath.relpath(q, tree) if q.startswith("/") else q)
            elif q.endswith(".java"):
                d = posixpath.dirname(q)
                up = d
                while up and posixpath.basename(up) not in ("src", "java"):
                    up = posixpath.dirname(up)
                srcs.add(posixpath.normpath(up or d))
    for n, v in MACROS.items():
        alt[n] = {v}
    try:
        doc = ET.parse(os.path.join(top, "eclipse-cdt-settings.xml")).getroot()
        cp = ET.parse(os.path.join(top, "eclipse-classpath.xml")).getroot()
    except (OSError, ET.ParseError) as e:
        fail("the settings cannot be read: %s" % e)
    langs = 0
    for s in doc.findall("section"):
        for l in s.findall("language"):
            if l.get("name").startswith("holder"):
                continue
            langs += 1
            if s.get("name").endswith("IncludePaths"):
                got = [x.text for x in l.findall("includepath")]
                if len(set(got)) != len(got) or set(got) != dirs | set(flags):
                    fail("%s: %s searches %s instead of %s" % (conf, l.get("name"), sorted(got), sorted(dirs | set(flags))))
            else:
                got = [(m.find("name").text, m.find("value").text or "") for m in l.findall("macro")]
                if sorted(n for n, v in got) != sorted(alt):
                    fail("%s: %s defines %s instead of %s" % (conf, l.get("name"), got, alt))
                for n, v in got:
                    if v not in alt[n]:
                        fail("%s: %s is defined as %r, not %s" % (conf, n, v, sorted(alt[n])))
    if langs != 12:
        fail("%d languages are described" % langs)
    entries = {}
    for e in cp.findall("classpathentry"):
        entries.setdefault(e.get("kind"), []).append(posixpath.normpath(e.get("path")))
    if sorted(entries.get("lib", [])) != sorted(jars):
        fail("the Java archives are %s instead of %s" % (entries.get("lib"), sorted(jars)))
    if sorted(entries.get("src", [])) != sorted(srcs):
        fail("the Java sources are in %s instead of %s" % (entries.get("src"), sorted(srcs)))


CAMPAIGNS = [Campaign("formats", cases, check, quick=900)]
ASSUMPTIONS = ["the compiler asked for its defaults is a stand-in that prints fixed ones",
               "projects do not put two defines of one name in an order that depends on the order of targets"]


def setup():
    gyprun.load()
