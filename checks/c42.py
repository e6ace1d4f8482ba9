"""C42: generated addon projects configured, built, loaded into Node, edited and rebuilt.

Oracle: every value the loaded module exports is computed from the description (defines per configuration, include order,
libraries, generated sources, conditions); it must be right after the first build and after every edit.
"""
import json
import os
import subprocess

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, HarnessError, Violation

ID = "C42"
LEVEL = "exploration"
RULE = "a case is non-trivial when the project has a library, generated source, second addon or condition, or is edited and rebuilt"

VALUES = ["1", "42", "7", "x", "two words", "it's", "a\\b", "100%", "$HOME", "#no", "é", "<x>", "a;b", "(p)"]


@st.composite
def cases(draw):
    val = st.sampled_from(VALUES)
    c = {"name": draw(st.sampled_from(["addon", "my-addon", "hello_world", "x1"])), "product": draw(st.sampled_from([None, None, None, "other", "na-me"])),
         "lang": draw(st.sampled_from(["c", "c", "c", "cc"])),
         "files": draw(st.lists(st.tuples(st.sampled_from(["b.c", "src/b.c", "src/deep/c.c", "d.cc", "src/e-f.c", "g.cpp"]), val), max_size=2, unique_by=lambda x: os.path.basename(x[0]))),
         "defines": draw(st.lists(val, max_size=3)),
         "incs": draw(st.lists(st.tuples(st.sampled_from(["inc", "include/a", "third-party", "deps/x"]), val), max_size=2, unique_by=lambda x: x[0])),
         "libs": draw(st.lists(val, max_size=2)), "chain": draw(st.booleans()), "export": draw(st.sampled_from(["none", "direct", "all"])),
         "action": draw(st.sampled_from([None, None, "header", "source"])), "data": draw(val), "rule": draw(st.sampled_from([None, None, "tmpl"])), "rdata": draw(val),
         "configs": draw(st.booleans()), "cfg": [draw(val), draw(val)], "flavor": draw(st.sampled_from([None, "x", "y"])), "given": draw(st.sampled_from([None, None, "x", "y"])),
         "copy": draw(st.booleans()), "two": draw(st.booleans()), "twoval": draw(val),
         "debug": draw(st.booleans()), "bdebug": draw(st.sampled_from([None, None, "--debug", "--release"])),
         "jobs": draw(st.sampled_from([None, "4", "max"])), "chdir": draw(st.sampled_from(["", "", "", "rel"])), "first": draw(st.sampled_from(["two", "two", "one", "rebuild"])),
         "dir": draw(st.sampled_from(["p", "p", "proj-1", "pröj"]))}
    edits = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3]))):
        edits.append([draw(st.sampled_from(["source", "define", "header", "lib", "data", "rdata", "cfg", "two", "flavor", "break", "add", "copy", "lib"])), draw(val),
                      draw(st.sampled_from(["build", "build", "build", "build", "rebuild", "configure build", "switch"]))])
    c["edits"] = edits
    return c


def cstr(v):
    return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'


def write(root, name, text):
    q = os.path.join(root, name)
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if os.path.exists(q) and open(q).read() == text:
        return
    with open(q, "w") as f:
        f.write(text)


HEAD = """#include <node_api.h>
#define STR_(x) #x
#define STR(x) STR_(x)
%s
static void put(napi_env e, napi_value o, const char* k, const char* v) {
  napi_value s;
  napi_create_string_utf8(e, v, NAPI_AUTO_LENGTH, &s);
  napi_set_named_property(e, o, k, s);
}
"""


def functions(c, which):
    """Declarations and exported values of one addon: (declarations, [(key, C expression)], expected {key: value})."""
    decl, puts, want = [], [], {}
    fn = lambda n: decl.append('#ifdef __cplusplus\nextern "C"\n#endif\nconst char* %s(void);' % n)
    puts.append(("module", "STR(NODE_GYP_MODULE_NAME)"))
    want["module"] = c["name"] if which == "one" else "second"
    if which == "two":
        puts.append(("only", "ONLY"))
        want["only"] = c["twoval"]
        fn("shared")
        puts.append(("shared", "shared()"))
        want["shared"] = c["twoval"]
        return decl, puts, want
    for f, v in c["files"]:
        n = "f_" + "".join(x if x.isalnum() else "_" for x in os.path.basename(f))
        fn(n)
        puts.append((f, n + "()"))
        want[f] = v
    for i, v in enumerate(c["defines"]):
        puts.append(("def%d" % i, "DEF%d" % i))
        want["def%d" % i] = v
    if c["incs"]:
        decl.append('#include "which.h"')
        puts.append(("which", "WHICH"))
        want["which"] = c["incs"][0][1]
    for i, v in enumerate(c["libs"]):
        if i == 0 or not c["chain"]:
            fn("lib%d" % i)
            puts.append(("lib%d" % i, "lib%d()" % i))
            want["lib%d" % i] = v + ("+" + c["libs"][1] if i == 0 and c["chain"] and len(c["libs"]) > 1 else "")
        if c["export"] == "all" or c["export"] == "direct" and (i == 0 or not c["chain"]):
            puts.append(("libdef%d" % i, "LIBDEF%d" % i))
            want["libdef%d" % i] = "d" + v
    if c["action"]:
        if c["action"] == "header":
            decl.append('#include "gen.h"')
            puts.append(("gen", "GEN"))
        else:
            fn("gen")
            puts.append(("gen", "gen()"))
        want["gen"] = "gen " + c["data"]
    if c["rule"]:
        fn("tm_one")
        puts.append(("rule", "tm_one()"))
        want["rule"] = "rule " + c["rdata"]
    if c["configs"]:
        puts.append(("cfg", "CFG"))
        want["cfg"] = None      # depends on the configuration
    if c["flavor"]:
        puts.append(("flavor", "FLAVOR"))
        want["flavor"] = (c["given"] or c["flavor"]) + "!"
    fn("shared")
    puts.append(("shared", "shared()"))
    want["shared"] = "one"
    return decl, puts, want


def project(root, c):
    q = lambda v: "\\\"" .join(["", ""]) if False else v

    def define(k, v):
        return "%s=%s" % (k, cstr(v))
    srcs = []
    main = "main." + c["lang"]
    for which, fname in (("one", main), ("two", "second.c")):
        if which == "two" and not c["two"]:
            continue
        decl, puts, want = functions(c, which)
        body = HEAD % "\n".join(decl) + "NAPI_MODULE_INIT() {\n" + "".join("  put(env, exports, %s, %s);\n" % (cstr(k), e) for k, e in puts) + "  return exports;\n}\n"
        write(root, fname, body)
    ext = lambda f: 'extern "C" ' if not f.endswith(".c") else ""
    write(root, "shared.c", "const char* shared(void) { return SHARED; }\n")
    srcs = [main, "shared.c"]
    for f, v in c["files"]:
        n = "f_" + "".join(x if x.isalnum() else "_" for x in os.path.basename(f))
        write(root, f, "%sconst char* %s(void) { return %s; }\n" % (ext(f), n, cstr(v)))
        srcs.append(f)
    for f in c.get("added", []):
        srcs.append(f)
    one = {"target_name": c["name"], "sources": srcs, "defines": [define("DEF%d" % i, v) for i, v in enumerate(c["defines"])] + [define("SHARED", "one")]}
    if c["product"]:
        one["product_name"] = c["product"]
    for d, v in c["incs"]:
        write(root, d + "/which.h", "#define WHICH %s\n" % cstr(v))
    if c["incs"]:
        one["include_dirs"] = [d for d, v in c["incs"]]
    targets = [one]
    if c["libs"]:
        one["dependencies"] = ["lib0"] if c["chain"] or len(c["libs"]) == 1 else ["lib0", "lib1"]
    for i, v in enumerate(c["libs"]):
        chained = c["chain"] and i == 0 and len(c["libs"]) > 1
        write(root, "lib/l%d.c" % i, ("const char* lib1(void);\n#include <stdio.h>\n" if chained else "") + "const char* lib%d(void) { %s }\n" % (
            i, 'static char b[200]; snprintf(b, 200, "%%s+%%s", %s, lib1()); return b;' % cstr(v) if chained else "return %s;" % cstr(v)))
        t = {"target_name": "lib%d" % i, "type": "static_library", "sources": ["lib/l%d.c" % i]}
        if chained:
            t["dependencies"] = ["lib1"]
        if c["export"] != "none":
            t["%s_dependent_settings" % c["export"]] = {"defines": [define("LIBDEF%d" % i, "d" + v)]}
        targets.append(t)
    if c["action"]:
        write(root, "data/in.txt", c["data"])
        write(root, "gen.py", "import sys\nt = open(sys.argv[1]).read()\nq = '\"gen ' + t.replace('\\\\', '\\\\\\\\') + '\"'\n"
              "o = open(sys.argv[2], 'w')\no.write('#define GEN %s\\n' % q if sys.argv[2].endswith('.h') else 'const char* gen(void) { return %s; }\\n' % q)\n")
        out = "<(INTERMEDIATE_DIR)/gen.h" if c["action"] == "header" else "<(SHARED_INTERMEDIATE_DIR)/gen.c"
        one["actions"] = [{"action_name": "gen", "inputs": ["data/in.txt", "gen.py"], "outputs": [out], "action": ["python3", "gen.py", "data/in.txt", out]}]
        if c["action"] == "header":
            one.setdefault("include_dirs", []).append("<(INTERMEDIATE_DIR)")
        else:
            one["actions"][0]["process_outputs_as_sources"] = 1
    if c["rule"]:
        write(root, "one.tmpl", c["rdata"])
        write(root, "rule.py", "import sys\nt = open(sys.argv[1]).read()\nq = '\"rule ' + t.replace('\\\\', '\\\\\\\\') + '\"'\n"
              "open(sys.argv[2], 'w').write('const char* tm_one(void) { return %s; }\\n' % q)\n")
        one["sources"].append("one.tmpl")
        one["rules"] = [{"rule_name": "tm", "extension": "tmpl", "inputs": ["rule.py"], "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c"],
                         "action": ["python3", "rule.py", "<(RULE_INPUT_PATH)", "<@(_outputs)"], "process_outputs_as_sources": 1}]
    if c["configs"]:
        one["configurations"] = {"Debug": {"defines": [define("CFG", c["cfg"][0])]}, "Release": {"defines": [define("CFG", c["cfg"][1])]}}
    gyp = {"targets": targets}
    if c["flavor"]:
        gyp["variables"] = {"flavor%": c["flavor"]}
        one["conditions"] = [["flavor==\"x\"", {"defines": [define("FLAVOR", "x!")]}, {"defines": [define("FLAVOR", "y!")]}]]
    if c["copy"]:
        write(root, "res/file.txt", c.get("copyval", "first"))
        targets.append({"target_name": "res", "type": "none", "copies": [{"destination": "<(PRODUCT_DIR)/res", "files": ["res/file.txt"]}]})
    if c["two"]:
        targets.append({"target_name": "second", "sources": ["second.c", "shared.c"], "defines": [define("ONLY", c["twoval"]), define("SHARED", c["twoval"])]})
    write(root, "binding.gyp", json.dumps(gyp, indent=1))


def evaluate(case):
    if not os.path.exists("/usr/include/node/node_api.h"):
        raise HarnessError("no Node headers in /usr/include/node")
    c = json.loads(json.dumps(case))
    for v in list(c["defines"]) + [c["twoval"]] + c["cfg"] + ["d" + x for x in c["libs"]]:
        pass
    uid, d, binary = nodejs.unprivileged()
    root = os.path.join(d, c["dir"])
    os.makedirs(os.path.join(d, "tmp"))
    project(root, c)
    env = {"HOME": d, "TMPDIR": os.path.join(d, "tmp"), "MAKE": None, "JOBS": None}
    trace = []
    kind = "Debug" if c["debug"] else "Release"
    labels = []

    def gyp(words, expect=True):
        cwd, argv = root, words.split()
        if "configure" in argv or "rebuild" in argv:
            argv.append("--nodedir=/usr")
            if c["debug"]:
                argv.append("--debug")
        if c["jobs"]:
            argv.append("--jobs=" + c["jobs"])
        if c["chdir"]:
            cwd = d
            argv += ["-C", c["dir"]]
        if ("configure" in argv or "rebuild" in argv) and c["given"] and c["flavor"] and "build" not in argv[1:]:
            argv += ["--", "-Dflavor=" + c["given"]]
        nodejs.own(d, uid)
        r = nodejs.cli(argv, cwd, env, uid=uid, binary=binary, timeout=120)
        trace.append("node-gyp " + " ".join(argv))
        if (r.rc == 0) != expect:
            fail("exit status %s\n%s" % (r.rc, r.text(2500)), "build" if expect else "accepts")

    def fail(msg, sig):
        raise Violation("%s\nafter: %s\nproject: %s" % (msg, "; ".join(trace), json.dumps(c)), sig=sig)

    def check():
        want = {"one": functions(c, "one")[2]}
        if c["configs"]:
            want["one"]["cfg"] = c["cfg"][0 if kind == "Debug" else 1]
        paths = {"one": os.path.join(root, "build", kind, (c["product"] or c["name"]) + ".node")}
        if c["two"]:
            want["two"] = functions(c, "two")[2]
            paths["two"] = os.path.join(root, "build", kind, "second.node")
        js = "const p=%s,o={};for(const k in p){try{o[k]=require(p[k])}catch(e){o[k]=String(e.message)}};console.log(JSON.stringify(o))" % json.dumps(paths)
        p = subprocess.run([nodejs.NODE, "-e", js], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", env=nodejs.base_env(), timeout=60)
        try:
            got = json.loads(p.stdout)
        except ValueError:
            fail("loading the module ends node with %s: %s" % (p.returncode, p.stderr.decode()[-800:]), "load")
        for w in want:
            if got[w] != want[w]:
                if isinstance(got[w], str):
                    fail("%s cannot be loaded: %s" % (paths[w], got[w]), "load")
                fail("%s exports (found, expected): %s" % (paths[w], {k: (got[w].get(k), want[w].get(k)) for k in set(got[w]) | set(want[w]) if got[w].get(k) != want[w].get(k)}),
                     "value")
        if c["copy"]:
            q = os.path.join(root, "build", kind, "res", "file.txt")
            if not os.path.exists(q) or open(q).read() != c.get("copyval", "first"):
                fail("the copied file is not there or old", "copy")
        if os.path.lexists(os.path.join(root, "build", "node_gyp_bins")):
            fail("build/node_gyp_bins was left behind", "left")

    gen = c["first"]
    if gen == "one" and not (c["given"] and c["flavor"]):
        gyp("configure build")
    elif gen == "rebuild":
        gyp("rebuild")
    else:
        gyp("configure")
        if c["bdebug"]:
            kind = "Debug" if c["bdebug"] == "--debug" else "Release"
        gyp("build" + (" " + c["bdebug"] if c["bdebug"] else ""))
    check()
    for what, v, how in c["edits"]:
        if what == "source" and c["files"]:
            c["files"][0][1] = v
        elif what == "define" and c["defines"]:
            c["defines"][0] = v
        elif what == "header" and c["incs"]:
            c["incs"][0][1] = v
        elif what == "lib" and c["libs"]:
            c["libs"][-1] = v
        elif what == "data" and c["action"]:
            c["data"] = v
        elif what == "rdata" and c["rule"]:
            c["rdata"] = v
        elif what == "cfg" and c["configs"]:
            c["cfg"] = [v, v]
        elif what == "two" and c["two"]:
            c["twoval"] = v
        elif what == "flavor" and c["flavor"] and not c["given"]:
            c["flavor"] = "y" if c["flavor"] == "x" else "x"
        elif what == "copy" and c["copy"]:
            c["copyval"] = v
        elif what == "add":
            f = "added.c"
            if [f, v] not in c["files"]:
                c["files"] = [x for x in c["files"] if x[0] != f] + [[f, v]]
        elif what == "break":
            write(root, "shared.c", "this is no C\n")
            trace.append("shared.c is broken")
            gyp("build" + (" --debug" if kind == "Debug" else " --release"), expect=False)
        else:
            continue
        project(root, c)
        trace.append("edit " + what)
        labels.append("edit:" + what)
        flag = " --debug" if kind == "Debug" else " --release"
        if how == "rebuild":
            kind = "Debug" if c["debug"] else "Release"
            gyp("rebuild")
        elif how == "configure build":
            gyp("configure")
            gyp("build" + flag)
        elif how == "switch":
            kind = "Debug" if kind == "Release" else "Release"
            gyp("build" + (" --debug" if kind == "Debug" else " --release"))
        else:
            gyp("build" + flag)
        check()
    return {"nontrivial": bool(c["libs"] or c["action"] or c["rule"] or c["two"] or c["flavor"] or labels), "labels": sorted(set(labels)) + [kind, "first:" + gen]}


CAMPAIGNS = [Campaign("addons", cases, evaluate, quick=72, thorough=2400, shrink_evals=40)]
