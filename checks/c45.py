"""C45: generated projects written as CMake projects, configured by real cmake and built with stand-in tools.

Oracle: the model of what a build of the project must do (each source, action, rule and copy once, archives and links
from exactly the right parts), the compilation database generated from the same project for the compiler settings, a
second build that does nothing, and after an edit the same results as a build from nothing.
"""
import json
import os
import posixpath
import re
import subprocess

from hypothesis import strategies as st

import c14
import c15
from vh import gypbuild as B, gypproj as P, gyprun, posix, stubs
from vh.core import Campaign, HarnessError, Violation, rmtree

ID = "C45"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least two targets are built, one depends on another, and files are generated, "
        "copied or linked from several targets, or a define needs quoting")

TOOLCHAIN = """set(CMAKE_SYSTEM_NAME Linux)
foreach(l C CXX ASM)
  set(CMAKE_${l}_COMPILER_FORCED TRUE)
  set(CMAKE_${l}_COMPILER_ID GNU)
  set(CMAKE_${l}_COMPILER_ID_RUN TRUE)
  set(CMAKE_${l}_COMPILER_WORKS TRUE)
  set(CMAKE_${l}_COMPILER_VERSION 13.0)
endforeach()
set(CMAKE_C_COMPILER vcc)
set(CMAKE_ASM_COMPILER vcc)
set(CMAKE_CXX_COMPILER vcxx)
set(CMAKE_AR var)
set(CMAKE_RANLIB true)
"""
RSP = {"VRSP": "1"}


@st.composite
def define(draw, i):
    """Defines with metacharacters; '$' starts a CMake reference in every value of the project, ';' ends an item."""
    d = draw(c14.define(i))
    d = re.sub(r"[][$;#\t%s]" % "\x7f", ".", d)
    return "D%s" % i if "(" in d.split("=")[0] or d.endswith("\\") or not c14.clean(d) else d


@st.composite
def cases(draw):
    p = P.normalise(draw(P.project(max_targets=5)))
    linked = [i for i, t in enumerate(p["targets"]) if t["type"] != "none"]
    for i in linked:
        t = p["targets"][i]
        if draw(st.integers(0, 2)) == 1:
            t["set"]["defines"] = t["set"]["defines"] + [draw(define("Q%d_%d" % (i, k))) for k in range(2)]
        if draw(st.integers(0, 3)) == 1:
            t["sources"].append({"path": P.up(p, t) + "common/s%d.cc" % i, "inc": [], "v": 0})
        if draw(st.integers(0, 4)) == 1:
            t["sources"].append({"path": "asm%d.S" % i, "inc": [], "v": 0})
        if draw(st.integers(0, 3)) == 1:
            t["sources"].append({"path": "note%d.txt" % i, "inc": [], "v": 0})
        if t["type"] in P.LINK and draw(st.integers(0, 2)) == 1:
            t["set"]["ldflags"] = ["-Wl,-x%d" % i, "-Wl,-y"][:draw(st.integers(1, 2))]
        if t["type"] in P.LINK and draw(st.integers(0, 3)) == 1:
            t["prebuilt"] = ["%spre%d_%d.o" % (draw(st.sampled_from(["", "sub/"])), i, k) for k in range(draw(st.integers(1, 2)))]
        if t["type"] in P.LINK and draw(st.integers(0, 3)) == 1:
            t.setdefault("extra", {})["library_dirs"] = [draw(st.sampled_from(["ld%d" % i, "ld/x%d" % i]))]
        if t["type"] == "static_library" and draw(st.integers(0, 4)) == 1:
            t.setdefault("extra", {})["standalone_static_library"] = 1
        if t["copies"] and draw(st.booleans()):
            t["copies"][0]["trees"] = ["tree%d/" % i]
        if t["copies"] and draw(st.integers(0, 2)) == 1:
            t["copies"][0]["files"][0]["path"] = "sub d/c p%d.dat" % i
        if draw(st.integers(0, 3)) == 1:
            for a in t["actions"]:
                a["message"] = draw(st.sampled_from(["make (it", "do #1; \"now\"", "plain words", "DEPENDS on"]))
        if t["rules"] and draw(st.integers(0, 2)) == 1:
            t["rules"][0]["srcs"][0]["path"] = "r d/" + posixpath.basename(t["rules"][0]["srcs"][0]["path"])
        if draw(st.integers(0, 4)) == 1:
            for a in t["actions"]:
                for o in a["out"]:
                    if o["loc"] == "tree" and "/" not in o["path"]:
                        o["path"] = "g s/" + o["path"]
    if draw(st.integers(0, 3)) == 1:
        p["dirs"] = [d.replace("core", "co re").replace("app", "a pp") for d in p["dirs"]]
    exes = [i for i in linked if p["targets"][i]["type"] == "executable"]
    if exes and draw(st.integers(0, 3)) == 1:
        t = p["targets"][exes[0]]
        if not t["rules"] and not any(a["src"] for a in t["actions"]):
            t["sources"], t["dummy"] = [], not t.get("prebuilt")
    # targets of one name in different directories (their products differ in directory or name)
    if len(linked) > 1 and draw(st.integers(0, 2)) == 1:
        a, b = linked[0], linked[draw(st.integers(1, len(linked) - 1))]
        ta, tb = p["targets"][a], p["targets"][b]
        if ta["dir"] != tb["dir"] and P.product_base(dict(ta, name="same")) != P.product_base(dict(tb, name="same")):
            ta["name"] = tb["name"] = "same"
    elif draw(st.integers(0, 4)) == 1 and linked:
        p["targets"][linked[0]]["name"] = draw(st.sampled_from(["dot.ted", "sp ace"]))
    return {"p": p, "conf": draw(st.integers(0, 1)), "jobs": draw(st.sampled_from([1, 4, 8])),
            "seed": draw(st.integers(0, 999)), "jit": draw(st.sampled_from([0, 2000])),
            "roots": draw(st.sampled_from(["all", "all", "one"])), "out": draw(st.sampled_from(["out", "out", "o2"])),
            "edit": draw(st.integers(0, 30))}


def gyp(case, root, fmt, roots):
    args = ["-f", fmt, "--depth=.", "--no-parallel"]
    if case["out"] != "out":
        args += ["-G", "output_dir=" + case["out"]]
    r = gyprun.gyp_main(args + roots, root, env=stubs.env())
    if r.rc:
        raise Violation("%s: a valid project was rejected: %s\n%s" % (fmt, r.err[-1500:], json.dumps(case)))


def configure(case, root, conf):
    out = os.path.join(root, case["out"], conf)
    if not os.path.exists(os.path.join(out, "CMakeLists.txt")):
        raise Violation("no CMakeLists.txt for %s\n%s" % (conf, json.dumps(case)))
    r = subprocess.run(["cmake", "-G", "Ninja", "-Wno-dev", "-DCMAKE_TOOLCHAIN_FILE=" + os.path.join(
        os.environ["VH_SCRATCH"], "tools", "tc.cmake"), "-S", out, "-B", out], env=stubs.env(extra=RSP),
        capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Violation("cmake rejects the project: %s\n%s" % (r.stderr[-1500:], json.dumps(case)))


def build(case, root, conf, jobs, *targets):
    return stubs.run(["ninja", "-C", os.path.join(case["out"], conf), "-j%d" % jobs] + list(targets), root,
                     os.path.join(root, "..", "vlog"), seed=case["seed"], jitter=case["jit"], extra=RSP)


NOISE = re.compile(r"^(CMakeFiles/|CMakeCache\.txt$|cmake_install\.cmake$|build\.ninja$|CMakeLists\.txt$|\.ninja_)")


def results(root, case, conf):
    top = os.path.join(case["out"], conf)
    t = B.tree(root, top)
    return {k: v for k, v in t.items() if not NOISE.match(posixpath.relpath(k, top))
            or k.endswith(".o") and "CMakeFiles/" in k}


def settings(case, root, log, conf):
    """{source: [(tool, defines, includes, flags)]} as the compilers were called"""
    p = case["p"]
    res = {}
    base = os.path.join(root, case["out"], conf)
    for tool, src, out, a in B.compile_runs(log):
        a = [stubs.decode(x) for x in a]
        rest, skip = [], 0
        for x in a:
            if skip:
                skip -= 1
            elif x in ("-o", "-MF", "-MT", "-MQ"):
                skip = 1
            elif x not in ("-c", "-MD", "-fPIC") and x != stubs.decode(src):
                rest.append(x)
        d, i, f = c15.split(rest, base, root)
        q = posixpath.relpath(posixpath.normpath(posixpath.join(base, stubs.decode(src))), root)
        res.setdefault(q, []).append((tool, sorted(x for x in d if not x.endswith("_EXPORTS")), [x for x in i if not own(case, x)], f))
    return res


def own(case, x):
    return x == case["out"] or x.startswith(case["out"] + "/")


def database(case, root, conf):
    with open(os.path.join(root, case["out"], conf, "compile_commands.json")) as fh:
        db = json.load(fh)
    res = {}
    for e in db:
        a = posix.split(e["command"], dollar=True)
        d, i, f = c15.split(a[1:-2], root, root)
        inc = []
        for x in i:
            if not own(case, x) and "$(" not in x and x not in inc:
                inc.append(x)
        res.setdefault(posixpath.relpath(e["file"], root), []).append(
            ({"cc": "vcc", "c++": "vcxx"}[a[0]], sorted(set(d)), inc, f))
    return res


def editable(p):
    r = []
    for t in p["targets"]:
        r += [s for s in t["sources"] if P.compiled_ext(s["path"])]
        for a in t["actions"]:
            r += [i for i in a["in"] if i["kind"] == "file"]
        for ru in t["rules"]:
            r += ru["srcs"] + ru["extra"]
        for c in t["copies"]:
            r += c["files"]
    return r


def products(case, root, conf, built):
    p = case["p"]
    top = os.path.join(root, case["out"], conf)
    for ti in built:
        t = p["targets"][ti]
        if t["type"] != "none":
            d = {"static_library": "obj.target/" + P.tdir(p, t), "shared_library": "lib.target"}.get(t["type"], "")
            if t.get("extra", {}).get("standalone_static_library"):
                d = ""
            f = os.path.join(top, d, P.product_base(t))
            if not os.path.isfile(f):
                raise Violation("the build leaves no %s\n%s" % (os.path.relpath(f, root), json.dumps(case)))
        for c in t["copies"]:
            for x in c["files"]:
                f = os.path.join(top, c["dest"], posixpath.basename(x["path"]))
                if not os.path.isfile(f) or open(f).read() != "data %s %d\n" % (x["path"], x["v"]):
                    raise Violation("%s is not copied to %s\n%s" % (x["path"], c["dest"], json.dumps(case)))
            for x in c.get("trees", []):
                for n, text in (("one.dat", "tree %s\n"), ("in/two.dat", "tree %s 2\n")):
                    f = os.path.join(top, c["dest"], x, n)
                    if not os.path.isfile(f) or open(f).read() != text % x:
                        raise Violation("the directory %s is not copied to %s\n%s" % (x, c["dest"], json.dumps(case)))


def evaluate(case):
    p = case["p"]
    j = json.dumps(case)
    conf = p["confs"][case["conf"] % len(p["confs"])]
    n = len(p["targets"])
    roots = P.roots(p)
    built = list(range(n))
    if case["roots"] == "one" and len(roots) > 1:
        roots = roots[-1:]
        own_ = [i for i, t in enumerate(p["targets"]) if P.gypfile(p, t["dir"]) == roots[0]]
        built = sorted(set(own_).union(*[P.deep(p, i) for i in own_]))
    root = os.path.join(B.fresh_dir("cm"), "src")
    os.makedirs(root)
    gyprun.write_tree(root, P.render(p))
    gyp(case, root, "cmake", roots)
    configure(case, root, conf)
    b = build(case, root, conf, case["jobs"])
    B.must(b, "building the CMake project", case)
    info = B.check_log(p, b.log, "cmake", built)
    products(case, root, conf, built)
    # compiler settings
    got = settings(case, root, b.log, conf)
    root2 = os.path.join(B.fresh_dir("db"), "src")
    os.makedirs(root2)
    gyprun.write_tree(root2, P.render(p))
    gyp(case, root2, "compile_commands_json", roots)
    want = database(case, root2, conf)
    for i in built:
        t = p["targets"][i]
        if t["type"] == "none":
            continue
        for s in t["sources"]:
            k = P.rel(p, t, s["path"])
            if P.compiled_ext(k) and not k.endswith(".S") and c15.canon(got.get(k, [])) != c15.canon(want.get(k, [])):
                raise Violation("CMake compiles %s as %r, the compilation database says %r\n%s" % (
                    k, got.get(k), want.get(k), j))
        # linker flags and libraries
        if t["type"] in P.LINK:
            x = [x for x in B.link_runs(b.log) if posixpath.basename(x["writes"][0]) == P.product_base(t)][0]
            a = [stubs.decode(v) for v in x["argv"]]
            base = os.path.join(root, case["out"], conf)
            have = {posixpath.relpath(posixpath.join(base, v[2:]), root) for v in a if v.startswith("-L") and len(v) > 2}
            if not {P.rel(p, t, v) for v in t.get("extra", {}).get("library_dirs", [])} <= have:
                raise Violation("%s is linked with the directories %s\n%s" % (t["name"], sorted(have), j))
            for what, exp in (("linker flags", t["set"].get("ldflags", [])), ("libraries", t.get("libraries", []))):
                it = iter(a)      # (CMake adds what linked libraries were linked to)
                if not all(v in it for v in exp):
                    raise Violation("%s of %s: %r does not hold %r\n%s" % (what, t["name"], a, exp, j))
    # nothing is left to do
    b2 = build(case, root, conf, 4)
    if b2.rc or b2.log:
        raise Violation("a second build runs %s\n%s" % ([x["argv"] for x in b2.log][:2] or b2.out[-500:], j))
    # after an edit: as if built from nothing
    ed = editable({"targets": [p["targets"][i] for i in built]})
    labels = [case["roots"]]
    if ed and case["edit"] % 2:
        x = ed[case["edit"] % len(ed)]
        x["v"] += 1
        try:
            text = P.render(p)
        finally:
            x["v"] -= 1
        for f, s in text.items():
            f = os.path.join(root, f)
            if open(f).read() != s:
                st_ = os.stat(f)
                with open(f, "w") as fh:
                    fh.write(s)
                os.utime(f, ns=(st_.st_atime_ns, max(st_.st_mtime_ns, os.stat(f).st_mtime_ns) + 2000000000))
        b3 = build(case, root, conf, case["jobs"])
        B.must(b3, "building after an edit of " + x["path"], case)
        after = results(root, case, conf)
        rmtree(os.path.join(root, case["out"]))
        gyp(case, root, "cmake", roots)
        configure(case, root, conf)
        B.must(build(case, root, conf, 4), "building from nothing", case)
        clean = results(root, case, conf)
        if after != clean:
            d = [k for k in sorted(set(after) | set(clean)) if after.get(k) != clean.get(k)]
            raise Violation("after an edit of %s the build leaves other results than a clean one: %s\n%s" % (
                x["path"], d[:4], j))
        labels.append("edit")
    quoted = any(re.search(r"[^\w=.]", d) for i in built for d in p["targets"][i]["set"].get("defines", []))
    labels += [k for k in ("acts", "links", "ar") if info[k]] + (["quoted-define"] if quoted else [])
    names = [p["targets"][i]["name"] for i in built]
    if len(set(names)) < len(names):
        labels.append("same-name")
    deps = any(p["targets"][i]["deps"] for i in built)
    return {"nontrivial": len(built) > 1 and deps and (info["acts"] > 0 or info["links"] > 1 or quoted), "labels": labels}


CAMPAIGNS = [Campaign("build", cases, evaluate, quick=450, shrink_seconds=40, shrink_evals=150)]
ASSUMPTIONS = ["cmake and ninja are the real ones, compilers, archiver and custom tools stand-ins",
               "defines hold no '$' or ';' (CMake syntax), no '#' or arguments (CMake refuses them), no brackets (they group items) and no newline; no source belongs to two targets with "
               "different flags for each language (the generator documents both limits)",
               "defines are compared as sets and repeated include directories once: CMake itself drops repetitions; "
               "the NAME_EXPORTS define CMake adds to shared libraries is not counted"]


def setup():
    gyprun.load()
    stubs.setup()
    with open(os.path.join(os.environ["VH_SCRATCH"], "tools", "tc.cmake"), "w") as f:
        f.write(TOOLCHAIN)
