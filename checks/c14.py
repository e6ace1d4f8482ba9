"""C14: makefiles generated for settings full of metacharacters, run by real make with an argv-logging compiler.

Oracle: the argument vector a compiler or linker receives, split into its parts, equals the lists of the project.
"""
import json
import os
import posixpath
import re

from hypothesis import strategies as st

from vh import gypbuild as B, gyprun, stubs
from vh.core import Campaign, Violation, fresh_dir

ID = "C14"
LEVEL = "exploration"
RULE = ("a case is non-trivial when a define holds a shell, make or preprocessor metacharacter, or a target has both "
        "C and C++ sources with language-specific flags, or a linkable target has linker flags and libraries")

GYP = re.compile(r"[<>^](!|\||@|!@|\|@)?[-\w.]*\(|^[<>^!=?|+]|__")
CH = list(" !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~aB0\té☃\x7f")


def clean(s):
    return not GYP.search(s)


HOT = ['"', "'", "\\", "$", "#", "`", " ", "$(X)", "$$", "$@", "\\\\", '\\"', "*", "%", "&&", ";", "|", "~", "${HOME}",
       "\t", "!", "=", ",", "(", ")", "é", "a", "1", "\\#", "\\n", ":", "<", ">", "?", "[a]", "{a,b}", "^", "@", "%s"]


@st.composite
def define(draw, i):
    k = draw(st.integers(0, 5))
    if k == 0:
        v = ""
    elif k == 1:
        v = "=" + draw(st.sampled_from(["1", "0", "-1", "foo", "", "0x10"]))
    elif k == 2:
        v = "=" + draw(st.text(alphabet=CH, max_size=10))
    elif k == 3:
        v = '="%s"' % "".join(draw(st.lists(st.sampled_from(HOT), max_size=4)))
    elif k == 4:
        v = "(x)=" + "".join(draw(st.lists(st.sampled_from(HOT), max_size=4)))
    else:
        v = "=" + "".join(draw(st.lists(st.sampled_from(HOT), min_size=1, max_size=6)))
    d = "D%s%s" % (i, v)
    return d if clean(d) and not d.endswith("/") and not re.search(r"\$\((?!X\))", d) else "D%s" % i


def words(prefix, k):
    """Flags: shell words without metacharacters."""
    body = st.text(alphabet=list("abzAZ019_+=.,:/@%-"), max_size=6)
    return st.lists(st.builds(lambda b: prefix + b, body).filter(lambda w: clean(w) and "%" not in w[:1]), max_size=k)


PATHCH = list("abzAZ019_+=.,@-")


@st.composite
def path(draw, depth=2):
    seg = st.text(alphabet=PATHCH, min_size=1, max_size=5).filter(
        lambda s: s not in (".", "..") and s[0] not in "-=+~" and clean(s) and not s.endswith("."))
    return "/".join(draw(st.lists(seg, min_size=1, max_size=depth)))


@st.composite
def settings(draw, tag, link):
    n = draw(st.integers(0, 3))
    return {"defines": [draw(define("%s_%d" % (tag, i))) for i in range(n)],
            "cflags": draw(words("-f", 3)), "cflags_c": draw(words("-std=", 2)), "cflags_cc": draw(words("-fno-", 2)),
            "include_dirs": draw(st.lists(st.one_of(path(), path().map(lambda p: "../" + p), path().map(
                lambda p: "/abs/" + p)), max_size=3, unique=True)),
            "ldflags": draw(words("-Wl,", 2)) if link else [],
            "library_dirs": draw(st.lists(path(), max_size=1)) if link else []}


@st.composite
def cases(draw):
    confs = ["Default", "Release"][:draw(st.integers(1, 2))]
    sub = draw(st.sampled_from(["", "sub", "sub/deep"]))
    targets = []
    for ti in range(draw(st.integers(1, 2))):
        ty = draw(st.sampled_from(["executable", "static_library", "shared_library", "loadable_module"]))
        link = ty != "static_library"
        nsrc = draw(st.integers(1, 3))
        t = {"type": ty, "set": draw(settings("t%d" % ti, link)), "conf": {}, "src": [],
             "libs": draw(st.lists(st.sampled_from(["-la", "-lb", "-la", "libs/x.a", "-Wl,-z", "-lc++", "libs/y.so"]),
                                   max_size=4)) if link else []}
        for c in confs:
            if draw(st.booleans()):
                t["conf"][c] = draw(settings("t%d%s" % (ti, c[0]), link))
        for k in range(nsrc):
            p = draw(path(3))
            t["src"].append("%s_%d_%d.%s" % (p, ti, k, draw(st.sampled_from(["c", "cc", "cpp", "cxx", "c", "S", "s"]))))
        if ti and draw(st.booleans()):
            t["dep"] = True
        targets.append(t)
    return {"confs": confs, "sub": sub, "targets": targets, "pick": draw(st.integers(0, 1))}


def lists(t, conf, key):
    """target list, then the configuration's list; a string that is no flag is not repeated by the second."""
    r = list(t["set"][key])
    have = set(r)
    for x in t["conf"].get(conf, {}).get(key, []):
        if not x.startswith("-") and x in have:
            continue
        r.append(x)
        have.add(x)
    return r


def evaluate(case):
    root = os.path.join(fresh_dir("p"), "src")
    sub = case["sub"]
    files, tl = {}, []
    for ti, t in enumerate(case["targets"]):
        d = {k: v for k, v in t["set"].items() if v}
        d.update(target_name="t%d" % ti, type=t["type"], sources=t["src"])
        if t["libs"]:
            d["libraries"] = t["libs"]
        if t.get("dep"):
            d["dependencies"] = ["t0"]
        d["configurations"] = {c: {k: v for k, v in t["conf"].get(c, {}).items() if v} for c in case["confs"]}
        d["default_configuration"] = case["confs"][0]
        tl.append(d)
        for s in t["src"]:
            files[posixpath.join(sub, s)] = "//\n"
    gf = posixpath.join(sub, "p.gyp")
    files[gf] = json.dumps({"targets": tl}, indent=1)
    for f in ("libs/x.a", "libs/y.so"):
        files[f] = files[posixpath.join(sub, f)] = "x"
    os.makedirs(root)
    gyprun.write_tree(root, files)
    r = gyprun.gyp_main(["-f", "make", "--depth=.", "--no-parallel", gf], root, env=stubs.env())
    j = json.dumps(case)
    if r.rc:
        raise Violation("a valid project was rejected: %s\n%s" % (r.err[-1000:], j))
    conf = case["confs"][case["pick"] % len(case["confs"])]
    b = B.build(root, "make", conf, jobs=2, extra=("-k",))
    seen = {}
    for x in b.log:
        if x["tool"] in ("vcc", "vcxx") and "-c" in x["argv"] and "-dM" not in x["argv"]:
            a = [stubs.decode(v) for v in x["argv"]]
            seen[a[2]] = (x["tool"], a)
    for ti, t in enumerate(case["targets"]):
        defs = ["-D" + d for d in lists(t, conf, "defines")]
        incs = ["-I" + (i if i.startswith("/") else posixpath.normpath(posixpath.join(sub, i)))
                for i in lists(t, conf, "include_dirs")]
        for s in t["src"]:
            p = posixpath.normpath(posixpath.join(sub, s))
            hit = [k for k in seen if k in (p, "./" + p)]
            if not hit:
                raise Violation("%s was not compiled (under the name %r; compiled: %r)\n%s\n%s" % (
                    s, p, sorted(seen), b.out[-1500:], j))
            tool, a = seen[hit[0]]
            isc = s.endswith((".c", ".s", ".S"))
            if tool != ("vcc" if isc else "vcxx"):
                raise Violation("%s was compiled by %s\n%s" % (s, tool, j))
            want = defs + incs + lists(t, conf, "cflags") + lists(t, conf, "cflags_c" if isc else "cflags_cc")
            try:
                end = a.index("-MMD") if "-MMD" in a else a.index("-MF")
            except ValueError:
                end = len(a) - 1
            if a[0] != "-o" or a[3:end] != want:
                raise Violation("the compiler got %r for %s instead of %r\n%s" % (a, s, want, j))
    errs = [x for x in b.errors()]
    if b.rc and not errs:
        raise Violation("make failed: %s\n%s" % (b.out[-1500:], j))
    # links
    linked = False
    for ti, t in enumerate(case["targets"]):
        if t["type"] == "static_library":
            continue
        x = [x for x in b.log if x["tool"] in ("vcc", "vcxx") and "-c" not in x["argv"] and "-o" in x["argv"]
             and posixpath.splitext(posixpath.basename(B.out_of(x["argv"])))[0] in ("t%d" % ti, "libt%d" % ti)]
        if len(x) != 1:
            raise Violation("%d links of t%d: %s\n%s" % (len(x), ti, b.out[-1000:], j))
        a = [stubs.decode(v) for v in x[0]["argv"]]
        ld = lists(t, conf, "ldflags")
        got = [v for v in a if v in set(ld)]
        if got != ld:
            raise Violation("linker flags of t%d arrive as %r instead of %r: %r\n%s" % (ti, got, ld, a, j))
        dirs = ["-L" + posixpath.normpath(posixpath.join(sub, p)) for p in lists(t, conf, "library_dirs")]
        dirs2 = ["-L" + p for p in lists(t, conf, "library_dirs")]
        got = [v for v in a if v.startswith("-L")]
        if got not in (dirs, dirs2):
            raise Violation("library directories of t%d arrive as %r instead of %r\n%s" % (ti, got, dirs, j))
        libs = []
        for v in t["libs"]:
            if v not in libs:
                libs.append(v)
        mark = [i for i, v in enumerate(a) if v in ("-Wl,--start-group", "-Wl,--whole-archive")]
        tail = [v for v in a[mark[0] if mark else 0:]
                if v.startswith(("-l", "-Wl,-z")) or v.endswith(("x.a", "y.so"))]
        want = [v if not v.startswith("libs/") else posixpath.normpath(posixpath.join(sub, v)) for v in libs]
        if tail != want and tail != libs:
            raise Violation("libraries of t%d arrive as %r instead of %r: %r\n%s" % (ti, tail, want, a, j))
        linked = linked or bool(ld and libs)
    alld = [d for t in case["targets"] for c in case["confs"] for d in lists(t, c, "defines")]
    meta = any(re.search(r"[^\w=.]", d) for d in alld)
    both = any({s.endswith((".c", ".s", ".S")) for s in t["src"]} == {True, False} and lists(t, conf, "cflags_c")
               and lists(t, conf, "cflags_cc") for t in case["targets"])
    return {"nontrivial": meta or both or linked,
            "labels": [k for k, v in (("metachar", meta), ("two-languages", both), ("linked", linked)) if v]}


CAMPAIGNS = [Campaign("argv", cases, evaluate, quick=1500)]
ASSUMPTIONS = ["flags and include directories are free of whitespace and of shell and make metacharacters (the "
               "make generator documents no quoting for them); defines are unrestricted except for newlines"]


def setup():
    gyprun.load()
    stubs.setup()
