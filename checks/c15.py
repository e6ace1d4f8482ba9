"""C15: differential: the same generated project through make, ninja and compile_commands.json.

The make and ninja projects are really built with argv-logging compilers; the compilations (source, defines, include
directories, flags, language) of the three formats are compared with each other, and object paths with each other.
"""
import json
import os
import posixpath


from hypothesis import strategies as st

import c14
from vh import gypbuild as B, gypproj as P, gyprun, posix, stubs
from vh.core import Campaign, Violation

ID = "C15"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least two targets are compiled and either a file is a source of two targets, "
        "two sources share a base name, a define needs quoting, or a target builds in another directory")


@st.composite
def cases(draw):
    p = P.normalise(draw(P.project(max_targets=5, products=False, copies=False)))
    linked = [i for i, t in enumerate(p["targets"]) if t["type"] != "none"]
    for i in linked:
        t = p["targets"][i]
        if draw(st.integers(0, 2)) == 1:
            t["set"]["defines"] = t["set"]["defines"] + [draw(c14.define("Q%d_%d" % (i, k))) for k in range(2)]
        if draw(st.integers(0, 2)) == 1:
            t["set"]["defines"] = t["set"]["defines"] + ["Z=%d" % i]
        if draw(st.integers(0, 2)) == 1:   # same base name in several directories
            for d in draw(st.lists(st.sampled_from(["", "p/", "p/q/", "r/"]), min_size=1, max_size=3, unique=True)):
                t["sources"].append({"path": d + "same.c", "inc": [], "v": 0})
        if draw(st.integers(0, 3)) == 1:   # a file outside the directory of the .gyp file
            t["sources"].append({"path": P.up(p, t) + "common/shared%d.cc" % draw(st.integers(0, 1)), "inc": [], "v": 0})
        if draw(st.integers(0, 5)) == 1:
            t["sources"].append({"path": "asm%d.S" % i, "inc": [], "v": 0})
    stat = [i for i in linked if p["targets"][i]["type"] == "static_library"]
    for i in stat[1:]:   # static libraries of the same name in different directories
        if p["targets"][i]["dir"] != p["targets"][stat[0]]["dir"] and draw(st.integers(0, 2)) == 1:
            if not [x for x in p["targets"] if x["dir"] == p["targets"][i]["dir"] and x["name"] == p["targets"][stat[0]]["name"]]:
                p["targets"][i]["name"] = p["targets"][stat[0]]["name"]
    return {"p": p, "conf": draw(st.integers(0, 1)), "jobs": draw(st.sampled_from([4, 8]))}


def split(a, base, root):
    """argv -> (defines, include dirs relative to the root, other flags)"""
    d, i, f = [], [], []
    for x in a:
        if x.startswith("-D"):
            d.append(x[2:])
        elif x.startswith("-I"):
            q = posixpath.normpath(posixpath.join(base, x[2:]))
            i.append(posixpath.relpath(q, root))
        else:
            f.append(x)
    return d, i, f


def is_own(p):
    return p == "out" or p.startswith("out/")


def from_log(fmt, log, root, conf):
    res = {}
    objs = []
    base = root if fmt == "make" else os.path.join(root, "out", conf)
    for tool, src, out, a in B.compile_runs(log):
        a = [stubs.decode(x) for x in a]
        if "-dM" in a:
            continue
        rel = posixpath.relpath(posixpath.normpath(posixpath.join(base, stubs.decode(src))), root)
        o = posixpath.relpath(posixpath.normpath(posixpath.join(base, out)), root)
        objs.append(o)
        rest, skip = [], 0
        for k, x in enumerate(a):
            if skip:
                skip -= 1
            elif x in ("-o", "-MF", "-MT", "-MQ"):
                skip = 1
            elif x in ("-c", "-MMD") or x == stubs.decode(src):
                pass
            else:
                rest.append(x)
        d, i, f = split(rest, base, root)
        res.setdefault(rel, []).append((tool, d, [x for x in i if not is_own(x)], f))
    return res, objs


def canon(v):
    return sorted(json.dumps(x) for x in v)


def evaluate(case):
    p = case["p"]
    conf = p["confs"][case["conf"] % len(p["confs"])]
    j = json.dumps(case)
    got = {}
    for fmt in ("make", "ninja"):
        root, _ = B.prepare(p, fmt, name=fmt)
        b = B.build(root, fmt, conf, jobs=case["jobs"])
        B.must(b, "building with " + fmt, case)
        got[fmt], objs = from_log(fmt, b.log, root, conf)
        dup = sorted({o for o in objs if objs.count(o) > 1})
        if dup:
            raise Violation("%s: several compilations write %s\n%s" % (fmt, dup, j), sig="objdup-" + fmt)
        # every source of every linked target once, and nothing else
        want = {}
        for t in p["targets"]:
            if t["type"] != "none":
                for s in t["sources"]:
                    if P.compiled_ext(s["path"]):
                        q = P.rel(p, t, s["path"])
                        want[q] = want.get(q, 0) + 1
        have = {k: len(v) for k, v in got[fmt].items() if not k.startswith("out/") and "/gen/" not in "/" + k}
        if have != want:
            clash = set()
            for a, t in enumerate(p["targets"]):
                for u in p["targets"][:a]:
                    if u["name"] == t["name"]:
                        clash |= {P.rel(p, t, s["path"]) for s in t["sources"]} & {P.rel(p, u, s["path"])
                                                                                 for s in u["sources"]}
            d = {k for k in set(have) | set(want) if have.get(k) != want.get(k)}
            raise Violation(sig="same-name-object" if fmt == "make" and d <= clash else None, msg="%s compiles %s; the project has %s\n%s" % (fmt, sorted(have.items()), sorted(want.items()), j))
    m, n = got["make"], got["ninja"]
    for k in sorted(set(m) | set(n)):
        if k.startswith("out/"):
            continue
        if canon(m.get(k, [])) != canon(n.get(k, [])):
            raise Violation("make and ninja compile %s differently: %r and %r\n%s" % (k, m.get(k), n.get(k), j))
    # generated sources: same set of (base name, settings)
    mg = canon([(posixpath.basename(k),) + x for k, v in m.items() if k.startswith("out/") for x in v])
    ng = canon([(posixpath.basename(k),) + x for k, v in n.items() if k.startswith("out/") for x in v])
    if mg != ng:
        raise Violation("make and ninja compile generated sources differently: %r and %r\n%s" % (mg, ng, j))
    # compilation database
    root, _ = B.prepare(p, "compile_commands_json", name="cdb")
    for c in p["confs"]:
        f = os.path.join(root, "out", c, "compile_commands.json")
        if not os.path.exists(f):
            raise Violation("no compile_commands.json for %s\n%s" % (c, j))
    with open(os.path.join(root, "out", conf, "compile_commands.json")) as fh:
        db = json.load(fh)
    d = {}
    for e in db:
        a = posix.split(e["command"], dollar=True)
        rel = posixpath.relpath(e["file"], root)
        if a[-1] != e["file"] or a[-2] != "-c":
            raise Violation("entry %r compiles another file\n%s" % (e, j))
        if not os.path.isabs(e["file"]):
            raise Violation("relative file in %r\n%s" % (e, j))
        dd, ii, ff = split(a[1:-2], root, root)
        d.setdefault(rel, []).append(({"cc": "vcc", "c++": "vcxx"}[a[0]], dd, [x for x in ii if not is_own(x) and
                                                                               "$(" not in x], ff))
    allc = {P.rel(p, t, s["path"]) for t in p["targets"] for s in t["sources"]}
    for k in sorted(set(m) | set(d)):
        if k not in allc or k.endswith((".S", ".s", ".txt")):
            continue
        if canon(m.get(k, [])) != canon(d.get(k, [])):
            raise Violation("make and the compilation database compile %s differently: %r and %r\n%s" % (
                k, m.get(k), d.get(k), j))
    paths = [P.rel(p, t, s["path"]) for t in p["targets"] if t["type"] != "none" for s in t["sources"]]
    labels = []
    if len(set(paths)) < len(paths):
        labels.append("shared-source")
    if len({posixpath.basename(x) for x in set(paths)}) < len(set(paths)):
        labels.append("same-basename")
    if any(c14.re.search(r"[^\w=.]", x) for t in p["targets"] for x in t["set"].get("defines", [])):
        labels.append("quoted-define")
    if any(P.tdir(p, t) for t in p["targets"]):
        labels.append("subdir")
    k = sum(t["type"] != "none" for t in p["targets"])
    return {"nontrivial": k >= 2 and bool(labels), "labels": labels}


CAMPAIGNS = [Campaign("three", cases, evaluate, quick=500)]
ASSUMPTIONS = ["assembly and generated sources are compared between make and ninja only: the compilation database "
               "documents that it leaves them out", "flags are free of whitespace and metacharacters (C14)"]


def setup():
    gyprun.load()
    stubs.setup()
