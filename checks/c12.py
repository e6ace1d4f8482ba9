"""C12: metamorphic: one generated project, every output format, run under different hash seeds and listing orders.

Every file written must be byte-for-byte the same from a clean tree and over the previous output.
"""
import json
import os
import shutil

from hypothesis import strategies as st

from vh import gypproj as P, gyprun, hashserver, stubs
from vh.core import Campaign, Violation, fresh_dir

ID = "C12"
LEVEL = "exploration"
RULE = ("a case is non-trivial when the project has at least two targets with a dependency between them or a target "
        "with at least two sources of different kinds")
FORMATS = ["make", "ninja", "cmake", "compile_commands_json", "gypd", "dump_dependency_json", "eclipse", "msvs", "xcode",
           "xcode-ninja", "make-android", "msvs2015"]


@st.composite
def cases(draw):
    p = P.normalise(draw(P.project(max_targets=7, min_targets=2)))
    for t in p["targets"]:
        if t["type"] != "none" and draw(st.integers(0, 2)) == 1:
            t["sources"] += [{"path": "k%d.%s" % (i, e), "inc": [], "v": 0, "gen": []} for i, e in enumerate(
                draw(st.lists(st.sampled_from(["c", "cc", "S", "cpp", "cxx", "s"]), max_size=6)))]
        t.setdefault("extra", {})
        if t["type"] != "none" and draw(st.integers(0, 3)) == 1:
            t["extra"]["xcode_settings"] = {"A": "1", "B": ["x", "y"], "GCC_X": "z"}
            t["extra"]["msvs_settings"] = {"VCCLCompilerTool": {"WarningLevel": "3", "Optimization": "1"}}
    return {"p": p, "fmt": draw(st.sampled_from(FORMATS)), "seeds": [draw(st.integers(1, 3)), draw(st.integers(4, 6))],
            "order": draw(st.integers(1, 1000)), "out": draw(st.sampled_from(["", "", "build", "b/c"])),
            "par": draw(st.integers(0, 5)) == 3, "tools": draw(st.booleans())}


def snap(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                res[os.path.relpath(p, root)] = "-> " + os.readlink(p)
                continue
            with open(p, "rb") as fh:
                res[os.path.relpath(p, root)] = fh.read().decode("latin-1")
    return res


def diff(a, b):
    k = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
    if not k:
        return None
    x = k[0]
    if x not in a or x not in b:
        return "%s is written only once" % x
    u, v = a[x].split("\n"), b[x].split("\n")
    d = [(m, n) for m, n in zip(u, v) if m != n][:2]
    if not d:
        d = [(len(u), len(v))]
    return "%s: %r" % (x, d)


def evaluate(case):
    p, fmt = case["p"], case["fmt"]
    base = fresh_dir("p")
    root = os.path.join(base, "src")
    files = P.render(p)
    env = stubs.env()
    args = ["--depth=."] + ([] if case["par"] else ["--no-parallel"])
    if fmt == "msvs2015":
        args += ["-f", "msvs", "-G", "msvs_version=2015"]
    else:
        args += ["-f", fmt]
    if fmt in ("gypd", "dump_dependency_json"):
        args += ["-DOS=linux"]
    if case["out"] and fmt != "eclipse":
        args += ["--generator-output=" + case["out"]]
    if not case["tools"]:
        env = {k: v for k, v in env.items() if k in ("PATH", "LC_ALL", "CC", "CXX")}
    args += P.roots(p)
    j = json.dumps(case)

    def gen(seed, order):
        r = hashserver.ask(seed, args, root, env, order)
        if r["rc"]:
            raise Violation("%s: a valid project was rejected: %s\n%s" % (fmt, r["err"][-1500:], j))
        return snap(root)
    os.makedirs(root)
    gyprun.write_tree(root, files)
    src = snap(root)
    a = gen(case["seeds"][0], case["order"])
    again = gen(case["seeds"][1], case["order"] + 1)
    d = diff(a, again)
    if d:
        raise Violation("%s: generating again over the previous output gives another result: %s\n%s" % (fmt, d, j))
    shutil.rmtree(root)
    os.makedirs(root)
    gyprun.write_tree(root, dict(reversed(list(files.items()))))
    b = gen(case["seeds"][1], case["order"] + 2)
    d = diff(a, b)
    if d:
        raise Violation("%s: generating in a clean tree gives another result: %s\n%s" % (fmt, d, j))
    for f in src:
        if a.get(f) != src[f]:
            raise Violation("%s: generating changed the source file %s\n%s" % (fmt, f, j))
    if len(a) <= len(src):
        raise Violation("%s wrote nothing\n%s" % (fmt, j))
    dep = any(t["deps"] for t in p["targets"])
    kinds = any(len({s["path"].rsplit(".", 1)[-1] for s in t["sources"]}) > 1 for t in p["targets"])
    return {"nontrivial": dep or kinds, "labels": [fmt] + (["parallel"] if case["par"] else [])}


CAMPAIGNS = [Campaign("formats", cases, evaluate, quick=650)]
ASSUMPTIONS = ["the environment, tools and absolute location are the same in the runs compared"]


def setup():
    gyprun.load()
    stubs.setup()
