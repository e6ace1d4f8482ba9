"""C13: differential: a generated project of several files loaded in parallel and one at a time, under varied schedules.

Which file finishes first is chosen by delaying each file's opening; the number of worker processes is varied.
The sequential run is the reference for what the generator receives and for whether the project is accepted.
"""
import json
import os
import posixpath
import time

from hypothesis import strategies as st

from vh import gypgen as G, gypgraph as Gr, gyprun
from vh.core import Campaign, Violation, fresh_dir
import c11

ID = "C13"
LEVEL = "exploration"
RULE = ("a case is non-trivial when both loading modes ran and the project has at least two build files; "
        "labels count accepted and rejected projects and the number of files")
WALL = 40


@st.composite
def valid_cases(draw):
    g = draw(Gr.graphs(settings=True, links=True, refs=True, files=5, max_targets=9, toolsets=True,
                       cycles=draw(st.integers(0, 9)) == 4))
    nf = len(g["fileperm"])
    return {"g": g, "extra": [draw(st.integers(0, 31)) for _ in range(nf)], "roots": draw(st.integers(0, 3)),
            "delay": draw(st.lists(st.sampled_from([0, 0, 1, 5, 15]), min_size=5, max_size=5)),
            "procs": draw(st.sampled_from([1, 2, 2, 3, 5])), "check": draw(st.integers(0, 5)) == 3,
            "globinc": draw(st.booleans()), "depth": draw(st.sampled_from([".", ".", "p", ".."])),
            "cfg": {"toolsets": draw(st.booleans()), "paths": draw(st.sampled_from([[], ["my_dir", "zlist"]])),
                    "nonconf": draw(st.sampled_from([[], ["ldflags", "cflags"]]))}}


def enrich(case, files):
    names = sorted(files)
    incs = {
        "common.gypi": {"variables": {"cv%": "c", "d0": "<(DEPTH)"}, "target_defaults": {
            "defines": ["CV=<(cv)", "IN=<(DEPTH)"], "include_dirs": ["cinc"],
            "conditions": [["cv=='c'", {"cflags": ["-isc"]}, {"cflags": ["-notc"]}]]}},
        "p/more.gypi": {"includes": ["../common.gypi"], "variables": {"m": ["<@(l0)"], "l0": ["1", "two"]},
                        "target_defaults": {"cflags": ["<@(m)"], "include_dirs": ["minc"], "ldflags": ["<(cv)"]}},
        "glob.gypi": {"target_defaults": {"defines": ["GLOB", "GD=<(DEPTH)"], "include_dirs": ["ginc"]}, "variables": {"gg%": "g"}},
    }
    for i, n in enumerate(names):
        d = files[n]
        e = case["extra"][i % len(case["extra"])]
        inc = []
        if e & 1:
            inc.append(Gr.rel("common.gypi", n))
        if e & 2:
            inc.append(Gr.rel("p/more.gypi", n))
        if inc:
            d["includes"] = inc
        v = {}
        if e & 4:
            v["cv"] = "own%d" % i
        if e & 8:
            v["x"] = "<!(echo cmd)"
            v["w"] = "<(DEPTH)/w"
            for t in d["targets"]:
                t.setdefault("defines", []).append("X=<(x)<(w)")
        if e & 16 and d["targets"]:
            d.setdefault("target_defaults", {})["include_dirs"] = ["tdinc", "<(DEPTH)/z"]
            d["target_defaults"]["target_conditions"] = [["_type=='none'", {"defines": ["NONE"]}]]
        if e & 3 == 3:
            for t in d["targets"]:
                t["zlist"] = ["za", "<(DEPTH)/zb"]
        if v:
            d["variables"] = v
    files = dict(files)
    files.update(incs)
    return files


def slow(delay, procs):
    """In the child: the named files open late; a smaller pool."""
    import builtins
    import multiprocessing
    real = builtins.open
    names = {}

    def late(path, *a, **k):
        p = str(path)
        if p.endswith(".gyp"):
            time.sleep(delay[sum(map(ord, p)) % len(delay)] / 1000.0)
        return real(path, *a, **k)
    builtins.open = late
    multiprocessing.cpu_count = lambda: procs
    del names


def run(args, root, case, parallel):
    out = os.path.join(fresh_dir("dumpout"), "dump.json")
    env = {"VDUMP_OUT": out, "VDUMP_CFG": json.dumps(case.get("cfg", {})), "HOME": None,
           "GYP_CONFIG_DIR": None}

    def fn():
        import gyp
        import sys
        if parallel:
            slow(case["delay"], case["procs"])
        sys.argv[0] = os.path.join(gyprun.REPO, "gyp", "gyp_main.py")
        rc = gyp.main(["-f", gyprun.FMT] + args)
        if rc:
            sys.exit(rc)
        return 0
    t = time.time()
    r = gyprun.forked(fn, cwd=root, env=env, cpu=30, wall=WALL)
    if r.timeout or time.time() - t > WALL:
        return r, "hang"
    if r.rc == 0:
        with open(out) as f:
            return r, f.read()
    return r, None


def compare(args, root, case, files):
    shown = json.dumps([args, files, {k: case[k] for k in ("delay", "procs")}])
    seq, a = run(args + ["--no-parallel"], root, case, False)
    par, b = run(args, root, case, True)
    if b == "hang":
        raise Violation("loading in parallel did not end\n" + shown)
    if a == "hang":
        raise Violation("loading one at a time did not end\n" + shown)
    if (a is None) != (b is None):
        raise Violation("loading %s fails, the other way succeeds: %s\n%s" % (
            "in parallel" if b is None else "one at a time", (par if b is None else seq).err[-1500:], shown))
    if a is None:
        if not (par.err + par.out).strip():
            raise Violation("rejected without a message when loading in parallel\n" + shown)
        return seq, par, None
    da, db = json.loads(a), json.loads(b)
    for d in (da, db):
        d["data"] = {k: v for k, v in d["data"].items() if k.endswith(".gyp")}
    for k, what in (("list", "the list of targets"), ("order", "the order of targets"), ("dicts", "the targets"),
                    ("data", "the build files' data")):
        if da[k] != db[k]:
            if isinstance(da[k], dict):
                bad = [x for x in da[k] if da[k].get(x) != db[k].get(x)] or [x for x in db[k] if x not in da[k]]
                raise Violation("%s differ: %s: one at a time %s, in parallel %s\n%s" % (
                    what, bad[0], json.dumps(da[k].get(bad[0])), json.dumps(db[k].get(bad[0])), shown))
            raise Violation("%s differs: one at a time %s, in parallel %s\n%s" % (what, da[k], db[k], shown))
    if json.dumps([da[k] for k in ("list", "order", "dicts")]) != json.dumps([db[k] for k in ("list", "order", "dicts")]):
        raise Violation("what the generator receives differs in order: \n%s" % shown)
    return seq, par, da


def valid(case):
    files, roots = Gr.build(case["g"])
    files = enrich(case, files)
    root = fresh_dir("proj")
    os.makedirs(os.path.join(root, "src"))
    root = os.path.join(root, "src")
    gyprun.write_tree(root, files)
    if case["roots"] < len(roots):
        k = case["roots"]
        roots = roots[k:] + roots[:k]
        if k == 1:
            roots = roots[:1]
    args = ["--depth=" + case["depth"]] + (["--check"] if case["check"] else []) + (
        ["-I", "glob.gypi"] if case["globinc"] else []) + roots
    seq, par, d = compare(args, root, case, files)
    n = len([f for f in files if f.endswith(".gyp")])
    return {"nontrivial": n > 1, "labels": ["accepted" if d else "rejected", "%d files" % n,
                                            "%d processes" % case["procs"]]}


@st.composite
def bad_cases(draw):
    c = draw(c11.cases())
    return {"c": c, "delay": draw(st.lists(st.sampled_from([0, 0, 3, 10]), min_size=5, max_size=5)),
            "procs": draw(st.sampled_from([1, 2, 4]))}


def bad(case):
    c = case["c"]
    files, raw, args, roots, toks = c11.inject(c)
    if c["kind"] == "bad-format":
        return None
    root = fresh_dir("proj")
    c11.write(root, files, raw)
    seq, par, d = compare(["--depth=.", "-DOS=linux"] + args + roots, root, case, {**files, **raw})
    if d is not None:
        raise Violation("an invalid project was accepted (%s)" % c["kind"])
    if toks and any(t in seq.err for t in toks) and not any(t in par.err for t in toks):
        raise Violation("%s: the message of the parallel run mentions none of %r: %s" % (c["kind"], toks, par.err[-1500:]))
    return {"nontrivial": True, "labels": ["rejected:" + c["kind"]]}


CAMPAIGNS = [Campaign("valid", valid_cases, valid, quick=1400),
             Campaign("invalid", bad_cases, bad, quick=500)]
ASSUMPTIONS = ["a build file is not also included into another build file",
               "the order in which files finish is varied by delaying when each is opened; not every interleaving is forced",
               "a run that takes more than %d s counts as hung" % WALL]


def setup():
    gyprun.load()
