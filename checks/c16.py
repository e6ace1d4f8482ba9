"""C16: generated projects built by real make and ninja at any -j with stand-in tools that expose premature reads.

The stand-ins log what they read and write, hold files INCOMPLETE while they "work", and digest every input into
every output, so a missing ordering edge, a wrong link input or a step that runs twice is visible in one build.
"""
import os

from hypothesis import strategies as st

from vh import gypbuild as B, gypproj as P, gyprun, ninjafile, stubs
from vh.core import Campaign, Violation, rmtree

ID = "C16"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least two targets are built, one depends on another, and the build runs at "
        "least four steps in parallel (-j > 1) or for a named target or a second configuration")


@st.composite
def cases(draw):
    p = P.normalise(draw(P.project(max_targets=6, min_targets=2, hidden=True)))
    return {"p": p, "fmt": draw(st.sampled_from(["make", "ninja"])), "jobs": draw(st.sampled_from([2, 4, 8, 16])),
            "seed": draw(st.integers(0, 999)), "jit": draw(st.sampled_from([0, 2000, 8000])),
            "what": draw(st.sampled_from(["all", "named", "conf", "serial", "one", "one"])), "pick": draw(st.integers(0, 9)),
            "pick2": draw(st.integers(0, 9))}


def one_by_one(case, p, fmt, conf, root, b):
    """Building any single intermediate file from a clean tree builds all it needs first, and gives the same file.

    This is the most adversarial schedule: nothing not ordered before the step has been done when it runs."""
    base = root if fmt == "make" else os.path.join(root, "out", conf)
    made, acts = {}, []
    for x in b.log:
        if x["tool"] == "vact" and len(x["reads"]) > 1:
            acts += [os.path.relpath(os.path.join(x["cwd"], w), base) for w in x["writes"]]
        # what reads generated files first
        for w in x["writes"]:
            made[os.path.relpath(os.path.join(x["cwd"], w), base)] = any("/gen" in r or "gsub" in r for r in x["reads"])
    names = sorted(made, key=lambda n: (not made[n], n))
    pre = [n for n in names if made[n]] or names
    k = case["seed"]
    pick = [pre[k % len(pre)], pre[(k // 7) % len(pre)], names[k % len(names)]] if names else []
    if acts:
        acts.sort()
        pick += [acts[(k // 3) % len(acts)], acts[(k // 11) % len(acts)]]
    want = {n: open(os.path.join(base, n), "rb").read() for n in pick if os.path.isfile(os.path.join(base, n))}
    log = b.log
    for n in dict.fromkeys(pick):
        for x in log:
            for w in x["writes"]:
                w = os.path.join(x["cwd"], w)
                if os.path.lexists(w):
                    os.unlink(w)
        for f in (".ninja_log", ".ninja_deps"):
            f = os.path.join(root, "out", conf, f)
            if os.path.exists(f):
                os.unlink(f)
        deps = os.path.join(root, "out", conf, ".deps")
        if os.path.isdir(deps):
            rmtree(deps)
        b2 = B.build(root, fmt, conf, n, jobs=1)
        if "No rule to make target '%s'" % n in b2.out or "unknown target '%s'" % n in b2.out:
            continue     # not a file the build file names this way
        B.must(b2, "building only %s from a clean tree" % n, p)
        f = os.path.join(base, n)
        if not os.path.isfile(f) or open(f, "rb").read() != want[n]:
            raise Violation("%s: building only %s from a clean tree does not give the same file as the whole build\n%s"
                            % (fmt, n, P.json.dumps(p)))
        yield n


def ordered(p, root, conf, log):
    """ninja: whatever a step reads and another makes, the build file itself orders before it (dependency files do not count)"""
    out = os.path.join(root, "out", conf)
    edges = ninjafile.load(out)
    by, memo = {}, {}
    for e in edges:
        for o in e.outs:
            by[os.path.normpath(os.path.join(out, o))] = e

    def before(e):
        if id(e) not in memo:
            memo[id(e)] = r = set()
            for x in e.ins + e.implicit + e.order:
                d = by.get(os.path.normpath(os.path.join(out, x)))
                if d is not None:
                    r.add(id(d))
                    r |= before(d)
        return memo[id(e)]
    n = 0
    for x in log:
        mine = {by.get(os.path.normpath(os.path.join(x["cwd"], w))) for w in x["writes"]} - {None}
        for r in x["reads"]:
            d = by.get(os.path.normpath(os.path.join(x["cwd"], r)))
            for e in mine:
                if d is not None and d is not e:
                    n += 1
                    if id(d) not in before(e):
                        raise Violation("ninja: making %s reads %s, but nothing orders the step that makes it before\n%s"
                                        % (e.outs[0], d.outs[0], P.json.dumps(p)))
    return n


def evaluate(case):
    p, fmt = case["p"], case["fmt"]
    kw = {"jobs": case["jobs"], "seed": case["seed"], "jitter": case["jit"]}
    n = len(p["targets"])
    conf = p["confs"][case["pick2"] % len(p["confs"])]
    labels = [fmt, case["what"]]
    root, _ = B.prepare(p, fmt)
    everything = list(range(n))
    if case["what"] == "named":
        ti = case["pick"] % n
        b = B.build(root, fmt, conf, p["targets"][ti]["name"], **kw)
        B.must(b, "building target %s" % p["targets"][ti]["name"], p)
        clos = sorted(P.deep(p, ti) | {ti})
        B.check_log(p, b.log, fmt, clos, all_once=False)
        B.check_products(p, root, fmt, conf, [ti])
        # finishing the rest repeats nothing
        b2 = B.build(root, fmt, conf, **kw)
        B.must(b2, "finishing after target %s" % p["targets"][ti]["name"], p)
        if fmt != "make" or not any(len(a["out"]) > 1 for t in p["targets"] for a in t["actions"]):
            B.check_log(p, b.log + b2.log, fmt, everything)
        # (under make an action with several outputs runs in every build: known finding of C18)
        B.check_products(p, root, fmt, conf, everything)
    else:
        b = B.build(root, fmt, conf, **kw)
        B.must(b, "building everything", p)
        B.check_log(p, b.log, fmt, everything)
        if fmt == "ninja" and ordered(p, root, conf, b.log):
            labels.append("orders in the build file")
        B.check_products(p, root, fmt, conf, everything)
        if case["what"] == "one":
            n = len(list(one_by_one(case, p, fmt, conf, root, b)))
            labels.append("one-by-one:%d" % n)
        if case["what"] == "serial":
            first = B.tree(root)
            root2, _ = B.prepare(p, fmt)
            b2 = B.build(root2, fmt, conf, jobs=1)
            B.must(b2, "building everything with -j1", p)
            second = B.tree(root2)
            if first != second:
                d = [k for k in sorted(set(first) | set(second)) if first.get(k) != second.get(k)]
                raise Violation("-j%d and -j1 leave different results: %s" % (case["jobs"], d[:5]))
        if case["what"] == "conf" and len(p["confs"]) > 1:
            other = [c for c in p["confs"] if c != conf][0]
            before = B.tree(root, "out/" + conf)
            b2 = B.build(root, fmt, other, **kw)
            B.must(b2, "building " + other, p)
            B.check_log(p, b2.log, fmt, everything, tree_done=True)
            B.check_products(p, root, fmt, other, everything)
            if B.tree(root, "out/" + conf) != before:
                raise Violation("building %s changed the results of %s" % (other, conf))
            labels.append("two-confs")
    deps = any(t["deps"] for t in p["targets"])
    if any(t["actions"] or t["rules"] for t in p["targets"]):
        labels.append("generated")
    if any(x.get("hid") for t in p["targets"] for x in t["actions"] + t["rules"]):
        labels.append("reads a dependency's file unlisted")
    return {"nontrivial": deps and n > 1 and len(b.log) >= 4, "labels": labels}


CAMPAIGNS = [Campaign("build", cases, evaluate, quick=560, shrink_seconds=40, shrink_evals=150)]
ASSUMPTIONS = ["compiler, archiver and custom tools are deterministic stand-ins; make and ninja are the real ones",
               "source, target and directory names are free of whitespace, as the make generator requires"]


def setup():
    gyprun.load()
    stubs.setup()
