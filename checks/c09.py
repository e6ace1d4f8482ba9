"""C09: topological order of acyclic target graphs, rejection with named cycles, and termination on dense graphs."""
import json
import re

from hypothesis import strategies as st

from vh import gypgen as G, gypgraph as GG, gyprun
from vh.core import Campaign, Violation

ID = "C09"
LEVEL = "exploration"
RULE = "a case is non-trivial when its targets have at least two dependency edges; both verdicts are counted by label"


@st.composite
def cases(draw):
    c = draw(GG.graphs(cycles=draw(st.booleans()), links=True, max_targets=draw(st.sampled_from([3, 6, 12]))))
    for t in c["targets"]:
        t.pop("link_dependency", None)
    n = len(c["targets"])
    # several disjoint components and a permuted file assignment make cycles unreachable from simple targets
    c["files"] = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)) if draw(st.booleans()) else None
    if c["files"]:
        k = len(c["fileperm"])
        for t, f in zip(c["targets"], c["files"]):
            t["file"] = f % k
    c["circular"] = draw(st.booleans())
    c["toolsets"] = draw(st.booleans())
    c["wild"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.integers(0, n - 1))))
    c["parallel"] = False
    return c


def scc_nodes(edges, nodes):
    """Nodes that lie on some cycle."""
    return {a for a in nodes if a in GG.reach(edges, a)}


def evaluate(case):
    ts = case["targets"]
    files, roots = GG.build(case)
    dep = {i: {d[0] for d in t["deps"]} for i, t in enumerate(ts)}
    if case.get("wild"):
        a, b = case["wild"]
        if GG.fname(case, a) != GG.fname(case, b):
            ref = GG.rel(GG.fname(case, b), GG.fname(case, a)) + ":*"
            tgt = next(t for t in files[GG.fname(case, a)]["targets"] if t["target_name"] == ts[a]["name"])
            tgt.setdefault("dependencies", []).append(ref)
            dep[a] |= {j for j in range(len(ts)) if GG.fname(case, j) == GG.fname(case, b)}
    fdep = {}
    for i in dep:
        fdep.setdefault(GG.fname(case, i), set())
        for j in dep[i]:
            if GG.fname(case, j) != GG.fname(case, i):
                fdep[GG.fname(case, i)].add(GG.fname(case, j))
    tc = scc_nodes(dep, dep)
    fc = scc_nodes(fdep, fdep) if case["circular"] else set()
    args = [] if case["circular"] else ["--no-circular-check"]
    r = G.run_gyp(files, roots, {"adjust": False}, args, cpu=20)
    desc = json.dumps(files)
    if r.timeout:
        raise Violation("gyp did not terminate\n" + desc)
    edges = sum(len(d) for d in dep.values())
    labels = []
    if tc or fc:
        labels.append("file cycle" if fc else "target cycle")
        if r.rc == 0:
            raise Violation("a project with a cycle was accepted (targets %r, files %r)\n%s" % (
                sorted(ts[i]["name"] for i in tc), sorted(fc), desc))
        if fc:
            named = any(re.search(r"(^|[\s'\"(/>])" + re.escape(f) + r"($|[\s'\",:)])", r.err, re.M) for f in fc)
        else:
            named = False
        named = named or any("%s:%s" % (GG.fname(case, i), ts[i]["name"]) in r.err for i in tc)
        if not named:
            raise Violation("the rejection names nothing on a cycle (targets %r, files %r): %s\n%s" % (
                sorted(ts[i]["name"] for i in tc), sorted(fc), r.err[-800:], desc))
        return {"nontrivial": edges >= 2, "labels": labels}
    if r.rc != 0:
        raise Violation("an acyclic project was rejected: rc=%s %s\n%s" % (r.rc, r.err[-800:], desc))
    order = [q.rsplit(":", 1)[1].split("#")[0] for q in r.dump["list"]]
    if sorted(order) != sorted(t["name"] for t in ts):
        raise Violation("targets listed: %r, written: %r\n%s" % (order, [t["name"] for t in ts], desc))
    pos = {n: i for i, n in enumerate(order)}
    for i in dep:
        for j in dep[i]:
            if not pos[ts[j]["name"]] < pos[ts[i]["name"]]:
                raise Violation("%s comes before its dependency %s: %r\n%s" % (ts[i]["name"], ts[j]["name"], order, desc))
    return {"nontrivial": edges >= 2, "labels": ["acyclic"]}


@st.composite
def dense(draw):
    return {"layers": draw(st.lists(st.integers(1, 3), min_size=2, max_size=22)),
            "types": draw(st.lists(st.sampled_from(GG.TYPES), min_size=3, max_size=3)),
            "cycle": draw(st.sampled_from([False, False, True])), "split": draw(st.integers(1, 4))}


def eval_dense(case):
    """Layered graphs with exponentially many paths must still finish quickly."""
    layers, n = [], 0
    for k in case["layers"]:
        layers.append(list(range(n, n + k)))
        n += k
    ts, deps = [], {}
    for li, layer in enumerate(layers):
        for i in layer:
            deps[i] = list(layers[li - 1]) if li else []
    if case["cycle"]:
        deps[0] = [n - 1]
    files = {}
    for i in range(n):
        f = "f%d.gyp" % (i * case["split"] // n)
        d = {"target_name": "t%d" % i, "type": case["types"][i % 3],
             "dependencies": [("" if "f%d.gyp" % (j * case["split"] // n) == f else "f%d.gyp" % (
                 j * case["split"] // n)) + ":t%d" % j for j in deps[i]]}
        d["dependencies"] = [x.lstrip(":") for x in d["dependencies"]]
        files.setdefault(f, {"targets": []})["targets"].append(d)
    r = G.run_gyp(files, sorted(files), {}, cpu=15)
    if r.timeout:
        raise Violation("gyp did not finish within 15 s of CPU time on %d targets\n%s" % (n, json.dumps(files)))
    if (r.rc == 0) != (not case["cycle"]):
        raise Violation("rc=%s for a layered project with%s cycle\n%s\n%s" % (
            r.rc, "" if case["cycle"] else "out", r.err[-800:], json.dumps(files)))
    return {"nontrivial": n > 6, "labels": ["cyclic" if case["cycle"] else "acyclic"]}


CAMPAIGNS = [Campaign("graphs", cases, evaluate, quick=3500),
             Campaign("dense", dense, eval_dense, quick=160)]


def setup():
    gyprun.load()
