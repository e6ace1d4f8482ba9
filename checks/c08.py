"""C08: link closures of generated target graphs against set definitions, order relations and the reference model."""
import json

from hypothesis import strategies as st

from vh import gypgen as G, gypgraph as GG, gyprun
from vh.core import Campaign, Violation

ID = "C08"
LEVEL = "exploration"
RULE = ("a case is non-trivial when some linked target reaches a static library only through other targets, or some "
        "static library has a static or exported hard dependency")


@st.composite
def cases(draw):
    c = draw(GG.graphs(links=True, settings=False, max_targets=draw(st.sampled_from([5, 9, 12]))))
    for t in c["targets"]:
        if t["deps"] and draw(st.integers(0, 2)) == 1:
            t["export"] = draw(st.lists(st.sampled_from([d[0] for d in t["deps"]]), unique=True, max_size=2))
    c["sorted"] = draw(st.booleans())
    return c


LINKABLE = ("executable", "shared_library", "loadable_module")


def evaluate(case):
    files, roots = GG.build(case)
    status, ref, r = G.verify(files, roots, {"sorted": case["sorted"]})
    if status != "ok":
        return {"nontrivial": False, "labels": [status]}
    ts = case["targets"]
    dep = {i: [d[0] for d in t["deps"]] for i, t in enumerate(ts)}
    for i, t in enumerate(ts):
        if t["type"] == "none":
            dep[i] = [j for j in dep[i] if not ts[j].get("link_dependency")]
    idx = {t["name"]: i for i, t in enumerate(ts)}
    got = {}
    for q, d in r.dump["dicts"].items():
        i = idx[d["target_name"]]
        got[i] = [idx[x.rsplit(":", 1)[1].split("#")[0]] for x in d.get("dependencies", [])]
        if len(set(got[i])) != len(got[i]):
            raise Violation("%s depends twice on one target: %r\n%s" % (d["target_name"], got[i], json.dumps(files)))
    labels = set()
    for i, t in enumerate(ts):
        if t["type"] in LINKABLE:
            need, todo = set(dep[i]), list(dep[i])
            seen = set()
            while todo:
                j = todo.pop()
                tj = ts[j]
                if j in seen or tj["type"] in ("executable", "loadable_module"):
                    continue
                seen.add(j)
                need.add(j)
                if tj["type"] == "shared_library" or (tj["type"] == "none" and not tj.get("traverse", 1)):
                    continue
                todo += dep[j]
            if set(got[i]) != need:
                raise Violation("%s must depend directly on exactly %r, got %r\n%s" % (
                    t["name"], sorted(need), sorted(got[i]), json.dumps(files)))
            if need - set(dep[i]):
                labels.add("closure")
                if any(ts[j]["type"] == "shared_library" for j in need - set(dep[i])):
                    labels.add("shared through static")
            if any(ts[j]["type"] == "shared_library" for j in need):
                labels.add("stops at shared")
            # the target's own order of direct dependencies is kept when no order is imposed
            if not case["sorted"] and [j for j in got[i] if j in dep[i]] != dep[i]:
                raise Violation("%s lists its own dependencies as %r, written %r\n%s" % (
                    t["name"], got[i], dep[i], json.dumps(files)))
        elif t["type"] == "static_library":
            direct = list(dep[i])
            todo = list(direct)
            while todo:
                j = todo.pop()
                for k in ts[j].get("export", ()):
                    if k not in direct and k in dep[j]:
                        direct.append(k)
                        todo.append(k)
            keep = {j for j in direct if (ts[j].get("hard") if ts[j]["type"] == "static_library" else j in dep[i])}
            if set(got[i]) != keep:
                raise Violation("static library %s must depend on exactly %r, got %r\n%s" % (
                    t["name"], sorted(keep), sorted(got[i]), json.dumps(files)))
            if keep != set(dep[i]):
                labels.add("static pruned")
            if keep - set(dep[i]):
                labels.add("exported hard")
        elif got[i] != dep[i]:
            raise Violation("%s: dependencies %r became %r\n%s" % (t["name"], dep[i], got[i], json.dumps(files)))
    return {"nontrivial": bool(labels & {"closure", "static pruned"}), "labels": sorted(labels)}


CAMPAIGNS = [Campaign("links", cases, evaluate, quick=3000)]


def setup():
    gyprun.load()
