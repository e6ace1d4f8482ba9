"""C07: dependent settings over generated target graphs, against set definitions and the reference model."""
import json

from hypothesis import strategies as st

from vh import gypgen as G, gypgraph as GG, gyprun
from vh.core import Campaign, Violation

ID = "C07"
LEVEL = "exploration"
RULE = ("a case is non-trivial when some target carries dependent or link settings and has at least one dependent, "
        "or the project is rejected for exporting a non-dependency")


@st.composite
def cases(draw):
    c = draw(GG.graphs(settings=True, links=True, max_targets=8))
    if draw(st.integers(0, 40)) == 23 and len(c["targets"]) > 1:
        t = c["targets"][-1]
        others = [i for i in range(len(c["targets"]) - 1) if i not in [d[0] for d in t["deps"]]]
        if others:
            t["export"] = [others[0]]
    c["sorted"] = draw(st.booleans())
    c["adjust"] = draw(st.sampled_from([True, True, False]))
    return c


LINK = ("executable", "shared_library", "loadable_module")


def evaluate(case):
    files, roots = GG.build(case)
    cfg = {"sorted": case["sorted"], "adjust": case["adjust"]}
    status, ref, r = G.verify(files, roots, cfg)
    labels = [status]
    ts = case["targets"]
    has = any(t["settings"] for t in ts)
    if status != "ok":
        if status == "reject":
            labels.append(ref.kind)
        return {"nontrivial": status == "reject" and ref.kind == "not-in-dependencies", "labels": labels}
    # set definitions, independent of any processing order
    n = len(ts)
    dep = {i: [d[0] for d in t["deps"]] for i, t in enumerate(ts)}
    for i, t in enumerate(ts):
        if t["type"] == "none":
            dep[i] = [j for j in dep[i] if not ts[j].get("link_dependency")]
    defs = {}
    for q, d in r.dump["dicts"].items():
        s = set()

        def walk(v):
            if isinstance(v, dict):
                for x in v.values():
                    walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
            elif isinstance(v, str):
                s.add(v)
        walk(d["configurations"])
        defs[d["target_name"]] = s
    for i, t in enumerate(ts):
        deep = GG.reach(dep, i)
        direct = set(dep[i])
        todo = list(direct)
        while todo:
            j = todo.pop()
            for k in ts[j].get("export", ()):
                if k not in direct and k in dep[j]:
                    direct.add(k)
                    todo.append(k)
        link = set()
        if t["type"] in LINK:
            shared_ok = t.get("allow_sharedlib", 1)
            todo = list(dep[i])
            while todo:
                j = todo.pop()
                tj = ts[j]
                if j in link or tj["type"] in ("executable", "loadable_module"):
                    continue
                if tj["type"] == "shared_library" and not shared_ok:
                    continue
                link.add(j)
                if tj["type"] == "shared_library" or (tj["type"] == "none" and not tj.get("traverse", 1)):
                    continue
                todo += dep[j]
        for j, tj in enumerate(ts):
            if j == i:
                continue
            for which, members in (("all_dependent_settings", deep), ("direct_dependent_settings", direct),
                                   ("link_settings", link)):
                if which not in tj["settings"]:
                    continue
                if tj["settings"][which] == "cond" and False:
                    continue
                m = "%s_%s" % (tj["name"], which[:3])
                got = m in defs[t["name"]]
                if which == "link_settings" and j == i:
                    continue
                if got != (j in members):
                    raise Violation("%s of %s: %s target %s, which is%s meant to get them\n%s" % (
                        which, tj["name"], "reached" if got else "did not reach", t["name"],
                        "" if j in members else " not", json.dumps(files)))
                if got:
                    labels.append(which)
    return {"nontrivial": has and any(t["deps"] for t in ts), "labels": labels}


CAMPAIGNS = [Campaign("settings", cases, evaluate, quick=2500)]
ASSUMPTIONS = ["settings dictionaries do not themselves contain dependent-settings sections"]


def setup():
    gyprun.load()
