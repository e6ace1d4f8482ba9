"""C01: merge operators, differential against an independent reference over random settings and sites."""
from hypothesis import strategies as st

from vh import gypgen as G, gyprun
from vh.core import Campaign

ID = "C01"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least two dictionaries with an overlapping key are merged and the "
        "reference either gives a result in which some list was changed by a merge or rejects the merge")


def content(depth, site, pool=None):
    def plain():
        return G.plain_items() if not pool else st.sampled_from(pool)

    li = st.tuples(st.sampled_from(G.LISTS + (["libraries", "sources"] if site != "config" else ["cflags"])
                                   + ["include_dirs"]),
                   st.sampled_from(["", "", "", "+", "=", "?", "+"]))

    @st.composite
    def mk(draw, depth):
        d = {}
        for _ in range(draw(st.integers(0, 4))):
            kind = draw(st.sampled_from(["l", "l", "l", "l", "s", "d", "bad"]))
            if kind == "l":
                k, op = draw(li)
                its = draw(st.lists(plain()
                                    if k not in ("sources", "include_dirs", "libraries")
                                    else G.path_items() if not pool else plain(), max_size=4))
                if draw(st.integers(0, 9)) == 7 and k == "x_list":
                    its = its + [draw(st.sampled_from([{"k": ["a"]}, ["a", "b"], {"k": ["b"], "s": "1"}]))]
                if op == "+":
                    u = []
                    for x in its:
                        if x not in u:
                            u.append(x)
                    its = u
                d[k + op] = its
            elif kind == "s":
                d[draw(st.sampled_from(G.SCALARS + G.PATHSCALARS))] = draw(
                    st.sampled_from(["v", "w/x", "../y", "/z", "3"]))
            elif kind == "d":
                if depth:
                    d[draw(st.sampled_from(G.DICTS))] = draw(mk(depth - 1))
            elif draw(st.integers(0, 5)) == 4:
                k = draw(st.sampled_from(["defines", "foo", "dd", "x_list"]))
                d[k] = draw(st.sampled_from(["str", ["l"], {"z": "1"}, 4, {}]))
        return d
    return mk(depth)


SITES = ["gypi", "gypi", "tgypi", "defaults", "defaults", "cond", "cmdline", "config"]


@st.composite
def cases(draw):
    # few different items: repeated ones in one list, and the same ones in several
    pool = draw(st.sampled_from([None, None, ["a", "b", "-f"], ["a", "b.c", "1"], ["a", "b", "c", "-f", 1]]))
    base = draw(content(2, "base", pool))
    layers = []
    for _ in range(draw(st.integers(1, 3))):
        s = draw(st.sampled_from(SITES))
        layers.append([s, draw(content(2, s, pool)), draw(st.sampled_from(["", "p", "q", "p/r"]))])
    return {"base": base, "layers": layers, "twin": draw(st.booleans()), "dir": draw(st.sampled_from(["p", ""]))}


def build(case):
    d = case["dir"]
    main = (d + "/" if d else "") + "a.gyp"
    files = {}
    names = ["t1", "t2"] if case["twin"] else ["t1"]
    root = {"targets": []}
    includes = []
    target_extra = {}
    defaults = {}
    conds, configs, tinc, finc = [], {}, [], []
    for i, (site, c, sub) in enumerate(case["layers"]):
        p = (sub + "/" if sub else "") + "l%d.gypi" % i
        back = "../" if d else ""
        if site == "gypi":        # included into target_defaults: the file's own settings win nothing
            files[p] = {"target_defaults": c}
            finc.append(back + p)
        elif site == "tgypi":
            files[p] = c
            tinc.append(back + p)
        elif site == "defaults":
            defaults.setdefault("conditions", []).append(["OS!=1", c]) if defaults else defaults.update(c)
        elif site == "cond":
            conds.append(["OS=='linux'", c])
        elif site == "cmdline":
            files[p] = {"target_defaults": c}
            includes.append(p)
        elif site == "config":
            configs["C%d" % i] = c
    for n in names:
        t = {"target_name": n, "type": "none"}
        t.update(case["base"])
        if tinc:
            t["includes"] = list(tinc)
        if conds:
            t["conditions"] = conds
        if configs:
            t["configurations"] = configs
        root["targets"].append(t)
    if defaults:
        root["target_defaults"] = defaults
    if finc:
        root["includes"] = finc
    files[main] = root
    return files, main, includes


def evaluate(case):
    files, main, includes = build(case)
    status, ref, r = G.verify(files, [main], {"nonconf": []}, includes=includes)
    labels = [status]
    if status == "reject":
        labels.append(ref.kind)
    keys = set(k.rstrip("=+?") for k in case["base"])
    shared = any(k.rstrip("=+?") in keys for _, c, _ in case["layers"] for k in c)
    ops = {k[-1] for _, c, _ in case["layers"] for k in c if k[-1] in "=+?"}
    labels += ["op" + o for o in ops] + ["site:" + l[0] for l in case["layers"]]
    return {"nontrivial": status != "oom" and shared, "labels": labels}


CAMPAIGNS = [Campaign("merge", cases, evaluate, quick=5000)]
ASSUMPTIONS = ["items repeated inside one prepended ('+') list are not generated (order undocumented)"]


def setup():
    gyprun.load()
