"""Generated projects whose interest is the target graph."""
import posixpath

from hypothesis import strategies as st

FILES = ["a.gyp", "b.gyp", "p/c.gyp", "p/q/d.gyp", "r/e.gyp"]
TYPES = ["static_library", "static_library", "static_library", "shared_library", "executable", "none",
         "loadable_module"]
SETTINGS = ["all_dependent_settings", "direct_dependent_settings", "link_settings"]


@st.composite
def graphs(draw, settings=False, links=False, cycles=False, refs=False, max_targets=8, files=4, toolsets=False,
           bad=False, typed=True):
    """A case: {"targets": [{name, file, type, deps: [[idx, spelling]], ...}]}"""
    n = draw(st.integers(1, max_targets))
    nf = draw(st.integers(1, files))
    ts = []
    for i in range(n):
        t = {"name": "t%d" % i, "file": draw(st.integers(0, nf - 1)), "type": draw(st.sampled_from(TYPES))}
        t["file"] = max(t["file"], ts[-1]["file"]) if ts and not cycles else t["file"]
        cand = list(range(i))
        k = draw(st.integers(0, 3))
        deps = []
        while cand and len(deps) < k:
            j = draw(st.sampled_from(cand))
            cand.remove(j)
            deps.append([j, draw(st.integers(0, 3))])
        t["deps"] = deps
        if links:
            if draw(st.integers(0, 5)) == 3:
                t["hard"] = 1
            if t["type"] == "none" and draw(st.integers(0, 2)) == 1:
                t["traverse"] = 0
            if draw(st.integers(0, 5)) == 3:
                t["allow_sharedlib"] = 0
            if draw(st.integers(0, 11)) == 7:
                t["link_dependency"] = 1
        if settings:
            t["settings"] = {}
            for k in draw(st.lists(st.sampled_from(SETTINGS), max_size=2, unique=True)):
                t["settings"][k] = draw(st.sampled_from(["plain", "path", "op", "shared", "nest", "cond"]))
            t["export"] = draw(st.lists(st.sampled_from([d[0] for d in deps]), unique=True, max_size=2)) if deps else []
        if refs:
            if draw(st.integers(0, 5)) == 3:
                t["suppress"] = draw(st.sampled_from([1, "1", 0]))
            if draw(st.integers(0, 7)) == 5:
                t["self"] = draw(st.sampled_from(["prune", "prune", "noprune"])) if bad else "prune"
            if i and draw(st.integers(0, 4)) == 3:
                t["wild"] = [draw(st.integers(0, nf - 1)), draw(st.sampled_from(["*", "*#*", "*#target", "*#host",
                                                                                 "t0#*"]))]
            if deps and draw(st.integers(0, 4)) == 2:
                t["dupdep"] = draw(st.sampled_from(deps))[0]
            if deps and draw(st.integers(0, 5)) == 2:
                t["filterdep"] = draw(st.sampled_from(deps))[0]
        if toolsets and draw(st.integers(0, 1)):
            t["toolsets"] = draw(st.sampled_from([["target"], ["host"], ["target", "host"], ["host", "target"]]))
        ts.append(t)
    case = {"targets": ts, "fileperm": draw(st.permutations(range(nf)))}
    if cycles and n > 1 and draw(st.integers(0, 2)):
        # add back edges
        for _ in range(draw(st.integers(1, 2))):
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(0, n - 1))
            ts[min(a, b)]["deps"].append([max(a, b), 0])
    return case


def rel(to, frm):
    return posixpath.relpath(posixpath.join("/r", to), posixpath.join("/r", posixpath.dirname(frm)))


def spell(case, i, j, how=0, tool=None):
    """How target i writes a reference to target j."""
    fi, fj = fname(case, i), fname(case, j)
    name = case["targets"][j]["name"]
    suffix = "#" + tool if tool else ""
    if fi == fj and how in (0, 2):
        return name + suffix
    r = rel(fj, fi)
    if how == 1:
        r = "./" + r
    elif how == 3:
        r = "x/../" + r
    return r + ":" + name + suffix


def fname(case, i):
    return FILES[case["fileperm"][case["targets"][i]["file"]]]


def settings_body(kind, name, which):
    m = "%s_%s" % (name, which[:3])
    if kind == "plain":
        return {"defines": [m]}
    if kind == "path":
        return {"include_dirs": ["inc_" + m, "../up_" + m], "defines": [m], "my_dir": m}
    if kind == "op":
        return {"defines+": [m], "cflags": ["-f"]}
    if kind == "shared":
        return {"defines": ["SHARED", m], "cflags": ["-same"]}
    if kind == "nest":
        return {"configurations": {"Debug": {"defines": [m]}}, "msvs_settings": {"T": {"o": m, "l": [m]}}}
    if kind == "cond":
        return {"conditions": [["OS=='linux'", {"defines": [m]}]],
                "target_conditions": [["_type=='executable'", {"cflags": [m], "include_dirs": ["tc_" + m]}]]}


def build(case, multi=False):
    files = {}
    for i, t in enumerate(case["targets"]):
        d = {"target_name": t["name"], "type": t["type"]}
        if "settings" in t:
            d["configurations"] = {"Debug": {}, "Release": {}}
        deps = [spell(case, i, j, how) for j, how in t["deps"]]
        if t.get("dupdep") is not None:
            deps.append(spell(case, i, t["dupdep"], 3))
        if t.get("wild"):
            wf = FILES[case["fileperm"][t["wild"][0]]]
            if wf != fname(case, i) or t.get("wild_same"):
                deps.append(rel(wf, fname(case, i)) + ":" + t["wild"][1])
        if t.get("self"):
            deps.append(t["name"])
            if t["self"] == "prune":
                d.setdefault("variables", {})["prune_self_dependency"] = 1
        if deps:
            d["dependencies"] = deps
        if t.get("filterdep") is not None:
            d["dependencies!"] = [spell(case, i, t["filterdep"], 1)]
        if t.get("export"):
            d["export_dependent_settings"] = [spell(case, i, j, 1) for j in t["export"]]
        for k, kind in t.get("settings", {}).items():
            d[k] = settings_body(kind, t["name"], k)
        if "settings" in t:
            d["defines"] = ["own_" + t["name"]]
        if t.get("hard"):
            d["hard_dependency"] = 1
        if "traverse" in t:
            d["dependencies_traverse"] = t["traverse"]
        if "allow_sharedlib" in t:
            d["allow_sharedlib_linksettings_propagation"] = t["allow_sharedlib"]
        if "suppress" in t:
            d["suppress_wildcard"] = t["suppress"]
        if t.get("link_dependency"):
            d.setdefault("variables", {})["link_dependency"] = 1
        if "toolsets" in t:
            d["toolsets"] = t["toolsets"]
        files.setdefault(fname(case, i), {"targets": []})["targets"].append(d)
    for k in case["fileperm"]:
        files.setdefault(FILES[k], {"targets": []})
    # a root file that reaches everything
    roots = sorted(files)
    return files, roots


def reach(edges, a):
    seen, todo = set(), list(edges.get(a, ()))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += edges.get(x, ())
    return seen
