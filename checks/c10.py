"""C10: identity, references, wildcards, toolsets and root selection of generated targets, against a reference."""
import json
import posixpath

from hypothesis import strategies as st

from vh import gypgen as G, gypgraph as GG, gyprun
from vh.core import Campaign, Violation

ID = "C10"
LEVEL = "exploration"
RULE = ("a case is non-trivial when some reference is a wildcard, crosses files, names a toolset, is duplicated or "
        "filtered, when targets share a name, or when root targets are selected")
FILES = ["a.gyp", "b.gyp", "p/c.gyp", "p/q/d.gyp", "p/e.gyp"]
NAMES = ["t", "u", "v", "w", "t"]


@st.composite
def cases(draw):
    multi = draw(st.sampled_from([True, True, False]))
    nf = draw(st.integers(1, 4))
    perm = draw(st.permutations(range(len(FILES))))[:nf]
    files = []
    for fi in range(nf):
        ts = []
        for ti in range(draw(st.integers(1, 3))):
            # names are mostly distinct within a directory
            name = draw(st.sampled_from(NAMES)) if draw(st.integers(0, 9)) == 4 else "%s%d%d" % (
                draw(st.sampled_from("tuv")), fi, ti)
            if draw(st.integers(0, 7)) == 4:
                name = "shared" + posixpath.basename(FILES[perm[fi]])[0]
            if draw(st.integers(0, 5)) == 4 and not any(f["dir"] == posixpath.dirname(FILES[perm[fi]]) for f in files):
                name = "same"      # one name in several directories
            if any(t["name"] == name for t in ts) and draw(st.integers(0, 9)) != 5:
                name += str(ti)
            t = {"name": name, "type": draw(st.sampled_from(["none", "static_library", "executable"])), "refs": []}
            k = draw(st.integers(0, 11))
            if k <= 6:
                t["toolsets"] = ["target", "host"] if k else ["host", "target"]
            elif k == 7:
                t["toolsets"] = draw(st.sampled_from([["host"], ["target"], ["host", "target", "x"], []]))
            elif k == 8:
                t["toolset"] = draw(st.sampled_from(["host", "target"]))
                if draw(st.booleans()):
                    t["toolsets"] = draw(st.sampled_from([["host"], ["target", "host"]]))    # the list wins
            if draw(st.integers(0, 6)) == 3:
                t["suppress"] = draw(st.sampled_from([1, "1", 0]))
            if draw(st.integers(0, 9)) == 3:
                t["incond"] = draw(st.integers(1, 4))
            for _ in range(draw(st.integers(0, 3))):
                prev = [[f, x] for f in range(fi) for x in range(len(files[f]["targets"]))] + [[fi, x] for x in range(len(ts))]
                what = draw(st.integers(0, 19))
                tool = draw(st.sampled_from([None, None, None, None, "target", "host", "*" if multi else "target"]))
                if what < 13 and prev:
                    f, x = draw(st.sampled_from(prev))
                    if f == fi and tool == "*" and draw(st.integers(0, 9)) != 4:
                        tool = None
                    t["refs"].append(["t", f, x, draw(st.integers(0, 5)), tool])
                elif what < 18 and fi:
                    t["refs"].append(["w", draw(st.integers(0, fi - 1)), 0, draw(st.integers(0, 5)), tool])
                elif what == 18 and draw(st.integers(0, 3)) == 2:
                    t["refs"].append(["bad", draw(st.sampled_from(["nope", "zz.gyp:t", ":nope", "*"])), 0, 0, tool])
            if t["refs"] and draw(st.integers(0, 5)) == 2:
                t["dup"] = draw(st.integers(0, len(t["refs"]) - 1))
            if t["refs"] and draw(st.integers(0, 7)) == 2:
                t["drop"] = draw(st.integers(0, len(t["refs"]) - 1))
            if t["refs"] and draw(st.integers(0, 7)) == 2:
                t["export"] = draw(st.integers(0, len(t["refs"]) - 1))
            if draw(st.integers(0, 11)) == 4:
                t["self"] = draw(st.sampled_from([1, 1, 0])) if draw(st.integers(0, 4)) == 3 else 1
            ts.append(t)
        files.append({"path": FILES[perm[fi]], "dir": posixpath.dirname(FILES[perm[fi]]), "targets": ts,
                      "empty": False})
    names = sorted({t["name"] for f in files for t in f["targets"]})
    roots = None
    if draw(st.integers(0, 2)) == 1:
        roots = draw(st.lists(st.sampled_from(names + ([" %s " % names[0]]) + (["absent"] if draw(
            st.integers(0, 5)) == 3 else [])), min_size=1, max_size=2, unique=True))
    return {"multi": multi, "files": files, "root_targets": roots,
            "files_given": draw(st.sampled_from(["all", "all", "last"])), "spell": draw(st.integers(0, 2))}


def spelled(case, fi, ref):
    kind, f, x, how, tool = ref
    s = "#" + tool if tool else ""
    if kind == "bad":
        return f + s
    name = "*" if kind == "w" else case["files"][f]["targets"][x]["name"]
    frm, to = case["files"][fi]["path"], case["files"][f]["path"]
    if f == fi and how in (0, 2, 4):
        return name + s
    if f == fi and how == 5:
        return ":" + name + s
    r = GG.rel(to, frm)
    if how == 1:
        r = "./" + r
    elif how == 3:
        r = "x/../" + r
    elif how == 5:
        r = posixpath.dirname(r) + "//" + posixpath.basename(r) if "/" in r else r
    elif how == 4 and to.startswith("p/"):
        # through a symbolic link to the directory
        r = GG.rel("lnk/" + to[2:], frm)
    return r + ":" + name + s


def build(case):
    files = {"lnk": {"$link": "p"}, "p/keep.txt": {"$raw": "x"}}
    for fi, f in enumerate(case["files"]):
        ts, conds = [], {}
        for t in f["targets"]:
            d = {"target_name": t["name"], "type": t["type"]}
            deps = [spelled(case, fi, r) for r in t["refs"]]
            if "dup" in t:
                r = list(t["refs"][t["dup"]])
                r[3] = 1 if r[3] != 1 else 3
                deps.append(spelled(case, fi, r))
            if "self" in t:
                deps.append(t["name"])
                if t["self"]:
                    d["variables"] = {"prune_self_dependency": 1}
            if deps:
                d["dependencies"] = deps
            if "drop" in t:
                d["dependencies!"] = [spelled(case, fi, t["refs"][t["drop"]])]
            if "export" in t:
                d["export_dependent_settings"] = [spelled(case, fi, t["refs"][t["export"]])]
            for k in ("toolsets", "toolset"):
                if k in t:
                    d[k] = t[k]
            if "suppress" in t:
                d["suppress_wildcard"] = t["suppress"]
            d["conditions"] = [["_toolset=='host'", {"cflags": ["EH"]}, {"cflags": ["E<(_toolset)"]}]]
            d["target_conditions"] = [["_toolset=='host'", {"defines": ["H"]}, {"defines": ["T"]}]]
            (conds.setdefault(int(t["incond"]), []) if t.get("incond") else ts).append(d)
        files[f["path"]] = {"targets": ts}
        if conds:
            g = lambda n: {"targets": conds[n]} if n in conds else {}
            files[f["path"]]["conditions"] = [x for n, x in (
                (1, ["OS=='linux'", g(1)]), (2, ["OS=='mac'", {"targets": [{"target_name": "no", "type": "none"}]}, g(2)]),
                (3, ["OS=='mac'", {}, "OS=='linux'", g(3)]),
                (4, ["OS!='mac'", {"conditions": [["OS=='linux'", g(4)]]}])) if n in conds]
    paths = [f["path"] for f in case["files"]]
    roots = paths if case["files_given"] == "all" else paths[-1:]
    roots = [{0: p, 1: "./" + p, 2: "p/../" + p}[case["spell"]] for p in roots]
    return files, roots


def evaluate(case):
    files, roots = build(case)
    status, ref, r = G.verify(files, roots, {"toolsets": case["multi"], "adjust": False},
                              root_targets=case["root_targets"], circular=False)
    labels = [status]
    if status == "reject":
        labels.append(ref.kind)
    allrefs = [x for f in case["files"] for t in f["targets"] for x in t["refs"]]
    names = [t["name"] for f in case["files"] for t in f["targets"]]
    nt = (any(x[0] != "t" or x[4] for x in allrefs) or case["root_targets"] is not None or len(set(names)) < len(names)
          or any("dup" in t or "drop" in t for f in case["files"] for t in f["targets"]))
    if status == "ok" and r is not None and case["root_targets"] is None and case["files_given"] == "all":
        # independent of the model: each written target exactly once per requested toolset
        want = []
        for f in case["files"]:
            for t in f["targets"]:
                if "toolset" in t and "toolsets" not in t:
                    sets = [t["toolset"]]
                elif case["multi"]:
                    sets = t.get("toolsets", ["target"])
                else:
                    sets = ["target"]
                want += ["%s:%s#%s" % (f["path"], t["name"], s) for s in sets]
        if sorted(want) != sorted(r.dump["list"]):
            raise Violation("targets: expected %r, got %r\n%s" % (sorted(want), sorted(r.dump["list"]), json.dumps(files)))
        labels.append("all targets")
    return {"nontrivial": bool(nt) and status != "oom", "labels": labels}


CAMPAIGNS = [Campaign("identity", cases, evaluate, quick=4000)]


def setup():
    gyprun.load()
