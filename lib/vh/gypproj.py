"""Buildable projects: generation, rendering to files, and what a build of them must do (an independent model)."""
import json
import os
import posixpath

from hypothesis import strategies as st

LINK = ("executable", "shared_library", "loadable_module")
TYPES = ["executable", "static_library", "shared_library", "loadable_module", "none", "static_library"]
DIRS = ["", "lib", "lib/core", "app"]
SUB = ["", "src/", "src/deep/", "x.y/"]
CONFS = ["Debug", "Release"]


def plain(prefix, n):
    return st.sampled_from(["%s%d" % (prefix, i) for i in range(n)])


@st.composite
def project(draw, max_targets=5, gen=True, confs=True, copies=True, rules=True, settings=True, toolsets=False,
            products=True, min_targets=1, headers=True, hidden=False):
    """A case: {confs, files:[dir], targets:[...], headers:{path:[includes]}}"""
    ndirs = draw(st.integers(1, 3))
    dirs = [""] + draw(st.permutations(DIRS[1:]))[:ndirs - 1]
    case = {"confs": CONFS[:draw(st.integers(1, 2))] if confs else ["Default"], "dirs": dirs, "targets": [],
            "headers": {}, "td": {}}
    if settings and draw(st.booleans()):
        case["td"] = {"defines": ["TD"], "cflags": ["-ftd"]}
        if draw(st.booleans()):
            case["td"]["conf"] = {c: {"defines": ["TD_" + c.upper()]} for c in case["confs"]}
    nh = draw(st.integers(0, 4)) if headers else 0
    for h in range(nh):
        d = draw(st.sampled_from(["inc", "inc/sub", "inc2"]))
        p = "%s/h%d.h" % (d, h)
        case["headers"][p] = [x for x in case["headers"] if draw(st.integers(0, 3)) == 1]
    n = draw(st.integers(min_targets, max_targets))
    for ti in range(n):
        di = draw(st.integers(0, len(dirs) - 1))
        ty = draw(st.sampled_from(TYPES))
        t = {"name": "%s%d" % (draw(st.sampled_from(["t", "lib", "my-t", "T_"])), ti), "dir": di, "type": ty,
             "sources": [], "deps": [], "set": {}, "conf": {}, "actions": [], "rules": [], "copies": []}
        # dependencies: any earlier target
        dense = hidden and draw(st.booleans())
        for j in range(ti):
            if (draw(st.integers(0, 2)) == 1 or dense and draw(st.booleans())) and case["targets"][j]["dir"] >= di:   # no cycles among files
                t["deps"].append(j)
        if ty != "none":
            for k in range(draw(st.integers(1, 3))):
                t["sources"].append({
                    "path": "%s%s%d_%d.%s" % (draw(st.sampled_from(SUB)), draw(st.sampled_from(["a", "b"])), ti, k,
                                              draw(st.sampled_from(["c", "cc", "cpp", "cxx", "c", "cc"]))),
                    "inc": [h for h in case["headers"] if draw(st.integers(0, 2)) == 1], "v": 0})
        elif draw(st.integers(0, 3)) == 1:
            t["sources"].append({"path": "doc%d.txt" % ti, "inc": [], "v": 0})
        if settings:
            t["set"] = {"defines": draw(st.lists(plain("D", 4), max_size=2, unique=True)),
                        "cflags": draw(st.lists(plain("-fx", 4), max_size=2, unique=True)),
                        "cflags_c": draw(st.lists(plain("-fc", 2), max_size=1)),
                        "cflags_cc": draw(st.lists(plain("-fcc", 2), max_size=1))}
            if ty in LINK:
                t["set"]["ldflags"] = draw(st.lists(plain("-Lx", 3), max_size=1))
                t["libraries"] = draw(st.lists(plain("-ly", 3), max_size=2, unique=True))
            if draw(st.integers(0, 2)) == 1:
                t["dds"] = {"defines": ["DDS%d" % ti]}
            if draw(st.integers(0, 3)) == 1:
                t["ads"] = {"defines": ["ADS%d" % ti]}
            for c in case["confs"]:
                if draw(st.integers(0, 2)) == 1:
                    t["conf"][c] = {"defines": ["C_%s" % c], "cflags": ["-fconf-" + c]}
        if gen:
            ng = draw(st.sampled_from([0, 0, 1, 1, 2]))
            for k in range(ng):
                a = {"name": "gen%d%s" % (k, draw(st.sampled_from(["", "-x", " sp"]))), "in": [], "out": [],
                     "args": draw(st.lists(plain("arg", 4), max_size=2)), "src": False}
                a["in"].append({"kind": "file", "path": "%sin%d_%d.txt" % (draw(st.sampled_from(SUB)), ti, k), "v": 0})
                for m in range(draw(st.sampled_from([0, 0, 1, 2]))):
                    a["in"].append({"kind": "file", "path": "in%d_%d_%d.txt" % (ti, k, m), "v": 0})
                if t["actions"] and draw(st.booleans()):
                    n = len(t["actions"][k - 1]["out"]) - 1
                    a["in"].append({"kind": "out", "a": k - 1, "o": draw(st.integers(0, n)) if hidden else 0})
                elif t["deps"] and draw(st.booleans()):
                    # an output of a dependency's action
                    js = [j for j in t["deps"] if case["targets"][j]["actions"]]
                    if js:
                        j = draw(st.sampled_from(js))
                        n = len(case["targets"][j]["actions"][0]["out"]) - 1
                        a["in"].append({"kind": "dep", "t": j, "a": 0,
                                        "o": draw(st.integers(0, n)) if hidden else 0})
                loc = draw(st.sampled_from(["int", "shared", "product", "tree"]))
                if ty != "none" and draw(st.integers(0, 1)) == 1:
                    a["src"] = True
                    a["out"].append({"loc": draw(st.sampled_from(["int", "tree", "shared"])),
                                     "path": "g%d_%d.%s" % (ti, k, draw(st.sampled_from(["c", "cc"])))})
                if draw(st.integers(0, 1)) == 1 or not a["out"]:
                    a["out"].append({"loc": loc, "path": "%sg%d_%d.h" % (draw(st.sampled_from(["", "gsub/"])), ti, k)})
                if draw(st.integers(0, 3)) == 1:
                    a["out"].append({"loc": loc, "path": "g%d_%d.dat" % (ti, k)})
                t["actions"].append(a)
            if rules and ty != "none" and draw(st.integers(0, 2)) == 1:
                for rk in range(draw(st.sampled_from([1, 2, 2])) if hidden else 1):
                    ext, pre = [("tpl", "r"), ("tpm", "q")][rk]
                    r = {"name": "rule%d%s" % (ti, "b" if rk else ""), "ext": ext, "srcs": [], "extra": [],
                         "outs": ["c"], "src": True, "args": draw(st.lists(plain("rarg", 3), max_size=1))}
                    for k in range(draw(st.sampled_from([1, 3, 2, 3, 4]) if hidden else st.integers(1, 2))):
                        r["srcs"].append({"path": "%s%s%d_%d.%s" % (draw(st.sampled_from(SUB)), pre, ti, k, ext), "v": 0})
                    if draw(st.booleans()):
                        r["outs"].append("h")
                    if draw(st.integers(0, 1 if hidden else 2)) == 1:
                        for k in range(draw(st.sampled_from([1, 3, 2] if hidden else [1, 2, 2]))):
                            r["extra"].append({"path": "rx%d%s.txt" % (ti, "_%d_%d" % (rk, k) if k or rk else ""), "v": 0})
                    r["loc"] = draw(st.sampled_from(["int", "tree"]))
                    t["rules"].append(r)
            if hidden:
                # tools that also read a file a dependency generates, without listing it among the inputs
                js = [j for j in t["deps"] if case["targets"][j]["actions"]]
                for x in t["actions"] + t["rules"]:
                    if js and draw(st.booleans()):
                        x["hid"] = [draw(st.sampled_from(js)), 0, 0]
        if copies and draw(st.integers(0, 3)) == 1:
            c = {"dest": draw(st.sampled_from(["data", "data/sub"])) + str(ti),
                 "files": [{"path": "cp%d_%d.dat" % (ti, k), "v": 0} for k in range(draw(st.integers(1, 2)))]}
            t["copies"].append(c)
        if products and draw(st.integers(0, 4)) == 1 and ty != "none":
            t["product"] = draw(st.sampled_from([{"product_name": "prod%d" % ti}, {"product_extension": "ext%d" % ti}
                                                 if ty != "static_library" else {"product_name": "p%d" % ti},
                                                 {"product_prefix": "pre_"} if not t["name"].startswith("lib")
                                                 else {"product_name": "q%d" % ti},   # (generators strip "lib" differently)
                                                 {"product_name": "n%d" % ti, "product_prefix": ""}]))
        case["targets"].append(t)
    # generated headers used by sources of the target itself or of (direct) dependents
    for ti, t in enumerate(case["targets"]):
        for s in t["sources"]:
            if s["path"].endswith(".txt"):
                continue
            own = [("own", ti, ai, oi) for ai, a in enumerate(t["actions"]) for oi, o in enumerate(a["out"])
                   if o["path"].endswith(".h")]
            for j in reach(case, ti) if hidden else t["deps"]:
                if case["targets"][j].get("hard") is False:
                    continue
                own += [("dep", j, ai, oi) for ai, a in enumerate(case["targets"][j]["actions"])
                        for oi, o in enumerate(a["out"]) if o["path"].endswith(".h")]
            s["gen"] = [list(x) for x in own if draw(st.integers(0, 1)) == 1][:2]
            for g in s["gen"]:
                if g[0] == "dep":
                    # a static library that only generates a header for another one must be a hard dependency
                    case["targets"][g[1]]["hard"] = True
    for t in case["targets"]:
        for a in t["actions"]:
            for i in a["in"]:
                if i["kind"] == "dep":
                    case["targets"][i["t"]]["hard"] = True
        for x in t["actions"] + t["rules"]:
            if x.get("hid"):
                case["targets"][x["hid"][0]]["hard"] = True
    return case


def reach(case, ti):
    """the direct dependencies, and those further away that are certainly built before this target is compiled (a static
    library does not wait for static libraries it names unless they are hard dependencies)"""
    seen, todo = [], list(case["targets"][ti]["deps"])
    src = {j: ti for j in todo}
    while todo:
        j = todo.pop(0)
        if j in seen:
            continue
        seen.append(j)
        a, b = case["targets"][src[j]], case["targets"][j]
        if a["type"] == "static_library" and b["type"] == "static_library" and not b.get("hard"):
            continue
        for k in b["deps"]:
            src.setdefault(k, j)
            todo.append(k)
    return seen


LOCVAR = {"int": "<(INTERMEDIATE_DIR)", "shared": "<(SHARED_INTERMEDIATE_DIR)", "product": "<(PRODUCT_DIR)"}


def tdir(case, t):
    return case["dirs"][t["dir"]]


def rel(case, t, path):
    """root-relative path"""
    return posixpath.normpath(posixpath.join(tdir(case, t), path))


def gypfile(case, di):
    d = case["dirs"][di]
    return posixpath.join(d, (posixpath.basename(d) or "main") + ".gyp")


def up(case, t):
    d = tdir(case, t)
    return "../" * (d.count("/") + 1) if d else ""


def out_ref(case, t, o, owner=None):
    """An output as written in the .gyp file of t (owner: the target whose action makes it)."""
    owner = owner or t
    if o["loc"] == "tree":
        p = rel(case, owner, "gen/" + o["path"])
        return up(case, t) + p if up(case, t) else p
    if o["loc"] == "int":
        assert owner is t
        return "<(INTERMEDIATE_DIR)/" + o["path"]
    return LOCVAR[o["loc"]] + "/" + o["path"]


def qual(case, t):
    return "%s:%s#target" % (gypfile(case, t["dir"]), t["name"])


def normalise(case):
    """Outputs other targets use cannot be in INTERMEDIATE_DIR (it is private)."""
    shared = set()
    for t in case["targets"]:
        for s in t["sources"]:
            for g in s.get("gen", ()):
                if g[0] == "dep":
                    shared.add((g[1], g[2], g[3]))
        for a in t["actions"]:
            for i in a["in"]:
                if i["kind"] == "dep":
                    shared.add((i["t"], i["a"], i["o"]))
        for x in t["actions"] + t["rules"]:
            if x.get("hid"):
                shared.add(tuple(x["hid"]))
    for ti, ai, oi in shared:
        o = case["targets"][ti]["actions"][ai]["out"][oi]
        if o["loc"] == "int":
            o["loc"] = "shared"
    return case


def includes_of(case, t):
    """include_dirs needed by the target, as written in its file."""
    u = up(case, t)
    res = []
    if case["headers"]:
        res += [u + "inc" if u else "inc", u + "inc/sub" if u else "inc/sub", u + "inc2" if u else "inc2"]
    locs = set()
    for s in t["sources"]:
        for kind, j, ai, oi in s.get("gen", ()):
            owner = case["targets"][j]
            o = owner["actions"][ai]["out"][oi]
            locs.add(out_ref(case, t, {"loc": o["loc"], "path": ""}, owner).rstrip("/"))
    return res + sorted(locs)


def hidden_in(case, t, x):
    if not x.get("hid"):
        return []
    j, ai, oi = x["hid"]
    ow = case["targets"][j]
    return [out_ref(case, t, ow["actions"][ai]["out"][oi], ow)]


def target_dict(case, ti):
    t = case["targets"][ti]
    d = {"target_name": t["name"], "type": t["type"]}
    src = [s["path"] for s in t["sources"]] + [s["path"] for r in t["rules"] for s in r["srcs"]]
    src += t.get("prebuilt", [])     # object files
    if src:
        d["sources"] = src
    if t["deps"]:
        d["dependencies"] = []
        for j in t["deps"]:
            x = case["targets"][j]
            if x["dir"] == t["dir"]:
                d["dependencies"].append(x["name"])
            else:
                d["dependencies"].append(posixpath.relpath(gypfile(case, x["dir"]), tdir(case, t) or ".") + ":" + x["name"])
    inc = includes_of(case, t)
    if inc:
        d["include_dirs"] = inc
    for k, v in t["set"].items():
        if v:
            d[k] = v
    if t.get("libraries"):
        d["libraries"] = t["libraries"]
    if t["conf"]:
        d["configurations"] = {c: t["conf"][c] for c in t["conf"]}
    if t.get("dds"):
        d["direct_dependent_settings"] = t["dds"]
    if t.get("ads"):
        d["all_dependent_settings"] = t["ads"]
    if t.get("hard"):
        d["hard_dependency"] = 1
    d.update(t.get("product", {}))
    acts = []
    for ai, a in enumerate(t["actions"]):
        ins = []
        for i in a["in"]:
            if i["kind"] == "file":
                ins.append(i["path"])
            elif i["kind"] == "out":
                ins.append(out_ref(case, t, t["actions"][i["a"]]["out"][i["o"]]))
            else:
                ow = case["targets"][i["t"]]
                ins.append(out_ref(case, t, ow["actions"][i["a"]]["out"][i["o"]], ow))
        outs = [out_ref(case, t, o) for o in a["out"]]
        cmd = ["vact"]
        for i in ins + [h for h in hidden_in(case, t, a) if h not in ins]:   # (repeated list items are dropped)
            cmd += ["--in", i]
        for o in outs:
            cmd += ["--out", o]
        x = {"action_name": a["name"], "inputs": ins, "outputs": outs, "action": cmd + ["--"] + a["args"]}
        if a["src"]:
            x["process_outputs_as_sources"] = 1
        if a.get("message"):
            x["message"] = a["message"]
        acts.append(x)
    if acts:
        d["actions"] = acts
    rs = []
    for r in t["rules"]:
        base = "<(INTERMEDIATE_DIR)" if r["loc"] == "int" else "gen"
        outs = ["%s/<(RULE_INPUT_ROOT).%s" % (base, e) for e in r["outs"]]
        cmd = ["vact", "--in", "<(RULE_INPUT_PATH)"]
        for e in [e["path"] for e in r["extra"]] + hidden_in(case, t, r):
            cmd += ["--in", e]
        for o in outs:
            cmd += ["--out", o]
        x = {"rule_name": r["name"], "extension": r["ext"], "outputs": outs,
             "action": cmd + ["--"] + r["args"] + ["<(RULE_INPUT_NAME)", "<(RULE_INPUT_EXT)", "<(RULE_INPUT_ROOT)"]}
        if r["extra"]:
            x["inputs"] = [e["path"] for e in r["extra"]]
        if r["src"]:
            x["process_outputs_as_sources"] = 1
        rs.append(x)
    if rs:
        d["rules"] = rs
    if t["copies"]:
        d["copies"] = [{"destination": "<(PRODUCT_DIR)/" + c["dest"], "files": [f["path"] for f in c["files"]] + c.get("trees", [])}
                       for c in t["copies"]]
    d.update(t.get("extra", {}))
    return d


def gyp_text(case, di):
    d = {"includes": [("../" * (case["dirs"][di].count("/") + 1) if case["dirs"][di] else "") + "common.gypi"],
         "targets": [target_dict(case, i) for i, t in enumerate(case["targets"]) if t["dir"] == di]}
    return "# project\n" + json.dumps(d, indent=1).replace("true", "1") + "\n"


def render(case):
    """{path: text} of everything in the source tree"""
    f = {}
    td = {"configurations": {c: dict(case["td"].get("conf", {}).get(c, {})) for c in case["confs"]},
          "default_configuration": case["confs"][0]}
    for k in ("defines", "cflags"):
        if k in case["td"]:
            td[k] = case["td"][k]
    td.update(case.get("tdextra", {}))
    f["common.gypi"] = json.dumps({"target_defaults": td, **case.get("gypi", {})}, indent=1) + "\n"
    for di in range(len(case["dirs"])):
        f[gypfile(case, di)] = gyp_text(case, di)
    hv = case.get("hv", {})
    for h, incs in case["headers"].items():
        f[h] = "// %s %d\n" % (h, hv.get(h, 0)) + "".join('#include "%s"\n' % posixpath.basename(x) for x in incs)
    for t in case["targets"]:
        for s in t["sources"]:
            body = "// %s %d\n" % (s["path"], s["v"])
            body += "".join('#include "%s"\n' % posixpath.basename(x) for x in s["inc"])
            for kind, j, ai, oi in s.get("gen", ()):
                body += '#include "%s"\n' % case["targets"][j]["actions"][ai]["out"][oi]["path"]
            f[rel(case, t, s["path"])] = body
        for a in t["actions"]:
            for i in a["in"]:
                if i["kind"] == "file":
                    f[rel(case, t, i["path"])] = "input %s %d\n" % (i["path"], i["v"])
        for r in t["rules"]:
            for s in r["srcs"] + r["extra"]:
                f[rel(case, t, s["path"])] = "rule input %s %d\n" % (s["path"], s["v"])
        for c in t["copies"]:
            for x in c["files"]:
                f[rel(case, t, x["path"])] = "data %s %d\n" % (x["path"], x["v"])
            for x in c.get("trees", []):
                f[rel(case, t, x + "one.dat")] = "tree %s\n" % x
                f[rel(case, t, x + "in/two.dat")] = "tree %s 2\n" % x
        for o in t.get("prebuilt", []):
            f[rel(case, t, o)] = "object %s\n" % o
    return f


def roots(case):
    """The .gyp files to give on the command line: all that hold targets."""
    return [gypfile(case, di) for di in range(len(case["dirs"])) if any(t["dir"] == di for t in case["targets"])]


# ---- model -------------------------------------------------------------------------------------------------------

def compiled_ext(p):
    return posixpath.splitext(p)[1] in (".c", ".cc", ".cpp", ".cxx", ".s", ".S")


def gen_sources(case, t):
    """Generated compilable sources of a target: (loc, path)."""
    r = []
    for a in t["actions"]:
        if a["src"]:
            r += [(o["loc"], o["path"]) for o in a["out"] if compiled_ext(o["path"])]
    for ru in t["rules"]:
        if ru["src"]:
            for s in ru["srcs"]:
                root = posixpath.splitext(posixpath.basename(s["path"]))[0]
                r += [(ru["loc"], "%s.%s" % (root, e)) for e in ru["outs"] if compiled_ext("x." + e)]
    return r


def deep(case, ti):
    seen, todo = set(), list(case["targets"][ti]["deps"])
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            todo += case["targets"][j]["deps"]
    return seen


def product_base(t):
    ty, n = t["type"], t["name"]
    pre, ext = "", ""
    if ty in ("static_library", "shared_library", "loadable_module"):
        pre = "lib"
        ext = ".a" if ty == "static_library" else ".so"
        if n.startswith("lib"):
            n = n[3:]
    p = t.get("product", {})
    pre = p.get("product_prefix", pre)
    n = p.get("product_name", n)
    if p.get("product_extension"):
        ext = "." + p["product_extension"]
    return pre + n + ext


def link_closure(case, ti):
    """Indices of the library targets linked into linkable target ti."""
    res = []

    def visit(j, first):
        t = case["targets"][j]
        if not first and t["type"] in ("executable", "loadable_module"):
            return
        if j in res:
            return
        res.append(j)
        if first or t["type"] not in LINK:
            for d in t["deps"]:
                visit(d, False)
    visit(ti, True)
    return [j for j in res[1:] if case["targets"][j]["type"] in ("static_library", "shared_library")]
