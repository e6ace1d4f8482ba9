"""C19: Visual Studio projects, filters and solutions parsed and compared with the targets they come from."""
import glob
import json
import ntpath
import os
import posixpath
import re
import xml.dom.minidom
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

import c21
from vh import gyprun
from vh.core import Campaign, HarnessError, Violation, fresh_dir

ID = "C19"
LEVEL = "exploration"
RULE = ("a project is non-trivial when it has at least two targets, a dependency, two configurations that differ, and a "
        "define, path or name holding a character special to XML, MSBuild or the Windows command line")

NS = "{http://schemas.microsoft.com/developer/msbuild/2003}"
FILES = ["a.gyp", "p/b.gyp", "p/q/c.gyp", "a2.gyp"]
TYPES = ["executable", "static_library", "static_library", "shared_library", "loadable_module", "none"]
CONFIGS = [["Debug", "Release"], ["Debug", "Release"], ["Release"], ["Debug", "Release", "Debug_x64", "Release_x64"],
           ["My_Debug", "My_Release"], ["Default", "D & R"]]
SRC = ["a.c", "b.cc", "c.cpp", "d.h", "sub/a.c", "sub/e.cxx", "../s.c", "sub/deep/f.cc", "r.rc", "t.txt", "u.asm", "i.idl", "é.c",
       "w & x/g.c", "q'.c", "x.foo", "sub/y.foo", "z.hxx", "./k.c", "sub/l.cc", "M.CPP", "win\\m.c"]
DEFS = ["A", "B=1", "C=a b", 'D="q"', "E=<&>", "F=50%", "G=a;b", "H=$x", "I=#", "J='k'", "K=,", "L=é", "M=(a)*?", "N=@x", "O=^|",
        "P=p", "Q=c:\\d", "R=%PATH%"]
DIRS = [".", "inc", "../x", "sub/in c", "a&b", "/abs/inc", "$(Foo)/inc", "inc/../other", "é", "sub/"]
LIBS = ["-lfoo", "bar.lib", "foo", "-lbar.lib", "sub/z.lib", "-lws2_32", "x&y.lib"]
CMDS = ["echo one", 'copy "a b" c & del x', "first\r\nsecond <x>"]
NAMES = ["t", "lib", "a-b", "x.y", "T", "n & m", "ü"]


def some(x, n):
    return st.lists(st.sampled_from(x), unique=True, max_size=n)


@st.composite
def cases(draw):
    nf = draw(st.integers(1, len(FILES)))
    n = draw(st.integers(1, 5))
    ts = []
    for i in range(n):
        t = {"f": draw(st.integers(0, nf - 1)), "name": draw(st.sampled_from(NAMES)) + str(i),
             "type": draw(st.sampled_from(TYPES)), "src": draw(some(SRC, 5)), "defines": draw(some(DEFS, 4)),
             "include_dirs": draw(some(DIRS, 3)),
             "deps": draw(st.lists(st.integers(0, i - 1), unique=True, max_size=2)) if i else []}
        if i and draw(st.integers(0, 3)) == 2:
            # the name of a target of another directory
            o = draw(st.sampled_from(ts))["name"]
            here = posixpath.dirname(FILES[t["f"]])
            if not any(y["name"] == o and posixpath.dirname(FILES[y["f"]]) == here for y in ts):
                t["name"] = o
        t["cdef"] = draw(st.lists(some(DEFS, 2), min_size=2, max_size=2))
        t["cinc"] = draw(st.lists(some(DIRS, 2), min_size=2, max_size=2))
        if draw(st.booleans()):
            t["x"] = draw(st.sampled_from(t["src"])) if t["src"] else None
        k = draw(st.integers(0, 11))
        if k in (1, 2, 3):
            t["acts"] = [{"in": draw(some(["a.c", "in.txt", "sub/in2.txt", "b.cc", "../in3"], 2)),
                          "out": draw(some(["$(IntDir)/o.c", "gen/o1.cc", "gen/o2.h"], 2)) or ["gen/o%d.c" % j],
                          "args": draw(some(["x", "a b", "--f=1", "-p", "/q", "é", "k&l", "$(IntDir)"], 3)),
                          "as": draw(st.booleans())} for j in range(draw(st.integers(1, 2)))]
        if k in (3, 4, 5):
            t["rule"] = {"name": draw(st.sampled_from(["r", "my rule", "r-1", "7z", "r&s"])), "as": draw(st.booleans()),
                         "in": draw(some(["tool.py", "sub/dep.txt"], 2))}
        if k == 6:
            t["copies"] = {"files": draw(some(["in.txt", "sub/in2.txt", "data/"], 3)) or ["in.txt"]}
        if k in (7, 8):
            t["prod"] = draw(st.fixed_dictionaries({}, optional={
                "product_name": st.sampled_from(["pn", "p & n"]), "product_prefix": st.sampled_from(["pre", "lib"]),
                "product_extension": st.sampled_from(["node", "xyz"]), "product_dir": st.sampled_from(["$(OutDir)/sub", "x"])}))
        if k == 8:
            stubs = [s for s in t["src"] if re.search(r"\.c(c|pp)?$", s) and not s.startswith("./")]
            t["pch"] = draw(st.sampled_from(stubs)) if stubs else None
            t["pchc"] = draw(st.integers(0, 2))
        t["libs"] = draw(some(LIBS, 3)) if draw(st.booleans()) else []
        t["ldirs"] = draw(some(DIRS, 2)) if draw(st.booleans()) else []
        if draw(st.integers(0, 7)) == 5:
            t["guid"] = "00000000-1111-2222-3333-44444444444%d" % i
        if draw(st.integers(0, 9)) == 6 and not ("guid" in t or t.get("pch")):
            t["shard"] = draw(st.integers(1, 3))
        if draw(st.integers(0, 5)) == 3:
            t["attrs"] = draw(st.sampled_from([{"OutputDirectory": "out/x"}, {"OutputDirectory": "$(Foo)\\y", "CharacterSet": "1"},
                                               {"IntermediateDirectory": "$(Bar)/obj"}]))
        if draw(st.integers(0, 5)) == 3:
            t["set"] = draw(st.sampled_from(["msvs", "msbuild"]))
        if draw(st.integers(0, 5)) == 3:
            t["warn"] = draw(some([4005, 4018, 4267], 2))
        if draw(st.integers(0, 5)) == 2:
            t["def"] = 1
        if draw(st.integers(0, 2)) == 1:
            t["win"] = draw(st.fixed_dictionaries({}, optional={
                "msvs_system_include_dirs": some(DIRS, 2), "resource_include_dirs": some(DIRS, 2), "midl_include_dirs": some(DIRS, 2),
                "msvs_prebuild": st.sampled_from(CMDS), "msvs_postbuild": st.sampled_from(CMDS)}))
            t["wincfg"] = draw(st.integers(0, 2))
        if draw(st.integers(0, 5)) == 3:
            t["own"] = draw(st.fixed_dictionaries({}, optional={"out": st.just("$(OutDir)\\mine.bin"), "pdb": st.just("$(IntDir)\\mine.pdb"),
                                                                "ign": st.just("false")}))
        ts.append(t)
    return {"t": ts, "cfg": draw(st.integers(0, len(CONFIGS) - 1)), "ver": draw(st.sampled_from(["2008", "2015", "2022", "2019"])),
            "genout": draw(st.sampled_from([None, None, "out", "out/d"])), "suffix": draw(st.sampled_from(["", "", "", "_s"])),
            "give": draw(st.lists(st.integers(0, nf - 1), unique=True, min_size=1)), "twice": draw(st.booleans())}


def build(case):
    docs = {}
    cn = CONFIGS[case["cfg"]]
    for i, t in enumerate(case["t"]):
        g = FILES[t["f"]]
        base = posixpath.dirname(g)
        d = {"target_name": t["name"], "type": t["type"], "msvs_cygwin_shell": 0}
        src = list(t["src"])
        if t.get("def"):
            src.append("exports.def")
        if src:
            d["sources"] = src
        if t.get("x"):
            d["sources!"] = [t["x"]]
        for k in ("defines", "include_dirs"):
            if t[k]:
                d[k] = t[k]
        if t["libs"]:
            d["libraries"] = t["libs"]
        if t["ldirs"]:
            d["library_dirs"] = t["ldirs"]
        if t.get("prod"):
            d.update(t["prod"])
        if t.get("shard"):
            d["msvs_shard"] = t["shard"]
        if t["deps"]:
            d["dependencies"] = [
                case["t"][j]["name"] if case["t"][j]["f"] == t["f"] else "%s:%s" % (
                    posixpath.relpath("/" + FILES[case["t"][j]["f"]], "/" + base), case["t"][j]["name"]) for j in t["deps"]]
        if t.get("acts"):
            d["actions"] = [{"action_name": "act%d" % k, "inputs": a["in"], "outputs": a["out"],
                             "action": ["python"] + a["args"], "message": "do <%d>" % k,
                             "process_outputs_as_sources": int(a["as"])} for k, a in enumerate(t["acts"])]
        if t.get("rule"):
            r = t["rule"]
            d["rules"] = [{"rule_name": r["name"], "extension": "foo", "inputs": r["in"],
                           "outputs": ["<(RULE_INPUT_ROOT).gen.cc"], "action": ["python", "<(RULE_INPUT_PATH)"],
                           "process_outputs_as_sources": int(r["as"])}]
        if t.get("copies"):
            d["copies"] = [{"destination": "dest dir", "files": t["copies"]["files"]}]
        cfgs = {}
        for k, c in enumerate(cn):
            x = cfgs[c] = {"msvs_windows_target_platform_version": "10.0.19041.0"}
            if t["cdef"][k % 2]:
                x["defines"] = t["cdef"][k % 2]
            if t["cinc"][k % 2]:
                x["include_dirs"] = t["cinc"][k % 2]
            if c.endswith("_x64"):
                x["msvs_configuration_platform"] = "x64"
            if t.get("guid") and k == 0:
                x["msvs_guid"] = t["guid"]
            if t.get("pch") and t["pchc"] in (2, k):
                x["msvs_precompiled_source"] = t["pch"]
                x["msvs_precompiled_header"] = "sub/pch.h"
            if t.get("attrs"):
                x["msvs_configuration_attributes" if case["ver"] == "2008" or i % 2 else "msbuild_configuration_attributes"] = t["attrs"]
            if t.get("warn"):
                x["msvs_disabled_warnings"] = t["warn"]
            if t.get("win") and t["wincfg"] in (2, k):
                x.update(t["win"])
            if t.get("set"):
                if case["ver"] != "2008" and t["set"] == "msbuild":
                    x["msbuild_settings"] = {"ClCompile": {"WarningLevel": "Level3", "PreprocessorDefinitions": ["FIRST"]}}
                else:
                    x["msvs_settings"] = {"VCCLCompilerTool": {"WarningLevel": "3", "PreprocessorDefinitions": ["FIRST"]}}
            if t.get("own"):
                own(case, t, x)
        d["configurations"] = cfgs
        d["default_configuration"] = cn[0]
        docs.setdefault(g, {"targets": []})["targets"].append(d)
    return docs


def own(case, t, x):
    """Settings of the configuration that gyp would otherwise choose."""
    o = t["own"]
    lib = t["type"] == "static_library"
    if case["ver"] != "2008" and t.get("set") == "msbuild":
        s, names = x["msbuild_settings"], ("Lib" if lib else "Link", "ClCompile", "ProgramDataBaseFileName")
    else:
        s, names = x.setdefault("msvs_settings", {}), ("VCLibrarianTool" if lib else "VCLinkerTool", "VCCLCompilerTool",
                                                       "ProgramDataBaseFileName")
    if "out" in o and t["type"] != "none":
        s.setdefault(names[0], {})["OutputFile"] = o["out"]
    if "pdb" in o:
        s.setdefault(names[1], {})[names[2]] = o["pdb"]


def platform(c):
    return "x64" if c.endswith("_x64") else "Win32"


def full(c):
    return (c[:-4] if c.endswith("_x64") else c) + "|" + platform(c)


class Ctx:
    pass


def parse_sln(text, fail):
    lines = text.replace("\r\n", "\n").split("\n")
    if "\r" in text.replace("\r\n", ""):
        fail("a lone carriage return in the solution")
    projects, sections, cur, sec, deps = [], {}, None, None, {}
    for l in lines:
        m = re.match(r'Project\("(\{[^"]*\})"\) = "(.*)", "(.*)", "(\{[^"]*\})"$', l)
        if m:
            if cur:
                fail("a project inside a project")
            cur = {"type": m.group(1), "name": m.group(2), "path": m.group(3), "guid": m.group(4), "deps": []}
            projects.append(cur)
        elif l == "EndProject":
            cur = None
        elif re.match(r"\t(Project|Global)Section\((\w+)\) = \w+$", l):
            sec = re.match(r"\t\w+\((\w+)\)", l).group(1)
            sections.setdefault(sec, [])
        elif re.match(r"\tEnd(Project|Global)Section$", l):
            sec = None
        elif sec:
            a, eq, b = l.strip().partition(" = ")
            if not eq:
                fail("a bad line in a section of the solution: %r" % l)
            if cur:
                cur["deps"].append((a, b))
            else:
                sections[sec].append((a, b))
        elif l in ("Global", "EndGlobal", "") or l.startswith("#") or l.startswith("Microsoft Visual Studio Solution"):
            pass
        else:
            fail("a line of the solution makes no sense: %r" % l)
    return projects, sections


def check(case):
    docs = build(case)
    give = [FILES[i] for i in case["give"] if FILES[i] in docs]
    if not give:
        return None
    j = json.dumps(case)
    root = fresh_dir("vs")
    tree = os.path.join(root, "tree")
    gyprun.write_tree(tree, docs)
    args = ["--depth", ".", "--no-parallel", "--no-circular-check"]
    dump = gyprun.dump(args + give, tree)
    if dump.rc != 0:
        return None
    gargs = ["-f", "msvs", "-G", "msvs_version=" + case["ver"]] + args
    if case["genout"]:
        gargs.append("--generator-output=" + case["genout"])
    if case["suffix"]:
        gargs.append("--suffix=" + case["suffix"])
    env = {"PROCESSOR_ARCHITECTURE": None, "PROCESSOR_ARCHITEW6432": None}
    for _ in range(2 if case["twice"] else 1):
        r = gyprun.gyp_main(gargs + give, tree, env=env)
        if r.rc != 0:
            raise Violation("the project is valid but generation failed:\n%s\n%s\n%s" % (
                r.err[-2500:], json.dumps(docs, indent=1)[:4000], j))
    x = Ctx()
    x.case, x.docs, x.tree, x.out, x.j = case, docs, tree, os.path.join(tree, case["genout"] or ""), j
    x.vcx = case["ver"] != "2008"
    x.where = ""

    def fail(msg):
        raise Violation("%s%s\n%s\n%s" % (x.where, msg, json.dumps(docs, indent=1)[:5000], j))
    x.fail = fail
    # the projects a processed target is expected to give (a sharded target gives several)
    specs = {}
    targets = dump.dump["dicts"]
    for q, s in targets.items():
        f = q.split(":")[0]
        sh = int(s["configurations"][s["default_configuration"]].get("msvs_shard", 0))  # the dump keeps it there
        x_names = [s["target_name"]] if not sh else ["%s_%d" % (s["target_name"], k) for k in range(sh)]
        for k, nm in enumerate(x_names):
            p = dict(s)
            p["name"], p["file"], p["q"] = nm, f, q
            if sh:
                p["sources"] = s.get("sources", [])[k::sh]
            specs[(q, k)] = p
    parts = {}
    for (q, k) in specs:
        parts.setdefault(q, []).append((q, k))
    ext = ".vcxproj" if x.vcx else ".vcproj"
    proj = {}
    for key, p in specs.items():
        p["path"] = os.path.join(x.out, posixpath.dirname(p["file"]), p["name"] + case["suffix"] + ext)
        p["deps"] = [d for q in p.get("dependencies", []) for d in parts[q]]
        if not os.path.exists(p["path"]):
            fail("no project file %s" % p["path"])
    guids = {}
    for key, p in specs.items():
        x.where = "%s: " % os.path.relpath(p["path"], tree)
        g = (vcxproj if x.vcx else vcproj)(x, p, specs)
        if not re.match(r"\{[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}\}$", g):
            fail("the identifier %r is malformed" % g)
        if p["configurations"][p["default_configuration"]].get("msvs_guid") not in (None, g[1:-1]):
            fail("the identifier asked for is not used: %s" % g)
        if g in guids and not p["configurations"][p["default_configuration"]].get("msvs_guid"):
            fail("%s and %s share the identifier %s" % (guids[g], key, g))
        guids[g] = key
        p["guid"] = g
    for key, p in specs.items():
        x.where = "%s: " % os.path.relpath(p["path"], tree)
        check_refs(x, p, specs)
    # every XML file
    x.where = ""
    made = [p for p in glob.glob(x.out + "/**/*", recursive=True) if os.path.isfile(p)]
    for f in made:
        if re.search(r"\.(vcproj|vcxproj|filters|props|targets|xml|rules|user)$", f):
            try:
                xml.dom.minidom.parse(f)
            except Exception as e:
                fail("%s is not well-formed: %s" % (os.path.relpath(f, tree), e))
    # solutions
    loaded = {q.split(":")[0] for q in targets} | set(give)
    slns = {os.path.relpath(f, x.out) for f in made if f.endswith(".sln")}
    want = {f[:-4] + case["suffix"] + ".sln" for f in loaded}
    if not want <= slns:
        fail("solutions %s are missing" % sorted(want - slns))
    for f in sorted(loaded):
        sp = os.path.join(x.out, f[:-4] + case["suffix"] + ".sln")
        x.where = "%s: " % os.path.relpath(sp, tree)
        solution(x, sp, f, specs)
    special = any(re.search(r"[&<>\"'%;$#@*? é]", s) for t in case["t"]
                  for s in t["defines"] + t["src"] + t["include_dirs"] + [t["name"]])
    return {"nontrivial": len(specs) >= 2 and any(p["deps"] for p in specs.values()) and len(CONFIGS[case["cfg"]]) > 1
            and any(t["cdef"][0] != t["cdef"][1] for t in case["t"]) and special,
            "labels": ["version:" + case["ver"]] + (["generator-output"] if case["genout"] else [])
            + (["actions"] if any(t.get("acts") for t in case["t"]) else [])
            + (["rules"] if any(t.get("rule") for t in case["t"]) else [])
            + (["shards"] if len(specs) > len(targets) else [])}


def real(x, p, path):
    """What a path of the .gyp file names."""
    if path.startswith("$"):
        return path.replace("\\", "/").rstrip("/")
    return posixpath.normpath(posixpath.join(x.tree, posixpath.dirname(p["file"]), path.replace("\\", "/")))


def got(p, path):
    """What a path of the project file names."""
    if path.startswith("$"):
        return path.replace("\\", "/").rstrip("/")
    return posixpath.normpath(posixpath.join(posixpath.dirname(p["path"]), path.replace("\\", "/")))


def elem(x, p, path, custom, rule_ext):
    if path in custom:
        return "CustomBuild"
    e = posixpath.splitext(path)[1].lower()
    if e == rule_ext:
        return "rule"
    return {".cc": "ClCompile", ".cpp": "ClCompile", ".c": "ClCompile", ".cxx": "ClCompile", ".h": "ClInclude", ".hxx": "ClInclude",
            ".rc": "ResourceCompile", ".asm": "MASM", ".idl": "Midl"}.get(e, "None")


def plan(x, p):
    """sources of the project -> kind of item, and the custom steps"""
    R = lambda s: real(x, p, s)
    gyp = R(posixpath.basename(p["file"]))
    src = {R(s) for s in p.get("sources", [])}
    excluded = {R(s) for s in p.get("sources_excluded", [])}
    steps = {}
    for a in p.get("actions", []):
        ins = [R(i) for i in a["inputs"]]
        src |= set(ins)
        excluded |= set(ins)
        if int(a.get("process_outputs_as_sources", 0)):
            src |= {R(o) for o in a["outputs"]}
        first = ins[0] if ins else gyp
        s = steps.setdefault(first, {"in": set(), "out": set(), "cmds": [], "msg": []})
        s["in"] |= set(ins or [gyp])
        s["out"] |= {R(o) for o in a["outputs"]}
        s["cmds"].append(["call", a["action"][0]] + a["action"][1:])
        s["msg"].append(a["message"])
    for c in p.get("copies", []):
        for f in c["files"]:
            src.add(R(f))
            s = steps.setdefault(R(f), {"in": set(), "out": set(), "cmds": [], "msg": []})
            s["in"].add(R(f))
            s["out"].add(R(posixpath.join(c["destination"], posixpath.basename(f))))
            if f.endswith("/"):
                s["out"].add(R("dummy_copies"))
            s["cmds"].append(None)
            s["msg"].append(None)
    rule_ext = None
    for r in p.get("rules", []):
        rule_ext = ".foo"
        for s in r.get("rule_sources", []):
            excluded.discard(R(s))
            if int(r.get("process_outputs_as_sources", 0)):
                root = posixpath.splitext(posixpath.basename(s))[0]
                src.add(R(root + ".gen.cc"))
                src |= {R(i) for i in r.get("inputs", [])}
                if not x.vcx:
                    excluded |= {R(i) for i in r.get("inputs", [])}
    src |= excluded | {gyp}
    return gyp, src, excluded, steps, rule_ext


def names(p):
    return [full(c) for c in p["configurations"]]


def cond(fail, el, cfg):
    c = el.get("Condition")
    if c is None:
        return True
    m = re.match(r"'\$\(Configuration\)\|\$\(Platform\)'=='(.*)'$", c)
    if not m:
        fail("an odd condition %s" % c)
    return m.group(1) == cfg


def vcxproj(x, p, specs):
    fail = x.fail
    try:
        top = ET.parse(p["path"]).getroot()
    except ET.ParseError as e:
        fail("not well-formed: %s" % e)
    tag = lambda e: e.tag.replace(NS, "")
    if tag(top) != "Project":
        fail("the document is a %s" % top.tag)
    cfgs = [e.get("Include") for g in top.findall(NS + "ItemGroup") if g.get("Label") == "ProjectConfigurations" for e in g]
    if sorted(cfgs) != sorted(names(p)):
        fail("the configurations are %s instead of %s" % (cfgs, names(p)))
    for g in top.findall(NS + "ItemGroup"):
        if g.get("Label") == "ProjectConfigurations":
            for e in g:
                if "%s|%s" % (e.find(NS + "Configuration").text, e.find(NS + "Platform").text) != e.get("Include"):
                    fail("configuration %s does not match its parts" % e.get("Include"))
    # every condition names a configuration of the project
    for e in top.iter():
        c = e.get("Condition")
        if c and "$(Configuration)|" in c and not any(cond(fail, e, n) for n in cfgs):
            fail("the condition %s holds for no configuration" % c)
    x.imports = [e.get("Project") for e in top.iter(NS + "Import")]
    gyp, src, excluded, steps, rule_ext = plan(x, p)
    pch = {full(c): real(x, p, d["msvs_precompiled_source"]) for c, d in p["configurations"].items() if "msvs_precompiled_source" in d}
    for c, d in p["configurations"].items():
        n = full(c)

        def prop(name, group=None):
            v = None
            for g in top.findall(NS + "PropertyGroup"):
                if cond(fail, g, n):
                    for e in g:
                        if tag(e) == name and cond(fail, e, n):
                            v = e.text or ""
            return v
        kind = {"executable": "Application", "shared_library": "DynamicLibrary", "loadable_module": "DynamicLibrary",
                "static_library": "StaticLibrary", "none": "Utility"}[p["type"]]
        if prop("ConfigurationType") != kind:
            fail("configuration %s is a %s, not a %s" % (n, prop("ConfigurationType"), kind))
        tools = {}
        for g in top.findall(NS + "ItemDefinitionGroup"):
            if cond(fail, g, n):
                for t in g:
                    for s in t:
                        tools.setdefault(tag(t), {})[tag(s)] = s.text or ""
        defs = d.get("defines", [])
        mine = d.get("msbuild_settings", d.get("msvs_settings", {}))
        given = mine.get("ClCompile", mine.get("VCCLCompilerTool", {})).get("PreprocessorDefinitions", [])
        for tool in ("ClCompile", "ResourceCompile"):
            text = tools.get(tool, {}).get("PreprocessorDefinitions")
            items = [i for i in (text or "").split(";") if i and i != "%(PreprocessorDefinitions)"]
            back = [decode_msbuild(i) for i in items]
            if back != (given if tool == "ClCompile" else []) + defs:
                fail("%s %s: the defines %s are written as %r, which means %s" % (n, tool, defs, text, back))
        for tool, want in zip(("ClCompile", "Midl", "ResourceCompile"), searched(d)):
            inc = [got(p, i) for i in tools.get(tool, {}).get("AdditionalIncludeDirectories", "").split(";")
                   if i and not i.startswith("%(")]
            if inc != uniq_real(x, p, want):
                fail("%s: the include directories %s of %s became %s" % (n, want, tool, inc))
        for tool, k in (("PreBuildEvent", "msvs_prebuild"), ("PostBuildEvent", "msvs_postbuild")):
            if tools.get(tool, {}).get("Command") != d.get(k):
                fail("%s: the command of %s %r became %r" % (n, tool, d.get(k), tools.get(tool)))
        dirs = lambda v: v and re.sub(r"(\$\((Int|Out)Dir\))[\\/]+", r"\1", v)
        if dirs(tools["ClCompile"].get("ProgramDataBaseFileName")) != dirs(mine.get(
                "ClCompile", mine.get("VCCLCompilerTool", {})).get("ProgramDataBaseFileName")):
            fail("%s: the program database %s became %s" % (n, mine, tools["ClCompile"].get("ProgramDataBaseFileName")))
        if (prop("IgnoreImportLibrary") == "true") != (p["type"] == "loadable_module"):
            fail("%s: the import library of a %s: IgnoreImportLibrary is %r" % (n, p["type"], prop("IgnoreImportLibrary")))
        libs = [i for i in tools.get("Link", {}).get("AdditionalDependencies", "").split(";") if i]
        if [l.replace("\\", "/") for l in libs] != libraries(p):
            fail("%s: the libraries %s became %s" % (n, p.get("libraries", []), libs))
        ld = [got(p, i) for i in tools.get("Link", {}).get("AdditionalLibraryDirectories", "").split(";") if i and not i.startswith("%(")]
        if ld != uniq_real(x, p, d.get("library_dirs", [])):
            fail("%s: the library directories %s became %s" % (n, d.get("library_dirs", []), ld))
        warn = [i for i in tools.get("ClCompile", {}).get("DisableSpecificWarnings", "").split(";") if i and not i.startswith("%(")]
        if warn != [str(w) for w in d.get("msvs_disabled_warnings", [])]:
            fail("%s: the disabled warnings became %s" % (n, warn))
        if given and tools["ClCompile"].get("WarningLevel") != "Level3":
            fail("%s: the warning level is %s" % (n, tools["ClCompile"].get("WarningLevel")))
        if p["type"] != "none":
            tool = "Lib" if p["type"] == "static_library" else "Link"
            o = tools.get(tool, {}).get("OutputFile")
            pd = p.get("product_dir", "$(OutDir)lib\\" if p["type"] == "static_library" else "$(OutDir)")
            e = "." + p["product_extension"] if "product_extension" in p else "$(TargetExt)"
            w = ntpath.join(pd, p.get("product_prefix", "") + p.get("product_name", "$(ProjectName)") + e)
            k = mine.get(tool, mine.get("VCLibrarianTool" if tool == "Lib" else "VCLinkerTool", {}))
            w = k.get("OutputFile", w)
            slash = lambda v: v and v.replace("/", "\\").replace("$(OutDir)\\", "$(OutDir)")
            if slash(o) != slash(w):
                fail("%s: the output file is %r instead of %r" % (n, o, w))
            if "product_extension" in p and prop("TargetExt") != "." + p["product_extension"]:
                fail("%s: the target extension is %r" % (n, prop("TargetExt")))
            if prop("TargetName") != p.get("product_prefix", "") + p.get("product_name", "$(ProjectName)"):
                fail("%s: the target name is %r" % (n, prop("TargetName")))
            defines_exports = [s for s in p.get("sources", []) if s.endswith(".def")]
            if defines_exports and tool == "Link" and got(p, tools["Link"].get("ModuleDefinitionFile", "none")) != real(x, p, defines_exports[0]):
                fail("%s: the module definition file is %r" % (n, tools["Link"].get("ModuleDefinitionFile")))
        at = d.get("msbuild_configuration_attributes", d.get("msvs_configuration_attributes", {}))
        if "OutputDirectory" in at:
            w = real(x, p, at["OutputDirectory"])
            if got(p, prop("OutDir")) != w or not prop("OutDir").endswith("\\"):
                fail("%s: the output directory %s became %r" % (n, at["OutputDirectory"], prop("OutDir")))
        if "CharacterSet" in at and prop("CharacterSet") != "Unicode":
            fail("%s: the character set is %r" % (n, prop("CharacterSet")))
        ch = tools["ClCompile"].get("PrecompiledHeader")
        if ch != ("Use" if n in pch else "NotUsing"):
            fail("%s: precompiled headers: %r" % (n, ch))
    # items
    items = {}
    rule_names = set()
    x.rulename = None
    for g in top.findall(NS + "ItemGroup"):
        for e in g:
            t = tag(e)
            if t in ("ProjectConfiguration", "ProjectReference"):
                continue
            f = got(p, e.get("Include"))
            if f in items:
                fail("%s is listed twice" % f)
            items[f] = (t, e)
    if set(items) != src:
        fail("the files listed differ: missing %s, extra %s" % (sorted(src - set(items)), sorted(set(items) - src)))
    for f, (t, e) in items.items():
        want = elem(x, p, f, steps, rule_ext)
        deps = {real(x, p, i) for r in p.get("rules", []) for i in r.get("inputs", [])} if rule_ext else set()
        if want == "rule":
            rule_names.add(t)
            if t in ("None", "ClCompile", "CustomBuild"):
                fail("%s, which a rule handles, is listed as %s" % (f, t))
        elif t != want and not (want == "None" and t == "CustomBuild" and f in deps):
            fail("%s is listed as %s instead of %s" % (f, t, want))
        if t == "CustomBuild" and f in steps:
            s = steps[f]
            outs = {got(p, o) for o in e.find(NS + "Outputs").text.split(";")}
            if outs != s["out"]:
                fail("the step on %s produces %s instead of %s" % (f, sorted(outs), sorted(s["out"])))
            ai = e.find(NS + "AdditionalInputs")
            ins = {got(p, o) for o in ai.text.split(";")} if ai is not None and ai.text else set()
            if ins | {f} != s["in"] | {f}:
                fail("the step on %s reads %s instead of %s" % (f, sorted(ins), sorted(s["in"])))
            lines = [l for l in re.split(r"\s*\n\s*", e.find(NS + "Command").text.strip()) if l]
            cmds = [l for l in lines if not l.startswith("if %errorlevel%")]
            check_cmds(x, p, f, s, [c[5:] if c.startswith("call ") else fail("no call in %r" % c) for c in cmds])
            if len(lines) != 2 * len(cmds):
                fail("a failing command of the step on %s would go unnoticed: %r" % (f, lines))
        elif f not in steps:
            ex = e.findall(NS + "ExcludedFromBuild")
            for c in p["configurations"]:
                n = full(c)
                on = any(cond(fail, i, n) and i.text == "true" for i in ex)
                w = f in excluded and not (pch.get(n) == f)
                if on != w:
                    fail("%s is %sexcluded from %s" % (f, "" if on else "not ", n))
        for c in p["configurations"]:
            n = full(c)
            create = any(tag(i) == "PrecompiledHeader" and cond(fail, i, n) and i.text == "Create" for i in e)
            if create != (pch.get(n) == f) and f not in steps:
                fail("%s %s the precompiled header of %s" % (f, "creates" if create else "does not create", n))
    if len(rule_names) > 1:
        fail("several kinds of item for one rule: %s" % sorted(rule_names))
    if rule_ext:
        check_rule(x, p, rule_names)
    check_filters(x, p, items)
    g = [e.text for e in top.iter(NS + "ProjectGuid")]
    if len(g) != 1:
        fail("%d identifiers" % len(g))
    p["refs"] = [(got(p, e.get("Include")), e.find(NS + "Project").text) for e in top.iter(NS + "ProjectReference")]
    return g[0]


def decode_msbuild(s):
    return c21.batch(c21.unescape_msbuild(s.replace("\\043", "#"))).replace('\\"', '"') if True else s


def uniq_real(x, p, dirs):
    return [real(x, p, d) for d in dirs]


def searched(d):
    """What the compiler, the interface compiler and the resource compiler search."""
    system = d.get("msvs_system_include_dirs", [])
    inc = d.get("include_dirs", []) + system
    return inc, d.get("midl_include_dirs", []) + system, d.get("resource_include_dirs", inc)


def libraries(p):
    out = []
    for l in reversed(p.get("libraries", [])):
        l = l[2:] if l.startswith("-l") else l
        if not posixpath.splitext(l)[1]:
            l += ".lib"
        if l not in out:
            out.append(l)
    return out[::-1]


def check_cmds(x, p, f, s, lines):
    fail = x.fail
    if len(lines) != len(s["cmds"]):
        fail("the step on %s has the commands %r instead of %d" % (f, lines, len(s["cmds"])))
    for l, c in zip(lines, s["cmds"]):
        if c is None:
            if "copy " not in l:
                fail("a copy became %r" % l)
            continue
        def fix(a):
            if a[:1] in "/-" or "=" in a or a.startswith("$"):
                return [a]
            # a bare word may name a file: it is then given relative to the project
            return [a, real(x, p, a)]
        have = c21.split_argv(l)
        have = [h.replace("%(IntDir)", "$(IntDir)") for h in have]
        if len(have) != len(c):
            fail("the command %s became %r" % (c, l))
        for h, w in zip(have[2:], c[2:]):
            if h not in fix(w) and got(p, h) not in fix(w):
                fail("the argument %r of %s became %r" % (w, c, h))
        if have[:2] != c[:2]:
            fail("the command %s became %r" % (c, l))


def check_rule(x, p, rule_names):
    fail = x.fail
    base = p["name"] + x.case["suffix"]
    d = posixpath.dirname(p["path"])
    for e in (".props", ".targets", ".xml"):
        if not os.path.exists(posixpath.join(d, base + e)):
            fail("no %s file for the rule" % e)
    for e in (".props", ".targets"):
        if x.imports.count(base + e) != 1:
            fail("%s is not imported exactly once" % (base + e))
    try:
        props = ET.parse(posixpath.join(d, base + ".props")).getroot()
        tg = ET.parse(posixpath.join(d, base + ".targets")).getroot()
        ru = ET.parse(posixpath.join(d, base + ".xml")).getroot()
    except ET.ParseError as e:
        fail("a rule file is not well-formed: %s" % e)
    if not rule_names:
        return
    name = next(iter(rule_names))
    item = [e for g in props.findall(NS + "ItemDefinitionGroup") for e in g.findall(name)]
    item = [e for g in props.findall(NS + "ItemDefinitionGroup") for e in g if e.tag.replace(NS, "") == name]
    if len(item) != 1:
        fail("items are of kind %s, which the rule's properties do not define" % name)
    deps = [got(p, i) for i in (item[0].find(NS + "AdditionalDependencies").text or "").split(";") if i]
    want = [real(x, p, i) for r in p["rules"] for i in r.get("inputs", [])]
    if deps != want:
        fail("the rule depends on %s instead of %s" % (deps, want))
    if name not in [e.get("Include") for e in tg.iter(NS + "AvailableItemName")]:
        fail("the item kind %s is not available" % name)
    it = [e.get("ItemType") for e in ru.iter() if e.get("ItemType")]
    if name not in it:
        fail("the item type %s is not described: %s" % (name, it))


def check_filters(x, p, items):
    fail = x.fail
    ff = p["path"] + ".filters"
    if not os.path.exists(ff):
        deep = [e.get("Include") for t, e in items.values() if "\\" in e.get("Include")]
        return
    top = ET.parse(ff).getroot()
    declared, used, listed = set(), set(), set()
    ids = {}
    for g in top.findall(NS + "ItemGroup"):
        for e in g:
            if e.tag == NS + "Filter":
                declared.add(e.get("Include"))
                ids.setdefault(e.get("Include"), set()).add(e.find(NS + "UniqueIdentifier").text)
            else:
                f = got(p, e.get("Include"))
                if f in listed:
                    fail("%s is twice in the filters file" % f)
                listed.add(f)
                x_ = e.find(NS + "Filter")
                if x_ is not None:
                    used.add(x_.text)
    if not used <= declared:
        fail("undeclared filters %s" % sorted(used - declared))
    for d in declared:
        while "\\" in d:
            d = d.rsplit("\\", 1)[0]
            if d not in declared:
                fail("the filter above %s is not declared" % d)
    if any(len(v) != 1 for v in ids.values()):
        fail("a filter has two identifiers")
    if listed != set(items):
        fail("the filters file lists other files: missing %s, extra %s" % (sorted(set(items) - listed), sorted(listed - set(items))))


def vcproj(x, p, specs):
    fail = x.fail
    try:
        top = ET.parse(p["path"]).getroot()
    except ET.ParseError as e:
        fail("not well-formed: %s" % e)
    if top.get("Name") != p["name"]:
        fail("the name is %r" % top.get("Name"))
    gyp, src, excluded, steps, rule_ext = plan(x, p)
    cfgs = {}
    for e in top.find("Configurations"):
        if e.get("Name") in cfgs:
            fail("configuration %s appears twice" % e.get("Name"))
        cfgs[e.get("Name")] = e
    if set(cfgs) != set(names(p)):
        fail("the configurations are %s instead of %s" % (sorted(cfgs), sorted(names(p))))
    plats = [e.get("Name") for e in top.find("Platforms")]
    if sorted(plats) != sorted({platform(c) for c in p["configurations"]}):
        fail("the platforms are %s" % plats)
    pch = {full(c): real(x, p, d["msvs_precompiled_source"]) for c, d in p["configurations"].items() if "msvs_precompiled_source" in d}
    for c, d in p["configurations"].items():
        e = cfgs[full(c)]
        n = full(c)
        kind = {"executable": "1", "shared_library": "2", "loadable_module": "2", "static_library": "4", "none": "10"}[p["type"]]
        if e.get("ConfigurationType") != kind:
            fail("configuration %s is of type %s, not %s" % (n, e.get("ConfigurationType"), kind))
        tools = {}
        for t in e.findall("Tool"):
            if t.get("Name") in tools:
                fail("two settings of %s" % t.get("Name"))
            tools[t.get("Name")] = t.attrib
        defs = d.get("defines", [])
        mine = d.get("msvs_settings", {})
        given = mine.get("VCCLCompilerTool", {}).get("PreprocessorDefinitions", [])
        if not any(v.count('"') % 2 for v in defs):
            for tool in ("VCCLCompilerTool", "VCResourceCompilerTool"):
                text = tools.get(tool, {}).get("PreprocessorDefinitions", "")
                items = c21.split_list(text) if text else []
                back = [c21.batch(c21.split_argv(i)[0]).replace("\\043", "#") for i in items]
                if back != (given if tool == "VCCLCompilerTool" else []) + defs:
                    fail("%s: the defines %s are written as %r, which means %s" % (n, defs, text, back))
        cl, li = tools.get("VCCLCompilerTool", {}), tools.get("VCLinkerTool", {})
        for tool, want in zip(("VCCLCompilerTool", "VCMIDLTool", "VCResourceCompilerTool"), searched(d)):
            inc = [got(p, i) for i in tools.get(tool, {}).get("AdditionalIncludeDirectories", "").split(";") if i]
            if inc != uniq_real(x, p, want):
                fail("%s: the include directories %s of %s became %s" % (n, want, tool, inc))
        for tool, k in (("VCPreBuildEventTool", "msvs_prebuild"), ("VCPostBuildEventTool", "msvs_postbuild")):
            if tools.get(tool, {}).get("CommandLine") != d.get(k):
                fail("%s: the command of %s %r became %r" % (n, tool, d.get(k), tools.get(tool)))
        if cl.get("ProgramDataBaseFileName") != mine.get("VCCLCompilerTool", {}).get(
                "ProgramDataBaseFileName", "$(IntDir)$(ProjectName)\\vc80.pdb"):
            fail("%s: the program database %s became %s" % (n, mine, cl.get("ProgramDataBaseFileName")))
        if (li.get("IgnoreImportLibrary") == "true") != (p["type"] == "loadable_module"):
            fail("%s: the import library of a %s: IgnoreImportLibrary is %r" % (n, p["type"], li.get("IgnoreImportLibrary")))
        exports = [s for s in p.get("sources", []) if s.endswith(".def")]
        if exports and p["type"] not in ("none", "static_library") and got(p, li.get("ModuleDefinitionFile", "none")) != real(x, p, exports[0]):
            fail("%s: the module definition file is %r" % (n, li.get("ModuleDefinitionFile")))
        if (li.get("AdditionalDependencies") or "").replace("\\", "/") != " ".join(["$(NOINHERIT)"] + libraries(p)):
            fail("%s: the libraries %s became %s" % (n, p.get("libraries", []), li.get("AdditionalDependencies")))
        ld = [got(p, i) for i in li.get("AdditionalLibraryDirectories", "").split(";") if i]
        if ld != uniq_real(x, p, d.get("library_dirs", [])):
            fail("%s: the library directories %s became %s" % (n, d.get("library_dirs", []), ld))
        if [i for i in cl.get("DisableSpecificWarnings", "").split(";") if i] != [str(w) for w in d.get("msvs_disabled_warnings", [])]:
            fail("%s: the disabled warnings became %r" % (n, cl.get("DisableSpecificWarnings")))
        if given and cl.get("WarningLevel") != "3":
            fail("%s: the warning level is %r" % (n, cl.get("WarningLevel")))
        if p["type"] != "none":
            o = tools.get("VCLibrarianTool" if p["type"] == "static_library" else "VCLinkerTool", {}).get("OutputFile")
            pd = p.get("product_dir", "$(OutDir)lib\\" if p["type"] == "static_library" else "$(OutDir)")
            ex = "." + p["product_extension"] if "product_extension" in p else {
                "executable": ".exe", "static_library": ".lib"}.get(p["type"], ".dll")
            w = ntpath.join(pd, p.get("product_prefix", "") + p.get("product_name", "$(ProjectName)") + ex)
            w = mine.get("VCLibrarianTool" if p["type"] == "static_library" else "VCLinkerTool", {}).get("OutputFile", w)
            if o.replace("/", "\\") != w.replace("/", "\\"):
                fail("%s: the output file is %r instead of %r" % (n, o, w))
        at = d.get("msvs_configuration_attributes", {})
        if "OutputDirectory" in at and got(p, e.get("OutputDirectory")) != real(x, p, at["OutputDirectory"]):
            fail("%s: the output directory %s became %r" % (n, at["OutputDirectory"], e.get("OutputDirectory")))
    items = {}
    for e in top.find("Files").iter("File"):
        f = got(p, e.get("RelativePath"))
        if f in items:
            fail("%s is listed twice" % f)
        items[f] = e
    if set(items) != src:
        fail("the files listed differ: missing %s, extra %s" % (sorted(src - set(items)), sorted(set(items) - src)))
    for f, e in items.items():
        for c in p["configurations"]:
            n = full(c)
            fc = [i for i in e.findall("FileConfiguration") if i.get("Name") == n]
            on = any(i.get("ExcludedFromBuild") == "true" for i in fc)
            w = f in excluded and f not in steps and pch.get(n) != f
            if on != w:
                fail("%s is %sexcluded from %s" % (f, "" if on else "not ", n))
            tools = [t for i in fc for t in i.findall("Tool") if t.get("Name") == "VCCustomBuildTool"]
            if len(tools) != (1 if f in steps else 0):
                fail("%s has %d custom steps in %s" % (f, len(tools), n))
            if f in steps:
                s, t = steps[f], tools[0]
                outs = {got(p, o) for o in t.get("Outputs").split(";")}
                if outs != s["out"]:
                    fail("the step on %s produces %s instead of %s" % (f, sorted(outs), sorted(s["out"])))
                ins = {got(p, o) for o in t.get("AdditionalDependencies").split(";")}
                if ins != s["in"]:
                    fail("the step on %s reads %s instead of %s" % (f, sorted(ins), sorted(s["in"])))
                check_cmds(x, p, f, s, [l for l in re.split(r"\s*\n\s*", t.get("CommandLine")) if l])
            cr = [t for i in fc for t in i.findall("Tool") if t.get("Name") == "VCCLCompilerTool" and t.get("UsePrecompiledHeader") == "1"]
            if len(cr) != (1 if pch.get(n) == f else 0):
                fail("%s does not create the precompiled header of %s" % (f, n))
    for u in {e.get("Name") for e in top.iter("Filter")}:
        if not u:
            fail("a filter without name")
    p["refs"] = None
    return top.get("ProjectGUID")


def check_refs(x, p, specs):
    if p["refs"] is None:
        return
    want = sorted((specs[d]["path"], specs[d]["guid"]) for d in p["deps"])
    if sorted(p["refs"]) != want:
        x.fail("the project references are %s instead of %s" % (p["refs"], want))


def solution(x, sp, f, specs):
    fail = x.fail
    with open(sp, encoding="utf-8", newline="") as h:
        projects, sections = parse_sln(h.read(), fail)
    folders = [q for q in projects if q["type"] == "{2150E333-8FDC-42A3-9474-1A3956D46DE8}"]
    real_ = [q for q in projects if q not in folders]
    if any(q["type"] != "{8BC9CEB8-8B4A-11D0-8D11-00A0C91BC942}" for q in real_):
        fail("an unknown type of project")
    need, todo = set(), [k for k, p in specs.items() if p["file"] == f]
    while todo:
        k = todo.pop()
        if k not in need:
            need.add(k)
            todo += specs[k]["deps"]
    # dependencies that were turned into link-time ones are reached through dependencies_original
    for k in list(need):
        pass
    byp = {os.path.normpath(specs[k]["path"]): k for k in specs}
    seen = []
    for q in real_:
        k = byp.get(os.path.normpath(os.path.join(os.path.dirname(sp), q["path"].replace("\\", "/"))))
        if k is None:
            fail("the solution lists %s, which is no project" % q["path"])
        if k in seen:
            fail("the solution lists %s twice" % q["path"])
        seen.append(k)
        if q["guid"] != specs[k]["guid"]:
            fail("%s is listed as %s but is %s" % (q["path"], q["guid"], specs[k]["guid"]))
        if q["name"] != specs[k]["name"]:
            fail("%s is named %s" % (q["path"], q["name"]))
        want = sorted(specs[d]["guid"] for d in specs[k]["deps"])
        if sorted(a for a, b in q["deps"]) != want or any(a != b for a, b in q["deps"]):
            fail("%s depends on %s instead of %s" % (q["path"], q["deps"], want))
    orig = set(need)
    todo = list(need)
    while todo:
        k = todo.pop()
        for d in specs[k].get("dependencies_original", []):
            for kk in specs:
                if kk[0] == d and kk not in orig:
                    orig.add(kk)
                    todo.append(kk)
        for kk in specs[k]["deps"]:
            if kk not in orig:
                orig.add(kk)
                todo.append(kk)
    if not need <= set(seen) or not set(seen) <= orig:
        fail("the solution lists %s instead of %s" % (sorted(seen), sorted(need)))
    ids = [q["guid"] for q in projects]
    if len(set(ids)) != len(ids):
        fail("an identifier is used twice")
    for a, b in sections.get("NestedProjects", []):
        if a not in ids or b not in [q["guid"] for q in folders]:
            fail("a nesting of unknown entries %s = %s" % (a, b))
    kids = [a for a, b in sections.get("NestedProjects", [])]
    if len(set(kids)) != len(kids):
        fail("an entry is in two folders")
    variants = [a for a, b in sections["SolutionConfigurationPlatforms"]]
    allnames = set()
    for k in specs:
        allnames |= set(names(specs[k]))
    if sorted(variants) != sorted(allnames) or any(a != b for a, b in sections["SolutionConfigurationPlatforms"]):
        fail("the solution's configurations are %s" % variants)
    want = {}
    for k in seen:
        for v in variants:
            for s in ("ActiveCfg", "Build.0"):
                want["%s.%s.%s" % (specs[k]["guid"], v, s)] = v
    have = sections["ProjectConfigurationPlatforms"]
    if dict(have) != want or len(have) != len(want):
        fail("the configurations of the projects are %s" % have[:6])


CAMPAIGNS = [Campaign("projects", cases, check, quick=900)]
ASSUMPTIONS = ["no Visual Studio here: the files are read by XML parsers and models of the documented formats",
               "the targets a project file is compared with are those a custom output format receives from the same run of gyp"]


def setup():
    gyprun.load()
    c21.setup()
