"""C11: projects with one injected rule violation must fail with a message that locates it and leave no trace."""
import copy
import json
import os

from hypothesis import strategies as st

from vh import gypgen as G, gyprun
from vh.core import Campaign, Violation, fresh_dir

ID = "C11"
LEVEL = "exploration"
RULE = ("a case is non-trivial when the valid project was accepted and generated files, and one rule violation was "
        "then injected; labels count the violations by kind and format")
FORMATS = ["make", "ninja", "cmake", "compile_commands_json", "gypd", "eclipse", "dump_dependency_json"]
KINDS = ["syntax", "truncated", "dupkey", "missing-include", "missing-dep-file", "not-a-dict", "undef-var",
         "undef-late-var", "cond-shape", "cond-name", "cond-syntax", "exclusion-shape", "regex-shape", "type", "no-type",
         "standalone", "rule-name", "rule-ext", "rule-sources", "action-name", "action-inputs", "action-empty", "run-as",
         "missing-target", "dup-target", "collision", "cycle", "file-cycle", "command", "conf-key", "type-mismatch",
         "contradiction", "included-files", "no-targets", "missing-root", "root-target", "no-concrete", "parent-conf",
         "export", "wildcard-same", "no-target-name", "bad-format", "dup-root", "check-int", "command-signal", "cond-type",
         "link-none"]


@st.composite
def cases(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "formats": draw(st.lists(st.sampled_from(FORMATS), min_size=1,
                                                                          max_size=2, unique=True)),
            "where": draw(st.integers(0, 2)), "v": draw(st.integers(0, 7)), "pos": draw(st.integers(0, 1000)),
            "prior": draw(st.booleans()), "parallel": draw(st.integers(0, 9)) == 4,
            "seed": draw(st.integers(0, 7)), "late": draw(st.booleans()), "nest": draw(st.integers(0, 3))}


def base(case):
    s = case["seed"]
    return {
        "main.gyp": {
            "includes": ["common.gypi"],
            "variables": {"vv": "x%d" % s, "vl": ["a", "b"]},
            "target_defaults": {"defines": ["D=<(vv)"]},
            "targets": [
                {"target_name": "app", "type": "executable", "sources": ["a.c", "x.in"],
                 "dependencies": ["sub/lib.gyp:lib", "util"],
                 "actions": [{"action_name": "gen", "inputs": ["i.txt"], "outputs": ["o.c"], "action": ["cp", "i.txt", "o.c"],
                              "process_outputs_as_sources": "1"}],
                 "rules": [{"rule_name": "r1", "extension": "in", "outputs": ["<(RULE_INPUT_ROOT).c"],
                            "action": ["cp", "<(RULE_INPUT_PATH)", "<@(_outputs)"]}],
                 "conditions": [["OS=='linux'", {"defines": ["L"]}]]},
                {"target_name": "util", "type": "static_library" if s % 2 else "none", "sources": ["u.c"]},
            ]},
        "common.gypi": {"target_defaults": {"cflags": ["-O%d" % (s % 3)],
                                            "configurations": {"Debug": {"cflags": ["-g"]}, "Release": {}}}, "variables": {"cv": "c"}},
        "sub/lib.gyp": {"includes": ["../common.gypi"], "targets": [{"target_name": "lib", "type": "static_library", "sources": ["l.c"],
                                     "target_conditions": [["_type=='static_library'", {"defines": ["S"]}]],
                                     "direct_dependent_settings": {"include_dirs": ["inc"]}}]},
    }


def nest(case, d):
    """The settings d, possibly inside conditions that hold."""
    n = case["nest"]
    if n == 1:
        return {"conditions": [["OS=='linux'", d]]}
    if n == 2:
        return {"conditions": [["OS!='linux'", {}, d]]}
    if n == 3:
        return {"conditions": [["1==1", {"conditions": [["OS=='linux'", d]]}]]}
    return d


def merge_simple(t, d):
    for k, v in d.items():
        if isinstance(v, list):
            t.setdefault(k, [])
            t[k] = t[k] + v
        else:
            t[k] = v


def inject(case):
    """-> (files, texts override, args, roots, tokens of which one must appear in the message)"""
    f = base(case)
    raw, args, roots, toks = {}, [], ["main.gyp"], None
    v, k = case["v"], case["kind"]
    where = ["main.gyp", "sub/lib.gyp", "common.gypi"][case["where"]]
    gypf = ["main.gyp", "sub/lib.gyp", "main.gyp"][case["where"]]
    ti = case["where"] // 2 if gypf == "main.gyp" else 0
    t = f[gypf]["targets"][ti]
    name = t["target_name"]

    def add(d, raw_key=False):
        merge_simple(t, nest(case, d))
    if k == "syntax":
        bad = ["{", "'x' 'y", "= 3", ")", "def", "{'a': }", "[1,,2]", "lambda"][v]
        s = repr(f[where])
        raw[where] = [s + bad, bad + s, "# c\n" + s + "\n" + bad][case["pos"] % 3]
        toks = [os.path.basename(where)]
    elif k == "truncated":
        s = repr(f[where])
        raw[where] = s[:case["pos"] * (len(s) - 1) // 1000]
        toks = [os.path.basename(where)]
    elif k == "dupkey":
        s = repr(f[where])
        places = [i for i in range(len(s)) if s[i] == "{" and s[i + 1:i + 2] == "'"]
        i = places[case["pos"] % len(places)]
        key = s[i + 2:s.index("'", i + 2)]
        raw[where] = (s[:i + 1] + "'%s': 'dup', " % key + s[i + 1:])
        args = ["--check"]
        toks = [key]
        if where == "sub/lib.gyp":
            pass
    elif k == "check-int":
        raw[where] = repr(dict(f[where], zz=[3]))
        args = ["--check"]
        toks = ["zz"]
    elif k == "missing-include":
        if where == "common.gypi" or v % 2 or where == "sub/lib.gyp":
            f[where]["includes"] = ["../nope%d.gypi" % v]
        else:
            t["includes"] = ["nope%d.gypi" % v]
        toks = ["nope%d.gypi" % v]
    elif k == "missing-dep-file":
        t["dependencies"] = ["nodir/nope%d.gyp:x" % v]
        toks = ["nope%d.gyp" % v]
    elif k == "not-a-dict":
        raw[where] = ["[]", "'str'", "3", "None", "[{'targets': []}]", "()", "1.5", "{1, 2}"][v]
        toks = [os.path.basename(where)]
    elif k == "undef-var":
        x = ["<(nope1)", "a<(nope1)b", "<@(nope1)", "<(vv<(nope1))", "<!(echo <(nope1))", "<!@(echo <(nope1))",
             "<(nope1)", "<@(nope1)"][v]
        add({"defines": [x]} if v != 6 else {"product_name": x} if v != 7 else {"zz": {"yy": [x]}})
        toks = ["nope1"]
    elif k == "undef-late-var":
        x = [">(nope2)", "a>(nope2)b", ">@(nope2)", ">!(echo >(nope2))", "^(nope2)", "^@(nope2)", "a^(nope2)",
             ">(nope2)"][v]
        t["defines"] = t.get("defines", []) + [x]
        toks = ["nope2"]
    elif k == "cond-shape":
        c = [["OS=='linux'"], "OS=='linux'", [], ["OS=='linux'", ["x"]], ["OS=='linux'", "x"], ["OS=='linux'", {}, "x"],
             ["OS=='linux'", {}, {}, {}, "x"], ["OS=='linux'", {}, {}, "OS=='x'"]][v]
        key = "target_conditions" if case["late"] else "conditions"
        t.setdefault(key, [])
        t[key] = t[key] + [c]
        if not case["late"] and v == 1:
            toks = None
    elif k == "cond-name":
        key = "target_conditions" if case["late"] else "conditions"
        t[key] = t.get(key, []) + [["nope3==%d" % v, {"defines": ["x"]}]]
        toks = ["nope3"]
    elif k == "cond-syntax":
        key = "target_conditions" if case["late"] else "conditions"
        bad = ["OS='linux'", "OS==", "OS=='linux", "(OS=='linux'", "OS=='linux'))", "1 +", "if 1", "'a' 'b' c"][v]
        t[key] = t.get(key, []) + [[bad, {"defines": ["x"]}]]
    elif k == "cond-type":
        key = "target_conditions" if case["late"] else "conditions"
        t[key] = t.get(key, []) + [["OS < %d" % v, {"defines": ["x"]}]]
    elif k == "exclusion-shape":
        t["defines"] = t.get("defines", []) + ["k"]
        t["defines!"] = ["str", {"a": "b"}, 3, "x"][v % 4]
        toks = ["defines!", "defines"]
    elif k == "regex-shape":
        t["sources/"] = [[["excl", "x"]], [["exclude"]], [["exclude", "a", "b"]], [["Exclude", "x"]], [[]], "str",
                         [["exclude", "("]], [["include", "*"]]][v]
    elif k == "type":
        t["type"] = ["exe", "", "static", "Executable", "shared", "library", "dll", "executable "][v]
        toks = [name]
    elif k == "no-type":
        del t["type"]
        toks = [name]
    elif k == "standalone":
        t["type"] = ["executable", "shared_library", "none", "loadable_module"][v % 4]
        t["standalone_static_library"] = 1
        toks = [name]
    elif k in ("rule-name", "rule-ext", "rule-sources"):
        r = {"rule_name": "r1", "extension": ["in", ".in"][v % 2], "outputs": ["q"], "action": ["x"]}
        r2 = dict(r, rule_name="r1" if k == "rule-name" else "r2",
                  extension="in2" if k == "rule-name" else [".in", "in"][v // 2 % 2])
        if k == "rule-sources":
            r["rule_sources"] = ["x.in"]
            t["rules"] = [r]
        else:
            t["rules"] = [r, r2]
        toks = [name]
    elif k == "action-name":
        a = {"inputs": [], "outputs": ["z"], "action": ["x"]}
        if v % 2:
            a["action_name"] = ""
        t["actions"] = t.get("actions", []) + [a]
        toks = [name]
    elif k == "action-inputs":
        t["actions"] = [{"action_name": "n", "outputs": ["z"], "action": ["x"]}] + t.get("actions", [])
        toks = [name]
    elif k == "action-empty":
        t["actions"] = t.get("actions", []) + [{"action_name": "n", "inputs": [], "outputs": ["z"], "action": [""]}]
        toks = [name]
    elif k == "run-as":
        t["run_as"] = ["str", ["a"], {"working_directory": "x"}, {"action": "str"}, {"action": []},
                       {"action": ["a"], "working_directory": ["x"]}, {"action": ["a"], "environment": ["A=1"]},
                       {"action": ["a"], "environment": "A=1"}][v]
        toks = [name]
    elif k == "missing-target":
        f["main.gyp"]["targets"][ti if gypf == "main.gyp" else 0].setdefault("dependencies", []).append(
            ["nope4", "sub/lib.gyp:nope4", "main.gyp:nope4", "./sub/lib.gyp:nope4"][v % 4])
        toks = ["nope4"]
    elif k == "link-none":
        f["main.gyp"]["targets"].append({"target_name": "agg", "type": "none", "dependencies": [
            ["nope4", "sub/lib.gyp:nope4", "main.gyp:nope4", "./sub/lib.gyp:nope4"][v % 4]]})
        toks = ["nope4"]
    elif k == "dup-target":
        f[gypf]["targets"].append({"target_name": name, "type": "none"})
        toks = [name]
    elif k == "collision":
        f["other.gyp"] = {"targets": [{"target_name": "app", "type": "none"}]}
        roots = ["main.gyp", "other.gyp"] if v % 2 else ["other.gyp", "main.gyp"]
        toks = ["app"]
    elif k == "dup-root":
        f["main.gyp"]["targets"].append(dict(copy.deepcopy(t), type="none", target_name="app"))
        toks = ["app"]
    elif k == "cycle":
        if v % 3 == 0:
            t["dependencies"] = t.get("dependencies", []) + [name]
        else:
            f["main.gyp"]["targets"][1]["dependencies"] = ["app"]
        toks = [name, "app", "util"]
    elif k == "file-cycle":
        f["sub/lib.gyp"]["targets"][0]["dependencies"] = ["../main.gyp:util"]
        toks = ["sub/lib.gyp", "main.gyp"]
    elif k == "command":
        x = ["<!(false)", "<!@(false)", "<!(exit 3)", "<!(nosuchcmd%d)" % case["seed"], "<!(echo x; exit 1)", ">!(false)",
             "^!(false)", "<!(cat nofile)"][v]
        if x[0] == "<":
            add({"defines": [x]})
        else:
            t["defines"] = t.get("defines", []) + [x]
    elif k == "command-signal":
        add({"defines": ["<!(kill -%d $$)" % [9, 15, 6, 11][v % 4]]})
    elif k == "conf-key":
        key = ["actions", "all_dependent_settings", "configurations", "dependencies", "direct_dependent_settings",
               "libraries", "link_settings", "sources"][v]
        t["configurations"] = {["Debug", "Release", "Zed"][case["seed"] % 3]: {key: {} if key.endswith("ings") or key == "configurations" else []}}
        toks = [key]
    elif k == "type-mismatch":
        f["common.gypi"]["target_defaults"]["mm"] = [["a"], {"a": "b"}, "s", 3][v % 4]
        tt = f["main.gyp"]["target_defaults"]
        tt["mm"] = [{"a": "b"}, "s", ["a"], ["a"]][v % 4]
        toks = ["mm"]
    elif k == "contradiction":
        op = [("=", "?"), ("=", "+"), ("+", "?"), ("=", "")][v % 4]
        tt = {"dd" + op[0]: ["a"], "dd" + op[1]: ["b"]}
        f["x.gypi"] = {"target_defaults": tt}
        f["main.gyp"]["includes"] = ["common.gypi", "x.gypi"]
        toks = ["dd"]
    elif k == "included-files":
        f[gypf]["included_files"] = ["x"]
        toks = ["included_files"]
    elif k == "no-targets":
        f["t.gyp"] = {"target_defaults": {"defines": ["x"]}}
        roots = ["main.gyp", "t.gyp"]
        toks = ["t.gyp"]
    elif k == "missing-root":
        roots = [["nope.gyp"], ["main.gyp", "nope.gyp"], ["nope.gyp", "main.gyp"]][v % 3]
        toks = ["nope.gyp"]
    elif k == "root-target":
        args = ["-R", "nope5"] + (["-R", "app"] if v % 2 else [])
        toks = ["nope5"]
    elif k == "no-concrete":
        t["configurations"] = {"Debug": {"abstract": 1}, "Release": {"abstract": 1}}
    elif k == "parent-conf":
        t["configurations"] = {"Debug": {"inherit_from": ["NopeConf"]}}
        toks = ["NopeConf"]
    elif k == "export":
        t["export_dependent_settings"] = ["util" if name != "util" else "app"] if gypf == "main.gyp" and v % 2 else ["zzz"]
        if t.get("dependencies") and "util" in t["dependencies"]:
            t["export_dependent_settings"] = ["zzz"]
        toks = ["zzz", "util", "app"]
    elif k == "wildcard-same":
        t["dependencies"] = t.get("dependencies", []) + ["*"]
        toks = [name]
    elif k == "no-target-name":
        del t["target_name"]
    elif k == "bad-format":
        args = ["-f", "nosuchformat%d" % v]
        toks = ["nosuchformat"]
    return f, raw, args, roots, toks


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = None
        for x in fs:
            p = os.path.join(d, x)
            s = os.lstat(p)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = (fh.read(), s.st_mtime_ns, s.st_ino)
    return out


def write(root, files, raw):
    texts, _, _ = G.project_files(files)
    texts.update(raw)
    gyprun.write_tree(root, texts)


def evaluate(case):
    root = fresh_dir("proj")
    fargs = ["--depth=.", "-DOS=linux"] + ([] if case["parallel"] else ["--no-parallel"])
    for x in case["formats"]:
        fargs += ["-f", x]
    good = base(case)
    write(root, good, {})
    gyprun.write_tree(root, {"sub/.keep": ""})
    if case["prior"]:
        r = gyprun.gyp_main(fargs + (["--check"] if case["v"] % 2 else []) + ["main.gyp"], root)
        if r.rc != 0:
            raise Violation("the valid project was rejected: rc=%s %s\n%s" % (r.rc, r.err[-1500:], json.dumps(good)))
        if len(snapshot(root)) <= 5:
            raise Violation("no build files were written for the valid project by %r" % case["formats"])
    files, raw, args, roots, toks = inject(case)
    write(root, files, raw)
    before = snapshot(root)
    if case["kind"] == "bad-format":
        fargs = [a for i, a in enumerate(fargs) if a != "-f" and (not i or fargs[i - 1] != "-f")]
    r = gyprun.gyp_main(fargs + args + roots, root)
    after = snapshot(root)
    shown = json.dumps({**{k: v for k, v in files.items() if k not in raw}, **raw})
    what = "%s (args %r)" % (case["kind"], fargs + args + roots)
    if r.timeout or r.sig:
        raise Violation("%s: did not terminate normally (signal %s)\n%s" % (what, r.sig, shown))
    if r.rc == 0:
        raise Violation("%s: the invalid project was accepted\n%s" % (what, shown))
    if not (r.err + r.out).strip():
        raise Violation("%s: rejected without a message\n%s" % (what, shown))
    if toks and not any(t in r.err + r.out for t in toks):
        raise Violation("%s: the message mentions none of %r: %s\n%s" % (what, toks, r.err[-1500:], shown))
    if before != after:
        ch = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]
        raise Violation("%s: files written or altered though the project was rejected: %r\n%s" % (what, sorted(ch), shown))
    return {"nontrivial": True, "labels": [case["kind"], "trace" if "Traceback" in r.err else "message"] + (
        ["trace:" + case["kind"]] if "Traceback" in r.err else []) + (["after a valid run"] if case["prior"] else []),
            "key": {k: case[k] for k in case if k != "prior"}}


CAMPAIGNS = [Campaign("reject", cases, evaluate, quick=1800)]
ASSUMPTIONS = ["a traceback that locates the mistake counts as a message"]


def setup():
    gyprun.load()
