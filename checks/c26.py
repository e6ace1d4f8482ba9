"""C26: the analyzer's answers against reachability in the generated target graph."""
import json
import os
import posixpath

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, HarnessError, Violation, fresh_dir

ID = "C26"
LEVEL = "exploration"
RULE = ("a query is non-trivial when at least one target depends on a changed file, at least one does not, and the "
        "affected targets include one that is affected only through a dependency")

GYPS = ["a.gyp", "b.gyp", "p/c.gyp", "p/q/d.gyp", "r/e.gyp", "p/q/v/f.gyp"]
GYPIS = ["i.gypi", "p/j.gypi", "r/s/k.gypi", "l.gypi"]
FILES = ["x0.c", "x1.cc", "p/x0.c", "p/x1.c", "p/q/x0.c", "r/x0.c", "r/x1.h", "s/t/x2.c", "p/q/x1.cc", "in.txt", "p/in.txt"]
TYPES = ["static_library", "static_library", "executable", "executable", "shared_library", "none", "none",
         "loadable_module"]


@st.composite
def ref(draw):
    """a file and how it is written"""
    return [draw(st.integers(0, len(FILES) - 1)), draw(st.integers(0, 7))]


@st.composite
def cases(draw):
    nf = draw(st.sampled_from([1, 2, 4, 6, 6]))
    n = draw(st.integers(1, 9))
    ts = []
    for i in range(n):
        t = {"f": draw(st.integers(0, nf - 1)), "type": draw(st.sampled_from(TYPES)),
             "src": draw(st.lists(ref(), max_size=3))}
        if t["f"] == 5 and draw(st.booleans()):      # a few directories down, a file one directory up
            t["src"].append([FILES.index("p/q/x0.c"), 0])
        t["deps"] = draw(st.lists(st.integers(0, i - 1), unique=True, max_size=3)) if i else []
        k = draw(st.integers(0, 5))
        if k == 2:
            t["act"] = draw(st.lists(ref(), max_size=2))
        if k in (3, 2) and draw(st.booleans()):
            t["rule"] = draw(st.lists(ref(), max_size=2))
        ts.append(t)
    incs = [draw(st.lists(st.integers(0, len(GYPIS) - 1), unique=True, max_size=2)) if draw(st.integers(0, 2)) == 1 else []
            for _ in range(nf)]
    nest = [draw(st.integers(0, 3)) for _ in GYPIS]      # gypi i includes gypi j > i when nest says so
    perm = draw(st.permutations(range(n)))
    used = sorted({t["f"] for t in ts})
    pick = draw(st.lists(st.sampled_from(used), unique=True, min_size=1))
    chg = draw(st.lists(st.one_of(
        st.tuples(st.just("S"), st.integers(0, 11)),
        st.tuples(st.just("S"), st.integers(0, 11)),
        st.tuples(st.just("F"), st.integers(0, len(FILES) - 1)),
        st.tuples(st.just("G"), st.integers(0, nf - 1)),
        st.tuples(st.just("I"), st.integers(0, len(GYPIS) - 1)),
        st.tuples(st.just("X"), st.integers(0, 3))), min_size=1, max_size=3))
    names = st.lists(st.sampled_from(["t%d" % i for i in range(n)] + ["all", "nosuch", "t99"]), unique=True, max_size=4)
    return {"t": ts, "inc": incs, "nest": nest, "perm": list(perm), "give": pick,
            "how": draw(st.integers(0, 3)), "chg": [list(c) for c in chg],
            "test": draw(names), "comp": draw(names),
            "global": draw(st.sampled_from([None, None, None, "g.gypi", "r/g.gypi"])),
            "out": draw(st.booleans())}


OUTSIDE = ["../x0.c", "../../x1.cc", "../p/x0.c"]


def rel(to, base):
    return posixpath.relpath(posixpath.join("/r", to), posixpath.join("/r", base))


def spell(i, how, base):
    """(text, file it names relative to the top or None)"""
    f = FILES[i]
    r = rel(f, base)
    d, b = posixpath.split(r)
    if how == 1:
        return "./" + r, f
    if how == 2 and d:
        return d + "//" + b, f
    if how == 3:
        return "<(DEPTH)/" + f, f
    if how == 4:
        return "sub/../" + r, f
    if how == 5:
        return "<(here)" + r, f
    if how == 6 and i < len(OUTSIDE):    # a file outside the tree, named like one inside
        return rel(OUTSIDE[i], base), None
    if how == 7 and i == 0:
        return "<(INTERMEDIATE_DIR)/x0.c", None
    return r, f


def closure_inc(case, k):
    seen, todo = [], [k]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.append(i)
        j = case["nest"][i]
        if j > i:
            todo.append(j)
    return seen


def build(case):
    n = len(case["t"])
    files, own = {}, {}
    docs = {}
    for pos in case["perm"]:
        t = case["t"][pos]
        g = GYPS[t["f"]]
        base = posixpath.dirname(g)
        d = {"target_name": "t%d" % pos, "type": t["type"]}
        mine = set()

        def conv(refs):
            r = []
            for i, how in refs:
                s, f = spell(i, how, base)
                if s not in r:
                    r.append(s)
                    if f:
                        mine.add(f)
            return r
        if t["src"]:
            d["sources"] = conv(t["src"])
        if "act" in t:
            d["actions"] = [{"action_name": "a", "inputs": conv(t["act"]), "outputs": ["<(INTERMEDIATE_DIR)/o"],
                             "action": ["true"]}]
        if "rule" in t:
            d["rules"] = [{"rule_name": "r", "extension": "zz", "inputs": conv(t["rule"]), "outputs": ["o"],
                           "action": ["true"]}]
        if t["deps"]:
            d["dependencies"] = [
                ("t%d" % j) if case["t"][j]["f"] == t["f"] else "%s:t%d" % (rel(GYPS[case["t"][j]["f"]], base), j)
                for j in t["deps"]]
        own[pos] = mine
        docs.setdefault(t["f"], []).append(d)
    incl = {}
    for f, ts in docs.items():
        g = GYPS[f]
        base = posixpath.dirname(g)
        doc = {"variables": {"here": "./"}, "targets": ts}
        if case["inc"][f]:
            doc["includes"] = [rel(GYPIS[i], base) for i in case["inc"][f]]
        incl[f] = {x for i in case["inc"][f] for x in closure_inc(case, i)}
        files[g] = doc
    for i, g in enumerate(GYPIS):
        doc = {"variables": {"v%d" % i: i}}
        j = case["nest"][i]
        if j > i:
            doc["includes"] = [rel(GYPIS[j], posixpath.dirname(g))]
        files[g] = doc
    return files, own, incl


def check(case):
    files, own, incl = build(case)
    ts = case["t"]
    n = len(ts)
    given = [f for f in case["give"]]
    # loaded: targets of given files and everything they reach
    loaded_files = set()
    todo = list(given)
    while todo:
        f = todo.pop()
        if f in loaded_files:
            continue
        loaded_files.add(f)
        for t in ts:
            if t["f"] == f:
                todo += [ts[j]["f"] for j in t["deps"]]
    # only the targets reachable from the given files are handed to a generator
    live = set()
    todo = [i for i in range(n) if ts[i]["f"] in given]
    while todo:
        i = todo.pop()
        if i not in live:
            live.add(i)
            todo += ts[i]["deps"]
    if any(i not in live for i in range(n) if ts[i]["f"] in loaded_files):
        pass    # gyp keeps every target of a loaded file
    live = {i for i in range(n) if ts[i]["f"] in loaded_files}
    changed = []
    for k, i in case["chg"]:
        if k == "S":
            used = sorted(set().union(*own.values()))
            changed.append(used[i % len(used)] if used else FILES[i % len(FILES)])
        elif k == "F":
            changed.append(FILES[i])
        elif k == "G":
            changed.append(GYPS[i])
        elif k == "I":
            changed.append(GYPIS[i])
        else:
            changed.append(["README", "p/nothing.c", "x0.h", "c.gyp"][i])
    root = fresh_dir("an")
    tree = os.path.join(root, "w", "tree")
    gyprun.write_tree(tree, files)
    if case["global"]:
        gyprun.write_tree(tree, {case["global"]: {"variables": {"g": 1}}})
        if case["how"] == 1:
            changed.append(case["global"])
    cfgp = os.path.join(root, "cfg.json")
    with open(cfgp, "w") as f:
        json.dump({"files": changed, "test_targets": case["test"], "additional_compile_targets": case["comp"]}, f)
    args = ["-f", "analyzer", "--depth", ".", "--no-parallel", "--no-circular-check", "-Gconfig_path=" + cfgp]
    outp = os.path.join(root, "out.json")
    if case["out"]:
        args.append("-Ganalyzer_output_path=" + outp)
    if case["global"]:
        args.append("-I" + case["global"])
    for f in given:
        g = GYPS[f]
        args.append({0: g, 1: g, 2: os.path.join(tree, g), 3: g}[case["how"]])
    r = gyprun.gyp_main(args, tree)
    j = json.dumps(case)
    if r.rc != 0:
        raise Violation("analysis failed (%s)\n%s\n%s" % (r.rc, r.err[-2000:], j))
    if case["out"]:
        with open(outp) as f:
            got = json.load(f)
    else:
        got = json.loads(r.out.strip().splitlines()[-1])

    def fail(msg):
        raise Violation("%s\ngot %s\nfor changed %s, test %s, compile %s\n%s\n%s" % (
            msg, json.dumps(got), changed, case["test"], case["comp"],
            json.dumps(files, indent=1)[:5000], j))

    if "error" in got:
        fail("an error was reported")
    test, comp = set(case["test"]), set(case["comp"])
    if case["global"] and case["global"] in changed:
        if got.get("status") != "Found dependency (all)" or set(got.get("test_targets", ())) != test \
                or set(got.get("compile_targets", ())) != test | comp:
            fail("a file included everywhere changed")
        return {"nontrivial": False, "labels": ["global"]}
    ch = set(changed)
    direct = {i for i in live if own[i] & ch or GYPS[ts[i]["f"]] in ch or any(GYPIS[x] in ch for x in incl[ts[i]["f"]])}
    affected = set()
    for i in sorted(live):       # dependencies come first
        if i in direct or any(d in affected for d in ts[i]["deps"]):
            affected.add(i)
    parents = {i: {k for k in live if i in ts[k]["deps"]} for i in live}
    anc = {}
    for i in sorted(live, reverse=True):
        anc[i] = set().union(*[{k} | anc[k] for k in parents[i]]) if parents[i] else set()
    roots = {i for i in live if not parents[i] and ts[i]["f"] in given}
    num = {"t%d" % i: i for i in live}
    supplied = {num[x] for x in test | comp if x in num}
    if "all" in test | comp:
        supplied |= roots
    zone = {i for i in live if i in supplied or anc[i] & supplied}
    want_test = {x for x in test if x in num and num[x] in affected}
    if "all" in test and roots & affected:
        want_test.add("all")
    invalid = {x for x in test | comp if x not in num and x != "all"}
    if set(got.get("invalid_targets", ())) != invalid or len(got.get("invalid_targets", ())) != len(invalid):
        fail("the targets not found are %s" % sorted(invalid))
    for k in ("test_targets", "compile_targets"):
        if len(got[k]) != len(set(got[k])):
            fail("%s names a target twice" % k)
    gt, gc = set(got["test_targets"]), set(got["compile_targets"])
    if not direct:
        if got["status"] != "No dependencies" or gt or gc:
            fail("nothing depends on the changed files")
    if gt != want_test:
        fail("the test targets that depend on a changed file are %s" % sorted(want_test))
    if not want_test <= gc:
        fail("compile_targets must contain the test targets")
    built = {num[x] for x in gc - want_test if x in num}
    if gc - want_test - set(num):
        fail("unknown compile targets")
    built_all = {num[x] for x in gc if x in num}
    for i in built:
        if i not in affected:
            fail("t%d does not depend on a changed file" % i)
        if i not in zone:
            fail("t%d is neither requested nor needed by a requested target" % i)
    needs = {i for i in live if ts[i]["type"] != "none" or "act" in ts[i] or "rule" in ts[i]}
    linked = lambda i: ts[i]["type"] in ("executable", "shared_library")
    maylink = lambda i: linked(i) or ts[i]["type"] == "loadable_module"
    for i in affected & zone:
        covered = anc[i] & built_all
        if ts[i]["type"] == "executable":
            if i not in built_all:
                fail("the executable t%d is affected but not compiled" % i)
        elif i in needs or i in direct:
            if i not in built_all and not covered:
                fail("t%d is affected, but neither it nor a target that needs it is compiled" % i)
            if ts[i]["type"] == "static_library" and i in direct and not any(maylink(k) for k in anc[i]) \
                    and i not in built_all:
                fail("the changed static library t%d, which nothing links, is not compiled" % i)
    for i in built:
        t = ts[i]["type"]
        if t == "executable":
            continue
        if t == "none" and i not in needs and i not in direct:
            fail("t%d has nothing to build" % i)
        strict = anc[i] & {num[x] for x in gc if x in num and x not in want_test}
        if strict and not (t == "static_library" and not any(linked(k) for k in anc[i])):
            fail("t%d is already built for %s" % (i, sorted(strict)))
    if direct:
        want = "Found dependency" if gt or gc else "No dependencies"
        if got["status"] != want:
            fail("the status should be %s" % want)
    return {"nontrivial": bool(affected) and bool(live - affected) and bool(affected - direct),
            "labels": ["type:" + ts[i]["type"] for i in built_all][:3] + (["all"] if "all" in test | comp else [])
            + (["projectfile"] if ch & set(GYPS + GYPIS) else [])}


@st.composite
def bad_cases(draw):
    return {"kind": draw(st.sampled_from(["missing", "syntax", "list", "nofiles", "emptyfiles", "string"])),
            "junk": draw(st.text("{}[]\",:ab1", max_size=8)), "out": draw(st.booleans())}


def check_bad(case):
    root = fresh_dir("an")
    gyprun.write_tree(root, {"a.gyp": {"targets": [{"target_name": "t", "type": "none"}]}})
    cfgp = os.path.join(root, "cfg.json")
    k = case["kind"]
    if k != "missing":
        txt = {"syntax": '{"files": ["a"]' + case["junk"], "list": '["a"]', "nofiles": '{"test_targets": ["t"]}',
               "emptyfiles": '{"files": []}', "string": '"a"'}[k]
        if k == "syntax":
            try:
                json.loads(txt)
                return None
            except ValueError:
                pass
        with open(cfgp, "w") as f:
            f.write(txt)
    outp = os.path.join(root, "out.json")
    args = ["-f", "analyzer", "--depth", ".", "-Gconfig_path=" + cfgp, "a.gyp"]
    if case["out"]:
        args.append("-Ganalyzer_output_path=" + outp)
    r = gyprun.gyp_main(args, root)
    if r.rc == 0:
        try:
            got = json.load(open(outp)) if case["out"] else json.loads(r.out.strip().splitlines()[-1])
        except (OSError, ValueError) as e:
            raise Violation("no answer: %s\n%s" % (e, json.dumps(case)))
        if not got.get("error") or "compile_targets" in got or "test_targets" in got:
            raise Violation("a bad query was answered with %s\n%s" % (got, json.dumps(case)))
    elif "Traceback" in r.err and "analyzer" not in r.err:
        raise HarnessError(r.err)
    return {"nontrivial": True, "labels": [k]}


CAMPAIGNS = [
    Campaign("impact", cases, check, 3000),
    Campaign("badquery", bad_cases, check_bad, 200),
]


def setup():
    gyprun.load()
