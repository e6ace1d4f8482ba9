"""C17: generated actions, rules and copies with hostile arguments, names and layouts, run by real make and ninja.

Oracle: working directory and argument vector each step received, run counts, contents and modes of what was copied,
and the stand-in compilers' own report of reading a generated file that is missing or incomplete.
"""
import json
import os
import posixpath
import stat

from hypothesis import strategies as st

from vh import gypbuild as B, gyprun, stubs
from vh.core import Campaign, Violation, fresh_dir

import c14

ID = "C17"
LEVEL = "exploration"
RULE = ("a case is non-trivial when an action or rule argument holds a metacharacter or an input-name variable, two "
        "steps have similar names, or a copy holds a directory or a name with a space")
ARG = list(" !\"#%&'()*+,-./:;<=>?@[\\]^_`{|}~aB0é  ")
HOT = ["#", "%", '"', "'", "\\", "`", "  ", "a b", ";", "&&", "|", ">", "<", "*", "~", "!", "%s", "100%", "%(x)s", "\\\\",
       "\t", "é", "=", "x", "-n", "(", ")", "#!", "\\#", "{a,b}", "?", "[a]", "a,b", ":", "^"]
VARS = ["<(RULE_INPUT_ROOT)", "<(RULE_INPUT_NAME)", "<(RULE_INPUT_EXT)", "<(RULE_INPUT_DIRNAME)", "<(RULE_INPUT_PATH)"]
NAMES = ["gen", "gen-a", "gen_a", "gen a", "gen.a", "gen_0", "gen_1", "Gen"]


@st.composite
def arg(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        s = draw(st.text(alphabet=ARG, max_size=12))
    elif k == 1:
        s = "".join(draw(st.lists(st.sampled_from(HOT), min_size=1, max_size=5)))
    elif k == 2:
        s = draw(st.sampled_from(["", "1", "-1", "007", "--flag=x", "../x", "a/", "./b", "--long-option-name-number-one"]))
    else:
        s = draw(st.sampled_from(HOT))
    return s if c14.clean(s) else "plain"


@st.composite
def rarg(draw):
    if draw(st.booleans()):
        return draw(arg())
    return draw(st.sampled_from(["", "x=", "100%-", "a b", "#"])) + draw(st.sampled_from(VARS)) + draw(
        st.sampled_from(["", "", ".c", " %", "-<(RULE_INPUT_ROOT)"]))


@st.composite
def target(draw, ti):
    t = {"name": draw(st.sampled_from(["t", "t-x", "t_x"])) + ("" if draw(st.booleans()) else str(ti)),
         "type": draw(st.sampled_from(["none", "static_library", "executable", "none"])), "actions": [], "rules": [],
         "copies": []}
    for k in range(draw(st.integers(0, 3))):
        t["actions"].append({
            "name": draw(st.sampled_from(NAMES)), "args": draw(st.lists(arg(), max_size=4)),
            "nin": draw(st.integers(0, 2)), "outs": draw(st.integers(1, 3)),
            "loc": draw(st.sampled_from(["shared", "int", "product", "tree", "bare"])),
            "src": draw(st.booleans()), "chain": draw(st.booleans()), "obj": draw(st.integers(0, 3)) == 2,
            "spread": draw(st.booleans())})
    for k in range(draw(st.integers(0, 2))):
        t["rules"].append({
            "name": draw(st.sampled_from(NAMES)), "args": draw(st.lists(rarg(), max_size=4)),
            "srcs": [draw(st.sampled_from(["", "s/", "s/u.v/"])) + draw(st.sampled_from(["r", "q.x", "a-b", "n_1"])) +
                     "%d%d" % (k, i) for i in range(draw(st.integers(1, 3)))],
            "loc": draw(st.sampled_from(["int", "tree", "shared", "dirname"])), "outs": draw(st.integers(1, 2)),
            "src": draw(st.booleans()), "extra": draw(st.sampled_from([0, 1, 0, 2])), "obj": draw(st.integers(0, 3)) == 2,
            "spread": draw(st.booleans())})
    for k in range(draw(st.integers(0, 2))):
        t["copies"].append({
            "dest": draw(st.sampled_from(["<(PRODUCT_DIR)/d", "<(PRODUCT_DIR)", "<(PRODUCT_DIR)/d e", "outd", "../outd",
                                          "<(SHARED_INTERMEDIATE_DIR)/c"])),
            "files": [draw(st.sampled_from(["f", "sub/f", "f g", "x/y z/f", "exe"])) + "%d%d%d" % (ti, k, i)
                      for i in range(draw(st.integers(1, 2)))],
            "dir": draw(st.integers(0, 2)) == 1, "slash": draw(st.booleans())})
    return t


@st.composite
def cases(draw):
    ts = [draw(target(i)) for i in range(draw(st.integers(1, 3)))]
    seen = set()
    for i, t in enumerate(ts):
        if t["name"] in seen:
            t["name"] += "_%d" % i
        seen.add(t["name"])
    return {"sub": draw(st.sampled_from(["", "sub", "sub/deep"])), "targets": ts,
            "fmt": draw(st.sampled_from(["make", "ninja"])), "jobs": draw(st.sampled_from([1, 4, 8])),
            "confs": ["Default", "Release"][:draw(st.integers(1, 2))]}


LOC = {"shared": "<(SHARED_INTERMEDIATE_DIR)/", "int": "<(INTERMEDIATE_DIR)/", "product": "<(PRODUCT_DIR)/gen/",
       "tree": "gen/", "bare": "", "dirname": "<(RULE_INPUT_DIRNAME)/out/"}


def usable(name, others):
    """Step names ninja's generator cannot tell apart are its documented restriction: avoid the pair."""
    m = c14.re.sub("[^a-zA-Z0-9_]", "_", name)
    return m not in others, m


def plan(case):
    """(gyp text, files, expectations)"""
    sub, files, tl = case["sub"], {}, []
    acts, rules, copies, compiled, dirs = [], [], [], {}, {}
    hdr = []
    root = "../" * (sub.count("/") + 1) if sub else ""
    for ti, t in enumerate(case["targets"]):
        d = {"target_name": t["name"], "type": t["type"], "sources": [], "include_dirs": ["<(SHARED_INTERMEDIATE_DIR)"],
             "hard_dependency": 1}
        comp = []
        body = "//\n"
        d["actions"], d["rules"], d["copies"] = [], [], []
        prev = None
        taken = set()
        for k, a in enumerate(t["actions"]):
            name = a["name"]
            ok, m = usable(name, taken)
            if case["fmt"] == "ninja" and not ok:
                name = "%s%d" % (name, k + 7)
                ok, m = usable(name, taken)
            taken.add(m)
            outs = []
            for o in range(a["outs"]):
                ext = (".o" if a.get("obj") else ".c") if a["src"] and o == 0 else [".h", ".dat", ".h"][o]
                # (a header stays where the include directory is)
                d2 = "far%d/" % o if a.get("spread") and o and not (ext == ".h" and a["loc"] == "shared") else ""
                outs.append("%s%sga%d_%d_%d%s" % (LOC[a["loc"]], d2, ti, k, o, ext))
            ins = ["in%d_%d_%d.txt" % (ti, k, i) for i in range(a["nin"])]
            for i in ins:
                files[posixpath.join(sub, i)] = "x\n"
            if a["chain"] and prev:
                ins = ins + [prev]
            prev = outs[-1]
            cmd = ["vact"]
            for i in ins:
                cmd += ["--in", i]
            for o in outs:
                cmd += ["--out", o]
            cmd += ["--"] + a["args"]
            x = {"action_name": name, "inputs": ins, "outputs": outs, "action": cmd}
            if a["src"]:
                x["process_outputs_as_sources"] = 1
                if t["type"] != "none":
                    comp.append(posixpath.basename(outs[0]))
            if a["loc"] == "shared":
                for o in outs:
                    if o.endswith(".h"):
                        body += '#include "%s"\n' % posixpath.basename(o)
                        hdr.append(posixpath.basename(o))
            d["actions"].append(x)
            acts.append((posixpath.basename(outs[0]), [str(v) for v in a["args"]], len(ins), len(outs)))
        for k, r in enumerate(t["rules"]):
            name = r["name"]
            ok, m = usable(name, taken)
            if case["fmt"] == "ninja" and not ok or name in [x["rule_name"] for x in d["rules"]]:
                name = "%s%d" % (name, k + 17)
                ok, m = usable(name, taken)
            taken.add(m)
            loc = r["loc"]
            srcs = ["%s_%d.e%d" % (s, ti, k) for s in r["srcs"]]
            if loc == "dirname":
                srcs = [s if "/" in s else "s/" + s for s in srcs]
            e0 = (".o" if r.get("obj") else ".c") if r["src"] else ".h"
            outs = [LOC[loc] + ("far/" if o and r.get("spread") else "") + "<(RULE_INPUT_ROOT)" + [e0, ".dat"][o]
                    for o in range(r["outs"])]
            ins = ["rin%d_%d%s.txt" % (ti, k, "_%d" % i if i else "") for i in range(int(r["extra"]))]
            for i in ins + srcs:
                files[posixpath.join(sub, i)] = "y\n"
            cmd = ["vact", "--in", "<(RULE_INPUT_PATH)"]
            for i in ins:
                cmd += ["--in", i]
            for o in outs:
                cmd += ["--out", o]
            x = {"rule_name": name, "extension": "e%d" % k, "outputs": outs, "action": cmd + ["--"] + r["args"]}
            if ins:
                x["inputs"] = ins
            if r["src"]:
                x["process_outputs_as_sources"] = 1
            d["rules"].append(x)
            d["sources"] += srcs
            for s in dict.fromkeys(srcs):
                base = posixpath.basename(s)
                rt, ext = posixpath.splitext(base)
                if r["src"] and t["type"] != "none":
                    comp.append(rt + e0)
                elif loc == "shared" and not r["src"]:
                    body += '#include "%s.h"\n' % rt
                    hdr.append(rt + ".h")
                rules.append((rt + e0, s, r["args"], 1 + len(ins), len(outs)))
        for k, c in enumerate(t["copies"]):
            fl = []
            for f in c["files"]:
                if c["dir"]:
                    dd = posixpath.join(sub, "tree-" + f.replace("/", "_"))
                    files[dd + "/one.txt"] = "one %s\n" % f
                    files[dd + "/two/t w o.txt"] = "two\n"
                    fl.append("tree-" + f.replace("/", "_") + ("/" if c["slash"] else ""))
                else:
                    files[posixpath.join(sub, f)] = "copy %s\n" % f
                    fl.append(f)
                copies.append((c["dest"], fl[-1]))
            d["copies"].append({"destination": c["dest"], "files": fl})
        for k in ("actions", "rules", "copies"):
            if not d[k]:
                del d[k]
        if t["type"] != "none":
            d["sources"].append("main%d.cc" % ti)
            files[posixpath.join(sub, "main%d.cc" % ti)] = body
            comp.append("main%d.cc" % ti)
        if ti:
            d["dependencies"] = [case["targets"][ti - 1]["name"]]
        if t["type"] == "none" and not d["sources"]:
            del d["sources"]
        tl.append(d)
        compiled[ti] = comp
    # a dependent compiles against every shared generated header
    tl.append({"target_name": "user", "type": "executable", "sources": ["user.c"],
               "include_dirs": ["<(SHARED_INTERMEDIATE_DIR)"], "dependencies": [t["name"] for t in case["targets"]]})
    files[posixpath.join(sub, "user.c")] = "//\n" + "".join('#include "%s"\n' % h for h in sorted(set(hdr)))
    gf = posixpath.join(sub, "p.gyp")
    files[gf] = json.dumps({"target_defaults": {"configurations": {c: {} for c in case["confs"]},
                                                "default_configuration": case["confs"][0]}, "targets": tl}, indent=1)
    return gf, files, acts, rules, copies, compiled


def evaluate(case):
    gf, files, acts, rules, copies, compiled = plan(case)
    fmt, sub = case["fmt"], case["sub"]
    root = os.path.join(fresh_dir("p"), "src")
    os.makedirs(root)
    gyprun.write_tree(root, files)
    for f in files:
        if "exe" in posixpath.basename(f):
            os.chmod(os.path.join(root, f), 0o755)
    j = json.dumps(case)
    r = gyprun.gyp_main(["-f", fmt, "--depth=.", "--no-parallel", gf], root, env=stubs.env())
    if r.rc:
        raise Violation("%s: a valid project was rejected: %s\n%s" % (fmt, r.err[-1200:], j))
    conf = case["confs"][0]
    b = B.build(root, fmt, conf, jobs=case["jobs"])
    B.must(b, "the build with " + fmt, case)
    cwd = os.path.join(root, sub) if sub else root
    runs = {}
    for x in B.act_runs(b.log):
        a = [stubs.decode(v) for v in x["argv"]]
        outs = [v for i, v in enumerate(a[:a.index("--")]) if i and a[i - 1] == "--out"]
        ins = [v for i, v in enumerate(a[:a.index("--")]) if i and a[i - 1] == "--in"]
        key = posixpath.basename(outs[0])
        runs.setdefault(key, []).append((x["cwd"], a[a.index("--") + 1:], ins, outs))
    known, exp = None, {}
    for key, args, ni, no in acts:
        exp[key] = ("action", None, args, ni, no)
    for key, src, args, ni, no in rules:
        exp[key] = ("rule", src, args, ni, no)
    if set(runs) != set(exp):
        raise Violation("%s ran steps for %r; the project has %r\n%s" % (fmt, sorted(runs), sorted(exp), j))
    for key, (kind, src, args, ni, no) in exp.items():
        if len(runs[key]) != 1:
            raise Violation("%s ran the %s making %s %d times\n%s" % (fmt, kind, key, len(runs[key]), j))
        wd, got, ins, outs = runs[key][0]
        if os.path.realpath(wd) != os.path.realpath(cwd):
            raise Violation("%s ran the %s making %s in %s instead of %s\n%s" % (fmt, kind, key, wd, cwd, j))
        if (len(ins), len(outs)) != (ni, no):
            raise Violation("%s: the %s making %s got %r %r\n%s" % (fmt, kind, key, ins, outs, j))
        if kind == "rule":
            base = posixpath.basename(src)
            rt, ext = posixpath.splitext(base)
            want = []
            ok = os.path.realpath(os.path.join(wd, ins[0])) == os.path.realpath(os.path.join(cwd, src))
            kept = [v for i, v in enumerate(args) if v != "<(RULE_INPUT_PATH)" and (
                v[:1] == "-" and v != "-1" or v not in args[:i])]
            dedup, done = [], set()
            for v in args:
                raw = v
                for n, s in (("ROOT", rt), ("NAME", base), ("EXT", ext), ("DIRNAME", posixpath.dirname(src)),
                             ("PATH", ins[0])):
                    v = v.replace("<(RULE_INPUT_%s)" % n, s)
                want.append(v)
                if raw in kept and (raw[:1] == "-" and raw != "-1" or kept.count(raw) > 0 and raw not in done):
                    dedup.append(v)
                done.add(raw)
            if not ok:
                raise Violation("%s: the rule for %s was given the path %r\n%s" % (fmt, src, ins[0], j))
            args = want
        if got != args:
            # merging lists drops a repeated string that does not begin with "-" (known finding)
            if kind == "action":
                dedup = [v for i, v in enumerate(args) if v[:1] == "-" and v != "-1" or v not in args[:i]]
            if got == dedup:
                known = Violation("a repeated argument is dropped: %r instead of %r\n%s" % (got, args, j),
                                  sig="repeated-argument")
                continue
            raise Violation("%s: the %s making %s got the arguments %r instead of %r\n%s" % (fmt, kind, key, got, args, j))
        for o in outs:
            p = os.path.join(wd, o)
            if not os.path.isfile(p):
                raise Violation("%s: %s was not made\n%s" % (fmt, o, j))
    # copies
    out = os.path.join(root, "out", conf)
    gen = os.path.join(out, "obj/gen" if fmt == "make" else "gen")
    for dest, f in copies:
        q = dest.replace("<(PRODUCT_DIR)", out).replace("<(SHARED_INTERMEDIATE_DIR)", gen)
        q = os.path.join(cwd, q, posixpath.basename(f.rstrip("/")))
        p = os.path.join(cwd, f.rstrip("/"))
        if content(p) != content(q):
            raise Violation("%s copied %r to %r as %r instead of %r\n%s" % (fmt, f, dest, content(q), content(p), j))
    # generated sources are compiled, once each
    got = sorted(posixpath.basename(stubs.decode(s)) for _, s, _, _ in B.compile_runs(b.log))
    want = sorted(["user.c"] + [x for v in compiled.values() for x in v if not x.endswith(".o")])
    if got != want:
        raise Violation("%s compiled %r instead of %r\n%s" % (fmt, got, want, j))
    objs = {}
    for x in B.link_runs(b.log) + B.ar_runs(b.log):
        objs[posixpath.basename(x["writes"][0])] = sorted(
            posixpath.basename(o) for o in x["reads"] if o.endswith(".o"))
    for ti, t in enumerate(case["targets"]):
        if t["type"] == "none":
            continue
        n = t["name"] if t["type"] == "executable" else "lib%s.a" % t["name"]
        w = [posixpath.splitext(x)[0] for x in compiled[ti]]
        g = objs.get(n, [])
        own = [o for o in g if any(o in (x + ".o", t["name"] + "." + x + ".o") for x in w)]
        if len(own) < len(w) or (t["type"] == "static_library" and len(g) != len(w)):
            raise Violation("%s: %s is made from %r instead of the objects of %r\n%s" % (fmt, n, g, w, j))
    if known:
        raise known
    labels = [fmt]
    args = [v for k in exp.values() for v in k[2]]
    if any(c14.re.search(r"[^\w.=/-]", v) for v in args):
        labels.append("metachar")
    if rules:
        labels.append("rule")
    names = [c14.re.sub("[^a-zA-Z0-9_]", "_", a["name"]) for t in case["targets"] for a in t["actions"] + t["rules"]]
    if len(set(names)) < len(names):
        labels.append("similar-names")
    if any(" " in d + f or f.startswith("tree") for d, f in copies):
        labels.append("copy")
    return {"nontrivial": len(labels) > 1, "labels": labels}


def content(p):
    if os.path.isdir(p):
        return {n: content(os.path.join(p, n)) for n in os.listdir(p)}
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read().decode("latin-1"), stat.S_IMODE(os.stat(p).st_mode) & 0o111


CAMPAIGNS = [Campaign("steps", cases, evaluate, quick=900)]
ASSUMPTIONS = ["arguments hold no newline and no '$' (documented to reach the shell for expansion)",
               "inputs and outputs of actions and rules are free of whitespace, as the make generator requires"]


def setup():
    gyprun.load()
    stubs.setup()
