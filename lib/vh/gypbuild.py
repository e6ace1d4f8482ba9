"""Generate build files for a project, build it with the stand-ins, and compare what ran with the model."""
import json
import os
import posixpath

from . import gypproj as P, gyprun, stubs
from .core import HarnessError, Violation, fresh_dir

SKIP = (".deps", ".ninja_log", ".ninja_deps", ".lock")


def prepare(case, fmt, name="p", args=(), env=None, extra_files=None, sub="src", depth="."):
    root = os.path.join(fresh_dir(name), sub)
    os.makedirs(root)
    gyprun.write_tree(root, P.render(case))
    if extra_files:
        gyprun.write_tree(root, extra_files)
    r = generate(case, fmt, root, args, env, depth)
    return root, r


def generate(case, fmt, root, args=(), env=None, depth="."):
    r = gyprun.gyp_main(["-f", fmt, "--depth=" + depth, "--no-parallel"] + list(args) + P.roots(case), root,
                        env=stubs.env(extra=env))
    if r.rc:
        raise Violation("%s: a valid project was rejected: rc=%s %s\n%s" % (fmt, r.rc, r.err[-1500:], json.dumps(case)))
    return r


def build(root, fmt, conf, *targets, **kw):
    log = os.path.join(root, "..", "vlog")
    if fmt == "make":
        b = stubs.make(root, *targets, conf=conf, log=log, **kw)
    else:
        b = stubs.ninja(root, conf, *targets, log=log, **kw)
    if b.timeout:
        raise Violation("%s %s does not terminate\n%s" % (fmt, targets, b.out[-500:]))
    return b


def must(b, what, case):
    if b.rc or b.errors():
        e = b.errors()
        raise Violation("%s failed: rc=%s %s\n%s\n%s" % (
            what, b.rc, json.dumps(e[:1])[:1500], b.out[-1200:], json.dumps(case)))


def tree(root, sub="out", skip=SKIP):
    res = {}
    top = os.path.join(root, sub)
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in fs:
            if f in skip or f.endswith(".d") or f.endswith(".rsp") or f.endswith((".ninja", ".ar-file-list")):
                continue
            p = os.path.join(d, f)
            if os.path.islink(p):
                res[os.path.relpath(p, root)] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, root)] = fh.read().decode("latin-1")
    return res


def compile_runs(log):
    """[(tool, source, out, argv)]"""
    res = []
    for x in log:
        if x["tool"] in ("vcc", "vcxx") and "-c" in x["argv"]:
            a = x["argv"]
            src = [p for p in a if not p.startswith("-") and P.compiled_ext(p) and p != out_of(a)]
            res.append((x["tool"], src[0] if src else None, out_of(a), a))
    return res


def out_of(a):
    for i, v in enumerate(a):
        if v == "-o":
            return a[i + 1]
    return None


def link_runs(log):
    return [x for x in log if x["tool"] in ("vcc", "vcxx") and "-c" not in x["argv"]]


def ar_runs(log):
    return [x for x in log if x["tool"] == "var"]


def act_runs(log):
    return [x for x in log if x["tool"] == "vact"]


def after(a, flag):
    return [a[i + 1] for i, v in enumerate(a) if v == flag]


def own_basenames(case, t):
    """basename -> expected compiler"""
    r = {}
    for s in t["sources"]:
        if P.compiled_ext(s["path"]):
            r[posixpath.basename(s["path"])] = s["path"]
    for loc, p in P.gen_sources(case, t):
        r[posixpath.basename(p)] = p
    if t.get("dummy"):      # (CMake wants at least one source)
        r["dummy.c"] = "dummy.c"
    return r


def check_log(case, log, fmt, built, all_once=True, tree_done=False):
    """Every step of the targets in `built` (indices) happened exactly once, with the right inputs, and nothing else."""
    j = json.dumps(case)
    want, owner = {}, {}
    for ti in built:
        t = case["targets"][ti]
        if t["type"] == "none":
            continue
        for b in own_basenames(case, t):
            want[b] = ti
    seen = {}
    objs = {}
    for tool, src, out, a in compile_runs(log):
        b = posixpath.basename(src or "?")
        if b not in want:
            raise Violation("%s compiled %r, which is no source of a target being built\n%s" % (fmt, src, j))
        if b in seen:
            raise Violation("%s compiled %s twice: %s and %s\n%s" % (fmt, src, seen[b], out, j))
        seen[b] = out
        expect = "vcc" if b.endswith((".c", ".s", ".S")) else "vcxx"
        if tool != expect:
            raise Violation("%s compiled %s with the wrong compiler %s\n%s" % (fmt, src, tool, j))
        objs[b] = posixpath.basename(out)
    missing = set(want) - set(seen)
    if missing and all_once:
        raise Violation("%s did not compile %s\n%s" % (fmt, sorted(missing), j))
    if len(set(seen.values())) != len(seen):
        raise Violation("%s: two sources share an object file: %s\n%s" % (fmt, seen, j))
    # actions and rules: once per action / per source
    acts = {}
    for ti in built:
        t = case["targets"][ti]
        for a in t["actions"]:
            acts[posixpath.basename(a["out"][0]["path"])] = (ti, a)
        for r in t["rules"]:
            for s in r["srcs"]:
                root = posixpath.splitext(posixpath.basename(s["path"]))[0]
                acts["%s.%s" % (root, r["outs"][0])] = (ti, r)
    ran = {}
    for x in act_runs(log):
        o = after(x["argv"], "--out")
        b = posixpath.basename(o[0])
        if b not in acts:
            raise Violation("%s ran an unexpected action %r\n%s" % (fmt, x["argv"], j))
        ran[b] = ran.get(b, 0) + 1
        if ran[b] > 1:
            raise Violation("%s ran the action making %s more than once\n%s" % (fmt, b, j))
    if tree_done:   # outputs in the source tree are shared by the configurations: the first build made them
        for b in list(acts):
            a = acts[b][1]
            if a.get("loc") == "tree" or "out" in a and all(o["loc"] == "tree" for o in a["out"]):
                ran.setdefault(b, 0)
    if all_once and set(acts) - set(ran):
        raise Violation("%s did not run the action making %s\n%s" % (fmt, sorted(set(acts) - set(ran)), j))
    # archives and links
    arch, links = {}, {}
    for x in ar_runs(log):
        arch.setdefault(posixpath.basename(x["writes"][0]), []).append(x)
    for x in link_runs(log):
        links.setdefault(posixpath.basename(x["writes"][0]), []).append(x)
    for ti in built:
        t = case["targets"][ti]
        if t["type"] == "none":
            continue
        base = P.product_base(t)
        runs = (arch if t["type"] == "static_library" else links).get(base, [])
        if not runs and not all_once:
            continue
        if len(runs) != 1:
            raise Violation("%s made %s %d times\n%s" % (fmt, base, len(runs), j))
        x = runs[0]
        got = sorted(posixpath.basename(r) for r in x["reads"] if r.endswith(".o"))
        if t["type"] == "static_library":
            exp = sorted(objs.get(b, "?" + b) for b in own_basenames(case, t))
            if got != exp and all_once:
                raise Violation("%s: %s holds %r instead of %r\n%s" % (fmt, base, got, exp, j))
            continue
        libs = [r for r in x["reads"] if not r.endswith(".o") and not r.endswith(".rsp")]
        exp_libs = [P.product_base(case["targets"][k]) for k in P.link_closure(case, ti)]
        exp_objs = sorted(objs.get(b, "?" + b) for b in own_basenames(case, t))
        exp_objs += [posixpath.basename(o) for o in t.get("prebuilt", [])]
        for k in P.link_closure(case, ti):
            if case["targets"][k]["type"] == "static_library":   # members of thin archives are read as well
                exp_objs += [objs.get(b, "?" + b) for b in own_basenames(case, case["targets"][k])]
        if fmt == "cmake":      # CMake repeats libraries, and links what a linked library was linked to
            more = set()
            todo = list(P.link_closure(case, ti))
            while todo:
                k = todo.pop()
                if k not in more:
                    more.add(k)
                    todo += P.link_closure(case, k)
            more -= set(P.link_closure(case, ti))
            mb = {P.product_base(case["targets"][k]) for k in more} - set(exp_libs)
            mo = {objs.get(b) for k in more for b in own_basenames(case, case["targets"][k])
                  if case["targets"][k]["type"] == "static_library"} - set(exp_objs)
            exp_objs, got = sorted(set(exp_objs)), sorted(set(got) - mo)
            libs = sorted(r for r in set(libs) if posixpath.basename(r) not in mb)
        if all_once and sorted(exp_objs) != got:
            raise Violation("%s: %s is linked from objects %r instead of %r\n%s" % (fmt, base, got, sorted(exp_objs), j))
        gl = sorted(posixpath.basename(p)[:-4] if p.endswith(".TOC") else posixpath.basename(p) for p in libs)
        if sorted(exp_libs) != gl:
            raise Violation("%s: %s is linked against %r instead of %r\n%s" % (fmt, base, gl, sorted(exp_libs), j))
    return {"compiles": len(seen), "acts": len(ran), "links": len(links), "ar": len(arch)}


def check_products(case, root, fmt, conf, built):
    j = json.dumps(case)
    out = os.path.join(root, "out", conf)
    for ti in built:
        t = case["targets"][ti]
        base = P.product_base(t) if t["type"] != "none" else None
        d = P.tdir(case, t)
        cand = None
        if t["type"] in ("executable", "loadable_module"):
            cand = base
        elif t["type"] == "shared_library":
            cand = base if fmt == "make" else "lib/" + base
        elif t["type"] == "static_library":
            cand = posixpath.join("obj.target" if fmt == "make" else "obj", d, base)
        if cand and not os.path.exists(os.path.join(out, cand)):
            raise Violation("%s did not leave %s in out/%s\n%s" % (fmt, cand, conf, j))
        for c in t["copies"]:
            for f in c["files"]:
                p = os.path.join(out, c["dest"], posixpath.basename(f["path"]))
                want = "data %s %d\n" % (f["path"], f["v"])
                if not os.path.exists(p) or open(p).read() != want:
                    raise Violation("%s did not copy %s to %s\n%s" % (fmt, f["path"], c["dest"], j))
