"""C47: xcode_settings on macOS, built on Linux with stand-ins for Apple's tools: Makefiles and Ninja files written for
the mac flavour run the real make / ninja, and every command line is compared with a model of the settings."""
import json
import os
import posixpath

from hypothesis import strategies as st

from vh import gypproj as P, gyprun, mac as M
from vh.core import Campaign, Violation, fresh_dir

ID = "C47"
LEVEL = "exploration"
RULE = ("a case is non-trivial when the target built has at least four settings, at least two of them with values that "
        "change a command line, and a source is compiled and linked")

EXT = ["c", "cc", "cpp", "cxx", "m", "mm"]
LANG = {"c": "c", "m": "m", "mm": "mm", "cc": "cc", "cpp": "cc", "cxx": "cc"}
BOOLS = {}
for d in (M.BOOL_ALL, M.BOOL_X86, M.BOOL_CXX, M.BOOL_OBJC, M.BOOL_LD):
    BOOLS.update(d)
LISTS = {
    "WARNING_CFLAGS": ["-Wall", "-Wextra", "-Wno-unused", "-Wshadow"],
    "OTHER_CFLAGS": ["-O1", "-fno-common", "-DUC=1", "-Xq 7", "-march=core2", "-DS='ab'"],
    "OTHER_CPLUSPLUSFLAGS": ["$(inherited)", "$inherited", "${inherited}", "$(OTHER_CFLAGS)", "$OTHER_CFLAGS",
                             "${OTHER_CFLAGS}", "-fcoroutines", "-DUX=2", "-O3"],
    "OTHER_LDFLAGS": ["-Llibs/x", "-L/abs/l", "-Wl,-no_pie", "-ObjC", "-Wl,-exported_symbols_list,e.exp",
                      "-exported_symbols_list d/e.exp", "-unexported_symbols_list u.exp", "-Wl,-reexported_symbols_list,r.exp",
                      "-sectcreate __TEXT __info d/Info.plist", "-Wl,-sectcreate,__A,__b,/abs/f"],
    "LIBRARY_SEARCH_PATHS": ["lib1", "../lib2", "/abs/lib3"],
    "LD_RUNPATH_SEARCH_PATHS": ["@loader_path/../lib", "@executable_path/x", "/r"],
}
LIBS = ["Cocoa.framework", "$(SDKROOT)/System/Library/Frameworks/Carbon.framework", "libz.dylib", "libq.a", "-lm",
        "/abs/libr.a", "$(SDKROOT)/usr/lib/libcups.dylib", "-framework IOKit"]


@st.composite
def xs(draw, per_target, light=False):
    s = {}
    n = draw(st.integers(0, 3 if light else 8))
    for k in draw(st.lists(st.sampled_from(sorted(BOOLS) + ["GCC_SYMBOLS_PRIVATE_EXTERN"] * 3), max_size=n, unique=False)):
        s[k] = draw(st.sampled_from(["YES", "NO"]))
    for k in draw(st.lists(st.sampled_from(sorted(M.CHOICE)), max_size=n)):
        s[k] = draw(st.sampled_from(M.CHOICE[k]))
    for k in draw(st.lists(st.sampled_from(sorted(LISTS)), max_size=3, unique=True)):
        s[k] = draw(st.lists(st.sampled_from(LISTS[k]), min_size=1, max_size=4, unique=True))
    if per_target:
        if draw(st.integers(0, 3)) == 2:
            s["SDKROOT"] = draw(st.sampled_from(["macosx", "macosx10.9", "/abs/My.sdk"]))
        if draw(st.integers(0, 5)) == 2:
            s.update(DEBUG_INFORMATION_FORMAT="dwarf-with-dsym", DEPLOYMENT_POSTPROCESSING="YES", STRIP_INSTALLED_PRODUCT="YES")
        if draw(st.integers(0, 3)) == 2:
            s["ORDER_FILE"] = draw(st.sampled_from(["o.order", "d/o.order", "/abs/o.order"]))
        if draw(st.integers(0, 3)) == 2:
            s["DYLIB_INSTALL_NAME_BASE"] = draw(st.sampled_from(["@rpath", "@executable_path/../Frameworks", "/usr//x/../lib",
                                                                 "@loader_path/a/../b", "@loader_path/../lib"]))
        if draw(st.integers(0, 7)) == 3:
            s["LD_DYLIB_INSTALL_NAME"] = draw(st.sampled_from(["@rpath/x.dylib", "/opt/x y.dylib",]))
        if draw(st.integers(0, 3)) == 2:
            s["ARCHS"] = draw(st.sampled_from([["x86_64"], ["i386"], ["arm64"], ["$(ARCHS_STANDARD)"], ["ppc", "x86_64"]]))
            if len(s["ARCHS"]) > 1 or draw(st.booleans()):
                s["VALID_ARCHS"] = ["i386", "x86_64", "arm64"]
        if draw(st.integers(0, 3)) == 2:
            s["GCC_PREFIX_HEADER"] = draw(st.sampled_from(["pre.h", "d/pre.pch"]))
            if draw(st.booleans()):
                s["GCC_PRECOMPILE_PREFIX_HEADER"] = draw(st.sampled_from(["YES", "YES", "NO"]))
    return s


@st.composite
def cases(draw):
    ts = []
    for i in range(draw(st.integers(1, 3))):
        ty = draw(st.sampled_from(["executable", "shared_library", "static_library", "loadable_module"]))
        t = {"name": draw(st.sampled_from(["t%d", "libt%d"])) % i, "type": ty, "xs": draw(xs(True)), "conf": {}, "post": [],
             "sources": draw(st.lists(st.sampled_from(EXT), min_size=1, max_size=3, unique=True)),
             "deps": [d for d in range(i) if ts[d]["type"] not in ("executable", "loadable_module") and draw(st.booleans())],
             "libs": draw(st.lists(st.sampled_from(LIBS), max_size=3)),
             "fdirs": draw(st.lists(st.sampled_from(["/fw/a", "$(SDKROOT)/Lib/F", "$(SDKROOT)/../P"]), max_size=2, unique=True)),
             "libdirs": draw(st.lists(st.sampled_from(["/ld/a", "/ld/b"]), max_size=2, unique=True)),
             "defines": draw(st.lists(st.sampled_from(["A", "B=1", "C=\"x\""]), max_size=2, unique=True)),
             "incs": draw(st.lists(st.sampled_from(["inc", "d", "/abs/inc"]), max_size=2, unique=True))}
        for c in M.CONFS:
            if draw(st.booleans()):
                t["conf"][c] = draw(xs(False, light=True))
        if draw(st.integers(0, 3)) == 2:
            t["product_name"] = "prod%d" % i
        if draw(st.integers(0, 5)) == 2:
            t["product_extension"] = "xx"
        for k in range(draw(st.sampled_from([0, 0, 1, 2]))):
            t["post"].append(draw(st.sampled_from(["plain", "var", "quote"])))
        ts.append(t)
    return {"targets": ts, "xs": draw(xs(False, light=True)) if draw(st.booleans()) else None,
            "xcode": draw(st.integers(0, len(M.XCODES) - 1)), "dir": draw(st.sampled_from(["", "", "sub", "a/b"])),
            "fmt": draw(st.sampled_from(["make-mac", "ninja-mac"])), "conf": draw(st.sampled_from(list(M.CONFS))),
            "jobs": draw(st.sampled_from([1, 1, 4])), "fail": draw(st.integers(0, 3)) == 2}


POST = {"plain": ["mact", "--fail-if", "STOP%d", "--out", "post%d_%d.txt"],
        "var": ["mact", "--fail-if", "STOP%d", "--out", "${BUILT_PRODUCTS_DIR}/${EXECUTABLE_NAME}.post%d_%d"],
        "quote": ["mact", "--fail-if", "STOP%d", "a b", "c'd\"e", "--out", "post%d_%d.txt"]}


def post_argv(i, k, kind):
    return [x % (i, k) if x.count("%d") == 2 else x % i if "%d" in x else x for x in POST[kind]]


def merged_lists(case):
    """list merging drops a repeated item that does not begin with '-': keep the configurations' lists apart from the base"""
    for t in case["targets"]:
        for c, s in t["conf"].items():
            for k in list(s):
                if isinstance(s[k], list):
                    s[k] = [v for v in s[k] if v.startswith("-") and " " not in v or v not in t["xs"].get(k, [])]
        if case["xs"]:
            t["xs"].setdefault("GCC_CHAR_IS_UNSIGNED_CHAR", "NO")


def render(case):
    files, targets = {}, []
    d = case["dir"]
    for i, t in enumerate(case["targets"]):
        spec = {"target_name": t["name"], "type": t["type"], "xcode_settings": t["xs"], "sources": [],
                "configurations": {c: {"xcode_settings": t["conf"].get(c, {})} for c in M.CONFS},
                "dependencies": [case["targets"][x]["name"] for x in t["deps"]], "libraries": t["libs"],
                "mac_framework_dirs": t["fdirs"], "library_dirs": t["libdirs"], "defines": t["defines"],
                "include_dirs": t["incs"], "cflags": ["-not-on-mac"], "ldflags": ["-not-on-mac"]}
        if t["type"] == "static_library":
            spec["link_settings"] = {"libraries": spec.pop("libraries")}
        for k in ("product_name", "product_extension"):
            if k in t:
                spec[k] = t[k]
        if t["post"]:
            spec["postbuilds"] = [{"postbuild_name": "p%d" % k, "action": post_argv(i, k, kind)}
                                  for k, kind in enumerate(t["post"])]
        for e in t["sources"]:
            spec["sources"].append("s%d_%s.%s" % (i, e, e))
            files[posixpath.join(d, "s%d_%s.%s" % (i, e, e))] = "int s%d;\n" % i
        targets.append(spec)
    g = {"targets": targets, "target_defaults": {"default_configuration": "Debug",
                                                 "configurations": {c: {} for c in M.CONFS}}}
    if case["xs"]:
        g["xcode_settings"] = case["xs"]
    for h in ("pre.h", "d/pre.pch", "exports.txt"):
        files[posixpath.join(d, h)] = "/* */\n"
    files[posixpath.join(d, "p.gyp")] = g
    return files


def evaluate(case):
    merged_lists(case)
    root = os.path.join(fresh_dir("mac"), "src")
    os.makedirs(root)
    gyprun.write_tree(root, render(case))
    fmt, conf = case["fmt"], case["conf"]
    e = dict(M.env(case), AR=None, LD=None, LINK=None)
    r = gyprun.gyp_main(["-f", fmt, "--depth=.", "--no-parallel", posixpath.join(case["dir"], "p.gyp")], root, env=e)
    if r.rc:
        raise Violation("%s: a valid project was rejected: rc=%s %s\n%s" % (fmt, r.rc, r.err[-1500:], json.dumps(case)))
    b = M.build(root, fmt, conf, case, jobs=case["jobs"])
    must(b, case, "the build")
    labels = check(case, root, b.log)
    if case["fail"]:
        labels += failing(case, root)
    used = 0
    for t in case["targets"]:
        s = M.settings(case, t, conf)
        used = max(used, len(s) if sum(k in BOOLS and BOOLS[k][0] == v or k in M.CHOICE or k in LISTS for k, v in s.items()) >= 2 else 0)
    return {"nontrivial": used >= 4, "labels": labels}


def must(b, case, what):
    if b.rc or b.errors() or b.timeout:
        raise Violation("%s failed: rc=%s %s %s\n%s" % (what, b.rc, b.errors()[:1], b.out[-1500:], json.dumps(case)))


def failing(case, root):
    """a postbuild that fails: the product is removed and the build fails; then it works again"""
    k = [i for i, t in enumerate(case["targets"]) if t["post"]]
    if not k:
        return []
    i = k[-1]
    t = case["targets"][i]
    d = os.path.join(root, case["dir"])
    prod = os.path.join(root, "out", case["conf"], M.product(t))
    stop = os.path.join(d, "STOP%d" % i)
    open(stop, "w").close()
    e = t["sources"][0]
    src = os.path.join(d, "s%d_%s.%s" % (i, e, e))
    now = os.stat(prod).st_mtime_ns + 10 ** 9
    os.utime(src, ns=(now, now))
    b = M.build(root, case["fmt"], case["conf"], case)
    if b.rc == 0:
        raise Violation("a postbuild of %s fails, but the build succeeds\n%s" % (t["name"], json.dumps(case)))
    if os.path.exists(prod):
        raise Violation("a postbuild of %s failed, but its product is left behind: %s\n%s" % (t["name"], b.out[-600:], json.dumps(case)))
    os.unlink(stop)
    must(M.build(root, case["fmt"], case["conf"], case), case, "the build after a failed postbuild")
    if not os.path.exists(prod):
        raise Violation("the product of %s is not made again after a failed postbuild\n%s" % (t["name"], json.dumps(case)))
    return ["failing postbuild"]


def find(log, case, what, pred):
    r = [x for x in log if pred(x)]
    if len(r) != 1:
        raise Violation("%s: %d commands for %s\n%s" % (case["fmt"], len(r), what, json.dumps(case)))
    return r[0]


def parse(x):
    """(units without -o, -MF, dependency options and inputs; output; inputs), paths absolute"""
    cwd = x["cwd"]
    us, out, ins = [], None, []
    for u in M.units(x["argv"]):
        if u[0] == "-o":
            out = posixpath.normpath(posixpath.join(cwd, u[1]))
        elif u[0] in ("-MF", "-MMD", "-c", "-static", "-MT", "-MP"):
            continue
        elif u[0][0] != "-" and u[0].endswith((".o", ".c", ".cc", ".cpp", ".cxx", ".m", ".mm", ".h", ".pch")) or \
                u[0][0] != "-" and os.path.exists(os.path.join(cwd, u[0])):
            ins.append(posixpath.normpath(posixpath.join(cwd, u[0])))
        else:
            us.append(M.absolute(u, cwd))
    return us, out, ins


def check(case, root, log):
    j, fmt, conf = case, case["fmt"], case["conf"]
    gypdir = os.path.normpath(os.path.join(root, case["dir"]))
    pdir = os.path.join(root, "out", conf)
    seen, labels = [], []
    for i, t in enumerate(case["targets"]):
        s = M.settings(case, t, conf)
        objs = []
        defs = [("-D" + x,) for x in t["defines"]]
        incs = [M.absolute(("-I" + x,), gypdir) for x in t["incs"]]
        pre = s.get("GCC_PREFIX_HEADER")
        gch = pre and s.get("GCC_PRECOMPILE_PREFIX_HEADER", "NO") == "YES"
        for e in t["sources"]:
            src = os.path.join(gypdir, "s%d_%s.%s" % (i, e, e))
            x = find(log, j, src, lambda x: x["tool"] in ("mcc", "mcxx") and "-c" in x["argv"] and src in parse(x)[2])
            seen.append(x)
            us, out, ins = parse(x)
            objs.append(out)
            what = "%s: compiling %s of %s for %s" % (fmt, os.path.basename(src), t["name"], conf)
            lang = LANG[e]
            if x["tool"] != ("mcc" if lang in ("c", "m") else "mcxx"):
                raise Violation("%s with %s\n%s" % (what, x["tool"], json.dumps(j)))
            base, warn, lng, user, frame = M.c_family(case, s, lang, t["fdirs"])
            head = []
            if pre:
                inc = [u for u in us if u[0] == "-include"]
                if len(inc) != 1:
                    raise Violation("%s: the prefix header %s is included %d times\n%s" % (what, pre, len(inc), json.dumps(j)))
                head = inc
                if not gch and inc[0][1] != posixpath.join(gypdir, pre):
                    raise Violation("%s: %r, not %s\n%s" % (what, inc, pre, json.dumps(j)))
                if gch:
                    g = find(log, j, inc[0][1] + ".gch", lambda y: parse(y)[1] == inc[0][1] + ".gch")
                    gu, go, gi = parse(g)
                    xl = {"c": "c-header", "cc": "c++-header", "m": "objective-c-header", "mm": "objective-c++-header"}[lang]
                    if gi != [posixpath.join(gypdir, pre)] or log.index(g) > log.index(x):
                        raise Violation("%s: the prefix header is compiled from %r, or too late\n%s" % (what, gi, json.dumps(j)))
                    M.compare(what + ": precompiling its prefix header", gu,
                              [(base, None), (warn, base), (lng, None), (user, base + lng), (frame, None), (defs, None),
                               (incs, None), ([("-x", xl)], None)], j)
                    labels.append("precompiled header")
            M.compare(what, us, [(base, None), (warn, base), (lng, None), (user, base + lng), (frame, None), (defs, None),
                                 (incs, []), (head, None)], j)
            labels.append(e)
        prod = os.path.join(pdir, M.product(t))
        what = "%s: linking %s for %s" % (fmt, t["name"], conf)
        deps = closure(case, i)
        if t["type"] == "static_library":
            x = find(log, j, prod, lambda x: x["tool"] == "libtool" and parse(x)[1] == prod)
            if "-static" not in x["argv"]:
                raise Violation("%s: libtool without -static\n%s" % (what, json.dumps(j)))
            us = [u for u in M.units(x["argv"]) if u[0] not in ("-o", "-static") and not u[0].endswith(".o")]
            M.compare(what, us, [(M.shell(s.get("OTHER_LDFLAGS", [])), [])], j)
            ins = parse(x)[2]
            if sorted(ins) != sorted(objs):
                raise Violation("%s: the members are %r, not %r\n%s" % (what, ins, objs, json.dumps(j)))
        else:
            x = find(log, j, prod, lambda x: x["tool"] in ("mcc", "mcxx") and "-c" not in x["argv"] and parse(x)[1] == prod)
            us, out, ins = parse(x)
            if any(LANG[e] in ("cc", "mm") for e in t["sources"]) and x["tool"] != "mcxx":
                raise Violation("%s: C++ is linked with %s\n%s" % (what, x["tool"], json.dumps(j)))
            tab, user = M.link(case, s, t, gypdir, pdir, t["fdirs"], t["libdirs"])
            us = ["-Wl," + posixpath.normpath(posixpath.join(x["cwd"], u[0][4:])) if us[k - 1:k] == [("-Wl,-order_file",)] else u
                  for k, u in enumerate(us)]
            us = [(u,) if isinstance(u, str) else u for u in us]
            own, libs = [[w for u in M.libraries(s, x) for w in M.units(u[0].split(" ") if len(u) == 1 else list(u))]
                         for x in (t["libs"], all_libs(case, i))]
            if any(own.count(u) > 1 for u in own):
                own = []
            M.compare(what, us, [(tab, None), (user, []), (own, []), (minus(libs, own), None)], j)
            want = objs + [os.path.join(pdir, M.product(case["targets"][d])) for d in deps]
            if sorted(set(ins)) != sorted(want):
                raise Violation("%s: the inputs are %r, not %r\n%s" % (what, ins, want, json.dumps(j)))
            if max(k for k, a in enumerate(x["argv"]) if a.endswith(".o")) > min(
                    [k for k, a in enumerate(x["argv"]) if a in [u[0] for u in libs]] or [10 ** 6]):
                raise Violation("%s: a library precedes the objects\n%s" % (what, json.dumps(j)))
        seen.append(x)
        pos = log.index(x)
        for y in postbuilds(case, s, i, t, gypdir, prod, what):
            k = [n for n, z in enumerate(log) if n > pos and z["tool"] == y[0] and z["cwd"] == gypdir and norm(z, gypdir) == y[1]]
            if len(k) != 1:
                raise Violation("%s: %d commands like %r afterwards\n%s" % (what, len(k), y, json.dumps(j)))
            pos = k[0]
            labels.append(y[0])
            if y[0] == "mact":
                environment(case, s, t, log[pos]["env"], root, what)
        if not os.path.exists(prod):
            raise Violation("%s: no product\n%s" % (what, json.dumps(j)))
        labels.append(t["type"])
    n = sum(1 for z in log if z["tool"] in ("dsymutil", "strip", "mact"))
    m = sum(len(postbuilds(case, M.settings(case, t, conf), i, t, gypdir, "", "")) for i, t in enumerate(case["targets"]))
    if n != m:
        raise Violation("%s: %d postbuild commands instead of %d: %r\n%s" % (
            fmt, n, m, [z["tool"] for z in log], json.dumps(j)))
    return sorted(set(labels)) + [fmt]


def minus(a, b):
    r = list(a)
    for x in b:
        r.remove(x)
    return r


def norm(z, base):
    return [posixpath.normpath(posixpath.join(base, a)) if a and a[0] != "-" and ("/" in a or "." in a) and " " not in a else a
            for a in z["argv"]]


def postbuilds(case, s, i, t, gypdir, prod, what):
    r = []
    if s.get("GCC_GENERATE_DEBUGGING_SYMBOLS", "YES") == "YES" and t["type"] != "static_library" and \
            s.get("DEBUG_INFORMATION_FORMAT") == "dwarf-with-dsym":
        r.append(("dsymutil", [prod, "-o", prod + ".dSYM"]))
    if s.get("DEPLOYMENT_POSTPROCESSING") == "YES" and s.get("STRIP_INSTALLED_PRODUCT") == "YES":
        style = s.get("STRIP_STYLE", "all" if t["type"] == "executable" else "debugging")
        a = {"all": [], "non-global": ["-x"], "debugging": ["-S"]}[style] + s.get("STRIPFLAGS", "").split() + [prod]
        r.append(("strip", norm({"argv": a}, gypdir)))
    for k, kind in enumerate(t["post"]):
        a = [x.replace("${BUILT_PRODUCTS_DIR}", os.path.dirname(prod)).replace("${EXECUTABLE_NAME}", M.product(t))
             for x in post_argv(i, k, kind)[1:]]
        r.append(("mact", norm({"argv": a}, gypdir)))
    return r


MACHO = {"static_library": "staticlib", "shared_library": "mh_dylib", "loadable_module": "mh_bundle"}
KIND = {"executable": "tool", "static_library": "library.static", "shared_library": "library.dynamic",
        "loadable_module": "library.dynamic"}


def environment(case, s, t, env, root, what):
    prod = M.product(t)
    v = M.version(case)
    want = {"CONFIGURATION": case["conf"], "PRODUCT_NAME": t.get("product_name", t["name"]),
            "BUILT_PRODUCTS_DIR": os.path.join(root, "out", case["conf"]),
            "TARGET_BUILD_DIR": os.path.join(root, "out", case["conf"]),
            "SRCROOT": os.path.normpath(os.path.join(root, case["dir"])), "EXECUTABLE_NAME": prod, "EXECUTABLE_PATH": prod,
            "FULL_PRODUCT_NAME": prod, "PRODUCT_TYPE": "com.apple.product-type." + KIND[t["type"]],
            "XCODE_VERSION_ACTUAL": "%02d%s" % (v[0], (M.XCODES[case["xcode"]][0].split(".", 1)[1].replace(".", "") + "00")[:2])}
    want["SOURCE_ROOT"] = want["SRCROOT"]
    if t["type"] in MACHO:
        want["MACH_O_TYPE"] = MACHO[t["type"]]
    n = M.install_name(s, t)
    if n:
        want["LD_DYLIB_INSTALL_NAME"] = n
    if s.get("SDKROOT"):
        want["SDKROOT"] = M.sdk_path(s)
    for k, w in sorted(want.items()):
        g = env.get(k)
        if k in ("SRCROOT", "SOURCE_ROOT", "BUILT_PRODUCTS_DIR", "TARGET_BUILD_DIR") and g:
            g = posixpath.normpath(g)
        if g != w:
            raise Violation("%s: a postbuild runs with %s=%r instead of %r\n%s" % (what, k, env.get(k), w, json.dumps(case)))


def closure(case, i):
    """what a link takes in: shared libraries it depends on directly, static libraries also indirectly"""
    r, todo = [], list(case["targets"][i]["deps"])
    while todo:
        d = todo.pop()
        if d in r:
            continue
        r.append(d)
        if case["targets"][d]["type"] == "static_library":
            todo += case["targets"][d]["deps"]
    return r


def all_libs(case, i):
    r = list(case["targets"][i]["libs"])
    for d in closure(case, i):
        if case["targets"][d]["type"] == "static_library":
            r += case["targets"][d]["libs"]
    return r


CAMPAIGNS = [Campaign("flags", cases, evaluate, quick=400, shrink_seconds=60, shrink_evals=150)]
ASSUMPTIONS = ["Apple's tools are stand-ins that log their command lines; their answers about SDKs are fixed",
               "one architecture per target"]


def setup():
    gyprun.load()
    M.setup()
