"""C38: configure with a stand-in Python over generated options, node directories, project files, platforms and outcomes.

Oracle: the one call of gyp_main.py the stand-in recorded (arguments parsed as gyp reads them, environment) and the files in
build/ must be those that the documented options call for; a missing prerequisite means that there is no such call.
"""
import json
import os

from hypothesis import strategies as st

from vh import distserver, nodejs, standin
from vh.core import Campaign, Violation

ID = "C38"
LEVEL = "exploration"
RULE = ("a case is non-trivial when it has extra arguments, user include files, an outcome other than success or a node directory "
        "that is not simply given")

EXTRA = [[], [], [], ["-f", "ninja"], ["--format", "compile_commands_json"], ["--format=ninja"], ["-fninja"], ["--format=make"], ["-f", "make-linux"],
         ["-Dfoo=bar"], ["-D", "x=y z"], ["--no-duplicate-basename-check"], ["-Goutput_dir=elsewhere"], ["-I", "my.gypi"], ["--root-target=a"],
         ["--depth=x"], ["-Dlibrary=static_library"], ["other.gyp"], ["--check"], ["-dvariables"], ["é"], ["a b"], ["--form"], ["-Df=-f"]]
TARGETS = ["", "", "8.1.2", "v10.24.1", "3.3.1", "20.0.0", "0.12.18"]


@st.composite
def cases(draw):
    c = {"extra": draw(st.lists(st.sampled_from(EXTRA), max_size=3).map(lambda x: [a for l in x for a in l])),
         "nodedir": draw(st.sampled_from(["abs"] * 5 + ["tilde", "rel", "slash", "tildes", "overprefix", "overprefix", "installed", "installed", "download", "download", "tarball", "missing", "prefix", "prefix",
                                         "wrongprefix", "wrongprefix", "noprefix", "badtarget"])),
         "wrong": draw(st.integers(0, 3)), "pwd": draw(st.sampled_from([None, None, "stale", "unset"])), "js": draw(st.sampled_from([None, None, None, "jsc"])),
         "common": draw(st.sampled_from(["include", "include", "top", "both", "none"])),
         "target": draw(st.sampled_from(TARGETS)),
         "project": draw(st.lists(st.sampled_from(["config.gypi", "common.gypi", "binding.gyp", "my.gypi", "config.gypi/", "common.gypi->", "config.gypi=loop"]), max_size=3, unique=True)),
         "outcome": draw(st.sampled_from([0] * 8 + [1, 2, 77, "KILL", "TERM", "SEGV"])),
         "pythonpath": draw(st.sampled_from([None, None, "/x/y", "/a:/b"])), "pythonenv": draw(st.booleans()),
         "build": draw(st.sampled_from(["no", "no", "dir", "old", "file"])),
         "chdir": draw(st.sampled_from(["", "", "rel"])), "cli": draw(st.integers(0, 15)) == 9,
         "engine": draw(st.sampled_from([None, None, None, "chakracore"])), "py": draw(st.sampled_from(["3.12.1", "3.12.1", "3.6.0", "3.9.19"])),
         "name": draw(st.sampled_from(["proj", "proj", "sp ace", "pröj", "p#x", "$x"])),
         "platform": draw(st.sampled_from([None] * 9 + ["aix", "os400", "os390", "os390"]))}
    if c["platform"]:
        c["exp"] = draw(st.lists(st.integers(0, 5), max_size=3, unique=True))
        c["zos"] = draw(st.sampled_from(["env", "envbad", 0, 1, 2, 3, None]))
        c["bin"] = draw(st.sampled_from(["bin", "out/Release", "out/Debug"]))
        c["cli"] = False
    return c


_server = {}


def server():
    if _server.get("pid") != os.getpid():
        _server.update(pid=os.getpid(), s=distserver.Server())
    return _server["s"]


def teardown():
    if _server.get("pid") == os.getpid():
        _server["s"].close()


def parse(argv):
    """The way gyp reads its own arguments, for the options that matter."""
    out = {"files": [], "I": [], "D": [], "G": [], "f": [], "depth": [], "gen": [], "parallel": True, "other": []}
    i = 0
    val = {"-I": "I", "-D": "D", "-G": "G", "-f": "f", "-d": "other", "-R": "other"}
    long = {"--format": "f", "--depth": "depth", "--generator-output": "gen"}
    while i < len(argv):
        a = argv[i]
        if a in val or a in long:
            out[val.get(a) or long[a]].append(argv[i + 1] if i + 1 < len(argv) else None)
            i += 1
        elif a.split("=")[0] in long and "=" in a:
            out[long[a.split("=")[0]]].append(a.split("=", 1)[1])
        elif a[:2] in val and len(a) > 2 and not a.startswith("--"):
            out[val[a[:2]]].append(a[2:])
        elif a == "--no-parallel":
            out["parallel"] = False
        elif a.startswith("-"):
            out["other"].append(a)
        else:
            out["files"].append(a)
        i += 1
    return out


def evaluate(case):
    uid, d, binary = nodejs.unprivileged()
    code = os.path.dirname(os.path.dirname(binary))
    srv = server()
    proj, home, dev = os.path.join(d, case["name"]), os.path.join(d, "home"), os.path.join(d, "dev")
    nd = os.path.join(home, "nd")
    for q in (proj, home, nd):
        os.makedirs(q)
    for n in case["project"]:
        q = os.path.join(proj, n)
        if n.endswith("/"):
            if not os.path.lexists(q[:-1]):
                os.makedirs(q)
        elif n.endswith("->"):
            if not os.path.lexists(q[:-2]):
                os.symlink("nowhere", q[:-2])
        elif n.endswith("=loop"):
            if not os.path.lexists(q[:-5]):
                os.symlink(os.path.basename(q[:-5]), q[:-5])
        elif not os.path.lexists(q):
            open(q, "w").write("{}")
    bd = os.path.join(proj, "build")
    if case["build"] == "file":
        open(bd, "w").write("x")
    elif case["build"] != "no":
        os.makedirs(bd)
        if case["build"] == "old":
            open(os.path.join(bd, "config.gypi"), "w").write("old")
            open(os.path.join(bd, "Makefile"), "w").write("old")

    def headers(at):
        if case["common"] in ("include", "both"):
            os.makedirs(os.path.join(at, "include", "node"), exist_ok=True)
            open(os.path.join(at, "include", "node", "common.gypi"), "w").write("{}")
        if case["common"] in ("top", "both"):
            open(os.path.join(at, "common.gypi"), "w").write("{}")

    rec = os.path.join(d, "rec")
    py = os.path.join(d, "py bin", "python3")
    standin.make(py, rec, case["outcome"], python=case["py"])
    kind, target = case["nodedir"], case["target"]
    argv = ["configure", "--python=" + py, "--devdir=" + dev]
    version = (target or "v22.22.2").lstrip("v")
    if not target:
        version = nodejs_version()
    vdir = ("iojs-" if version.startswith("3.") else "") + version
    if target:
        argv.append("--target=" + target)
    config = None
    given = True
    expect_requests = []
    fails = case["build"] == "file" or any(os.path.islink(os.path.join(proj, n)) and os.readlink(os.path.join(proj, n)) == n
                                           for n in ("config.gypi", "common.gypi"))
    other = os.path.join(home, "x~y", "nd")
    root = nd
    answers = {}


    def versionfile(want):
        with open(os.path.join(nd, "include", "node", "node_version.h"), "w") as f:
            f.write("// #define NODE_MAJOR_VERSION 0\n#define NODE_NAME\n" + "".join(
                "#define NODE_%s_VERSION %s\n" % x for x in zip(("MAJOR", "MINOR", "PATCH"), want.split("."))))

    if kind in ("abs", "tilde", "rel", "slash", "tildes", "overprefix"):
        if kind in ("tildes", "overprefix"):
            os.makedirs(other)
            headers(other)
        else:
            headers(nd)
        arg = {"abs": nd, "tilde": "~/nd", "rel": os.path.relpath(nd, proj), "slash": nd + "/"}.get(kind, other)
        argv.append("--nodedir=" + arg)
        root = {"tilde": nd}.get(kind, arg)
        if kind == "overprefix":
            # headers for exactly this version are where node was installed, but others were asked for
            os.makedirs(os.path.join(nd, "include", "node"), exist_ok=True)
            versionfile(version)
            config = {"variables": {"use_prefix_to_find_headers": True, "node_prefix": nd}, "target_defaults": {"default_configuration": "Release"}}
            case = dict(case, cli=False)
    elif kind in ("prefix", "wrongprefix", "noprefix") and not case["cli"]:
        headers(nd)
        os.makedirs(os.path.join(nd, "include", "node"), exist_ok=True)
        want = version
        if kind == "wrongprefix":
            want = version.split(".")
            for i in range(3):
                if case["wrong"] in (i, 3):
                    want[i] = str(int(want[i]) + 1)
            want = ".".join(want)
        versionfile(want)
        config = {"variables": {"use_prefix_to_find_headers": kind != "noprefix", "node_prefix": nd}, "target_defaults": {"default_configuration": "Release"}}
        given = kind == "prefix"
    else:
        given = False
        if kind == "badtarget":
            argv.append("--target=nonsense")
            fails = True
    if not given and kind != "badtarget":
        root = os.path.join(dev, vdir)
        if kind in ("installed", "wrongprefix"):
            os.makedirs(root)
            open(os.path.join(root, "installVersion"), "w").write("11\n")
            headers(root)
        else:
            ent = [["include/node/node.h", "file", "x"]]
            if case["common"] in ("include", "both"):
                ent.append(["include/node/common.gypi", "file", "{}"])
            if case["common"] in ("top", "both"):
                ent.append(["common.gypi", "file", "{}"])
            tar = distserver.tarball(ent, "r")
            name = ("iojs" if vdir != version else "node") + "-v%s-headers.tar.gz" % version
            if kind == "tarball":
                open(os.path.join(d, "t.tgz"), "wb").write(tar)
                argv.append("--tarball=" + os.path.join(d, "t.tgz"))
                os.makedirs(root)
                open(os.path.join(root, "installVersion"), "w").write("11\n")
            elif kind != "missing":
                answers = {"/v%s/%s" % (version, name): {"body": tar},
                           "/v%s/SHASUMS256.txt" % version: {"body": ("%s  %s\n" % (distserver.sha(tar), name)).encode()}}
                expect_requests = list(answers)
            else:
                fails = True
    argv.append("--dist-url=" + srv.url)
    srv.reset(answers)
    if case["engine"]:
        argv.append("--node_engine=" + case["engine"])
    env = {"HOME": home, "TMPDIR": d, "PYTHONPATH": case["pythonpath"], "PYTHON": "/wrong/python" if case["pythonenv"] else None}
    if case["pwd"]:
        env["PWD"] = {"stale": home}.get(case["pwd"])
    proc = None
    exp = zos = None
    plat = case["platform"]
    if plat:
        nr = os.path.join(d, "noderoot")
        os.makedirs(os.path.join(nr, case["bin"]))
        ext = "x" if plat == "os390" else "exp"
        cand = (["out/Release/lib.target/libnode", "out/Debug/lib.target/libnode", "out/Release/obj.target/libnode", "out/Debug/obj.target/libnode",
                 "lib/libnode"] if plat == "os390" else ["include/node/node", "out/Release/node", "out/Debug/node", "node"])
        for i in case["exp"]:
            if i < len(cand):
                q = os.path.join(nr, cand[i] + "." + ext)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write("")
                exp = min(i, exp if exp is not None else 99)
        exp = os.path.join(nr, cand[exp] + "." + ext) if exp is not None else None
        if exp is None:
            fails = True
        if plat == "os390":
            zc = ["include/node/zoslib", "include/zoslib", "zoslib/include", "install/include/node/zoslib"]
            z = case["zos"]
            if z in ("env", "envbad"):
                q = os.path.join(d, "zi")
                os.makedirs(q)
                env["ZOSLIB_INCLUDES"] = q
            elif z is not None:
                q = os.path.join(nr, zc[z])
                os.makedirs(q)
            if z not in (None, "envbad"):
                open(os.path.join(q, "zos-base.h"), "w").write("")
                zos = q
            elif int(version.split(".")[0]) >= 16:
                fails = True
        proc = {"platform": plat, "execPath": os.path.join(nr, case["bin"], "node")}
    cwd = proj
    if case["chdir"]:
        cwd = d
        argv += ["-C", case["name"]]
    if case["extra"]:
        argv += ["--loglevel=silent", "--"] + case["extra"]
    nodejs.own(d, uid)
    isdir = "config.gypi/" in case["project"]
    if case["cli"]:
        r = nodejs.cli(argv, cwd, env, uid=uid, binary=binary)
        failed = "exit status %s: %s" % (r.rc, r.err) if r.rc else None
        if r.rc not in (0, 1):
            raise Violation("configure ends with status %s\n%s" % (r.rc, r.text()), sig="exit")
    else:
        r = nodejs.value("run", uid=uid, binary=binary, argv=argv, cwd=cwd, env={k: v for k, v in env.items()}, proc=proc, config=config,
                         props={"jsEngine": case["js"]} if case["js"] else None)
        failed = r.get("failed")
    calls = standin.calls(rec)
    detail = "\n%s\n$ node-gyp %s\nfailed: %s\ncalls: %s" % (json.dumps(case), " ".join(argv), (failed or "no")[-1500:], [c[1] for c in calls])
    got = [q["target"] for q in srv.requests]
    labels = [kind, "fails" if fails else "runs", "outcome:%s" % case["outcome"]] + ([plat] if plat else [])

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    if sorted(got) != sorted(expect_requests) and not fails:
        bad("requests made: %s, expected %s" % (got, expect_requests), "requests")
    if fails:
        if failed is None:
            bad("configure succeeded although a prerequisite is missing", "prerequisite")
        if calls:
            bad("the generator was started although a prerequisite is missing", "prerequisite")
        return {"nontrivial": True, "labels": labels}
    if len(calls) != 1:
        bad("the generator was started %d times" % len(calls), "calls")
    if (failed is None) != (case["outcome"] == 0):
        bad("the generator ended with %s" % case["outcome"], "outcome")
    ccwd, args, cenv = calls[0]
    if os.path.realpath(ccwd) != os.path.realpath(proj):
        bad("started in %s" % ccwd, "cwd")
    if args[0] != os.path.join(code, "gyp", "gyp_main.py"):
        bad("started %s" % args[0], "script")
    a, u = parse(args[1:]), parse(case["extra"])
    if a["files"] != ["binding.gyp"] + u["files"]:
        bad("project files %s" % a["files"], "files")
    if a["f"] != (u["f"] or ["make"]):
        bad("formats %s, expected %s" % (a["f"], u["f"] or ["make"]), "format")
    common = os.path.normpath(os.path.join(proj, root, "include/node/common.gypi"))
    if case["common"] in ("top", "none"):
        common = os.path.normpath(os.path.join(proj, root, "common.gypi"))
    inc = u["I"] + [os.path.join(bd, "config.gypi")]
    inc += [os.path.join(proj, n) for n in ("config.gypi", "common.gypi") if os.path.exists(os.path.join(proj, n))]
    inc += [os.path.join(code, "addon.gypi"), common]
    if a["I"] != inc:
        bad("includes %s, expected %s" % (a["I"], inc), "includes")
    name = ("iojs" if vdir != version else "node") + ".lib"
    lib = os.path.normpath(os.path.join(root, "$(Configuration)" if given else "<(target_arch)", name))
    want = {"library": "shared_library", "visibility": "default", "node_root_dir": root, "node_gyp_dir": code, "node_lib_file": lib, "module_root_dir": proj,
            "node_engine": case["engine"] or (None if case["cli"] else case["js"]) or "v8"}
    if exp:
        want["node_exp_file"] = exp
    if zos:
        want["zoslib_include_dir"] = zos
    defs = {}
    for x in u["D"]:
        k, _, v = x.partition("=")
        defs[k] = v
    defs.update(want)
    have = {}
    for x in a["D"]:
        k, _, v = x.partition("=")
        have[k] = v
    if have != defs:
        bad("definitions differ (found, expected): %s" % {k: (have.get(k), defs.get(k)) for k in set(have) | set(defs) if have.get(k) != defs.get(k)}, "defines")
    if a["depth"][-1:] != ["."] or a["parallel"] or a["gen"][-1:] != ["build"] or a["G"] != u["G"] + ["output_dir=."]:
        bad("depth %s, parallel %s, output %s, flags %s" % (a["depth"], a["parallel"], a["gen"], a["G"]), "fixed")
    if a["other"] != u["other"]:
        bad("other arguments %s, expected %s" % (a["other"], u["other"]), "extra")
    lib = os.path.join(code, "gyp", "pylib")
    if cenv.get("PYTHONPATH") != lib + (":" + case["pythonpath"] if case["pythonpath"] else ""):
        bad("PYTHONPATH is %r" % cenv.get("PYTHONPATH"), "pythonpath")
    if cenv.get("PYTHON") != py:
        bad("PYTHON is %r" % cenv.get("PYTHON"), "python")
    cfg = open(os.path.join(bd, "config.gypi")).read()
    try:
        cfg = json.loads(cfg[cfg.index("\n", cfg.index("#")):])
    except ValueError:
        bad("build/config.gypi is no JSON after its comment: %r" % cfg[:300], "config")
    if cfg["variables"].get("nodedir") != root or cfg["variables"].get("python") != py:
        bad("build/config.gypi has nodedir %r and python %r" % (cfg["variables"].get("nodedir"), cfg["variables"].get("python")), "config")
    return {"nontrivial": bool(case["extra"] or case["project"] or case["outcome"] or kind != "abs" or isdir), "labels": labels}


_version = []


def nodejs_version():
    if not _version:
        import subprocess
        _version.append(subprocess.run([nodejs.NODE, "-v"], stdout=subprocess.PIPE, text=True).stdout.strip().lstrip("v"))
    return _version[0]


PART = st.sampled_from(["usr", "opt", "node", "deps", "bin", "Release", "node_modules", "a b", "é", "lib", "npm", "out"])


@st.composite
def roots(draw):
    base = "/" + "/".join(draw(st.lists(PART, min_size=1, max_size=3)))
    win = draw(st.booleans())
    how = draw(st.sampled_from(["deps", "install", "bin", "release", "debug", "nowhere", "files", "files"]))
    return {"base": base, "win": win, "how": how, "files": draw(st.lists(st.sampled_from(["file", "dir", "locked", "none", "link", "dangling", "nested"]), min_size=1,
                                                                         max_size=5))}


def locate(case):
    if case["how"] == "files":
        uid, d, binary = nodejs.unprivileged()
        want, names = None, []
        for i, k in enumerate(case["files"]):
            n = "s/f%d" % i if k == "nested" else "f%d" % i
            q = os.path.join(d, n)
            names.append(n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if k in ("file", "locked", "nested"):
                open(q, "w").write("x")
            elif k == "dir":
                os.mkdir(q)
            elif k in ("link", "dangling"):
                os.symlink("s" if k == "link" else "nowhere", q)
                os.makedirs(os.path.join(d, "s"), exist_ok=True)
            if want is None and k in ("file", "dir", "link", "nested"):
                want = q
        nodejs.own(d, uid)
        for i, k in enumerate(case["files"]):
            if k == "locked":
                os.chmod(os.path.join(d, "f%d" % i), 0)
        got = nodejs.value("accessible", uid=uid, binary=binary, dir=d, candidates=names)
        if got != want:
            raise Violation("among %s the first that can be read is %s, found %s" % (list(zip(names, case["files"])), want, got), sig="accessible")
        return {"nontrivial": len(names) > 1, "labels": ["files"]}
    base, win, how = case["base"], case["win"], case["how"]
    elsewhere = "/x/y/z/w/lib"
    script, execp, want = elsewhere, base + "/elsewhere/node", base
    if how == "deps":
        script = base + "/deps/npm/node_modules/node-gyp/lib"
    elif how == "install":
        script = base + ("" if win else "/lib") + "/node_modules/npm/node_modules/node-gyp/lib"
    elif how == "bin":
        execp = base + "/bin/node"
    elif how in ("release", "debug"):
        execp = base + ("" if win else "/out") + ("/Release" if how == "release" else "/Debug") + "/node"
    else:
        want = ""
    got = nodejs.value("nodeRoot", script=script, proc={"platform": "win32" if win else "linux", "execPath": execp})
    if got.rstrip("/") != want:
        raise Violation("script in %s, node at %s (%s): root is %r, expected %r" % (script, execp, "win32" if win else "linux", got, want), sig="root")
    return {"nontrivial": True, "labels": [how]}


# on Windows: the Visual Studio that was found decides the environment and the saved configuration

@st.composite
def wincases(draw):
    extra = [["-f", "ninja"], ["--format=msvs"], ["-fmake"], ["--format=make"], ["-f", "make-linux"], ["--format", "make"], ["-Dx=y"], ["-f", "msvs", "-Da"], ["-Df=make"], ["make"]]
    return {"extra": draw(st.lists(st.sampled_from([[]] * 4 + extra), max_size=2).map(lambda x: [a for l in x for a in l])),
            "year": draw(st.sampled_from([2013, 2015, 2017, 2019, 2022, 2026])), "vs": draw(st.sampled_from(["found"] * 7 + ["none"])),
            "sdk": draw(st.sampled_from([None, "10.0.22621.0"])), "toolset": draw(st.sampled_from(["v141", "v143", "ClangCL"])),
            "want": draw(st.sampled_from([None, None, "2019", "C:\\VS"])), "given": draw(st.booleans()), "target": draw(st.sampled_from(["", "8.1.2", "20.0.0"])),
            "arch": draw(st.sampled_from(["x64", "ia32", "arm64"])), "outcome": draw(st.sampled_from([0, 0, 0, 1, "KILL"])), "name": draw(st.sampled_from(["proj", "sp ace"])),
            "pythonpath": draw(st.sampled_from([None, "C:\\x;D:\\y"])), "clang": draw(st.sampled_from([None, 0, 1])), "minor": draw(st.sampled_from([8, 9, 11]))}


def windows(case):
    uid, d, binary = nodejs.unprivileged()
    code = os.path.dirname(os.path.dirname(binary))
    proj, home, dev = os.path.join(d, case["name"]), os.path.join(d, "home"), os.path.join(d, "dev")
    version = case["target"] or nodejs_version()
    root = os.path.join(home, "n\\d\\e") if case["given"] else os.path.join(dev, version)
    for q in (proj, home, root):
        os.makedirs(q)
    if not case["given"]:
        os.makedirs(os.path.join(root, case["arch"]))
        open(os.path.join(root, case["arch"], "node.lib"), "w").write("x")
        open(os.path.join(root, "installVersion"), "w").write("11\n")
    rec, py = os.path.join(d, "rec"), os.path.join(d, "py", "python.exe")
    standin.make(py, rec, case["outcome"], python="3.12.1")
    argv = ["configure", "--python=" + py, "--devdir=" + dev, "--dist-url=http://127.0.0.1:1", "--arch=" + case["arch"]]
    if case["given"]:
        argv.append("--nodedir=" + root)
    if case["target"]:
        argv.append("--target=" + case["target"])
    if case["want"]:
        argv.append("--msvs-version=" + case["want"])
    if case["extra"]:
        argv += ["--"] + case["extra"]
    year = case["year"]
    major = {2013: 12, 2015: 14, 2017: 15, 2019: 16, 2022: 17, 2026: 18}[year]
    info = {"path": "C:\\VS%d" % year, "msBuild": "C:\\VS\\MSBuild.exe", "toolset": case["toolset"], "sdk": case["sdk"], "versionYear": year, "versionMajor": major,
            "versionMinor": case["minor"]}
    if case["vs"] == "none":
        info = {"error": "Could not find any Visual Studio installation to use"}
    base = {"variables": {"clang": case["clang"]} if case["clang"] is not None else {}, "target_defaults": {"default_configuration": "Release"}}
    nodejs.own(d, uid)
    r = nodejs.value("run", uid=uid, binary=binary, start_env={"VERIF_PLATFORM": "win32"}, argv=argv, cwd=proj, config=base, vsInfo=info,
                     proc={"platform": "win32", "arch": "x64"}, env={"HOME": home, "TMPDIR": d, "PYTHONPATH": case["pythonpath"]})
    failed = r.get("failed")
    calls = standin.calls(rec)
    detail = "\n%s\n$ node-gyp %s\nfailed: %s\ncalls: %s" % (json.dumps(case), " ".join(argv), (failed or "no")[-1500:], [c[1] for c in calls])

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    u = parse(case["extra"])
    make = any(f.startswith("make") for f in u["f"] if f)
    labels = ["win", "make" if make else "vs", case["vs"]]
    # with several formats whether a Visual Studio is needed is not specified
    mixed = make and len(u["f"]) > 1
    if not mixed and r["vsCalls"] != ([] if make else [[version, case["want"]]]):
        bad("the search for Visual Studio was asked %s" % r["vsCalls"], "search")
    if case["vs"] == "none" and not make:
        if failed is None or calls:
            bad("configure went on without a Visual Studio", "prerequisite")
        return {"nontrivial": True, "labels": labels}
    if mixed:
        return {"nontrivial": False, "labels": labels}
    if len(calls) != 1:
        bad("the generator was started %d times" % len(calls), "calls")
    if (failed is None) != (case["outcome"] == 0):
        bad("the generator ended with %s" % case["outcome"], "outcome")
    _, args, env = calls[0]
    a = parse(args[1:])
    if a["f"] != (u["f"] or ["msvs"]):
        bad("formats %s, expected %s" % (a["f"], u["f"] or ["msvs"]), "format")
    if a["files"] != ["binding.gyp"] + u["files"]:
        bad("project files %s" % a["files"], "files")
    bd = os.path.join(proj, "build")
    if a["gen"][-1:] != [bd] or a["depth"][-1:] != ["."] or a["parallel"] or "output_dir=." not in a["G"]:
        bad("output %s, depth %s, flags %s" % (a["gen"], a["depth"], a["G"]), "fixed")
    defs = dict(x.split("=", 1) for x in a["D"] if "=" in x)
    lib = os.path.normpath(os.path.join(root, "$(Configuration)" if case["given"] else "<(target_arch)", "node.lib"))
    want = {"node_lib_file": lib.replace("\\", "\\\\"), "node_root_dir": root, "module_root_dir": proj, "node_gyp_dir": code, "library": "shared_library",
            "visibility": "default", "node_engine": "v8"}
    diff = {k: (defs.get(k), v) for k, v in want.items() if defs.get(k) != v}
    if diff:
        bad("definitions differ (found, expected): %s" % diff, "defines")
    pylib = os.path.join(code, "gyp", "pylib")
    if env.get("PYTHONPATH") != pylib + (";" + case["pythonpath"] if case["pythonpath"] else ""):
        bad("PYTHONPATH is %r" % env.get("PYTHONPATH"), "pythonpath")
    text = open(os.path.join(bd, "config.gypi")).read()
    cfg = json.loads(text[text.index("\n"):])
    v, t = cfg["variables"], cfg["target_defaults"]
    if v.get("python") != py or v.get("nodedir") != root or v.get("target_arch") != case["arch"] or case["clang"] is not None and v.get("clang") != 0:
        bad("saved variables %s" % v, "config")
    if not make:
        if env.get("GYP_MSVS_VERSION") != str(min(year, 2015)) or env.get("GYP_MSVS_OVERRIDE_PATH") != info["path"]:
            bad("GYP_MSVS_VERSION %r, GYP_MSVS_OVERRIDE_PATH %r" % (env.get("GYP_MSVS_VERSION"), env.get("GYP_MSVS_OVERRIDE_PATH")), "environment")
        asm = 1 if case["arch"] == "arm64" and (major, case["minor"]) >= (15, 9) else None
        have = [v.get("msbuild_path"), t.get("msbuild_toolset"), t.get("msvs_windows_target_platform_version"), t.get("msvs_enable_marmasm")]
        if have != [info["msBuild"], case["toolset"], case["sdk"], asm]:
            bad("saved Visual Studio settings %s" % have, "config")
    return {"nontrivial": True, "labels": labels}


CAMPAIGNS = [Campaign("configure", cases, evaluate, quick=2000, thorough=40000, shrink_evals=150),
             Campaign("windows", wincases, windows, quick=900, thorough=20000, shrink_evals=150),
             Campaign("locate", roots, locate, quick=1000, thorough=20000)]
