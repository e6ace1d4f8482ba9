"""C39: build with a stand-in make over generated options, saved configurations, tool outcomes and leftovers.

Oracle: the one call the stand-in recorded, what it saw on its path while it ran, the tree left in build/ and the result of
the command, against what the options and the saved configuration call for.
"""
import json
import os

from hypothesis import strategies as st

from vh import nodejs, standin
from vh.core import Campaign, Violation

ID = "C39"
LEVEL = "fault_enumeration"
RULE = "a case is non-trivial when it has an option, a target, a failing or interfering tool or a saved value that is not the default"

TARGETS = ["all", "addon", "a b", "é", "obj/x.o", "CC=gcc -O0", "CXXFLAGS=-g  -O1", "-k", "x'y", "$(X)", "--trace", "builds"]
OUTCOMES = [0] * 8 + [1, 2, 3, 126, 127, 255, "KILL", "TERM", "SEGV", "INT", "ABRT", "HUP"]


def cases():
    return st.fixed_dictionaries({
        "default": st.sampled_from(["Release", "Release", "Debug", "Debug", "", None, "Custom"]),
        "debug": st.sampled_from([None, None, None, "--debug", "--no-debug", "--release", "-d=0"]),
        "jobs": st.sampled_from([None, None, "1", "4", "16", "max", "MAX", "Max", "0", "-3", "abc", "4x", "3.7", ""]),
        "how": st.sampled_from(["--jobs=", "-j", "env", "npm"]), "other": st.sampled_from([None, None, "9"]),
        "level": st.sampled_from([None, None, "--verbose", "--silly", "--loglevel=verbose", "--loglevel=info", "--silent", "--loglevel=silly", "--loglevel=error"]),
        "targets": st.lists(st.sampled_from(TARGETS), max_size=3),
        "make": st.sampled_from(["path", "path", "path", "--make", "--makepath", "MAKE", "MAKEpath", "both", "missing", "missing2", "notexec", "npm"]),
        "outcome": st.sampled_from(OUTCOMES), "act": st.sampled_from([None] * 8 + ["removes bins", "removes build", "fills bins", "replaces link"]),
        "config": st.sampled_from(["good"] * 12 + ["none", "nobuild", "broken", "empty", "nocomment"]),
        "left": st.sampled_from([None, None, None, "link", "dangling", "file", "dir"]), "python": st.sampled_from(["py", "py", "py th", "gone", "h#ash\\n"]),
        "chdir": st.booleans(), "name": st.sampled_from(["proj", "proj", "sp ace", "pröj"]), "cli": st.integers(0, 11).map(lambda x: x == 5),
        "twice": st.integers(0, 9).map(lambda x: x == 4)})


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds + fs:
            q = os.path.join(p, n)
            out[os.path.relpath(q, d)] = "->" + os.readlink(q) if os.path.islink(q) else "dir" if os.path.isdir(q) else open(q).read()
    return out


def evaluate(case):
    uid, d, binary = nodejs.unprivileged()
    proj, bins, alt = os.path.join(d, case["name"]), os.path.join(d, "bin"), os.path.join(d, "alt")
    for q in (proj, bins, alt):
        os.makedirs(q)
    bd = os.path.join(proj, "build")
    act = {None: "", "removes bins": "rm -r build/node_gyp_bins\n", "removes build": "rm -r build\n", "fills bins": "echo x > build/node_gyp_bins/other\n",
           "replaces link": "rm build/node_gyp_bins/python3\necho x > build/node_gyp_bins/python3\n"}[case["act"]]
    rec = os.path.join(d, "rec")

    def maker(name, where=bins):
        extra = '{ echo %s; readlink build/node_gyp_bins/python3; command -v python3; ls build/node_gyp_bins; } > "%s.$n.py" 2>&1\n%s' % (name, rec, act)
        standin.make(os.path.join(where, name), rec, case["outcome"], extra=extra)
        return os.path.join(where, name)

    py = os.path.join(d, case["python"], "python3x")
    if case["python"] != "gone":
        os.makedirs(os.path.dirname(py))
        open(py, "w").write("#!/bin/sh\nexit 0\n")
        os.chmod(py, 0o755)
    cfg = {"target_defaults": {"cflags": []}, "variables": {"target_arch": "x64", "nodedir": "/n", "python": py}}
    if case["default"] is not None:
        cfg["target_defaults"]["default_configuration"] = case["default"]
    fails = False
    if case["config"] != "nobuild":
        os.makedirs(bd)
        open(os.path.join(bd, "Makefile"), "w").write("all:\n")
        if case["config"] != "none":
            text = json.dumps(cfg, indent=2)
            open(os.path.join(bd, "config.gypi"), "w").write(
                {"broken": "# x\n{ not json", "empty": "", "nocomment": text}.get(case["config"], "# Do not edit. File was generated by node-gyp's \"configure\" step\n" + text + "\n"))
        nb = os.path.join(bd, "node_gyp_bins")
        if case["left"] == "dir":
            os.makedirs(nb)
        elif case["left"]:
            os.makedirs(nb)
            q = os.path.join(nb, "python3")
            if case["left"] == "file":
                open(q, "w").write("old")
            else:
                os.symlink("/usr/bin/env" if case["left"] == "link" else "/gone/python", q)
    if case["config"] not in ("good", "nocomment") or case["config"] == "nocomment" and "#" in py:
        fails = True
    env = {"HOME": d, "TMPDIR": d, "PATH": bins + ":/usr/bin:/bin", "MAKE": None, "JOBS": None}
    argv = ["build"]
    name = None
    m = case["make"]
    if m == "path":
        name = maker("make")
    elif m == "--make":
        maker("make")
        name = maker("gmake")
        argv.append("--make=gmake")
    elif m == "--makepath":
        maker("make")
        name = maker("my make", alt)
        argv.append("--make=" + name)
    elif m == "MAKE":
        maker("make")
        name = maker("bmake")
        env["MAKE"] = "bmake"
    elif m == "MAKEpath":
        maker("make")
        name = maker("mk", alt)
        env["MAKE"] = name
    elif m == "both":
        maker("bmake")
        name = maker("gmake")
        env["MAKE"] = "bmake"
        argv.append("--make=gmake")
    elif m == "npm":
        maker("make")
        name = maker("gmake")
        env["npm_config_make"] = "gmake"
    elif m == "missing":
        argv.append("--make=no-such-make-anywhere")
        fails = True
    elif m == "missing2":
        env["MAKE"] = os.path.join(alt, "nothing")
        fails = True
    else:
        # found, but no program that can be started
        q = os.path.join(alt, "text")
        open(q, "w").write("this is no program\n")
        os.chmod(q, 0o755)
        argv.append("--make=" + q)
        fails = True
    jobs = case["jobs"]
    if jobs is not None:
        if case["how"] == "npm" or jobs.startswith("-") and case["how"] != "env":
            # nopt takes -3 for another option
            env["npm_config_jobs"] = jobs
        elif case["how"] == "env":
            env["JOBS"] = jobs
        elif case["how"] == "-j":
            argv += ["-j", jobs]
        else:
            argv.append("--jobs=" + jobs)
        if case["other"] and case["how"] != "env" and jobs != "":
            env["JOBS"] = case["other"]
    if case["debug"]:
        argv.append("--debug" if case["debug"] == "-d=0" else case["debug"])
    if case["level"]:
        argv.append(case["level"])
    if jobs == "" and case["how"] == "-j":
        jobs = None
        argv = argv[:argv.index("-j")] + argv[argv.index("-j") + 2:]
    cwd = proj
    if case["chdir"]:
        cwd = d
        argv += ["-C", case["name"]]
    targets = case["targets"]
    if targets:
        argv += ["--"] + targets
    nodejs.own(d, uid)
    before = tree(bd) if os.path.isdir(bd) else {}
    runs = 2 if case["twice"] and not fails and case["outcome"] == 0 and case["act"] != "removes build" else 1
    for i in range(runs):
        if case["cli"] or m == "notexec":
            r = nodejs.cli(argv, cwd, env, uid=uid, binary=binary, timeout=30)
            failed = "exit status %s: %s" % (r.rc, r.err) if r.rc else None
        else:
            r = nodejs.value("run", uid=uid, binary=binary, argv=argv, cwd=cwd, env=env)
            failed = r.get("failed")
    calls = standin.calls(rec)
    after = tree(bd) if os.path.isdir(bd) else {}
    detail = "\n%s\n$ node-gyp %s\nfailed: %s\ncalls: %s" % (json.dumps(case), " ".join(argv), (failed or "no")[-1500:], [c[1] for c in calls])

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    labels = ["fails" if fails else "runs", "outcome:%s" % case["outcome"], "make:" + m] + ([case["act"]] if case["act"] else [])
    cleaned = {k: v for k, v in before.items() if not k.startswith("node_gyp_bins")}
    if fails:
        if failed is None:
            bad("build succeeded although it cannot run", "succeeds")
        if calls:
            bad("make was started", "started")
        if m == "notexec" and case["config"] == "good" and any(k.startswith("node_gyp_bins") for k in after):
            bad("left behind: %s" % sorted(after), "left")
        if case["config"] == "none" and "configure" not in failed and not (case["level"] == "--silent" and (case["cli"] or m == "notexec")):
            bad("the message does not tell to configure first", "message")
        return {"nontrivial": True, "labels": labels}
    if len(calls) != runs:
        bad("make was started %d times" % len(calls), "calls")
    out = case["outcome"]
    if (failed is None) != (out == 0):
        bad("make ended with %s" % out, "result")
    quiet = case["level"] == "--silent" and case["cli"]
    if failed is not None and not quiet:
        say = str(out) if isinstance(out, int) else "SIG" + out
        if say not in failed:
            bad("the failure does not name %s" % say, "message")
    for i in range(runs):
        ccwd, args, cenv = calls[i]
        saw = open("%s.%d.py" % (rec, i)).read().split("\n")
        if saw[0] != os.path.basename(name):
            bad("%s was started, expected %s" % (saw[0], name), "which")
        if os.path.realpath(ccwd) != os.path.realpath(proj):
            bad("started in %s" % ccwd, "cwd")
        if saw[1] != py:
            bad("python3 beside the build leads to %r, expected %r" % (saw[1], py), "python")
        if case["python"] != "gone" and saw[2] != os.path.join(bd, "node_gyp_bins", "python3"):
            bad("python3 on the path is %r" % saw[2], "python")
        if cenv["PATH"].split(":")[-3:] != [bins, "/usr/bin", "/bin"]:
            bad("PATH is %r" % cenv["PATH"], "path")
        k = args.index("-C") if "-C" in args else -1
        if k < 0 or args[k + 1:k + 2] != ["build"]:
            bad("not run in build: %s" % args, "dir")
        rest = args[:k] + args[k + 2:]
        want_jobs = None
        eff = jobs or (env["JOBS"] if case["other"] or case["how"] == "env" else None)
        if eff:
            n = eff.split(".")[0]
            n = int(n) if n.lstrip("-").isdigit() else 4 if n == "4x" else None
            want_jobs = str(os.cpu_count()) if eff.upper() == "MAX" else str(n) if n and n > 0 else None
        have = None
        if "--jobs" in rest:
            j = rest.index("--jobs")
            have = rest[j + 1]
            rest = rest[:j] + rest[j + 2:]
        if want_jobs == str(os.cpu_count()) and eff.upper() == "MAX" and have is not None and int(have) >= 1:
            pass
        elif have != want_jobs:
            bad("jobs %r, expected %r" % (have, want_jobs), "jobs")
        kind = {None: case["default"] or "Release", "--debug": "Debug", "-d=0": "Debug"}.get(case["debug"], "Release")
        if rest.count("BUILDTYPE=" + kind) != 1 or sum(a.startswith("BUILDTYPE=") for a in rest) != 1:
            bad("configuration: %s, expected %s" % (rest, kind), "configuration")
        rest.remove("BUILDTYPE=" + kind)
        verbose = case["level"] in ("--verbose", "--silly", "--loglevel=verbose", "--loglevel=silly")
        if ("V=1" in rest) != verbose or rest.count("V=1") > 1:
            bad("V=1 expected: %s" % verbose, "verbose")
        rest = [a for a in rest if a != "V=1"]
        if rest != targets:
            bad("targets %s, expected %s" % (rest, targets), "targets")
    if case["act"] == "removes build":
        cleaned = {}
    if after != cleaned:
        bad("left in build: %s, expected %s" % (sorted(after), sorted(cleaned)), "left")
    return {"nontrivial": bool(jobs or case["debug"] or targets or out or case["act"] or case["left"] or case["default"] != "Release"), "labels": labels}


# on Windows: MSBuild from the saved configuration with a solution, or make when the project was generated for make

def wincases():
    return st.fixed_dictionaries({
        "default": st.sampled_from(["Release", "Release", "Debug", "", None, "Custom"]), "debug": st.sampled_from([None, None, "--debug", "--no-debug"]),
        "arch": st.sampled_from(["x64", "ia32", "arm64", "arm", "X64", "ARM64", "x86", "mips", "Arm"]),
        "jobs": st.sampled_from([None, None, "1", "4", "max", "MAX", "0", "abc", "4x", "7.9"]),
        "level": st.sampled_from([None, None, "--verbose", "--silly", "--loglevel=info", "--silent", "--loglevel=error"]),
        "targets": st.lists(st.sampled_from(["addon", "a b", "Clean", "é", "x.slnx", "a.sln.b", "p:q", "my own.sln", "x"]), max_size=3),
        "files": st.sampled_from([["binding.sln"]] * 4 + [["a.sln", "b.sln"], ["a b.sln"], ["Makefile"], ["binding.sln", "Makefile"], ["x.target.mk"], [], ["sub/x.sln"], ["x.vcxproj"]]),
        "solution": st.sampled_from([None, None, None, "other.sln", "build/sub dir/x.sln"]), "msbuild": st.sampled_from(["yes"] * 6 + ["missing", "empty", "gone"]),
        "make": st.sampled_from(["path", "path", "--make", "MAKE"]), "outcome": st.sampled_from(OUTCOMES), "name": st.sampled_from(["proj", "sp ace", "pröj"])})


def windows(case):
    uid, d, binary = nodejs.unprivileged()
    proj, bins = os.path.join(d, case["name"]), os.path.join(d, "bin")
    bd = os.path.join(proj, "build")
    os.makedirs(bd)
    os.makedirs(bins)
    rec = os.path.join(d, "rec")
    ms = os.path.join(d, "MS Build", "MSBuild.exe")
    for q in (ms, os.path.join(bins, "make"), os.path.join(bins, "gmake"), os.path.join(bins, "msbuild")):
        standin.make(q, rec, case["outcome"], extra="echo %s > '%s'.which\n" % (os.path.basename(q), rec))
    if case["msbuild"] == "gone":
        os.unlink(ms)
    cfg = {"target_defaults": {"cflags": []}, "variables": {"target_arch": case["arch"], "nodedir": "C:\\n", "python": "py.exe"}}
    if case["msbuild"] != "missing":
        cfg["variables"]["msbuild_path"] = ms if case["msbuild"] != "empty" else ""
    if case["default"] is not None:
        cfg["target_defaults"]["default_configuration"] = case["default"]
    open(os.path.join(bd, "config.gypi"), "w").write("# Do not edit.\n" + json.dumps(cfg))
    for f in case["files"]:
        q = os.path.join(bd, f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w").write("x")
    env = {"HOME": d, "TMPDIR": d, "PATH": bins + ":/usr/bin:/bin", "MAKE": None, "JOBS": None}
    argv = ["build"]
    tool = "make"
    if case["make"] == "--make":
        argv.append("--make=gmake")
        tool = "gmake"
    elif case["make"] == "MAKE":
        env["MAKE"] = tool = "gmake"
    slns = [f for f in case["files"] if f.endswith(".sln") and "/" not in f]
    msvs = bool(slns)
    fails = False
    if msvs:
        tool = "MSBuild.exe"
        fails = case["msbuild"] != "yes"
    elif not any(f == "Makefile" or f.endswith(".mk") for f in case["files"]):
        fails = True
    if case["jobs"]:
        argv.append("--jobs=" + case["jobs"])
    for k in ("debug", "level"):
        if case[k]:
            argv.append(case[k])
    if case["solution"]:
        argv.append("--solution=" + case["solution"])
    if case["targets"]:
        argv += ["--"] + case["targets"]
    nodejs.own(d, uid)
    before = tree(bd)
    r = nodejs.value("run", uid=uid, binary=binary, start_env={"VERIF_PLATFORM": "win32"}, argv=argv, cwd=proj, env=env)
    failed = r.get("failed")
    calls = standin.calls(rec)
    detail = "\n%s\n$ node-gyp %s\nfailed: %s\ncalls: %s" % (json.dumps(case), " ".join(argv), (failed or "no")[-1500:], [c[1] for c in calls])

    def bad(what, sig):
        raise Violation(what + detail, sig=sig)

    labels = ["win", "msbuild" if msvs else "make", "fails" if fails else "runs"]
    if tree(bd) != before:
        bad("left in build: %s" % sorted(tree(bd)), "left")
    if fails:
        if failed is None or calls:
            bad("build succeeded or started something although it cannot run", "succeeds")
        return {"nontrivial": True, "labels": labels}
    if len(calls) != 1:
        bad("%d tools were started" % len(calls), "calls")
    out = case["outcome"]
    if (failed is None) != (out == 0):
        bad("the tool ended with %s" % out, "result")
    if failed is not None and (str(out) if isinstance(out, int) else "SIG" + out) not in failed:
        bad("the failure does not name %s" % out, "message")
    cwd, args, _ = calls[0]
    if os.path.realpath(cwd) != os.path.realpath(proj):
        bad("started in %s" % cwd, "cwd")
    which = open(rec + ".which").read().strip()
    if which != tool:
        bad("started %s, expected %s" % (which, tool), "which")
    kind = {None: case["default"] or "Release", "--debug": "Debug", "--no-debug": "Release"}[case["debug"]]
    verbose = case["level"] in ("--verbose", "--silly")
    j = case["jobs"]
    n = None
    if j:
        n = int(j[0]) if j[0].isdigit() and int(j[0]) > 0 else None
        if j.upper() == "MAX":
            n = "max"
    cpus = [str(i) for i in range(1, os.cpu_count() + 1)]
    if msvs:
        own = [t for t in case["targets"] if t.endswith(".sln")]
        want = [t if t in own else "/t:" + t for t in case["targets"]]
        want += [] if verbose else ["/clp:Verbosity=minimal"]
        plat = {"x64": "x64", "arm64": "ARM64", "arm": "ARM"}.get(case["arch"].lower(), "Win32")
        want += ["/nologo", "/p:Configuration=%s;Platform=%s" % (kind, plat)]
        m = [a for a in args if a.startswith("/m:")]
        if (n is None and m) or n is not None and (len(m) != 1 or (m[0] != "/m:%s" % n if n != "max" else m[0][3:] not in cpus)):
            bad("parallelism %s for jobs %r" % (m, j), "jobs")
        rest = [a for a in args if a not in m]
        if own:
            rest.insert(0, "")
        elif rest[:1] != [case["solution"]] if case["solution"] else os.path.normpath(rest[0].replace("\\", "/")) not in ["build/" + s for s in slns]:
            bad("solution %s" % rest[:1], "solution")
        if rest[1:] != want:
            bad("arguments %s, expected %s" % (rest[1:], want), "arguments")
    else:
        k = args.index("-C") if "-C" in args else -1
        if k < 0 or args[k + 1] != "build":
            bad("not run in build", "dir")
        rest = args[:k] + args[k + 2:]
        m = rest[rest.index("--jobs") + 1] if "--jobs" in rest else None
        if m is not None:
            i = rest.index("--jobs")
            rest = rest[:i] + rest[i + 2:]
        if n == "max" and m not in cpus or n != "max" and m != (str(n) if n else None):
            bad("jobs %s for %r" % (m, j), "jobs")
        if [a for a in rest if a.startswith("BUILDTYPE=")] != ["BUILDTYPE=" + kind] or ("V=1" in rest) != verbose:
            bad("configuration or verbosity: %s" % rest, "configuration")
        if [a for a in rest if a != "V=1" and not a.startswith("BUILDTYPE=")] != case["targets"]:
            bad("targets: %s" % rest, "targets")
    return {"nontrivial": bool(case["targets"] or j or case["debug"] or case["solution"] or out or case["arch"] != "x64"), "labels": labels}


CAMPAIGNS = [Campaign("build", cases, evaluate, quick=2000, thorough=50000, shrink_evals=200),
             Campaign("windows", wincases, windows, quick=900, thorough=20000, shrink_evals=200)]
