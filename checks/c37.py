"""C37: the search for Visual Studio over generated installations, detection outputs, prompts and requests.

Oracle: a model of the documented selection (sources in order, newest supported year first, usable, requested, matching
the active prompt), fed with the same generated machine as the real finder.
"""
import json
import ntpath
import os

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, Violation, fresh_dir

ID = "C37"
LEVEL = "exploration"
RULE = "a case is non-trivial when an installation is reported and either several are, or one is unusable, or a request or prompt restricts the choice"

PATHS = ["C:\\VS\\2022", "C:\\Program Files (x86)\\Microsoft Visual Studio\\2019\\BuildTools", "D:\\vs 2017", "C:\\VS\\2022\\Preview", "c:\\é"]
VERSIONS = ["15.9.28307.665", "15.0.1", "16.2.29215.179", "16.11", "17.4.33213.308", "17.10.1", "14.0.25420", "18.0.0", "12.0.1", "15",
            "abc", "", "1.15.0", "116.2.0"]
C = "Microsoft.VisualStudio.Component."
PKG = {"msbuild": "Microsoft.VisualStudio.VC.MSBuild.Base", "x64": C + "VC.Tools.x86.x64", "arm64": C + "VC.Tools.ARM64",
       "express": "Microsoft.VisualStudio.WDExpress", "sdk8": C + "Windows81SDK"}
SDKS = [C + "Windows10SDK.17763", C + "Windows10SDK.18362.Desktop", C + "Windows10SDK.19041", C + "Windows11SDK.22000",
        C + "Windows11SDK.22621", C + "Windows10SDK.IpOverUsb", C + "Windows10SDK.99999.UWP", C + "Windows10SDK", C + "Windows10SDK.9041",
        C + "Windows11SDK.100000.UWP.Native", "X" + C + "Windows11SDK.99999"]
OTHER = ["Microsoft.VisualStudio.Workload.NativeDesktop", C + "VC.Tools.x86.x64.Spectre", "Microsoft.VisualStudio.VC.MSBuild.BaseX", ""]


@st.composite
def packages(draw):
    p = [PKG["msbuild"]] if draw(st.integers(0, 5)) != 3 else []
    p += draw(st.sampled_from([[PKG["x64"]], [PKG["x64"]], [PKG["x64"], PKG["arm64"]], [PKG["arm64"]], [PKG["express"]], []]))
    p += draw(st.lists(st.sampled_from(SDKS), max_size=3, unique=True)) if draw(st.integers(0, 6)) != 3 else []
    if not draw(st.integers(0, 4)):
        p.append(PKG["sdk8"])
    p += draw(st.lists(st.sampled_from(OTHER), max_size=1))
    return draw(st.permutations(p))


install = st.fixed_dictionaries({"path": st.sampled_from(PATHS), "version": st.sampled_from(VERSIONS[:7] * 3 + VERSIONS), "packages": packages()})
BAD = ["", "not json", "null", "{}", "[]", "3", "[", "\"x\"", "[null]", "[{}]", "[[]]", "[3]", "{\"path\":1}", "true",
       "[{\"path\":\"C:\\\\VS\\\\2022\",\"version\":\"17.1.0\",\"packages\":null}]", "[{\"path\":null,\"version\":\"17.1.0\",\"packages\":[]}]",
       "[{\"path\":\"C:\\\\VS\\\\2022\",\"packages\":[null,3]}]", "{\"InstallationPath\":\"C:\\\\VS\\\\2022\"}",
       "[{\"InstallationPath\":\"C:\\\\VS\\\\2022\",\"InstallationVersion\":{\"Major\":17,\"Minor\":1},\"Packages\":null}]",
       "{\"InstallationPath\":null,\"InstallationVersion\":null,\"Packages\":[{\"Id\":null},null]}"]


@st.composite
def detection(draw):
    k = draw(st.integers(0, 9))
    if k == 4:
        return {"fails": 1, "out": draw(st.sampled_from(BAD))}
    if k == 6:
        return {"out": draw(st.sampled_from(BAD)), "bad": True}
    return {"list": draw(st.lists(install, max_size=4)), "pad": draw(st.sampled_from(["", "\r\n"]))}


@st.composite
def cases(draw):
    arch = draw(st.sampled_from(["x64", "x64", "ia32", "arm64"]))
    exists = draw(st.lists(st.sampled_from([ntpath.join(p, "MSBuild", "Current", "Bin", *t) for p in PATHS
                                            for t in (("MSBuild.exe",), ("arm64", "MSBuild.exe"))]), max_size=8, unique=True))
    env = {"SystemRoot": "C:\\Windows", "VCINSTALLDIR": None, "VSCMD_VER": None, "WindowsSDKVersion": None}
    if draw(st.integers(0, 3)) == 2:
        env["VCINSTALLDIR"] = draw(st.sampled_from(PATHS)) + draw(st.sampled_from(["\\VC\\", "\\VC"]))
        if draw(st.integers(0, 4)):
            env["VSCMD_VER"] = draw(st.sampled_from(VERSIONS))
        if draw(st.integers(0, 3)):
            env["WindowsSDKVersion"] = draw(st.sampled_from(["10.0.19041.0\\", "10.0.22621.0", "10.0.17763", "8.1\\", "junk", ""]))
    reg = {}
    for ver in ("14.0", "12.0"):
        for key in ("HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7", "HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7"):
            if draw(st.integers(0, 2)) == 1:
                reg["%s|%s|" % (key, ver)] = draw(st.sampled_from(PATHS)) + "\\VC\\"
        if draw(st.booleans()):
            reg["HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\%s|MSBuildToolsPath|%s" % (ver, "" if arch == "ia32" else "/reg:32")] = \
                "C:\\MSB\\%s\\" % ver
    config = draw(st.sampled_from([None] * 6 + ["2022", "2019", "2017", "2015", "2013", "2010", "latest"] + PATHS +
                                  ["c:\\vs\\2022", "C:\\VS\\2022\\", "C:\\VS\\x\\..\\2022"]))
    return {"semver": draw(st.sampled_from([8, 9, 18, 19, 20, 21, 22, 23])), "config": config, "env": env, "arch": arch, "exists": exists,
            "ps": draw(detection()), "setup": draw(st.one_of(st.none(), detection())),
            "single": draw(st.booleans()), "reg": reg, "module": True}


def setup_json(lst, single):
    out = []
    for i in lst:
        v = (i["version"].split(".") + ["0"] * 4)[:4]
        out.append({"InstallationPath": i["path"], "InstallationVersion": dict(zip(("Major", "Minor", "Build", "Revision"), v)),
                    "Packages": [{"Id": p, "Version": "1"} for p in i["packages"]], "DisplayName": "x"})
    if len(out) == 1 and single:
        return json.dumps(out[0])
    return json.dumps(out)


def text(d, kind, single):
    if d is None:
        return None
    if "list" in d:
        return {"out": (setup_json(d["list"], single) if kind == "setup" else json.dumps(d["list"])) + d["pad"]}
    return {k: v for k, v in d.items() if k in ("fails", "out")}


YEARS = {15: 2017, 16: 2019, 17: 2022}
TOOLSET = {2017: "v141", 2019: "v142", 2022: "v143"}


def version_info(v):
    p = v.split(".") if v is not None else []
    lead = lambda s: s[:len(s) - len(s.lstrip("0123456789"))]
    if len(p) < 2 or not p[0].isdigit() or not p[1].isdigit():
        return None
    return int(p[0]), int(p[1])


def describe(i, case):
    """What the installation offers, or None when it is of no known version."""
    v = version_info(i["version"])
    if v is None or v[0] not in YEARS:
        return None
    year = YEARS[v[0]]
    path = ntpath.normpath(i["path"])
    pk = i["packages"]
    cur = ntpath.join(path, "MSBuild", "Current", "Bin", "MSBuild.exe")
    cur_arm = ntpath.join(path, "MSBuild", "Current", "Bin", "arm64", "MSBuild.exe")
    ex = case["exists"]
    arm = case["arch"] == "arm64"
    if PKG["msbuild"] in pk and year == 2017:
        msb = ntpath.join(path, "MSBuild", "15.0", "Bin", "MSBuild.exe")
    elif arm and cur_arm in ex:
        msb = cur_arm
    elif PKG["msbuild"] in pk and year == 2019 or cur in ex:
        msb = cur
    else:
        msb = None
    tool = TOOLSET[year] if (arm and PKG["arm64"] in pk) or PKG["x64"] in pk or PKG["express"] in pk else None
    best = 0
    for p in pk:
        q = p.split(".")
        if p.startswith((C + "Windows10SDK.", C + "Windows11SDK.")):
            if len(q) > 5 and q[5] != "Desktop":
                continue
            if q[4].isdigit():
                best = max(best, int(q[4]))
    sdk = "10.0.%d.0" % best if best else "8.1" if PKG["sdk8"] in pk else None
    return {"version": i["version"], "versionMajor": v[0], "versionMinor": v[1], "versionYear": year, "path": path, "msBuild": msb,
            "toolset": tool, "sdk": sdk}


def same(a, b):
    return a is not None and b is not None and ntpath.normpath(a).lower() == ntpath.normpath(b).lower()


def model(case):
    cfg, env = case["config"], case["env"]
    year = int(cfg) if cfg and len(cfg) == 4 and cfg.isdigit() else None
    cpath = cfg if cfg and year is None else None
    prompt = ntpath.normpath(ntpath.join(env["VCINSTALLDIR"], "..")) if env["VCINSTALLDIR"] else None

    def wanted(y, p):
        if year is not None and y != year or cpath is not None and not same(cpath, p):
            return False
        return prompt is None or same(prompt, p)

    def usable(lst, years):
        ds = [d for d in (describe(i, case) for i in lst) if d and d["versionYear"] in years]
        ds.sort(key=lambda d: -d["versionYear"])
        for d in ds:
            if d["msBuild"] and d["toolset"] and d["sdk"] and wanted(d["versionYear"], d["path"]):
                return d
        return None
    here = []
    if prompt is not None:
        pk = [PKG["x64"], PKG["arm64"], PKG["msbuild"]]
        w = (env["WindowsSDKVersion"] or "").split(".")
        if len(w) >= 4 and all(x.isdigit() for x in w[:3]):
            pk.append(C + "Windows10SDK.%s.Desktop" % w[2])
        here = [{"path": prompt, "version": env["VSCMD_VER"], "packages": pk}]

    def found(d):
        return d["list"] if d is not None and "list" in d else []
    setup = [dict(i, version=".".join((i["version"].split(".") + ["0"] * 4)[:4])) for i in found(case["setup"])]
    for years in ([2019, 2022], [2017]):
        if years == [2017] and case["semver"] >= 22:
            continue
        for lst in (here, setup, found(case["ps"])):
            d = usable(lst, years)
            if d:
                return d
    for ver, y, tool, limit in (("14.0", 2015, "v140", 19), ("12.0", 2013, "v120", 9)):
        if case["semver"] >= limit:
            continue
        r = case["reg"]
        vc = None
        for key in ("HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7", "HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7"):
            vc = vc or r.get("%s|%s|" % (key, ver))
        msb = r.get("HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\%s|MSBuildToolsPath|%s" % (ver, "" if case["arch"] == "ia32" else "/reg:32"))
        if vc and msb:
            p = ntpath.normpath(ntpath.join(vc, ".."))
            if wanted(y, p):
                return {"version": ver, "versionMajor": int(ver[:2]), "versionMinor": 0, "versionYear": y, "toolset": tool, "path": p,
                        "msBuild": ntpath.join(msb, "MSBuild.exe"), "sdk": None}
    return None


def evaluate(case):
    got = nodejs.value("vs", semver=case["semver"], config=case["config"], env=case["env"], arch=case["arch"], exists=case["exists"],
                       ps=text(case["ps"], "ps", False), setup=text(case["setup"], "setup", case["single"]), reg=case["reg"])
    want = model(case)
    d = "\n" + json.dumps(case)
    if want is None:
        if "found" in got:
            raise Violation("chose %s although nothing is acceptable%s" % (json.dumps(got["found"]), d), sig="accepted")
        if got["error"] != "Could not find any Visual Studio installation to use":
            raise Violation("the search broke off with %s%s" % (got["stack"][:800], d), sig="crash")
    elif "found" not in got:
        raise Violation("failed (%s), expected %s%s" % (got["stack"][:600], json.dumps(want), d), sig="missed")
    else:
        f = {k: got["found"].get(k) for k in want}
        if f != want:
            raise Violation("chose %s, expected %s%s" % (json.dumps(f), json.dumps(want), d), sig="choice")
    n = sum(len(x["list"]) for x in (case["ps"], case["setup"]) if x and "list" in x)
    bad = any(x and x.get("bad") for x in (case["ps"], case["setup"]))
    return {"nontrivial": n > 1 or (n == 1 and (want is None or case["config"] is not None or case["env"]["VCINSTALLDIR"] is not None)),
            "labels": ["found:%s" % (want["versionYear"] if want else None)] + (["malformed"] if bad else [])}


# the answers of the registry tool

VALUES = ["14.0", "12.0", "MSBuildToolsPath", "a b", "x"]
DATA = ["C:\\Program Files (x86)\\Microsoft Visual Studio 14.0\\VC\\", "C:\\x", "D:\\é\\y z\\", "0x1", "REG_SZ", "C:\\14.0    REG_SZ    x", "a", "C:\\a  b\\"]


@st.composite
def queries(draw):
    n = draw(st.integers(1, 4))
    value = draw(st.sampled_from(VALUES))
    keys = []
    for i in range(n):
        kind = draw(st.sampled_from(["found", "found", "none", "none", "error", "stderr", "other", "empty", "nodata", "errorwithdata", "signal"]))
        keys.append({"key": draw(st.sampled_from(["HKLM\\Software\\Microsoft\\K%d", "HKLM\\Software\\Wow6432Node\\a b\\K%d"])) % i, "kind": kind,
                     "data": draw(st.sampled_from(DATA)), "type": draw(st.sampled_from(["REG_SZ", "REG_SZ", "REG_EXPAND_SZ", "REG_DWORD"])),
                     "name": draw(st.sampled_from(["same", "same", "upper"])), "eol": draw(st.sampled_from(["\r\n", "\r\n", "\n"])),
                     "gap": draw(st.sampled_from(["    ", "    ", "\t", "  "])), "more": draw(st.sampled_from(["none", "none", "before", "after"]))})
    return {"keys": keys, "value": value, "opts": draw(st.sampled_from([[], ["/reg:32"]])), "one": draw(st.integers(0, 3)) == 1, "root": draw(st.sampled_from(["w", "win dir"]))}


REG = """#!/bin/sh
printf '%%s\\n' "$@" ----- >> '%(d)s/asked'
i=0
case "$2" in
%(cases)s
esac
[ -e "%(d)s/err.$i" ] && cat "%(d)s/err.$i" >&2
[ -e "%(d)s/out.$i" ] && cat "%(d)s/out.$i"
%(sig)s
exit "$(cat "%(d)s/rc.$i")"
"""


def query(case):
    d = fresh_dir()
    root = os.path.join(d, case["root"])
    os.makedirs(os.path.join(root, "System32"))
    body, sig, want, at = [], [], None, None
    value = case["value"]
    for i, k in enumerate(case["keys"]):
        body.append("*K%d) i=%d;;" % (i, i))
        name = value.upper() if k["name"] == "upper" else value
        line = k["gap"] + name + k["gap"] + k["type"] + k["gap"] + k["data"] + k["eol"]
        rows = {"before": ["    Other    REG_SZ    wrong" + k["eol"], line], "after": [line, "    Other    REG_SZ    wrong" + k["eol"]]}.get(k["more"], [line])
        if k["kind"] == "other":
            rows = ["    zz" + name + "    REG_SZ    wrong" + k["eol"]]
        elif k["kind"] == "nodata":
            rows = [k["gap"] + name + k["gap"] + k["type"] + k["gap"] + k["eol"]]
        out = k["eol"] + k["key"].replace("HKLM", "HKEY_LOCAL_MACHINE") + k["eol"] + "".join(rows) + k["eol"]
        rc, err = 0, ""
        if k["kind"] in ("none", "empty"):
            out = ""
        if k["kind"] in ("none", "error", "errorwithdata"):
            rc = 1
        if k["kind"] in ("none", "error", "stderr"):
            err = "ERROR: The system was unable to find the specified registry key or value.\r\n"
        if k["kind"] == "signal":
            sig.append("[ $i = %d ] && kill -9 $$" % i)
        for n, t in (("out", out), ("err", err), ("rc", str(rc))):
            if t:
                with open(os.path.join(d, "%s.%d" % (n, i)), "w", encoding="utf-8", newline="") as f:
                    f.write(t)
        if k["kind"] == "found" and want is None and (i == 0 or not case["one"]):
            want, at = k["data"], i
    tool = os.path.join(root, "System32", "reg.exe")
    with open(tool, "w") as f:
        f.write(REG % {"d": d, "cases": "\n".join(body), "sig": "\n".join(sig)})
    os.chmod(tool, 0o755)
    got = nodejs.value("reg", root=root, keys=[k["key"] for k in case["keys"]], value=value, opts=case["opts"], one=case["one"])
    asked = [x.rstrip("\n").split("\n") for x in open(os.path.join(d, "asked")).read().split("-----\n")[:-1]] if os.path.exists(os.path.join(d, "asked")) else []
    detail = "\n%s\nanswer: %s\nasked: %s" % (json.dumps(case), json.dumps(got), asked)
    n = 1 if case["one"] else len(case["keys"]) if at is None else at + 1
    exp = [["query", k["key"], "/v", value] + case["opts"] for k in case["keys"][:n]]
    if asked != exp:
        raise Violation("the registry was asked %s, expected %s%s" % (asked, exp, detail), sig="asked")
    if got.get("value") != want or (case["one"] and want is None and not got.get("failed")):
        raise Violation("the value is %r, expected %r%s" % (got.get("value"), want, detail), sig="value")
    return {"nontrivial": len(asked) > 1 or want is not None, "labels": ["first:" + case["keys"][0]["kind"]]}


CAMPAIGNS = [Campaign("search", cases, evaluate, quick=7000, thorough=150000),
             Campaign("registry", queries, query, quick=1500, thorough=30000)]
