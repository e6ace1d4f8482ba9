"""C31: the build configuration file: generated bases, options and platforms against a model, read back by both readers.

Oracle: a model of the documented overrides applied to the base configuration; the written file is read by node the
way build does it and by gyp's own loader, and both must see the model's values.
"""
import copy
import json
import os
import pprint

from hypothesis import strategies as st

from vh import gyprun, nodejs
from vh.core import Campaign, Violation, fresh_dir

ID = "C31"
LEVEL = "exploration"
RULE = ("a case is non-trivial when the base has settings beside variables and an option of the user or a value with a "
        "quote, hash, backslash, newline or non-ASCII character arrives in the file")

TEXT = st.one_of(
    st.sampled_from(["", "x", "v8", "-DA=1", "a b", "it's", "say \"hi\"", "'", "\"", "#", "a#b", "# x", "/home/o'brien/n", "C:\\x\\n",
                     "\\", "\\'", "\\\"", "a\nb", "\n", "\t", "é日", "𝒳", "//x", "/* c */", "x,\n'y'", "{'a': 1}", "[", "True", "true",
                     "null", "word " * 25 + "it's " + "more " * 9, "'a'\n  'b'", "\u2028", "\x7f", "$x", "100%", "a'#'b", "1", "-3", "007", "1.5"]),
    st.text(alphabet="ab'\"#\\\n ,:{}[]é", max_size=8))
NAMES = ["foo", "build_v8", "node_shared", "clang", "nodedir", "python", "target_arch", "host_arch", "standalone_static_library",
         "x-y", "it's", "a#b", "llvm_version", "msbuild_path"]
name = st.sampled_from(NAMES)
leaf = st.one_of(TEXT, TEXT, st.integers(-2, 2**33), st.booleans())


def values(depth=2):
    if depth == 0:
        return leaf
    sub = values(depth - 1)
    return st.one_of(leaf, leaf, st.lists(sub, max_size=3), st.dictionaries(name, sub, max_size=3))


TD = ["cflags", "defines", "include_dirs", "libraries", "default_configuration", "configurations", "ldflags", "msvs_settings",
      "msbuild_toolset", "xcode_configuration_platform"]


@st.composite
def bases(draw):
    b = {}
    if draw(st.integers(0, 5)):
        b["target_defaults"] = draw(st.dictionaries(st.sampled_from(TD), values(), max_size=4))
        if draw(st.booleans()):
            b["target_defaults"]["default_configuration"] = draw(st.sampled_from(["Debug", "Release", ""]))
    if draw(st.integers(0, 5)):
        b["variables"] = draw(st.dictionaries(name, values(), max_size=6))
        if draw(st.integers(0, 3)) == 2:
            b["variables"]["clang"] = draw(st.sampled_from([1, 1, 0, "1"]))
    if draw(st.integers(0, 3)) == 1:
        b["conditions"] = draw(values())
    return b


OPTNAMES = ["debug", "arch", "thin", "nodedir", "dist-url", "disturl", "force-process-config", "jobs", "python", "target",
            "shared-libxml2", "foo", "x-y", "x_y", "clang", "build-v8", "host_arch", "target-arch", "proxy", "ensure", "loglevel",
            "constructor", "msvs-version", "q", "with-intl-full-icu", "a-b-c", "-d-", "x--y"]


@st.composite
def opts(draw):
    o = {}
    for k in draw(st.lists(st.sampled_from(OPTNAMES), max_size=5, unique=True)):
        if k in ("debug", "force-process-config", "ensure"):
            o[k] = draw(st.one_of(st.booleans(), st.sampled_from(["true", "", "false"])))
        elif k == "thin":
            o[k] = draw(st.sampled_from(["yes", "", "1"]))
        elif k == "arch":
            o[k] = draw(st.sampled_from(["ia32", "x64", "arm64", "arm", "", "mips'el"]))
        else:
            o[k] = draw(st.one_of(TEXT, st.booleans(), st.none(), st.lists(TEXT, min_size=2, max_size=2)))
    return o


def cases():
    return st.fixed_dictionaries({
        "opts": opts(), "header": st.one_of(bases(), st.none()),
        "style": st.sampled_from(["json", "pprint", "pprint", "multi"]), "process": bases(),
        "broken": st.sampled_from([None] * 9 + ["{'variables': {", "", "nonsense", "\x00"]),
        "platform": st.sampled_from(["linux", "linux", "darwin", "win32", "win32"]), "arch": st.sampled_from(["x64", "arm64", "ia32"]),
        "vs": st.fixed_dictionaries({
            "versionMajor": st.sampled_from([14, 15, 15, 16, 17]), "versionMinor": st.sampled_from([0, 3, 8, 9, 11]),
            "toolset": st.sampled_from(["v140", "v141", "v143"]), "sdk": st.sampled_from([None, "8.1", "10.0.19041.0"]),
            "msBuild": st.sampled_from(["C:\\VS\\MSBuild.exe", "C:\\it's\\#1\\MSBuild.exe"])}),
        "python": st.sampled_from(["/usr/bin/python3", "/o'b/#py", "C:\\Py thon\\python.exe", "/é/p"]),
        "sub": st.sampled_from(["h", "it's", "a #b"])})


def py_text(base, style):
    """The header configuration as Node's configure script has written it in the different releases."""
    head = "# Do not edit. Generated by the configure script.\n"
    if style == "json":
        return head + json.dumps(base, indent=2) + "\n"
    if style == "multi":
        return head + pprint.pformat(base, indent=2, width=60) + "\n# it's the end\n"
    return head + pprint.pformat(base, indent=2, width=1 << 20) + "\n"


def expressible(x, style):
    """Python literals use escapes (\\x..) and booleans that JSON has not; Node's files never hold them."""
    if isinstance(x, dict):
        return all(expressible(k, style) and expressible(v, style) for k, v in x.items())
    if isinstance(x, list):
        return all(expressible(v, style) for v in x)
    if isinstance(x, bool):
        return style == "json"
    if isinstance(x, str):
        if style == "json":
            return True
        r = repr(x)
        if any(c in x for c in "\x7f\u2028\x00") or "\\x" in r or "\\u" in r and "\\\\u" not in r:
            return False
        # a wrapped literal is joined again by its readers
        return style != "multi" or not ("\n" in x)
    return True


def truthy(v):
    return not (v is None or v is False or v == "" or v == 0)


def to_saved(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if x is None:
        return "null"
    if isinstance(x, dict):
        return {k: to_saved(v) for k, v in x.items()}
    if isinstance(x, list):
        return [to_saved(v) for v in x]
    return x


KNOWN = {"help", "arch", "cafile", "debug", "directory", "make", "msvs-version", "ensure", "solution", "proxy", "noproxy",
         "devdir", "nodedir", "loglevel", "python", "dist-url", "tarball", "jobs", "thin", "force-process-config"}


def model(case, node_dir, header, procconf):
    o = case["opts"]
    base = procconf
    if (truthy(o.get("nodedir")) or truthy(o.get("disturl")) or truthy(o.get("dist-url"))) and not truthy(o.get("force-process-config")):
        if header is not None:
            base = header
    c = copy.deepcopy(base)
    td = c.setdefault("target_defaults", {})
    v = c.setdefault("variables", {})
    for k in ("cflags", "defines", "include_dirs", "libraries"):
        td[k] = []
    if "debug" in o:
        td["default_configuration"] = "Debug" if truthy(o["debug"]) else "Release"
    elif not truthy(td.get("default_configuration")):
        td["default_configuration"] = "Release"
    v["target_arch"] = o["arch"] if truthy(o.get("arch")) else case["arch"]
    if v["target_arch"] == "arm64":
        td["msvs_configuration_platform"] = "ARM64"
        td["xcode_configuration_platform"] = "arm64"
    v["nodedir"] = node_dir
    v["python"] = case["python"]
    v["standalone_static_library"] = 0 if truthy(o.get("thin")) else 1
    if case["platform"] == "win32":
        vs = case["vs"]
        td["msbuild_toolset"] = vs["toolset"]
        if vs["sdk"]:
            td["msvs_windows_target_platform_version"] = vs["sdk"]
        if v["target_arch"] == "arm64" and (vs["versionMajor"], vs["versionMinor"]) >= (15, 9):
            td["msvs_enable_marmasm"] = 1
        v["msbuild_path"] = vs["msBuild"]
        if v.get("clang") == 1 and v.get("clang") is not True:
            v["clang"] = 0
    for k, val in o.items():
        if k not in KNOWN:
            v[k.replace("-", "_")] = val
    return to_saved(c)


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b or not same(a[k], b[k]):
                return diff(a.get(k, "(none)"), b.get(k, "(none)"), path + "/" + k)
    return "%s is %s, expected %s" % (path or "the file", json.dumps(a)[:600], json.dumps(b)[:600])


def gyp_reads(path):
    import gyp.input
    return gyp.input.LoadOneBuildFile(path, {}, {}, [], False, False)


def evaluate(case):
    d = fresh_dir()
    node_dir = os.path.join(d, case["sub"])
    build = os.path.join(d, "build")
    os.makedirs(os.path.join(node_dir, "include", "node"))
    os.makedirs(build)
    header = None
    hfile = os.path.join(node_dir, "include", "node", "config.gypi")
    if case["broken"] is not None:
        with open(hfile, "w") as f:
            f.write(case["broken"])
    elif case["header"] is not None and expressible(case["header"], case["style"]):
        with open(hfile, "w", encoding="utf-8") as f:
            f.write(py_text(case["header"], case["style"]))
        header = case["header"]
    o = dict(case["opts"])
    r = nodejs.value("config", opts=o, buildDir=build, nodeDir=node_dir, vsInfo=case["vs"] if case["platform"] == "win32" else None,
                     python=case["python"], proc={"platform": case["platform"], "arch": case["arch"]}, base=case["process"])
    if r["path"] != os.path.join(build, "config.gypi") or sorted(os.listdir(build)) != ["config.gypi"]:
        raise Violation("the file is %s; build/ holds %s" % (r["path"], os.listdir(build)), sig="place")
    want = model(case, node_dir, header, case["process"])
    text = open(r["path"], encoding="utf-8", newline="").read()
    detail = "\nopts: %s\nheader config.gypi: %s\nwritten:\n%s" % (
        json.dumps(o), open(hfile, newline="").read() if os.path.exists(hfile) else None, text[:3000])
    # as build reads it
    head, _, body = text.partition("\n")
    if not head.startswith("#"):
        raise Violation("the first line is not the comment%s" % detail, sig="comment")
    got = json.loads(body)
    if not same(got, want):
        raise Violation("%s%s" % (diff(got, want), detail), sig="value")
    labels = [case["platform"], "base:" + ("header" if header is not None else "broken" if case["broken"] is not None else "none")]
    try:
        g = gyp_reads(r["path"])
    except Exception as e:
        raise Violation("gyp cannot read the file: %s: %s%s" % (type(e).__name__, e, detail), sig="gyp")
    if not same(g, want):
        raise Violation("as gyp reads it: %s%s" % (diff(g, want), detail), sig="gyp")
    odd = any(c in json.dumps(want, ensure_ascii=False) for c in "'#é日𝒳") or "\\" in json.dumps(want)
    return {"nontrivial": bool(set(want) and (odd or set(o) - KNOWN)), "labels": labels}


def setup():
    gyprun.load()


CAMPAIGNS = [Campaign("configurations", cases, evaluate, quick=6000, thorough=120000)]
