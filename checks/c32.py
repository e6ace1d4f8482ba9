"""C32: where headers come from and go to: generated versions, runtimes and overrides against a model of the locations.

Oracle: an independent model that composes the documented URLs from version, release information and overrides; plus
a relation over pairs of versions (different versions, different directories).
"""
import json
import re

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, Violation

ID = "C32"
LEVEL = "exploration"
RULE = "a case is non-trivial when the target version is valid and a version, release record or URL override is given"

CUTS = [(0, 7, 9), (0, 8, 0), (0, 10, 41), (0, 10, 42), (0, 12, 9), (0, 12, 10), (0, 11, 14), (1, 0, 0), (1, 8, 4), (2, 5, 0),
        (3, 0, 0), (3, 3, 1), (4, 0, 0), (4, 1, 23), (6, 2, 1), (9, 11, 2), (18, 17, 0), (22, 22, 2), (100, 0, 0)]
triple = st.one_of(st.sampled_from(CUTS), st.tuples(*[st.integers(0, 30)] * 3))
pre = st.sampled_from([""] * 6 + ["-rc.1", "-pre", "-nightly20250101abcdef", "-0", "-v8-canary.1"])
version = st.builds(lambda t, p: "%d.%d.%d%s" % (t + (p,)), triple, pre)
spelt = st.builds(lambda v, f, b: f % v + b, version, st.sampled_from(["%s", "v%s", "v%s", " %s"]),
                  st.sampled_from(["", "", "", "+build.5"]))
invalid = st.sampled_from(["", "1", "1.2", "v", "latest", "1.2.3.4", "01.2.3", "1.2.x", "-f", "../..", "6.2.1/..", "http://x", "1.2.-3",
                           "99999999999999999999.0.0", "node", "^1.2.3", "1.2.3-"])
HOSTS = ["https://nodejs.org/dist", "http://127.0.0.1:8080", "https://example.com/a/b", "https://e.com/download/nightly",
         "https://artifacts.electronjs.org/headers/dist", "http://h/x%20y/~z", "https://e.com/win-x64", "https://e.com/a/win-x86/dist"]
base = st.builds(lambda h, s: h + s, st.sampled_from(HOSTS), st.sampled_from(["", "/", "//"]))


@st.composite
def releases(draw, ver):
    if draw(st.integers(0, 5)) == 2:
        return None
    m = re.match(r"\D*(\d+)", ver)
    r = {"name": draw(st.sampled_from(["node", "node", "io.js", "iojs", "electron", "my.js"]))}
    root = draw(st.sampled_from(["https://nodejs.org/download/release/", "https://iojs.org/dist/", "http://h:1/d/rc/"]))
    b = root + "v" + ver + "/"
    k = draw(st.integers(0, 4))
    if k:
        r["headersUrl"] = b + draw(st.sampled_from(["node-v%s-headers.tar.gz", "iojs-v%s-headers.tar.gz", "h/%s.tar.gz"])) % ver
        if draw(st.booleans()):
            arch = draw(st.sampled_from(["x86", "x64", "arm64", "ia32"]))
            r["libUrl"] = draw(st.sampled_from([b, b, b + "lib/", "http://other/z/"])) + "win-%s/%s.lib" % (
                arch, draw(st.sampled_from(["node", "iojs"])))
        elif draw(st.integers(0, 4)) == 2:
            r["libUrl"] = b
    return r


@st.composite
def cases(draw):
    running = draw(version)
    rel = draw(releases(running))
    same = draw(st.integers(0, 2)) == 0
    pick = lambda: draw(st.one_of(st.none(), spelt, spelt, invalid)) if not same else draw(st.sampled_from(
        [None, running, "v" + running]))
    o = {}
    t = pick()
    if t is not None:
        o["target"] = t
    for k in ("dist-url", "disturl"):
        if draw(st.integers(0, 3)) == 1:
            o[k] = draw(base)
    a = draw(st.one_of(st.just([]), st.builds(lambda x: [x], st.one_of(spelt, invalid, st.sampled_from(["--node_gyp_internal_noretry"])))))
    return {"argv": a, "opts": o, "mirror": draw(base) if draw(st.integers(0, 3)) == 1 else None, "running": "v" + running, "rel": rel}


SEM = re.compile(r"^\s*v?(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(?:-([0-9A-Za-z.-]+))?(?:\+[0-9A-Za-z.-]+)?\s*$")


def parse(v):
    m = SEM.match(v) if isinstance(v, str) else None
    if not m:
        return None
    t = tuple(int(x) for x in m.groups()[:3])
    if max(t) > 9007199254740991:
        return None
    p = m.group(4)
    if p is not None and any(x == "" or (x.isdigit() and len(x) > 1 and x[0] == "0") for x in p.split(".")):
        return None
    return t, p, "%d.%d.%d" % t + ("-" + p if p is not None else "")


def headers_ship(t, p):
    """-headers.tar.gz exists from 3.0.0, and in 0.12 from .10 and 0.10 from .42; not for prereleases."""
    if p is not None:
        return False
    return t >= (3, 0, 0) or (t[:2] == (0, 12) and t[2] >= 10) or (t[:2] == (0, 10) and t[2] >= 42)


def dirname(u):
    return u[:u.rindex("/") + 1]


def lib_url(name, default, arch, major):
    """The runtime's own library address with the architecture exchanged, else the documented place below the base."""
    known = ("x86", "ia32", "x64", "arm64") if major == 3 else ("x86", "x64", "arm64")
    head, _, last = default.rpartition("/")
    root, _, d = head.rpartition("/")
    if last.endswith(".lib") and d.startswith("win-") and d[4:] in known:
        # io.js 3 shipped with "ia32" but had no arm64
        return "%s/win-%s/%s" % (root, d[4:] if major == 3 and d == "win-arm64" else arch, last)
    b = dirname(default)
    if major >= 1:
        return b + "win-%s/%s.lib" % (arch, name)
    return b + ("" if arch == "x86" else arch + "/") + name + ".lib"


def relpath(frm, to):
    import posixpath
    p = lambda u: re.sub(r"^\w+://[^/]*", "", u)
    return posixpath.relpath(p(to), p(frm))


def model(case):
    o = case["opts"]
    run_t, run_p, run_v = parse(case["running"])
    version = case["running"]
    if o.get("target"):
        version = o["target"]
    if case["argv"] and parse(case["argv"][0]):
        version = case["argv"][0]
    ok = parse(version)
    if not ok:
        return {"version": version}
    t, p, v = ok
    rel = case["rel"] if v == run_v else None
    override = o.get("dist-url") or o.get("disturl") or case["mirror"]
    if rel:
        name = rel["name"].replace("io.js", "iojs")
    else:
        name = "iojs" if 1 <= t[0] < 4 else "node"
    dist = (override or "https://nodejs.org/dist").rstrip("/") + "/v" + v + "/"
    out = {"version": v, "name": name}
    if rel and rel.get("headersUrl") and not override:
        b = dirname(rel["headersUrl"])
        out["tarballUrl"] = rel["headersUrl"]
        libbase = rel.get("libUrl") or b
    else:
        b = libbase = dist
        out["tarballUrl"] = dist + "%s-v%s%s.tar.gz" % (name, v, "-headers" if headers_ship(t, p) else "")
    out["baseUrl"] = b
    out["shasumsUrl"] = b + "SHASUMS256.txt"
    out["versionDir"] = v if name == "node" else name + "-" + v
    for key, arch in (("ia32", "x86"), ("x64", "x64"), ("arm64", "arm64")):
        u = lib_url(name, libbase, arch, t[0])
        out[key] = {"libUrl": u, "libPath": relpath(b, u)}
    return out


def evaluate(case):
    got = nodejs.value("release", argv=case["argv"], opts=case["opts"], version=case["running"], rel=case["rel"],
                       env={"NODEJS_ORG_MIRROR": case["mirror"]} if case["mirror"] else {})
    want = model(case)
    if got != want:
        keys = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        raise Violation("%s is %s, expected %s\n%s" % (keys[0], json.dumps(got.get(keys[0])), json.dumps(want.get(keys[0])),
                                                    json.dumps(case)), sig=keys[0])
    given = bool(case["argv"] or case["opts"] or case["mirror"] or case["rel"])
    return {"nontrivial": "versionDir" in want and given,
            "labels": ["invalid" if "versionDir" not in want else "own" if case["rel"] and want["version"] == parse(case["running"])[2] else "other"]}


# different versions never share a directory, whatever runs them
def pair_cases():
    return st.fixed_dictionaries({"a": spelt, "b": spelt, "running": version})


def evaluate_pair(case):
    va, vb = parse(case["a"]), parse(case["b"])
    dirs = []
    for x in (case["a"], case["b"]):
        r = nodejs.value("release", argv=[x], opts={}, version="v" + case["running"], rel={"name": "node"})
        dirs.append(r["versionDir"])
        if "/" in r["versionDir"] or "\\" in r["versionDir"] or r["versionDir"] in (".", "..", "current"):
            raise Violation("directory name %r for %r" % (r["versionDir"], x))
    if (dirs[0] == dirs[1]) != (va[2] == vb[2]):
        raise Violation("%r and %r have directories %r and %r" % (case["a"], case["b"], dirs[0], dirs[1]))
    return {"nontrivial": va[2] != vb[2], "labels": []}


CAMPAIGNS = [Campaign("locations", cases, evaluate, quick=8000, thorough=150000),
             Campaign("pairs", pair_cases, evaluate_pair, quick=1500, thorough=30000)]
