"""C33: install under generated tarballs, checksum files, server faults and kill points on a local distribution server.

Oracle: what the server published decides whether the install may succeed; the development directory afterwards holds
exactly the expected headers and stamp or no version at all, nothing outside it changes, and after any kill a version
carries the install stamp only if the whole verified sequence was over.
"""
import json
import os
import signal
import subprocess
import time

from hypothesis import strategies as st

from vh import distserver, nodejs
from vh.core import Campaign, Violation

ID = "C33"
LEVEL = "fault_enumeration"
RULE = ("a case is non-trivial when a fault, kill, wrong checksum or odd tarball entry is present, or headers and other files "
        "are mixed in a tarball that installs")

VERSION = "8.1.2"
GOODNAMES = ["include/node/node.h", "include/node/uv/unix.h", "include/node/common.gypi", "include/node/config.gypi", "src/node.h",
             "deps/v8/include/v8 x.h", "common.gypi", "é.h", "a.b.h", "deps/uv/include/uv.h"]
OTHERS = ["README.md", "bin/node", "include/node/x.hpp", "share/h", "include/node/.h", "lib/gypi", "include/node/x.H", "x.h.in", "node.lib",
          "installVersion"]
BADNAMES = ["../../evil.h", "include/../../../evil.gypi", "../evil.h"]


@st.composite
def entries(draw):
    out = []
    names = draw(st.lists(st.sampled_from(GOODNAMES * 2 + OTHERS), min_size=0, max_size=7, unique=True))
    dirs = draw(st.booleans())
    for n in names:
        if dirs and "/" in n:
            d = os.path.dirname(n)
            if [d, "dir", ""] not in out:
                out.append([d, "dir", ""])
        big = draw(st.integers(0, 9)) == 4
        out.append([n, "file", draw(st.sampled_from(["", "x", "#define A 1\n", "é\n"])) * (9000 if big else 1)])
    k = draw(st.integers(0, 9))
    if k == 3:
        out.append(["bin/npm", "link", "../lib/npm.js"])
    if k == 5 and names:
        out.append([draw(st.sampled_from(BADNAMES)), "file", "evil"])
    return out


FAULTS = [None] * 5 + ["cut", "cut", "reset", "close", "status", "corrupt", "short", "empty", "notgz", "stall", "stall", "headstall"]
SUMS = ["right"] * 6 + ["dotslash", "among", "crlf", "wrong", "upper", "missing", "otherfile", "malformed-first", "malformed-after", "empty", "status", "status", "subdir",
                        "cut", "reset", "close", "stall", "headstall", "wrong-stall"]


def kills():
    return cases([None, None, None, "stall", "headstall"], ["stall", "headstall", "wrong-stall"],
                 ["none", "none", "old", "complete", "partial"], ["dev", "new/deep", "readonly"], ["arg", "target"])


def cases(faults=FAULTS, sums=SUMS, prior=("none", "none", "none", "old", "complete", "partial", "file"),
          devdirs=("dev",) * 8 + ("new/deep", "new/deep", "sp ace", "sp ace", "readonly", "readonly", "refused", "readonly2"), how=("arg", "arg", "target", "tarball")):
    return st.fixed_dictionaries({
        "entries": entries(), "fault": st.sampled_from(faults), "at": st.integers(0, 100), "status": st.sampled_from([404, 500, 403, 204, 301, 206]),
        "sums": st.sampled_from(sums), "prior": st.sampled_from(prior),
        "ensure": st.booleans(), "devdir": st.sampled_from(devdirs),
        "how": st.sampled_from(how), "cli": st.integers(0, 9).map(lambda x: x == 4), "signal": st.sampled_from(["KILL", "TERM"]),
        "later": st.lists(st.sampled_from(GOODNAMES), min_size=1, max_size=3, unique=True)})


def snapshot(d, skip=()):
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds + fs:
            q = os.path.join(p, n)
            r = os.path.relpath(q, d)
            if any(r == s or r.startswith(s + "/") for s in skip):
                continue
            if os.path.islink(q):
                out[r] = "->" + os.readlink(q)
            elif os.path.isfile(q):
                out[r] = open(q, "rb").read().hex()
            elif n in ds and not os.listdir(q):
                out[r] = "dir"
    return out


def published(case, root):
    """The answers of the server, and whether an install from them may succeed."""
    ent = case["entries"]
    tar = distserver.tarball(ent, "node-v" + VERSION)
    sha = distserver.sha(tar)
    ok = True
    name = "node-v%s-headers.tar.gz" % VERSION
    a = {"body": tar}
    f = case["fault"]
    n = len(tar) * case["at"] // 101
    hang = False
    if f in ("cut", "reset", "stall"):
        a.update(fault=f, at=n)
    elif f in ("close", "headstall"):
        a["fault"] = f
    elif f == "status":
        a["status"] = case["status"]
        if case["status"] == 301:
            a["headers"] = {"Location": root + "/nowhere"}
    elif f == "corrupt":
        b = bytearray(tar)
        b[min(10 + n, len(b) - 1)] ^= 0x55
        a["body"] = bytes(b)
    elif f == "short":
        a["body"] = tar[:n]
    elif f == "empty":
        a["body"] = b""
    elif f == "notgz":
        a["body"] = b"<html>captive portal</html>"
    if f is not None:
        ok = False
    hang = f in ("stall", "headstall")
    want = {e[0]: e[2].encode().hex() for e in ent if e[1] == "file" and os.path.splitext(e[0])[1] in (".h", ".gypi") and e[0] not in BADNAMES}
    if not want or any(e[0] in BADNAMES for e in ent):
        ok = False
    s = case["sums"]
    line = "%s  %s\n" % (sha, name)
    other = "%s  node-v%s.tar.gz\n" % ("0" * 64, VERSION)
    txt = {"right": line, "dotslash": "%s  ./%s\n" % (sha, name), "among": other + line + other.replace(".tar", ".x"),
           "crlf": other.replace("\n", "\r\n") + line.replace("\n", "\r\n"), "wrong": "%s  %s\n" % (sha[::-1], name),
           "upper": "%s  %s\n" % (sha.upper(), name), "missing": other, "otherfile": "%s  win-x64/%s\n" % (sha, name), "subdir": "%s  x/%s\n%s  ./%s\n%s  y/%s\n" % ("1" * 64, name, sha, name, "2" * 64, name),
           "malformed-first": "<html> <b> oops\n" + line, "malformed-after": line + "-----BEGIN PGP SIGNATURE-----\n",
           "empty": "", "wrong-stall": "%s  %s\n" % (sha[::-1], name)}.get(s, line)
    b = {"body": txt.encode()}
    if s == "status":
        b["status"] = case["status"] if case["status"] != 301 else 410
    elif s in ("cut", "reset"):
        b.update(fault=s, at=len(b["body"]) * case["at"] // 101)
    elif s in ("close", "stall", "headstall"):
        b.update(fault=s, at=len(b["body"]) // 2)
    if s not in ("right", "dotslash", "among", "crlf", "malformed-after", "subdir"):
        ok = False
    maybe = s == "upper"
    if not hang and s in ("stall", "headstall"):
        hang = True
    if s == "wrong-stall":
        b.update(fault="headstall")
        hang = True
    return {"/v%s/%s" % (VERSION, name): a, "/v%s/SHASUMS256.txt" % VERSION: b}, ok, maybe, hang, want, tar


_server = {}


def server():
    if _server.get("pid") != os.getpid():
        _server["pid"] = os.getpid()
        _server["s"] = distserver.Server()
    return _server["s"]


def start(args, cwd, env, uid, binary):
    e = nodejs.base_env(**env)
    e.pop("VERIF_REPO", None)
    return subprocess.Popen([nodejs.NODE, binary] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, preexec_fn=lambda: nodejs.drop(uid))


STAMP = None


def stamp():
    global STAMP
    if STAMP is None:
        STAMP = json.load(open(os.path.join(nodejs.REPO, "package.json")))["installVersion"]
    return STAMP


_count = [0]


def evaluate(case):
    uid, d, binary = nodejs.unprivileged()
    # what an aborted install still writes must not reach the next case
    _count[0] += 1
    d = os.path.join(d, "c%d" % _count[0])
    srv = server()
    answers, ok, maybe, hang, want, tar = published(case, srv.url)
    refused = case["devdir"] == "refused"
    nowhere = case["devdir"] == "readonly2"
    readonly = case["devdir"] == "readonly" or nowhere
    proj, tmp = os.path.join(d, "proj"), os.path.join(d, "tmp")
    os.makedirs(proj)
    os.makedirs(tmp)
    dev = os.path.join(d, {"readonly": "ro/dev", "readonly2": "ro/dev", "refused": "dev"}.get(case["devdir"], case["devdir"]))
    ver = os.path.join(dev, VERSION)
    prior = case["prior"]
    how = case["how"]
    if prior != "none" and not readonly:
        os.makedirs(dev)
        open(os.path.join(dev, "keep"), "w").write("k")
        os.makedirs(os.path.join(dev, "1.2.3"))
        open(os.path.join(dev, "1.2.3", "installVersion"), "w").write("11\n")
        if prior == "file":
            open(ver, "w").write("in the way")
        else:
            os.makedirs(ver)
            open(os.path.join(ver, "installVersion"), "w").write({"old": "9\n", "complete": "%d\n" % stamp(), "partial": ""}[prior])
            if prior == "complete":
                for n, t in want.items():
                    p = os.path.join(ver, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(bytes.fromhex(t))
    if readonly:
        os.makedirs(os.path.join(d, "ro"))
    tarfile_ = os.path.join(d, "local.tgz")
    with open(tarfile_, "wb") as f:
        f.write(next(a for p, a in answers.items() if p.endswith(".gz"))["body"])
    nodejs.own(d, uid)
    if readonly:
        os.chown(os.path.join(d, "ro"), 0, 0)
        os.chmod(os.path.join(d, "ro"), 0o755)
    if nowhere:
        os.chown(tmp, 0, 0)
    args = ["install", "--devdir=" + dev, "--dist-url=" + (srv.url if not refused else "http://127.0.0.1:1")]
    if how == "target":
        args.append("--target=v" + VERSION)
    else:
        args.insert(1, "v" + VERSION)
    if how == "tarball":
        args.append("--tarball=" + tarfile_)
        # nothing is published for a local tarball: the file as it is decides
        ok = case["fault"] in (None, "cut", "reset", "close", "status", "stall", "headstall") and bool(want) and not any(
            e[0] in BADNAMES for e in case["entries"])
        maybe, hang = case["fault"] in ("corrupt", "short") and bool(want), False
    if case["ensure"]:
        args.append("--ensure")
    uptodate = case["ensure"] and prior == "complete" and not readonly
    if refused and how != "tarball":
        ok = maybe = hang = False
    if nowhere:
        ok = maybe = hang = False
    env = {"HOME": os.path.join(d, "proj"), "TMPDIR": tmp}
    srv.reset(answers)
    before = snapshot(d, [os.path.relpath(ver, d)])
    cli = hang or case["cli"] or nowhere
    p = start(args, proj, env, uid, binary) if cli else None
    killed = False
    if hang and not uptodate and (prior != "file" or readonly):
        t0 = time.time()
        while p.poll() is None and not srv.stalled.is_set() and time.time() - t0 < 30:
            time.sleep(0.01)
        if p.poll() is None and srv.stalled.is_set():
            # let what was already received be written
            time.sleep(0.08)
            p.send_signal(getattr(signal, "SIG" + case["signal"]))
            killed = True
    try:
        if cli:
            out, err = p.communicate(timeout=40)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        raise Violation("the install hangs\n%s\n%s" % (err.decode("utf-8", "replace")[-1500:], json.dumps(case)), sig="hang")
    if cli:
        rc = p.returncode
        r = nodejs.Run(rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))
    else:
        v = nodejs.value("run", uid=uid, binary=binary, argv=args, cwd=proj, env=env)
        rc = 0 if v.get("failed") is None else 1
        r = nodejs.Run(rc, "", v.get("failed") or "")
    detail = "\n%s\n%s\nrequests: %s" % (r.text(1500), json.dumps(case), [q["target"] for q in srv.requests])
    where = ver
    skip = [os.path.relpath(ver, d)]
    if readonly:
        where = os.path.join(tmp, ".node-gyp", VERSION)
        skip = [os.path.relpath(where, d)]
    after = snapshot(d, skip)
    for k in before:
        if after.get(k) != before[k] and not (k in (os.path.dirname(s) for s in skip) or before[k] == "dir"):
            raise Violation("%s changed outside the version's directory%s" % (k, detail), sig="outside")
    new = sorted(k for k in after if k not in before and after[k] != "dir")
    if new:
        raise Violation("new files outside the version's directory: %s%s" % (new, detail), sig="outside")
    got = snapshot(where) if os.path.isdir(where) else None
    labels = [case["fault"] or "nofault", "sums:" + case["sums"], "prior:" + prior, how]
    expect = dict(want, installVersion=("%d\n" % stamp()).encode().hex())
    if killed:
        labels.append("killed")
        if got is not None and got.get("installVersion") and prior != "complete":
            iv = bytes.fromhex(got["installVersion"]).decode()
            if iv.strip().isdigit() and int(iv) >= stamp():
                raise Violation("killed before the checksum was verified, yet the version carries the stamp %r%s" % (iv, detail), sig="stamp")
        if got is not None and prior == "complete" and got.get("installVersion") and any(got.get(n) != t for n, t in want.items()):
            raise Violation("killed while reinstalling: stamped but not complete%s" % detail, sig="stamp")
    elif uptodate:
        if rc != 0 or srv.requests or got != expect:
            raise Violation("an up-to-date version was not left alone%s" % detail, sig="ensure")
        labels.append("uptodate")
    elif prior == "file" and not readonly:
        if rc == 0 and not (case["ensure"] and False):
            raise Violation("installed over a file%s" % detail, sig="file")
    elif rc == 0:
        if not ok and not maybe:
            raise Violation("the install succeeded although it must not%s" % detail, sig="accepted")
        if got is None or any(got.get(n) != t for n, t in expect.items()):
            raise Violation("installed files differ: %s, expected %s%s" % (sorted(got or []), sorted(expect), detail), sig="content")
        extra = sorted(set(got) - set(expect))
        if extra:
            raise Violation("files besides the headers: %s%s" % (extra, detail), sig="extra")
        labels.append("installed")
    else:
        if ok:
            raise Violation("the install failed although everything was published correctly%s" % detail, sig="refused")
        if got is not None:
            raise Violation("the failed install left %s%s" % (sorted(got), detail), sig="left")
        if cli and "not ok" not in r.err:
            raise Violation("the failed install does not say so%s" % detail, sig="silent")
        labels.append("failed")
    # whatever happened, a later install --ensure from a good server gives a usable version
    if (killed or rc != 0) and prior != "file" and how != "tarball":
        good = [[n, "file", "later " + n] for n in case["later"]]
        t2 = distserver.tarball(good, "node-v" + VERSION)
        name = "node-v%s-headers.tar.gz" % VERSION
        srv.reset({"/v%s/%s" % (VERSION, name): {"body": t2},
                   "/v%s/SHASUMS256.txt" % VERSION: {"body": ("%s  %s\n" % (distserver.sha(t2), name)).encode()}})
        argv = ["install", "v" + VERSION, "--ensure", "--devdir=" + dev, "--dist-url=" + srv.url]
        if nowhere:
            os.chown(tmp, uid, uid)
        if case["cli"]:
            r2 = nodejs.cli(argv, proj, env, uid=uid, binary=binary)
        else:
            v = nodejs.value("run", uid=uid, binary=binary, argv=argv, cwd=proj, env=env)
            r2 = nodejs.Run(0 if v.get("failed") is None else 1, "", v.get("failed") or "")
        got = snapshot(where) if os.path.isdir(where) else {}
        need = {n: ("later " + n).encode().hex() for n in case["later"]}
        if r2.rc != 0 or any(got.get(n) != t for n, t in need.items()) or "installVersion" not in got:
            raise Violation("a later install does not recover: %s\nholds %s%s" % (r2.text(1500), sorted(got), detail), sig="recover")
        labels.append("recovered")
    odd = {e[0] for e in case["entries"]} - set(want)
    return {"nontrivial": killed or bool(case["fault"]) or case["sums"] != "right" or bool(want and odd) or readonly, "labels": labels}


# the parts only taken on Windows: headers go through a temporary directory, and an import library per architecture is needed

LIBS = {"ia32": "win-x86/node.lib", "x64": "win-x64/node.lib", "arm64": "win-arm64/node.lib"}


def winstalls():
    return st.fixed_dictionaries({
        "entries": entries(), "arch": st.sampled_from(["ia32", "x64", "arm64"]), "by": st.sampled_from(["arch", "target_arch", "process"]),
        "fault": st.sampled_from([None] * 6 + ["cut", "reset", "close", "status", "corrupt", "notgz"]),
        "lib": st.sampled_from([None] * 8 + ["cut", "reset", "close", "status", "corrupt", "empty"]),
        "sums": st.sampled_from(["right"] * 6 + ["shuffled", "tarwrong", "libwrong", "libother", "libmissing", "tarmissing", "base", "status"]),
        "prior": st.sampled_from(["none", "none", "none", "complete", "complete", "complete", "otherlib", "nolib", "nolib", "old"]), "ensure": st.booleans(),
        "how": st.sampled_from(["arg", "arg", "tarball"]), "at": st.integers(0, 100), "big": st.booleans(), "nested": st.booleans()})


def windows(case):
    uid, d, binary = nodejs.unprivileged()
    _count[0] += 1
    d = os.path.join(d, "w%d" % _count[0])
    srv = server()
    proj, tmp, dev = os.path.join(d, "proj"), os.path.join(d, "tmp"), os.path.join(d, "dev")
    ver = os.path.join(dev, VERSION)
    for q in (proj, tmp, dev):
        os.makedirs(q)
    open(os.path.join(dev, "keep"), "w").write("k")
    ent = case["entries"]
    tar = distserver.tarball(ent, "node-v" + VERSION)
    name = "node-v%s-headers.tar.gz" % VERSION
    arch = case["arch"]
    libpath = LIBS[arch]
    lib = ("lib of " + arch + "\n").encode() * (20000 if case["big"] else 1)
    want = {e[0]: e[2].encode().hex() for e in ent if e[1] == "file" and os.path.splitext(e[0])[1] in (".h", ".gypi") and e[0] not in BADNAMES}
    libname = arch + "/node.lib"
    prior = case["prior"]
    stampf = "installVersion"
    if prior != "none":
        os.makedirs(ver)
        open(os.path.join(ver, stampf), "w").write("9\n" if prior == "old" else "%d\n" % stamp())
        open(os.path.join(ver, "earlier.h"), "w").write("e")
        if prior in ("complete", "otherlib", "old"):
            a = arch if prior != "otherlib" else "other"
            os.makedirs(os.path.join(ver, a))
            open(os.path.join(ver, a, "node.lib"), "w").write("old lib")
    uptodate = case["ensure"] and prior == "complete"
    onlylib = case["ensure"] and prior in ("otherlib", "nolib")

    def broken(body, f, at):
        if f in ("cut", "reset"):
            return {"body": body, "fault": f, "at": len(body) * at // 101}
        if f == "close":
            return {"body": body, "fault": f}
        if f == "status":
            return {"body": body, "status": 404}
        if f == "corrupt":
            b = bytearray(body)
            b[len(b) * at // 101] ^= 1
            return {"body": bytes(b)}
        return {"body": {"notgz": b"<html>", "empty": b""}.get(f, body)}

    a, b = broken(tar, case["fault"], case["at"]), broken(lib, case["lib"], case["at"])
    ts, ls = distserver.sha(tar), distserver.sha(lib)
    line, lline = "%s  %s\n" % (ts, name), "%s  %s\n" % (ls, libpath)
    s = case["sums"]
    txt = {"right": lline + line, "shuffled": "%s  win-x63/node.lib\n" % ("0" * 64) + line + lline, "tarwrong": "%s  %s\n" % (ts[::-1], name) + lline,
           "libwrong": line + "%s  %s\n" % (ls[::-1], libpath), "libother": line + "".join("%s  %s\n" % (ls, p) for p in LIBS.values() if p != libpath),
           "libmissing": line, "tarmissing": lline, "base": line + "%s  node.lib\n" % ls}.get(s, lline + line)
    sums = {"body": txt.encode()}
    if s == "status":
        sums["status"] = 500
    tarball = case["how"] == "tarball"
    local = os.path.join(d, "local.tgz")
    open(local, "wb").write(a["body"])
    tarok = (case["fault"] is None and s not in ("tarwrong", "tarmissing")) if not tarball else case["fault"] not in ("corrupt", "notgz")
    tarmaybe = tarball and case["fault"] == "corrupt" and bool(want)
    if not want or any(e[0] in BADNAMES for e in ent):
        tarok = tarmaybe = False
    ok = case["lib"] is None and s not in ("libwrong", "libother", "libmissing", "base", "status")
    maybe = ok and tarmaybe and not onlylib
    if not onlylib:
        ok = ok and tarok
    argv = ["install", "v" + VERSION, "--devdir=" + dev, "--dist-url=" + srv.url]
    if tarball:
        argv.append("--tarball=" + local)
    if case["ensure"]:
        argv.append("--ensure")
    proc = {"platform": "win32", "arch": arch if case["by"] == "process" else "mips"}
    if case["by"] != "process":
        argv.append("--%s=%s" % (case["by"], arch))
    nodejs.own(d, uid)
    T, L, S = "/v%s/%s" % (VERSION, name), "/v%s/%s" % (VERSION, libpath), "/v%s/SHASUMS256.txt" % VERSION
    srv.reset({T: a, L: b, S: sums})
    before = snapshot(d, ["dev/" + VERSION, "tmp"])
    old = snapshot(ver) if os.path.isdir(ver) else {}
    v = nodejs.value("run", uid=uid, binary=binary, start_env={"VERIF_PLATFORM": "win32"}, argv=argv, cwd=proj, env={"HOME": proj, "TMPDIR": tmp}, proc=proc)
    failed = v.get("failed")
    got = snapshot(ver) if os.path.isdir(ver) else None
    reqs = sorted(q["target"] for q in srv.requests)
    detail = "\nfailed: %s\n%s\nrequests: %s\nholds: %s" % (failed, json.dumps(case), reqs, sorted(got or []))
    if snapshot(d, ["dev/" + VERSION, "tmp"]) != before:
        raise Violation("something outside the version's directory changed%s" % detail, sig="outside")
    labels = ["win", case["fault"] or "nofault", "lib:%s" % case["lib"], "sums:" + s, "prior:" + prior]
    if uptodate:
        if failed is not None or reqs or got != old:
            raise Violation("an up-to-date version was not left alone%s" % detail, sig="ensure")
    elif failed is None:
        if not ok and not maybe:
            raise Violation("the install succeeded although it must not%s" % detail, sig="accepted")
        expect = dict(old)
        if not onlylib:
            expect.update(want)
        expect[stampf] = ("%d\n" % stamp()).encode().hex()
        expect[libname] = lib.hex()
        if got != expect:
            raise Violation("installed files differ: %s%s" % (sorted(k for k in set(got or {}) | set(expect) if (got or {}).get(k) != expect.get(k)), detail),
                            sig="content")
        need = [S, L] + ([T] if not tarball and not onlylib else [])
        if reqs != sorted(need):
            raise Violation("requests %s, expected %s%s" % (reqs, sorted(need), detail), sig="requests")
        left = os.listdir(tmp)
        if left:
            raise Violation("left in the temporary directory: %s%s" % (left, detail), sig="temporary")
        labels.append("installed")
    else:
        if ok:
            raise Violation("the install failed although everything was published correctly%s" % detail, sig="refused")
        if got is not None:
            raise Violation("the failed install left %s%s" % (sorted(got), detail), sig="left")
        labels.append("failed")
    return {"nontrivial": bool(case["fault"] or case["lib"] or s != "right" or prior != "none"), "labels": labels}


def teardown():
    if _server.get("pid") == os.getpid():
        _server["s"].close()


CAMPAIGNS = [Campaign("installs", cases, evaluate, quick=1600, thorough=9000, shrink_evals=80),
             Campaign("kills", kills, evaluate, quick=100, thorough=3000, shrink_evals=80),
             Campaign("windows", winstalls, windows, quick=700, thorough=15000, shrink_evals=80)]
