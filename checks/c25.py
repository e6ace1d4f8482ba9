"""C25: the conditional writer under generated contents, histories, injected failures and crash points.

Oracle: a model of the directory: the file holds exactly the old or the new content, is untouched when nothing
changes, has the mode the umask asks for, and nothing else is left behind after success or a reported failure.
"""
import errno
import json
import os
import resource
import signal

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, Violation, fresh_dir

ID = "C25"
LEVEL = "fault_enumeration"
RULE = ("a history is non-trivial when it holds a write that changes the file and one that does not; a failure case when "
        "the failure or crash really hit while the file existed with other content")

CONTENT = ["", "a", "b", "aa", "ab", "x\n" * 10, "x\n" * 9 + "y\n", "é日\n", "a\r\n", "a\n", "z" * 5000, "z" * 70000,
           "z" * 69999 + "y", "\0", "𝒳"]
content = st.sampled_from(CONTENT)


def pieces(s, cuts):
    pts = sorted({min(len(s), c * len(s) // 100) for c in cuts} | {0, len(s)})
    return [s[a:b] for a, b in zip(pts, pts[1:])] or ([s] if cuts else [])


@st.composite
def history_cases(draw):
    steps = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 9))
        cuts = draw(st.lists(st.integers(0, 100), max_size=4))
        if k < 6:
            steps.append(["write", draw(content), cuts, draw(st.sampled_from([0o22, 0o77, 0o2, 0, 0o27]))])
        elif k == 6:
            steps.append(["two", draw(content), draw(content), draw(st.booleans()), draw(st.booleans())])
        elif k == 7:
            steps.append(["put", draw(content)])
        elif k == 8:
            steps.append(["delete"])
        else:
            steps.append(["link", draw(content)])
    return {"name": draw(st.sampled_from(["f.mk", "sub/Makefile", "a b.gyp.x", "é.txt", ".f"])), "rel": draw(st.booleans()),
            "steps": steps}


def writer(name):
    import gyp.common
    return gyp.common.WriteOnDiff(name)


def listing(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)


def same_times(w, d, known):
    """Give everything the writer has put down so far the old file's time, as a clock without resolution would."""
    flush = getattr(w, "flush", None)
    if flush is None:
        return False
    flush()
    for x in listing(d):
        if x not in known:
            os.utime(os.path.join(d, x), ns=(10 ** 18, 10 ** 18))
    return True


def check_history(case):
    d = fresh_dir("w")
    name = case["name"]
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    arg = name if case["rel"] else p
    j = json.dumps(case)[:3000]
    old_cwd = os.getcwd()
    old_umask = os.umask(0o22)
    seen = set()
    try:
        os.chdir(d)
        if case["rel"] and "/" not in name:
            arg = name
        content = None
        for s in case["steps"]:
            extra = []
            if s[0] == "put":
                with open(p, "w", encoding="utf-8", newline="") as f:
                    f.write(s[1])
                content = s[1]
                continue
            if s[0] == "delete":
                if content is not None:
                    os.unlink(p)
                content = None
                continue
            if s[0] == "link":
                if os.path.lexists(p):
                    os.unlink(p)
                with open(os.path.join(d, "target"), "w", encoding="utf-8", newline="") as f:
                    f.write(s[1])
                os.symlink(os.path.join(d, "target"), p)
                content = s[1]
                continue
            before = None
            if content is not None:
                os.utime(p, ns=(10 ** 18, 10 ** 18))
                before = (os.lstat(p).st_ino, os.stat(p).st_mtime_ns, os.stat(p).st_mode)
            if s[0] == "write":
                os.umask(s[3])
                w = writer(arg)
                for x in pieces(s[1], s[2]):
                    w.write(x)
                if content is not None and open(p, encoding="utf-8", newline="").read() != content:
                    raise Violation("the file changed before the writer was closed\n" + j)
                if content is None and os.path.exists(p):
                    raise Violation("the file exists before the writer was closed\n" + j)
                stamped = s[3] in (0o22, 0o27) and same_times(w, d, (name, "target"))
                w.close()
                new = s[1]
                if os.umask(0o22) != s[3]:
                    raise Violation("the umask was changed\n" + j)
                mode = 0o666 & ~s[3]
            else:
                # two writers of the same file at the same time: the one closed last wins
                a, b = writer(arg), writer(arg)
                a.write(s[1])
                b.write(s[2])
                (a if s[3] else b).close()
                (b if s[3] else a).close()
                new = s[2] if s[3] else s[1]
                mode = 0o644
                before = None if before and (s[1] != content or s[2] != content) else before
                if before is None:
                    content = object()
            got = open(p, encoding="utf-8", newline="").read()
            if got != new:
                raise Violation("the file holds %r instead of %r\n%s" % (got[:200], new[:200], j))
            after = (os.lstat(p).st_ino, os.stat(p).st_mtime_ns, os.stat(p).st_mode)
            if before is not None and content == new:
                seen.add("same")
                if after != before:
                    raise Violation("the unchanged file was touched: %s %s\n%s" % (before, after, j))
            elif s[0] == "write":
                seen.add("changed")
                if after[2] & 0o7777 != mode:
                    raise Violation("mode %o instead of %o\n%s" % (after[2] & 0o7777, mode, j))
                if before is not None and not stamped and after[1] == before[1]:
                    raise Violation("the changed file keeps its old time\n" + j)
            content = new
            rest = [x for x in listing(d) if x not in (name, "target")]
            if rest:
                raise Violation("left behind: %s\n%s" % (rest, j))
    finally:
        os.umask(old_umask)
        os.chdir(old_cwd)
    return {"nontrivial": len(seen) == 2, "labels": sorted(seen)}


FAULTY = ["unlink", "remove", "rename", "replace", "chmod", "fchmod", "link", "fdopen"]


@st.composite
def fault_cases(draw):
    return {"old": draw(st.one_of(content, st.none())), "new": draw(content), "at": draw(st.integers(0, 5)),
            "how": draw(st.sampled_from(["error", "error", "crash-before", "crash-after", "full"])),
            "err": draw(st.sampled_from(["ENOSPC", "EACCES", "EIO", "EPERM"])),
            "cuts": draw(st.lists(st.integers(0, 100), max_size=3)), "limit": draw(st.sampled_from([0, 1, 100, 4096]))}


def check_fault(case):
    """Run in a child: the k-th call that changes the file system (or the comparison) fails, or the process dies there."""
    d = fresh_dir("w")
    p = os.path.join(d, "f.mk")
    if case["old"] is not None:
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(case["old"])
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = "done"
        try:
            os.close(r)
            import filecmp
            import gyp.common
            state = {"n": 0, "hit": False, "names": []}

            def wrap(mod, name):
                real = getattr(mod, name)

                def f(*a, **k):
                    state["n"] += 1
                    state["names"].append(name)
                    if not state["hit"] and state["n"] - 1 == case["at"] and case["how"] != "full":
                        state["hit"] = True
                        if case["how"] == "error":
                            raise OSError(getattr(errno, case["err"]), "injected", str(a[0]) if a else "")
                        if case["how"] == "crash-before":
                            os.write(wfd, b"crash")
                            os.kill(os.getpid(), signal.SIGKILL)
                        v = real(*a, **k)
                        os.write(wfd, b"crash")
                        os.kill(os.getpid(), signal.SIGKILL)
                    return real(*a, **k)
                setattr(mod, name, f)
            for n in FAULTY:
                wrap(os, n)
            wrap(filecmp, "cmp")
            if case["how"] == "full":
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], case["limit"]))
            w = None
            try:
                w = gyp.common.WriteOnDiff(p)
                for x in pieces(case["new"], case["cuts"]):
                    w.write(x)
            except OSError:
                res = "write-failed"
            if res == "done":
                try:
                    w.close()
                except OSError:
                    res = "failed"
            if state["hit"]:
                res += ":" + state["names"][case["at"]]
        except BaseException as e:
            res = "exception %s: %s" % (type(e).__name__, e)
        os.write(wfd, res.encode())
        os._exit(0)
    os.close(wfd)
    res = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        res += c
    os.close(r)
    os.waitpid(pid, 0)
    res = res.decode()
    j = "%s\n%s" % (res, json.dumps(case)[:2000])
    got = open(p, encoding="utf-8", newline="").read() if os.path.exists(p) else None
    rest = [x for x in listing(d) if x != "f.mk"]
    if res.startswith("exception"):
        raise Violation("failed with %s" % j)
    if res.startswith("done"):
        if got != case["new"]:
            raise Violation("no failure was reported, but the file holds %r\n%s" % (got and got[:100], j))
        if rest and "unlink" not in res and "remove" not in res:
            raise Violation("left behind: %s\n%s" % (rest, j))
    elif res.startswith("failed"):
        if got != case["old"]:
            raise Violation("after a failure the file holds %r instead of the old content\n%s" % (got and got[:100], j))
        if rest and not res.endswith(("unlink", "remove")):
            raise Violation("a failure left %s behind\n%s" % (rest, j))
    elif res.startswith("write-failed"):
        if got != case["old"]:
            raise Violation("a failing write changed the file to %r\n%s" % (got and got[:100], j))
    else:
        if got not in (case["old"], case["new"]):
            raise Violation("after a crash the file holds %r\n%s" % (got and got[:100], j))
    hit = ":" in res or res in ("crash", "failed", "write-failed")
    return {"nontrivial": hit and case["old"] is not None and case["old"] != case["new"], "labels": [res.split(" ")[0]]}


CAMPAIGNS = [Campaign("history", history_cases, check_history, quick=5000),
             Campaign("fault", fault_cases, check_fault, quick=4000)]
ASSUMPTIONS = ["a rename within a directory is atomic, as POSIX says",
               "a failure of a write call before the writer is closed may leave its temporary file (the caller sees the error)"]


def setup():
    gyprun.load()
