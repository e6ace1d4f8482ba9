"""C34: histories of install / ensure / list / remove commands against a model of the installed versions.

Oracle: a map version -> files kept by the check. After every step the whole development directory, the requests the local
distribution server received, the command's own result and what list names must equal what the map says.
"""
import os

from hypothesis import strategies as st

from vh import distserver, nodejs
from vh.core import Campaign, Violation

ID = "C34"
LEVEL = "model_checking"
RULE = "a history is non-trivial when a version is installed and later ensured, reinstalled, removed or tampered with"

VERSIONS = ["0.10.48", "0.12.18", "3.3.1", "8.1.2", "8.1.20", "22.22.2", "9.0.0-rc.1", "1.8.4"]
FORMS = ["%s", "%s", "v%s", " %s", "%s+build.7"]
ABSENT = ["7.7.7", "iojs-1.0.0", "nothing", "8.1", "8.1.2.3"]
NAMES = ["include/node/node.h", "include/node/common.gypi", "common.gypi", "include/node/v8/x.h"]


def dirname(v):
    return ("iojs-" if v[0] in "123" and v[1] == "." else "") + v


def tarname(v):
    old = v.startswith("0.") or v.startswith("1.")
    head = not old and "-" not in v or v in ("0.10.48", "0.12.18")
    return ("iojs" if dirname(v) != v else "node") + "-v" + v + ("-headers" if head else "") + ".tar.gz"


@st.composite
def steps(draw):
    vs = draw(st.lists(st.sampled_from(VERSIONS), min_size=1, max_size=3, unique=True))
    out = []
    for _ in range(draw(st.integers(2, 9))):
        v = draw(st.sampled_from(vs))
        form = draw(st.sampled_from(FORMS))
        kind = draw(st.sampled_from(["install"] * 5 + ["ensure"] * 5 + ["remove"] * 5 + ["list", "list", "stamp", "stamp", "stamp", "lose", "publish",
                                     "break", "break", "absent", "foreign", "badtarget", "again"]))
        s = {"op": kind, "v": v, "form": form, "target": draw(st.booleans()), "alias": draw(st.booleans()),
             "cli": draw(st.integers(0, 12)) == 5}
        if kind == "stamp":
            s["to"] = draw(st.sampled_from(["0", "1", "8", "9", "10", "", "x", None, "10", "11", "12", "110", "11 ", "9e9", "x", "v11", "NaN"]))
        elif kind == "break":
            s["how"] = draw(st.sampled_from(["sum", "404", "cut", "empty"]))
            s["ensure"] = draw(st.booleans())
        elif kind == "absent":
            s["v"] = draw(st.sampled_from(ABSENT))
        elif kind == "foreign":
            s["name"] = draw(st.sampled_from(["current", "notes.txt", "8.1.3", "7.7.8", ".x"]))
            s["dir"] = draw(st.booleans())
        elif kind == "badtarget":
            s["v"] = draw(st.sampled_from(["abc", "8", "8.1", "1.2.3.4", "v", "0.7.12", "0.6.0", "latest", "../8.1.2"]))
            s["which"] = draw(st.sampled_from(["install", "install", "ensure"]))
        elif kind == "again":
            s["ops"] = draw(st.lists(st.sampled_from(["install", "remove", "list", "ensure"]), min_size=2, max_size=3))
        elif kind in ("install", "publish"):
            s["names"] = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
        if kind in ("install", "ensure", "remove") and not s["target"] and draw(st.integers(0, 3)) == 2:
            s["other"] = draw(st.sampled_from(vs + ABSENT))     # --target next to a version argument: the argument counts
        out.append(s)
        if kind == "stamp" and draw(st.integers(0, 3)):
            out.append(dict(s, op="ensure", cli=False))
    return {"steps": out, "devdir": draw(st.sampled_from(["dev", "dev", "a/b", "rel"]))}


_server = {}


def server():
    if _server.get("pid") != os.getpid():
        _server.update(pid=os.getpid(), s=distserver.Server())
    return _server["s"]


def teardown():
    if _server.get("pid") == os.getpid():
        _server["s"].close()


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for n in fs:
            q = os.path.join(p, n)
            out[os.path.relpath(q, d)] = open(q, "rb").read().decode()
        for n in ds:
            if p == d:
                out[n + "/"] = "dir"
    return out


def shown(model):
    """The model as a tree."""
    out = {}
    for v, files in model.items():
        if files is None or isinstance(files, str):
            out[v + ("/" if files is None else "")] = "dir" if files is None else files
            continue
        out[v + "/"] = "dir"
        for n, t in files.items():
            out[v + "/" + n] = t
    return out


def valid_stamp(t):
    import re
    m = re.match(r"\s*(\d+)", t) if t is not None else None
    return bool(m) and int(m.group(1)) >= 11


def evaluate(case):
    uid, d, binary = nodejs.unprivileged()
    srv = server()
    proj = os.path.join(d, "proj")
    os.makedirs(proj)
    outside = {"proj/keep": "k", "1.2.3": "x", "8.1.2": "y"}
    for n, t in outside.items():
        open(os.path.join(d, n), "w").write(t)
    dev = {"rel": "../rel"}.get(case["devdir"], os.path.join(d, case["devdir"]))
    real = os.path.normpath(os.path.join(proj, dev))
    nodejs.own(d, uid)
    os.makedirs(os.path.dirname(real), exist_ok=True)
    nodejs.own(d, uid)
    model = {}
    gen = {}
    env = {"HOME": proj, "TMPDIR": d}
    trace = []
    labels = set()
    touched = 0
    keep = distserver.sha(b"")  # digest of nothing: never right for a tarball

    def content(v):
        g, names = gen.get(v, (0, ["include/node/node.h", "common.gypi"]))
        return {n: "%s %s gen %d\n" % (v, n, g) for n in names}

    def answers(fault=None):
        out = {}
        for v in VERSIONS:
            ent = [[n, "file", t] for n, t in content(v).items()] + [["README.md", "file", "r"]]
            tar = distserver.tarball(ent, "r")
            a, b = {"body": tar}, {"body": ("%s  %s\n" % (distserver.sha(tar), tarname(v))).encode()}
            if fault == "sum":
                b["body"] = ("%s  %s\n" % (keep, tarname(v))).encode()
            elif fault == "404":
                a = {"status": 404}
            elif fault == "cut":
                a.update(fault="cut", at=len(tar) // 2)
            elif fault == "empty":
                a = {"body": distserver.tarball([["README.md", "file", "r"]], "r")}
            out["/v%s/%s" % (v, tarname(v))] = a
            out["/v%s/SHASUMS256.txt" % v] = b
        return out

    def fail(msg, sig):
        raise Violation("%s\nsteps so far: %s" % (msg, "\n  ".join(trace)), sig=sig)

    def check(what):
        got, want = tree(real) if os.path.isdir(real) else {}, shown(model)
        if got != want:
            diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
            fail("after %s the development directory differs (found, expected): %s" % (what, diff), "content")
        for n, t in outside.items():
            q = os.path.join(d, n)
            if not os.path.isfile(q) or open(q).read() != t:
                fail("%s changed something outside" % what, "outside")

    def command(words, flags, cli):
        argv = words + flags + ["--devdir=" + dev, "--dist-url=" + srv.url, "--loglevel=error"]
        trace.append(" ".join(words + flags) + (" (cli)" if cli else ""))
        if cli:
            r = nodejs.cli(argv, proj, env, uid=uid, binary=binary)
            if r.rc not in (0, 1):
                fail("exit status %s\n%s" % (r.rc, r.text()), "exit")
            return {"failed": r.err if r.rc else None, "done": None, "out": r.out}
        r = nodejs.value("run", uid=uid, binary=binary, argv=argv, cwd=proj, env=env)
        return {"failed": r.get("failed"), "done": r["done"], "out": None}

    def expect_install(v, ensure):
        k = dirname(v)
        have = model.get(k)
        if ensure and isinstance(have, dict) and valid_stamp(have.get("installVersion")):
            return [], False
        if isinstance(have, str):
            return None, True
        new = dict(have or {})
        new.update(content(v))
        new["installVersion"] = "11\n"
        model[k] = new
        return ["/v%s/%s" % (v, tarname(v)), "/v%s/SHASUMS256.txt" % v], False

    def names():
        return {k for k in model if k != "current"}

    def check_list(r):
        if r["done"] is not None:
            got = [x for x in r["done"] if x[0] == "list"][-1][1]
        else:
            got = [x for x in r["out"].split("\n") if x.strip()]
            if not names():
                if not (len(got) == 1 and got[0].startswith("No node development files installed")):
                    fail("list with nothing installed prints %r" % got, "list")
                return
        if sorted(got) != sorted(names()):
            fail("list names %s, installed are %s" % (sorted(got), sorted(names())), "list")

    for s in case["steps"]:
        op, v = s["op"], s["v"]
        word = s["form"] % v
        srv.reset(answers(s.get("how")))
        if op in ("install", "ensure"):
            if "names" in s:
                gen[v] = (gen.get(v, (0, None))[0] + 1, s["names"])
                srv.reset(answers())
            before = dict(model)
            want, refuse = expect_install(v, op == "ensure")
            stats = {q: os.stat(os.path.join(real, dirname(v), q)).st_mtime_ns for q in before.get(dirname(v)) or {}} if want == [] else None
            words, flags = ["install"], ["--ensure"] if op == "ensure" else []
            if s["target"]:
                flags.append("--target=" + word)
            else:
                words.append(word)
                if s.get("other"):
                    flags.append("--target=" + s["other"])
            r = command(words, flags, s["cli"])
            got = [q["target"] for q in srv.requests]
            if refuse:
                if r["failed"] is None:
                    fail("installed over a file", "file")
                # rolled back: the entry itself goes
                model.pop(dirname(v), None)
                check("a refused install")
                continue
            if r["failed"] is not None:
                fail("%s failed: %s" % (trace[-1], r["failed"][-1500:]), "failed")
            if got != want:
                fail("%s requested %s, expected %s" % (trace[-1], got, want), "requests")
            if stats is not None:
                touched += 1
                labels.add("uptodate")
                for q, t in stats.items():
                    if os.stat(os.path.join(real, dirname(v), q)).st_mtime_ns != t:
                        fail("%s rewrote %s of an up-to-date version" % (trace[-1], q), "ensure")
            elif dirname(v) in before:
                touched += 1
                labels.add("upgrade" if op == "ensure" else "reinstall")
        elif op == "break":
            k = dirname(v)
            have = model.get(k)
            flags = ["--ensure"] if s["ensure"] else []
            r = command(["install", word], flags, s["cli"])
            if s["ensure"] and isinstance(have, dict) and valid_stamp(have.get("installVersion")):
                if r["failed"] is not None or srv.requests:
                    fail("ensure of an up-to-date version: %s, requests %s" % (r["failed"], srv.requests), "ensure")
            else:
                if r["failed"] is None:
                    fail("an install from a broken server (%s) succeeded" % s["how"], "accepted")
                model.pop(k, None)
                labels.add("broken")
        elif op == "remove":
            words, flags = ["rm" if s["alias"] else "remove"], []
            if s["target"]:
                flags.append("--target=" + word)
            else:
                words.append(word)
                if s.get("other"):
                    flags.append("--target=" + s["other"])
            r = command(words, flags, s["cli"])
            if r["failed"] is not None:
                fail("%s failed: %s" % (trace[-1], r["failed"][-1500:]), "failed")
            if model.pop(dirname(v), 0) != 0:
                touched += 1
                labels.add("removed")
            elif r["out"] is not None and "already uninstalled" not in r["out"]:
                fail("removing an absent version prints %r" % r["out"], "message")
        elif op == "absent":
            r = command(["remove", v], [], s["cli"])
            if r["failed"] is not None:
                fail("removing an absent version failed: %s" % r["failed"][-1500:], "absent")
            if r["out"] is not None and "version was already uninstalled: " + v not in r["out"]:
                fail("removing an absent version prints %r" % r["out"], "message")
            if srv.requests:
                fail("remove made requests", "requests")
        elif op == "list":
            r = command(["ls" if s["alias"] else "list"], [], s["cli"])
            if r["failed"] is not None or srv.requests:
                fail("list: %s, requests %s" % (r["failed"], srv.requests), "list")
            check_list(r)
        elif op == "stamp":
            have = model.get(dirname(v))
            if isinstance(have, dict):
                q = os.path.join(real, dirname(v), "installVersion")
                if s["to"] is None:
                    if os.path.lexists(q):
                        os.unlink(q)
                    have.pop("installVersion", None)
                else:
                    with open(q, "w") as f:
                        f.write(s["to"])
                    os.chown(q, uid, uid)
                    have["installVersion"] = s["to"]
                trace.append("stamp of %s := %r" % (v, s["to"]))
                labels.add("stamped")
        elif op == "lose":
            have = model.get(dirname(v))
            if isinstance(have, dict):
                for n in sorted(have):
                    if n != "installVersion":
                        os.unlink(os.path.join(real, dirname(v), n))
                        del have[n]
                        break
        elif op == "publish":
            gen[v] = (gen.get(v, (0, None))[0] + 1, s["names"])
        elif op == "foreign":
            q = os.path.join(real, s["name"])
            if not os.path.lexists(q):
                os.makedirs(real, exist_ok=True)
                if s["dir"]:
                    os.makedirs(q)
                    model[s["name"]] = {}
                else:
                    open(q, "w").write("f")
                    model[s["name"]] = "f"
                nodejs.own(d, uid)
        elif op == "badtarget":
            words, flags = ["install"], ["--target=" + v] + (["--ensure"] if s["which"] == "ensure" else [])
            r = command(words, flags, s["cli"])
            if r["failed"] is None:
                fail("%s succeeded" % trace[-1], "invalid")
            if srv.requests:
                fail("%s made requests" % trace[-1], "invalid")
            labels.add("invalid")
        elif op == "again":
            # several commands in one invocation; options hold for all of them
            words, want = [], []
            refuse = False
            ens = "ensure" in s["ops"]
            lists = None
            for o in s["ops"]:
                words.append("install" if o == "ensure" else o)
                if o in ("install", "ensure"):
                    words.append(v)
                    w, refuse = expect_install(v, ens)
                    if refuse:
                        break
                    want += w
                elif o == "remove":
                    words.append(v)
                    model.pop(dirname(v), None)
                else:
                    lists = sorted(names())
            if refuse:
                continue
            r = command(words, ["--ensure"] if ens else [], False)
            got = [q["target"] for q in srv.requests]
            if r["failed"] is not None or got != want:
                fail("%s: %s, requests %s, expected %s" % (trace[-1], r["failed"], got, want), "sequence")
            if lists is not None and sorted([x for x in r["done"] if x[0] == "list"][-1][1]) != lists:
                fail("%s: list names %s, expected %s" % (trace[-1], r["done"], lists), "list")
            labels.add("sequence")
        check(trace[-1] if trace else "nothing")
    r = command(["list"], [], False)
    check_list(r)
    return {"nontrivial": touched > 0, "labels": sorted(labels), "sample": trace[:12]}


CAMPAIGNS = [Campaign("histories", steps, evaluate, quick=700, thorough=20000, shrink_evals=120)]
