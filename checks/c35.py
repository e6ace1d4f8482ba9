"""C35: clean and remove over generated project and development directories, arguments, links and permissions.

Oracle: the whole scratch tree before and after; only the build directory (clean) or one direct entry of the development
directory (remove) may be gone, nothing may appear or change, and links are never followed.
All runs are made as an unprivileged user who owns nothing but the scratch directory.
"""
import os
import stat

from hypothesis import strategies as st

from vh import nodejs
from vh.core import Campaign, Violation

ID = "C35"
LEVEL = "exploration"
RULE = ("a case is non-trivial when there is something to delete, or the argument, option or a link points outside of what "
        "the command owns")

# kinds of entry: file, dir with children, links
LINKS = ["../victim", "../victim/inner", "/nowhere/at/all", ".", "..", "$OUT", "$OUT/f", "build", "8.1.2"]


@st.composite
def entry(draw, depth=2):
    k = draw(st.integers(0, 9))
    if k < 3 or depth == 0:
        return "text"
    if k < 5:
        return {"->": draw(st.sampled_from(LINKS))}
    names = draw(st.lists(st.sampled_from(["a", "b", "c d", ".hidden", "build", "8.1.2", "é", "-rf", "*", "..x"]), max_size=3, unique=True))
    d = {n: draw(entry(depth - 1)) for n in names}
    if draw(st.integers(0, 11)) == 6:
        d["!mode"] = draw(st.sampled_from([0o555, 0o111, 0o000]))
    return {"dir": d}


PROJ = ["build", "build", "build", "build2", "Build", "builds", ".build", "binding.gyp", "src", "build ", "out", "xbuild"]
DEV = ["8.1.2", "8.1.2", "8.1.2", "8.1.20", "8.1.1", "v8.1.2", "iojs-3.3.1", "iojs-2.0.0", "3.3.1", "current", "node_modules", "..x", "8.1.2 ", "~", "*", "x"]
ARGS = ["8.1.2"] * 5 + ["v8.1.2", " 8.1.2", "=8.1.2", "8.1.2+b", "3.3.1", "iojs-3.3.1", "2.0.0", "8.1", "8.x", "*", "~", "..x", "current", "x", "nothing",
        ".", "..", "./", "../", "../victim", "../victim/inner", "../proj", "../proj/build", "$OUT", "$OUT/f", "$D", "$D/..", "$D/8.1.2", "/", "8.1.2/include",
        "8.1.2/a", "8.1.2/..", "8.1.2/../..", "8.1.2/../../victim", "x/../8.1.2", "./8.1.2", "8.1.2/", "8.1.2/.", "../dev/8.1.2", "8.1.1/a", "a\\..\\b",
        "x/a/../../../victim", "v8.1.2/../../victim", "./../victim", "~/victim", "%2e%2e/victim", "node_modules/a", "..\\victim", "-"]


@st.composite
def removes(draw):
    dev = {n: draw(entry()) for n in draw(st.lists(st.sampled_from(DEV), max_size=5, unique=True))}
    return {"kind": "remove", "dev": dev, "arg": draw(st.sampled_from(ARGS)), "target": draw(st.integers(0, 3)) == 1, "other": draw(st.sampled_from(["", "", "8.1.1", "x", "../victim"])), "word": draw(st.sampled_from(["remove", "rm"])),
            "more": draw(st.sampled_from([[], [], [], ["../victim"], ["8.1.1"], ["list"]])),
            "devdir": draw(st.sampled_from(["abs", "abs", "rel", "slash", "link", "tilde", "dots", "missing", "empty"])), "cli": draw(st.integers(0, 7)) == 3}


@st.composite
def cleans(draw):
    proj = {n: draw(entry()) for n in draw(st.lists(st.sampled_from(PROJ), min_size=1, max_size=5, unique=True))}
    return {"kind": "clean", "proj": proj, "args": draw(st.sampled_from([[], [], ["../victim"], ["$OUT"], ["src"], ["..", "."], ["clean"]])),
            "chdir": draw(st.sampled_from(["", "", "rel", "abs", "link", "up"])), "cli": draw(st.integers(0, 3)) == 2, "debug": draw(st.booleans())}


def write(base, tree, out, modes):
    for n, e in tree.items():
        if n == "!mode":
            modes.append((base, e))
            continue
        q = os.path.join(base, n)
        if e == "text":
            with open(q, "w") as f:
                f.write("content of " + n)
        elif "->" in e:
            os.symlink(e["->"].replace("$OUT", out), q)
        else:
            os.mkdir(q)
            write(q, e["dir"], out, modes)


def snapshot(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds + fs:
            q = os.path.join(p, n)
            s = os.lstat(q)
            r = os.path.relpath(q, d)
            if stat.S_ISLNK(s.st_mode):
                out[r] = "-> " + os.readlink(q)
            elif stat.S_ISDIR(s.st_mode):
                out[r] = "dir %o" % stat.S_IMODE(s.st_mode)
            else:
                out[r] = "file %o %s" % (stat.S_IMODE(s.st_mode), open(q).read())
    return out


def locked(e, top=True):
    """Whether the entry holds a directory whose content the user cannot delete."""
    if not isinstance(e, dict) or "dir" not in e:
        return False
    d = e["dir"]
    return "!mode" in d and (d["!mode"] == 0 or d["!mode"] == 0o111 or len(d) > 1) or any(locked(x, False) for n, x in d.items() if n != "!mode")


def evaluate(case):
    uid, d, binary = nodejs.unprivileged()
    out = os.path.join(d, "outside")
    victim = os.path.join(d, "home", "victim")
    proj = os.path.join(d, "home", "proj")
    dev = os.path.join(d, "home", "dev")
    for q in (out, os.path.join(victim, "inner"), os.path.join(out, "f"), proj, os.path.join(d, "home", "8.1.2"), os.path.join(proj, "8.1.2")):
        os.makedirs(q)
    for q in (os.path.join(out, "f", "precious"), os.path.join(victim, "precious"), os.path.join(victim, "inner", "p"), os.path.join(d, "home", "build"),
              os.path.join(d, "home", "8.1.2", "q")):
        open(q, "w").write("precious")
    modes = []
    sub = lambda s: s.replace("$OUT", out).replace("$D", dev)
    nontrivial = True
    env = {"HOME": os.path.join(d, "home"), "TMPDIR": d}
    if case["kind"] == "clean":
        os.mkdir(os.path.join(proj, "src"))
        write(proj, {k: v for k, v in case["proj"].items() if k != "src"}, out, modes)
        argv = ["clean"] + [sub(a) for a in case["args"]]
        cwd = proj
        os.symlink("../home/proj", os.path.join(d, "outside", "plink"))
        if case["chdir"]:
            cwd = os.path.join(victim, "inner")
            argv += ["-C", {"rel": "../../proj", "abs": proj, "link": os.path.join(out, "plink"), "up": "../../victim/../proj/src/.."}[case["chdir"]]]
        if case["debug"]:
            argv.append("--debug")
        own = "home/proj/build"
        ent = case["proj"].get("build")
        nontrivial = ent is not None
        plain = True
    else:
        if case["devdir"] != "missing":
            os.makedirs(dev)
            if case["devdir"] != "empty":
                write(dev, case["dev"], out, modes)
        os.symlink("../home/dev", os.path.join(d, "outside", "dlink"))
        cwd = proj
        arg = sub(case["arg"])
        argv = [case["word"]]
        if case["target"]:
            argv.append("--target=" + arg)
        else:
            argv.append(arg)
            argv += case["more"]
            if arg and case["other"]:
                # what the command names comes first
                argv.append("--target=" + case["other"])
        argv.append("--devdir=" + {"rel": "../dev", "slash": dev + "//", "link": os.path.join(out, "dlink"), "tilde": "~/dev", "dots": dev + "/../dev/."}.get(
            case["devdir"], dev))
        # the one entry that may go
        name = arg.strip() if case["target"] else arg
        flat = {"8.1.2": "8.1.2", "v8.1.2": "8.1.2", "8.1.2+b": "8.1.2", "3.3.1": "iojs-3.3.1", "2.0.0": "iojs-2.0.0"}.get(name.strip())
        if flat is None:
            q = os.path.normpath(os.path.join(dev, name))
            flat = os.path.basename(q) if os.path.dirname(q) == dev and name != "-" else None
        own = "home/dev/" + flat if flat else None
        plain = flat is not None and "/" not in arg
        ent = case["dev"].get(flat) if flat and case["devdir"] not in ("missing", "empty") else None
        nontrivial = ent is not None or flat is None
    nodejs.own(d, uid)
    before = snapshot(d)
    for q, m in reversed(modes):
        os.chmod(q, m)
    # as root everything is readable, so the second snapshot needs no permissions
    before = snapshot(d)
    argv.append("--loglevel=error")
    if case["cli"]:
        r = nodejs.cli(argv, cwd, env, uid=uid, binary=binary)
        failed = r.err if r.rc else None
        said = r.out
    else:
        r = nodejs.value("run", uid=uid, binary=binary, argv=argv, cwd=cwd, env=env)
        failed, said = r.get("failed"), ""
    after = snapshot(d)
    for q, m in modes:
        if os.path.isdir(q):
            os.chmod(q, 0o755)
    detail = "\n$ node-gyp %s   (in %s)\nfailed: %s\nbefore: %s" % (" ".join(argv), os.path.relpath(cwd, d), (failed or "no")[-800:], sorted(before.items()))
    mine = lambda k: own is not None and (k == own or k.startswith(own + "/"))
    for k in sorted(set(before) | set(after)):
        if before.get(k) == after.get(k):
            continue
        if not mine(k):
            raise Violation("%s: was %s, is %s%s" % (k, before.get(k), after.get(k, "gone"), detail), sig="outside")
        if k in after:
            raise Violation("%s was %s and now is %s%s" % (k, before.get(k), after[k], detail), sig="changed")
    gone = own is not None and own in before and own not in after
    partly = own is not None and own in after and any(mine(k) and k not in after for k in before)
    stuck = locked(ent)
    labels = [case["kind"], "entry:" + ("none" if ent is None else "text" if ent == "text" else "link" if "->" in ent else "dir"), "failed" if failed else "ok"]
    if partly and not stuck:
        raise Violation("only a part of %s was deleted%s" % (own, detail), sig="partly")
    if plain and failed is None and own in after and not (isinstance(ent, dict) and "->" in ent):
        raise Violation("the command says it succeeded and %s is still there%s" % (own, detail), sig="kept")
    if plain and failed is not None and not stuck and not (case["kind"] == "remove" and isinstance(ent, dict) and "->" in ent):
        raise Violation("the command fails%s" % detail, sig="fails")
    if case["kind"] == "clean" and isinstance(ent, dict) and "->" in ent and not gone:
        raise Violation("the link build is still there%s" % detail, sig="kept")
    return {"nontrivial": nontrivial, "labels": labels + (["locked"] if stuck else []) + (["rejected"] if own is None and failed else [])}


CAMPAIGNS = [Campaign("remove", removes, evaluate, quick=2400, thorough=60000, shrink_evals=200),
             Campaign("clean", cleans, evaluate, quick=1200, thorough=30000, shrink_evals=200)]
