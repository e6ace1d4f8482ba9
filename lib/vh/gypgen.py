"""Shared generators and the differential comparison against refgyp."""
import json
import os
import posixpath
import re
import shlex
import warnings

from hypothesis import strategies as st

from . import gyprun, refgyp
from .core import HarnessError, Violation, fresh_dir

warnings.filterwarnings("ignore", category=SyntaxWarning)     # of generated commands written as lists

LISTS = ["defines", "cflags", "x_list"]
PATHLISTS = ["sources", "include_dirs", "libraries", "my_files", "some_dirs", "a_path", "inputs"]
SCALARS = ["product_name", "foo", "bar"]
PATHSCALARS = ["my_dir", "my_file", "destination"]
DICTS = ["xcode_settings", "msvs_settings", "dd"]


def plain_items():
    return st.sampled_from(["a", "b", "c", "X=1", "-f", "-Wall", "-f", "a b", "", "1", 2, 0, "0", "-1", "d.c",
                            "e/f.c", "../g.c", "@x", "%s", "caf\u00e9"])


def path_items():
    return st.sampled_from(["a.c", "b.c", "./b.c", "s/c.c", "../d.c", "../../e.c", "s/../f.c", "dir/", "../", ".",
                            "/abs/x.c", "-lfoo", "$(OUT)/y.c", "<x", ">x", "^x", "\"$(q)\"", "'-l'", "\"/a\"",
                            "'q.c'", "a b.c", "s//t.c", "..", "x.c/", "s/./u/"])


def items(paths):
    return st.lists(path_items() if paths else plain_items(), max_size=4)


KILLS = ("kill -9 $$", "kill -TERM $$")


def run_command_sim(fs, counter=None):
    """The few shell commands the generators use, simulated for the reference."""
    def run(text, is_list, cwd):
        if counter is not None:
            counter.append((text, cwd))
        try:
            argv = [str(a) for a in eval(text, {"__builtins__": {}})] if is_list else shlex.split(text)
        except Exception:
            raise refgyp.OutOfModel("command " + text)
        if not argv or not is_list and text not in KILLS and re.search(r"[$;&|<>()*?~#`{}\\\n]", text):
            raise refgyp.OutOfModel("command " + text)
        if argv[0] == "echo":
            return " ".join(argv[1:]).rstrip()
        if argv[0] == "sh" and argv[1] == "cnt.sh":
            return "r" + argv[2]
        if argv[0] == "cat":
            p = posixpath.normpath(posixpath.join(cwd, argv[1]))
            if p not in fs:
                raise refgyp.Reject("command-failed", text)
            return fs[p].rstrip()
        if argv[0] in ("false", "exit") or (argv[0] == "kill"):
            raise refgyp.Reject("command-failed", text)
        raise refgyp.OutOfModel("command " + text)
    return run


def eval_condition(text, env):
    try:
        # conditions are Python expressions over the variables in scope; v() orders version numbers
        return bool(eval(str(text), {"__builtins__": {}, "v": lambda s: [int(x) for x in s.split(".")]}, env))
    except NameError as e:
        raise refgyp.Reject("condition-name", str(e))
    except SyntaxError:
        raise refgyp.Reject("condition-syntax", text)


def project_files(case_files):
    """{path: obj or {'$raw': text}} -> (texts, parsed for the reference, raw files)"""
    texts, parsed, raw = {}, {}, {}
    for p, v in case_files.items():
        if isinstance(v, dict) and "$raw" in v:
            raw[p] = v["$raw"]
            texts[p] = v["$raw"]
        elif isinstance(v, dict) and "$link" in v:
            parsed[p] = v
        else:
            parsed[p] = v
            texts[p] = repr(v) + "\n"
    return texts, parsed, raw


def reference(files, roots, cfg=None, defines=None, includes=(), root_targets=None, circular=True, depth="."):
    """('ok', result) | ('reject', Reject) | ('oom', reason)"""
    cfg = cfg or {}
    _, parsed, raw = project_files(files)
    env = dict(refgyp.DEFAULT_VARS)
    for k, v in (defines or {}).items():
        env[k] = v
    ncmd = []
    lang = refgyp.Language(run_command_sim(raw, ncmd), eval_condition, tuple(cfg.get("paths", ())))
    pl = None
    pl = refgyp.Pipeline(parsed, lang, env, multiple_toolsets=cfg.get("toolsets", False),
                         adjust=cfg.get("adjust", True), sort_deps=cfg.get("sorted", False),
                         nonconf=cfg.get("nonconf", ()), extra_sources=cfg.get("extra_sources", ()),
                         includes=includes, circular_check=circular, depth=depth)
    pl.commands = ncmd
    try:
        return "ok", pl.run(roots, root_targets), pl
    except refgyp.Reject as r:
        return "reject", r, pl
    except refgyp.OutOfModel as o:
        return "oom", str(o), pl


def run_gyp(files, roots, cfg=None, args=(), env=None, depth=".", cpu=60):
    root = fresh_dir("proj")
    texts, _, _ = project_files(files)
    gyprun.write_tree(root, texts)
    for p, v in files.items():
        if isinstance(v, dict) and "$link" in v:
            os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
            os.symlink(v["$link"], os.path.join(root, p))
    a = ["--depth=" + depth, "--no-parallel"] + list(args) + list(roots)
    return gyprun.dump(a, root, cfg=cfg, env=env, cpu=cpu)


def diff(a, b, path=""):
    """First difference between two JSON values, or None."""
    if type(a) is not type(b):
        return "%s: expected %r, got %r" % (path, a, b)
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s.%s: missing, expected %r" % (path, k, a[k])
        for k in b:
            if k not in a:
                return "%s.%s: unexpected %r" % (path, k, b[k])
        for k in a:
            d = diff(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, list):
        if a != b:
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    d = diff(x, y, "%s[%d]" % (path, i))
                    return (d or "") + "   (expected list %r, got %r)" % (a, b)
            return "%s: expected %r, got %r" % (path, a, b)
        return None
    if a != b:
        return "%s: expected %r, got %r" % (path, a, b)
    return None


def check_order(result, lst):
    if sorted(lst) != sorted(set(lst)):
        raise Violation("a target is listed twice: %r" % lst)
    return None


def reachable(deps, a):
    seen, todo = set(), list(deps.get(a, ()))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += deps.get(x, ())
    return seen


def check_topological(lst, deps, files):
    pos = {q: i for i, q in enumerate(lst)}
    for q in lst:
        for d in deps[q]:
            if not pos[d] < pos[q]:
                raise Violation("the target list has %s before its dependency %s\n%s" % (q, d, json.dumps(files)))


def users_first(q, l, deps, files):
    for i, a in enumerate(l):
        for b in l[:i]:
            if b in reachable(deps, a):
                raise Violation("sorted dependencies of %s list %s before its user %s: %r\n%s" % (
                    q, b, a, l, json.dumps(files)))


def verify(files, roots, cfg=None, args=(), defines=None, includes=(), root_targets=None, circular=True,
           env=None, depth=".", only=None):
    """Differential comparison. Returns (status, reference result, gyp result); raises Violation."""
    status, ref, pl = reference(files, roots, cfg, defines, includes, root_targets, circular, depth)
    if status == "oom":
        return status, ref, None
    a = list(args)
    for k, v in (defines or {}).items():
        a += ["-D", "%s=%s" % (k, v)]
    for i in includes:
        a += ["-I", i]
    if root_targets is not None:
        for r in root_targets:
            a += ["-R", r]
    if not circular:
        a += ["--no-circular-check"]
    r = run_gyp(files, roots, cfg, a, env, depth)
    r.ref_commands = pl.commands
    r.ref_filelists = pl.lang.x.filelists
    if r.timeout:
        raise Violation("gyp did not terminate on %r" % (files,))
    if status == "reject":
        if r.rc == 0:
            raise Violation("accepted, though it must be rejected (%s)\n%s" % (ref, json.dumps(files)))
        return status, ref, r
    if r.rc != 0:
        raise Violation("rejected a valid project: rc=%s %s\n%s" % (r.rc, r.err[-1500:], json.dumps(files)))
    exp = {q: d for q, d in ref["dicts"].items()}
    got = {q: r.dump["dicts"][q] for q in r.dump["dicts"]}
    lst = r.dump["list"]
    check_order(r, lst)
    if sorted(lst) != sorted(exp):
        raise Violation("targets handed over: expected %r, got %r" % (sorted(exp), sorted(lst)))
    got = {q: got[q] for q in lst}
    check_topological(lst, pl.deps, files)
    e = json.loads(json.dumps(exp))
    if (cfg or {}).get("sorted") and (cfg or {}).get("adjust", True):
        # any order in which users precede what they use is right
        for q in lst:
            for where in (e[q], got[q]):
                if "dependencies" in where and e[q]["type"] in refgyp.LINKABLE:
                    if where is got[q]:
                        users_first(q, where["dependencies"], pl.deps, files)
                    where["dependencies"] = sorted(where["dependencies"])
    if only:
        e, got = only(e), only(got)
    d = diff(e, got)
    if d:
        raise Violation("differs from the documented result at %s\n%s" % (d, json.dumps(files)))
    return status, ref, r
