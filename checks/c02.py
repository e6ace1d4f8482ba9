"""C02: path items keep naming the same file through includes, defaults, conditions and dependent settings."""
import json
import posixpath

from hypothesis import strategies as st

from vh import gypgen as G, gyprun
from vh.core import Campaign, Violation

ID = "C02"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least one relative path item is written in a file of another directory "
        "than the target that receives it")

DIRS = ["", "p", "q", "p/r", "q/s/t", "p/r/u"]
PATHK = ["sources", "include_dirs", "libraries", "my_files", "some_dirs", "the_path", "inputs", "x_file", "y_paths"]
PLAINK = ["defines", "cflags", "files_list", "my_filex", "path", "dirs", "_fileS", "a_dirx"]
SCALARK = ["the_dir", "my_file", "a_path", "destination", "product_name", "dirname", "x_file_y"]


def path_text():
    seg = st.sampled_from(["a", "b", "..", ".", "c.d", "e f", "z-g", "z$h", "z<i"])
    rel = st.lists(seg, min_size=1, max_size=4).map("/".join)
    slash = st.tuples(rel, st.booleans()).map(lambda t: t[0] + ("/" if t[1] else ""))
    special = st.sampled_from(["/abs/x", "$(V)/x", "-lfoo", "<x", ">x", "^x", "\"/q\"", "'$q'", "\"-q\"", "'r'", "\"r\"",
                               "/", "-", "//x", "..", "../", "./", "'<x"])
    return st.one_of(slash, slash, slash, special, st.sampled_from([1, 0, 7]))


@st.composite
def cases(draw):
    chain = draw(st.lists(st.sampled_from(DIRS), min_size=0, max_size=3))
    site = draw(st.sampled_from(["target", "defaults", "cmdline", "direct", "all", "link", "direct"]))
    wrap = draw(st.sampled_from(["none", "none", "cond", "tcond", "nested", "config", "action", "copy", "op"]))
    key = draw(st.sampled_from(PATHK * 2 + PLAINK + SCALARK * 2))
    val = draw(path_text()) if key in SCALARK else draw(st.lists(path_text(), min_size=1, max_size=3))
    if isinstance(val, list):
        u = []
        [u.append(x) for x in val if x not in u]
        val = u
        if draw(st.integers(0, 7)) == 5 and key in ("my_files", "some_dirs", "y_paths", "files_list"):
            # paths of a list inside a list are left alone, those of a dictionary inside it are not
            val = val + [draw(st.sampled_from([["a", "b/c"], [["../x"]], [{"the_dir": "a/b", "u_files": ["../c"]}, "d"]]))]
    return {"main": draw(st.sampled_from(DIRS)), "dep": draw(st.sampled_from(DIRS)), "chain": chain,
            "site": site, "wrap": wrap, "key": key, "val": val,
            "op": draw(st.sampled_from(["", "+", "=", "?"])), "names": draw(st.sampled_from(["", "same", ""]))}


def j(d, f):
    return d + "/" + f if d else f


def rel(to, fro_dir):
    return posixpath.relpath(posixpath.join("/r", to), posixpath.join("/r", fro_dir))


def build(c):
    key, val, wrap = c["key"], c["val"], c["wrap"]
    if c["site"] in ("direct", "all", "link") and key in ("sources", "libraries") and wrap == "config":
        wrap = "none"
    if wrap == "config" and key in ("sources", "libraries"):
        wrap = "none"
    if wrap == "op" and isinstance(val, list):
        content = {key + c["op"]: val}
    elif wrap == "cond":
        content = {"conditions": [["OS=='linux'", {key: val}]]}
    elif wrap == "tcond":
        content = {"target_conditions": [["_type=='none'", {key: val}]]}
    elif wrap == "nested":
        content = {"some_settings": {"inner": {key: val}, "l": [{key: val}]}}
    elif wrap == "config":
        content = {"configurations": {"Default": {key: val}}}
    elif wrap == "action":
        content = {"actions": [{"action_name": "n", "action": ["x", "rel/p"], "inputs": [], "outputs": ["o/p"],
                                key: val}]}
    elif wrap == "copy":
        content = {"copies": [{"destination": "d/e", "files": ["f/g"], key: val}]}
    else:
        content = {key: val}
    files = {}
    # innermost file first
    same = c.get("names") == "same"     # files of different directories share one name
    names = []
    for n, d in enumerate(c["chain"]):
        x = j(d, "main.gyp" if same else "i%d.gypi" % n)
        names.append(x if not same or (x not in names and d not in (c["main"], c["dep"])) else j(d, "i%d.gypi" % n))
    site = c["site"]
    main = j(c["main"], "main.gyp")
    dep = j(c["dep"], "main.gyp" if same and c["dep"] != c["main"] else "dep.gyp")
    settings = {"direct": "direct_dependent_settings", "all": "all_dependent_settings",
                "link": "link_settings"}.get(site)
    owner = dep if settings else main          # the .gyp file the outermost content is in

    def place(n):
        """content of level n: either includes the next level or holds the content"""
        if n == len(names):
            return content
        cur = posixpath.dirname(names[n - 1] if n else owner)
        return {"includes": [rel(names[n], cur)]}
    origin = names[-1] if names else owner
    for n in range(len(names)):
        body = place(n + 1)
        files[names[n]] = body
    top = place(0)
    t = {"target_name": "t", "type": "none"}
    root = {"targets": [t]}
    includes = []
    if settings:
        t["type"] = "shared_library" if site == "link" else "none"
        t["dependencies"] = [rel(dep, c["main"]) + ":d"] if dep != main else ["d"]
        dt = {"target_name": "d", "type": "static_library" if site == "link" else "none", settings: top}
        if dep == main:
            root["targets"].append(dt)
        else:
            files[dep] = {"targets": [dt]}
    elif site == "defaults":
        root["target_defaults"] = top
    elif site == "cmdline" and names:
        files[names[0]] = {"target_defaults": files[names[0]]}
        includes = [names[0]]
    else:
        t.update(top)
    if wrap == "tcond" and t["type"] != "none":
        txt = json.dumps(content).replace("_type=='none'", "_type=='%s'" % t["type"])
        content.clear()
        content.update(json.loads(txt))
    files[main] = root
    return files, main, includes, origin


def found(v, key, out):
    if isinstance(v, dict):
        for k, x in v.items():
            if k.rstrip('=+?') == key:
                out.extend(x if isinstance(x, list) else [x])
            else:
                found(x, key, out)
    elif isinstance(v, list):
        for x in v:
            found(x, key, out)


def is_path(key):
    if key in ("sources", "include_dirs", "libraries", "inputs", "outputs", "destination", "files"):
        return True
    return any(key.endswith(s) for s in ("_dir", "_dirs", "_file", "_files", "_path", "_paths"))


def exempt(x):
    y = x[1:] if x[0] in "'\"" else x
    return x[0] in "-/$<>^" or (y and y[0] in "-/$<>^")


def evaluate(case):
    files, main, includes, origin = build(case)
    status, ref, r = G.verify(files, [main], {"nonconf": []}, includes=includes)
    labels = [status, "site:" + case["site"], "wrap:" + case["wrap"], "levels:%d" % len(case["chain"])]
    if status != "ok":
        return {"nontrivial": False, "labels": labels}
    got = []
    q = main + ":t#target"
    found(r.dump["dicts"][q], case["key"], got)
    vals = case["val"] if isinstance(case["val"], list) else [case["val"]]
    od, td = posixpath.dirname(origin), posixpath.dirname(main)
    moved = False
    for x in vals:
        if isinstance(x, list):
            continue        # only the reference comparison applies
        x = str(x)
        if not is_path(case["key"]) or exempt(x):
            if x not in got:
                raise Violation("%r of %r must arrive unchanged, got %r" % (x, case["key"], got))
            continue
        if x[0] in "'\"":
            continue        # a quoted relative item: only the reference comparison applies
        want = posixpath.normpath(posixpath.join("/r/o/o/t", od, x))
        have = [g for g in got if isinstance(g, str) and g
                and posixpath.normpath(posixpath.join("/r/o/o/t", td, g)) == want
                and g.endswith("/") == x.endswith("/")]
        if not have:
            raise Violation("%r written in %s must still name %s in %s, got %r\n%s"
                            % (x, origin, want, main, got, json.dumps(files)))
        moved |= od != td
    return {"nontrivial": moved, "labels": labels}


CAMPAIGNS = [Campaign("paths", cases, evaluate, quick=5000)]
ASSUMPTIONS = ["no symbolic links among the project's directories in this check (see C10)"]


def setup():
    gyprun.load()
