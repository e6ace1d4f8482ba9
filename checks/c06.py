"""C06: configuration inheritance and placement against a reference over generated configuration graphs."""
from hypothesis import strategies as st

from vh import gypgen as G, gyprun
from vh.core import Campaign

ID = "C06"
LEVEL = "exploration"
RULE = ("a case is non-trivial when a target has at least two configurations, or one that inherits or is abstract, "
        "or the project is rejected for its configurations")

NAMES = ["Debug", "Release", "Base", "Common", "debug", "A_x64"]
FREE = ["defines", "cflags", "include_dirs", "x_list", "cflags_cc", "ldflags"]
STRUCT = ["sources", "libraries", "product_name", "product_dir", "standalone_static_library", "extra_nc"]


@st.composite
def settings_(draw, prefix, ops, extra=()):
    d = {}
    for k in draw(st.lists(st.sampled_from(FREE), max_size=3, unique=True)):
        op = draw(st.sampled_from(["", "", "", "+", "=", "?", "!", "/"])) if ops else \
            draw(st.sampled_from(["", "", "", "", "!", "+"]))
        if op == "/":
            v = [[draw(st.sampled_from(["exclude", "include"])), draw(st.sampled_from(["a", "^.1", "x"]))]]
        else:
            v = draw(st.lists(st.sampled_from(["a1", "b1", "x", "-f", prefix, "a/b"]), max_size=3, unique=True))
        d[k + op] = v
    if draw(st.booleans()):
        d[draw(st.sampled_from(["foo", "mac_bundle", "my_dir"]))] = prefix
    if draw(st.integers(0, 2)) == 1:
        d["msvs_settings"] = {"Tool": {"Opt": prefix, "L": [prefix, "x"]}, "k": {"L" + draw(st.sampled_from(["", "+"])): ["y"]}}
    return d


@st.composite
def cases(draw):
    t = draw(settings_("T", False))
    for k in draw(st.lists(st.sampled_from(STRUCT), max_size=3, unique=True)):
        t[k] = {"sources": ["s.c", "a1"], "libraries": ["-la", "l.a"], "product_name": "pn", "product_dir": "pd",
                "standalone_static_library": 1, "extra_nc": ["e1"]}[k]
    if draw(st.integers(0, 3)) == 2:
        t[draw(st.sampled_from(["sources", "libraries", "extra_nc"])) + draw(st.sampled_from("!/")) ] = \
            draw(st.sampled_from([["a1"], [["exclude", "a"]]]))
        for k in list(t):
            if k.endswith("/") and t[k] and not isinstance(t[k][0], list):
                t[k] = [["exclude", "a"]]
            if k.endswith("!") and t[k] and isinstance(t[k][0], list):
                t[k] = ["a1"]
    confs = {}
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True)):
        c = draw(settings_(n, True))
        if draw(st.integers(0, 2)) == 1:
            c["inherit_from"] = draw(st.lists(st.sampled_from(NAMES[:5]), max_size=3, unique=True))
        if draw(st.integers(0, 3)) == 1 and (confs or draw(st.integers(0, 3)) == 2):
            c["abstract"] = draw(st.sampled_from([1, 1, 1, 0]))
        if draw(st.integers(0, 50)) == 27:
            c[draw(st.sampled_from(["sources", "dependencies", "type", "target_name", "actions", "libraries",
                                    "link_settings", "all_dependent_settings"]))] = draw(st.sampled_from([[], ["x"]]))
        if draw(st.integers(0, 4)) == 3:
            c["conditions"] = [["OS=='linux'", {"defines": ["cc_" + n]}]]
        if draw(st.integers(0, 4)) == 3:
            c["target_conditions"] = [["_type=='static_library'", {"cflags": ["tc_" + n]}]]
        confs[n] = c
    order = list(confs)
    if len(order) > 2 and draw(st.booleans()):      # a shared ancestor, reached over several parents
        for i, n in enumerate(order):
            ps = draw(st.lists(st.sampled_from(order[:i]), max_size=3, unique=True)) if i else []
            if ps:
                confs[n]["inherit_from"] = ps
            for k in draw(st.lists(st.sampled_from(["cflags", "foo", "x_list="]), max_size=2, unique=True)):
                confs[n][k] = {"cflags": ["-f", "-" + n], "foo": n, "x_list=": [n]}[k]
    ok = set(confs)
    if draw(st.integers(0, 20)) != 13:
        for c in confs.values():
            if "inherit_from" in c:
                c["inherit_from"] = [p for p in c["inherit_from"] if p in ok]
    # each dictionary of configurations may also come from the defaults
    split = draw(st.sampled_from(["target", "target", "defaults", "both"]))
    return {"t": t, "confs": confs, "split": split, "default": draw(st.sampled_from([None, None, "Release", "Zed"])),
            "dt": draw(settings_("D", False)) if split != "target" else {}, "two": draw(st.booleans()),
            "none": draw(st.integers(0, 9)) == 7}


def build(case):
    t = {"target_name": "t", "type": "static_library"}
    t.update(case["t"])
    root = {"targets": [t]}
    dflt = dict(case["dt"])
    if not case["none"]:
        names = list(case["confs"])
        if case["split"] == "target":
            t["configurations"] = case["confs"]
        elif case["split"] == "defaults":
            dflt["configurations"] = case["confs"]
        else:
            dflt["configurations"] = {n: case["confs"][n] for n in names[::2]}
            t["configurations"] = {n: case["confs"][n] for n in names[1::2]}
            if names:
                t["configurations"].setdefault(names[0], {})["defines"] = ["over"]
    if case["default"]:
        t["default_configuration"] = case["default"]
    if dflt:
        root["target_defaults"] = dflt
    if case["two"]:
        root["targets"].append({"target_name": "u", "type": "static_library", "defines": ["U"]})
    return {"p/a.gyp": root}, "p/a.gyp"


def evaluate(case):
    import copy
    files, main = build(copy.deepcopy(case))
    status, ref, r = G.verify(files, [main], {"nonconf": ["extra_nc"]})
    labels = [status, "split:" + case["split"]]
    if status == "reject":
        labels.append(ref.kind)
    confs = case["confs"]
    nt = not case["none"] and (len(confs) > 1 or any("inherit_from" in c or "abstract" in c for c in confs.values()))
    if any(len(c.get("inherit_from", [])) > 0 for c in confs.values()):
        labels.append("inherits")
    if any(c.get("abstract") for c in confs.values()):
        labels.append("abstract")
    return {"nontrivial": status != "oom" and nt, "labels": labels}


CAMPAIGNS = [Campaign("configurations", cases, evaluate, quick=3500)]


def setup():
    gyprun.load()
