"""C05: list filters against a reference filter over generated lists, placements and malformed filters."""
from hypothesis import strategies as st

from vh import gypgen as G, gyprun
from vh.core import Campaign

ID = "C05"
LEVEL = "exploration"
RULE = ("a case is non-trivial when a filter excludes at least one item, or re-includes one, or the project is "
        "rejected for a malformed filter")

ITEMS = ["a.c", "a_win.c", "b_mac.cc", "b_linux.c", "x/a.c", "x/y_posix.h", "win/z.c", "a.c", "-f", "A_WIN.c", "1", "12",
         "a+b.c", "c(d).c", "", "two words", "-f", "linux.c", "caf\u00e9_win.c"]
RES = ["_win\\.", "_(mac|linux)\\.", "^x/", "\\.cc?$", ".*", "^$", "win", "a", "^a\\.c$", "\\.h$", "(^|/)win/", "1", "^1$",
       "[A-Z]", "\\+", "(?i)a_win", "^-", " ", "x/|z", "nomatch", "\u00e9"]
KEYS = ["sources", "defines", "cflags", "x_list", "a_paths"]


@st.composite
def lists(draw, key, dup=True):
    l = draw(st.lists(st.sampled_from(ITEMS), max_size=7))
    if key == "x_list" and draw(st.integers(0, 7)) == 5:
        l = l + [3, 12]
    return l


@st.composite
def section(draw, depth, badness):
    d = {}
    for key in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True)):
        parts = [(key, draw(lists(key)))]
        if draw(st.integers(0, 9)) < 6:
            parts.append((key + "!", draw(st.lists(st.sampled_from(ITEMS), max_size=3))))
        if draw(st.integers(0, 9)) < 7:
            rx = draw(st.lists(st.tuples(st.sampled_from(["exclude", "exclude", "include"]),
                                         st.sampled_from(RES)).map(list), max_size=4))
            parts.append((key + "/", rx))
        if draw(st.integers(0, 9)) == 8:
            parts.pop(0)
        if draw(st.integers(0, 80)) == 41 and badness:
            k = draw(st.sampled_from(["type", "type2", "action", "excluded", "arity"]))
            if k == "type":
                parts.append((key + draw(st.sampled_from("!/")), "str"))
            elif k == "type2":
                parts = [(key, "str"), (key + "!", ["a"])]
            elif k == "action":
                parts.append((key + "/", [["drop", "a"]]))
            elif k == "excluded":
                parts.append((key + "_excluded", []))
                parts.append((key + "!", ["a.c"]))
        if draw(st.booleans()):
            parts.reverse()
        d.update(parts)
    if depth and draw(st.integers(0, 2)) == 1:
        d[draw(st.sampled_from(["sub", "all_settings"]))] = draw(section(depth - 1, badness))
    if depth and draw(st.integers(0, 4)) == 3:
        d["dicts"] = [draw(section(0, badness)), "str", [draw(section(0, badness))]]
    return d


@st.composite
def cases(draw):
    sites = {"target": draw(section(2, True))}
    for s in draw(st.lists(st.sampled_from(["defaults", "cond", "tcond", "conf", "conf2", "direct", "gypi"]), max_size=2,
                           unique=True)):
        d = draw(section(1, False))
        if s in ("conf", "conf2"):
            d = {k: v for k, v in d.items() if not k.startswith("sources")}
        sites[s] = d
    return sites


def build(case):
    t = {"target_name": "t", "type": "none"}
    t.update(case["target"])
    root = {"targets": [t]}
    files = {"p/a.gyp": root}
    if "defaults" in case:
        root["target_defaults"] = case["defaults"]
    if "cond" in case:
        t["conditions"] = [["OS=='linux'", case["cond"]]]
    if "tcond" in case:
        t["target_conditions"] = [["_type=='none'", case["tcond"]]]
    if "conf" in case or "conf2" in case:
        t["configurations"] = {"Debug": case.get("conf", {}), "Release": case.get("conf2", {})}
    if "direct" in case:
        t["dependencies"] = ["d"]
        root["targets"].append({"target_name": "d", "type": "none", "direct_dependent_settings": case["direct"]})
    if "gypi" in case:
        files["q/i.gypi"] = case["gypi"]
        t["includes"] = ["../q/i.gypi"]
    return files, "p/a.gyp"


def evaluate(case):
    files, main = build(case)
    status, ref, r = G.verify(files, [main], {})
    labels = [status] + ["site:" + s for s in case]
    if status == "reject":
        return {"nontrivial": ref.kind.startswith("filter"), "labels": labels + [ref.kind]}
    if status == "oom":
        return {"nontrivial": False, "labels": labels}
    exc = "_excluded" in str(ref["dicts"])
    inc = "'include'" in str(case)
    if exc:
        labels.append("excluded")
    if inc:
        labels.append("include-action")
    return {"nontrivial": exc or inc, "labels": labels}


CAMPAIGNS = [Campaign("filters", cases, evaluate, quick=4000)]


def setup():
    gyprun.load()
