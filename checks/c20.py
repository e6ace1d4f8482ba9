"""C20: Visual Studio settings: conversion and validation against a reviewed table of all settings and value domains."""
import copy
import io
import json
import os
import re

from hypothesis import strategies as st

from vh import gyprun
from vh.core import VERIF, Campaign, Violation

ID = "C20"
LEVEL = "exploration"
RULE = ("a conversion case is non-trivial when at least three settings of two tools are converted or a value holds a "
        "macro or a flag; a validation case when an invalid item stands among at least two valid ones")

with open(os.path.join(VERIF, "lib/data/msvs_settings.json")) as _f:
    TABLE = json.load(_f)
OLD, NEW = TABLE["old"], TABLE["new"]
OLD_ITEMS = sorted((t, s) for t in OLD for s in OLD[t])
VALID_OLD = [(t, s) for t, s in OLD_ITEMS if OLD[t][s][0] != "new"]
NEW_ITEMS = sorted((t, s) for t in NEW for s in NEW[t])
PLAIN = ["a", "foo.lib", "x;y", "%(Inherited)", "a b", "C:\\x\\y", "/opt:1", "", "$(Other)/z", "é", "$x", "100%"]
MACROS = {"$(ConfigurationName)": "$(Configuration)", "$(InputDir)": "%(RelativeDir)", "$(InputExt)": "%(Extension)",
          "$(InputFileName)": "%(Filename)%(Extension)", "$(InputName)": "%(Filename)",
          "$(InputPath)": "%(Identity)", "$(ParentName)": "$(ProjectFileName)", "$(PlatformName)": "$(Platform)",
          "$(SafeInputName)": "%(Filename)"}
text = st.lists(st.sampled_from(PLAIN + sorted(MACROS) + ["$(IntDir)/", "$(OutDir)\\", "$(IntDir)\\\\", "$(OutDir)",
                                                          "$(OutDir)/\\x", "/", "\\"]), max_size=4).map("".join)


def conv_text(s):
    s = re.sub("|".join(re.escape(k) for k in MACROS), lambda m: MACROS[m.group()], s)
    return re.sub(r"(\$\((?:IntDir|OutDir)\))[\\/]+", r"\1", s)


def domain(kind, labels, new, old_style):
    """(strategy of valid values)"""
    if kind == "bool":
        return st.sampled_from(["true", "false"])
    if kind == "str":
        return text
    if kind == "list":
        return st.one_of(st.lists(text, max_size=4), text)
    if kind.startswith("int"):
        n = st.sampled_from([0, 1, 9, 10, 255, 1033, 4096, 65535])
        return n.map(str) if old_style or kind == "int10" else n.map(lambda i: "0x%04x" % i)
    if old_style:
        return st.sampled_from([str(i) for i, v in enumerate(labels) if v is not None])
    return st.sampled_from([v for v in labels if v is not None] + list(new))


def invalid(kind, labels, new, old_style):
    bad = [["x"], {"a": "b"}]
    if kind == "bool":
        return st.sampled_from(bad + ["True", "yes", "1", "0", "", "false ", "truefalse"])
    if kind == "str":
        return st.sampled_from(bad)
    if kind == "list":
        return st.sampled_from([{"a": "b"}])
    if kind.startswith("int"):
        return st.sampled_from(bad + ["x", "", "1.5", "0xg", "two"] + (["0x10"] if kind == "int10" or old_style else []))
    if old_style:
        return st.sampled_from(bad + [str(len(labels)), "-1", "99", "x", "", "1.0"] +
                               [str(i) for i, v in enumerate(labels) if v is None] +
                               [v for v in labels + new if v and not v.isdigit()][:2])
    return st.sampled_from(bad + ["nonsense", "99", "Default " if "Default" in labels else "defaultx", "-1"])


@st.composite
def valid_set(draw, items, table, old_style, lo=1, hi=12):
    r = []
    seen = set()
    for t, s in draw(st.lists(st.sampled_from(items), min_size=lo, max_size=hi, unique=True)):
        e = table[t][s]
        k = e[3:6] if old_style else e
        key = tuple(e[1:3]) if old_style and e[0] == "same" else (t, s)
        if key in seen:
            continue     # two tools setting one value differently has no defined meaning
        seen.add(key)
        r.append([t, s, draw(domain(*k, old_style and e[0] != "new"))])
    return r


def as_dict(items):
    d = {}
    for t, s, v in items:
        d.setdefault(t, {})[s] = v
    return d


@st.composite
def conv_cases(draw):
    focus = draw(st.integers(0, 3))
    items = OLD_ITEMS
    if focus == 1:
        t = draw(st.sampled_from(sorted(t for t in OLD if OLD[t])))
        items = [x for x in OLD_ITEMS if x[0] == t]
    elif focus == 2:
        items = [x for x in OLD_ITEMS if OLD[x[0]][x[1]][0] in ("flag", "preprocess") or
                 x[1] in ("AdditionalOptions", "PreprocessToFile") or OLD[x[0]][x[1]][1] in ("", "ProjectReference")]
    return {"set": draw(valid_set(items, OLD, True)), "junk": draw(st.sampled_from([None, None, "tool", "setting", "ex"]))}


def reference(items):
    res, flags = {}, []
    for t, s, v in items:
        how, nt, name, kind, labels, new = OLD[t][s]
        if how == "dropped":
            continue
        if how == "flag":
            if v == "true":
                flags.append((nt, name))
            continue
        if how == "preprocess":
            res.setdefault(nt, {})["PreprocessToFile"] = "false" if v == "0" else "true"
            res[nt]["PreprocessSuppressLineNumbers"] = "true" if v == "2" else "false"
            continue
        if how == "same":
            if kind == "enum":
                v = labels[int(v)]
            elif kind == "int10":
                v = "%d" % int(v)
            elif kind == "int16":
                v = "0x%04x" % int(v)
            elif isinstance(v, list):
                v = [conv_text(x) for x in v]
            elif kind in ("str", "list"):
                v = conv_text(v)
        res.setdefault(nt, {})[name] = v
    for nt, f in flags:
        d = res.setdefault(nt, {})
        o = d.get("AdditionalOptions")
        if isinstance(o, list):
            d["AdditionalOptions"] = o + [f]
        else:
            d["AdditionalOptions"] = f if o is None else "%s %s" % (o, f)
    return res


def nonempty(d):
    return {t: s for t, s in d.items() if s}


def check_conv(case):
    import gyp.MSVSSettings as M
    items = case["set"]
    src = as_dict(items)
    junk = None
    if case["junk"] == "tool":
        src["VCNoSuchTool"] = {"A": "1"}
        junk = "VCNoSuchTool"
    elif case["junk"] == "setting":
        src.setdefault(items[0][0], {})["NoSuchSetting"] = "1"
        junk = "NoSuchSetting"
    elif case["junk"] == "ex":
        src.setdefault(items[0][0], {})[items[0][1] + "_excluded"] = ["1"]
    before = copy.deepcopy(src)
    err = io.StringIO()
    j = json.dumps(case)
    got = M.ConvertToMSBuildSettings(src, err)
    if src != before:
        raise Violation("conversion changed its input: %s -> %s" % (before, src))
    w = err.getvalue().splitlines()
    if junk:
        if len(w) != 1 or junk not in w[0]:
            raise Violation("conversion did not report exactly the unknown %s: %r\n%s" % (junk, w, j))
    elif w:
        raise Violation("conversion of a valid set gave warnings %r\n%s" % (w, j))
    want = reference(items)
    if nonempty(got) != nonempty(want):
        raise Violation("converted to\n%s\ninstead of\n%s\n%s" % (got, want, j))
    err = io.StringIO()
    M.ValidateMSBuildSettings(got, err)
    if err.getvalue():
        raise Violation("the converted set is not valid in the new style: %r\n%s" % (err.getvalue(), j))
    if not any(OLD[t][s][0] == "new" for t, s, _ in items):
        err = io.StringIO()
        M.ValidateMSVSSettings(src, err)
        w = err.getvalue().splitlines()
        if (len(w) != 1 or junk not in w[0]) if junk else w:
            raise Violation("old-style validation: %r\n%s" % (w, j))
    vals = json.dumps([v for _, _, v in items])
    macro = any(m in vals for m in MACROS) or "Dir)" in vals
    flag = any(OLD[t][s][0] in ("flag", "preprocess") for t, s, _ in items)
    return {"nontrivial": len(items) >= 3 and len({t for t, _, _ in items}) > 1 or macro or flag,
            "labels": [x for x, y in (("macro", macro), ("flag", flag)) if y]}


@st.composite
def invalid_cases(draw):
    style = draw(st.sampled_from(["old", "new"]))
    old = style == "old"
    table, pool = (OLD, VALID_OLD) if old else (NEW, NEW_ITEMS)
    items = draw(valid_set(pool, table, old, 0, 6))
    kind = draw(st.sampled_from(["value", "value", "value", "setting", "tool", "excluded"]))
    t, s = draw(st.sampled_from(pool))
    e = table[t][s][3:6] if old else table[t][s]
    v = draw(invalid(*e, old)) if kind == "value" else "1"
    return {"style": style, "set": items, "kind": kind, "bad": [t, s, v], "at": draw(st.integers(0, 6))}


def check_invalid(case):
    import gyp.MSVSSettings as M
    old = case["style"] == "old"
    t, s, v = case["bad"]
    if case["kind"] == "setting":
        s += draw_name(s, OLD[t] if old else NEW[t])
    elif case["kind"] == "excluded":
        s += "X_excluded"
    elif case["kind"] == "tool":
        t += "x"
    items = [x for x in case["set"] if x[:2] != [t, s]]
    items.insert(min(case["at"], len(items)), [t, s, v])
    d = as_dict(items)
    j = json.dumps(case)
    err = io.StringIO()
    try:
        (M.ValidateMSVSSettings if old else M.ValidateMSBuildSettings)(d, err)
    except Exception as x:
        raise Violation("validation crashed: %s: %s\n%s" % (type(x).__name__, x, j))
    w = err.getvalue().splitlines()
    what = t if case["kind"] == "tool" else "%s/%s" % (t, s)
    if len(w) != 1 or what not in w[0] or "Warning" not in w[0]:
        raise Violation("the invalid %s was reported as %r\n%s" % (what, w, j))
    if old:
        err = io.StringIO()
        try:
            got = M.ConvertToMSBuildSettings(d, err)
        except Exception as x:
            raise Violation("conversion crashed: %s: %s\n%s" % (type(x).__name__, x, j))
        good = [x for x in items if x[:2] != [t, s]]
        want = reference(good)
        if not err.getvalue() and case["kind"] == "value" and OLD[t][s][0] == "same":
            # passed on: then validation of the result must report it
            e2 = io.StringIO()
            try:
                M.ValidateMSBuildSettings(got, e2)
            except Exception as x:
                raise Violation("validation crashed: %s: %s\n%s" % (type(x).__name__, x, j))
            if not e2.getvalue():
                raise Violation("the invalid %s = %r was passed on silently\n%s" % (what, v, j))
            name = OLD[t][s][1:3]
            if name[0] in got:
                got[name[0]].pop(name[1], None)
                want.get(name[0], {}).pop(name[1], None)
        if nonempty(got) != nonempty(want) and case["kind"] != "excluded":
            raise Violation("an invalid %s changed what others are converted to: %s instead of %s\n%s"
                            % (what, got, want, j))
    return {"nontrivial": len(items) > 2, "labels": [case["style"] + ":" + case["kind"]]}


def draw_name(s, taken):
    return "X" if s + "X" not in taken else "XX"


@st.composite
def new_cases(draw):
    return {"set": draw(valid_set(NEW_ITEMS, NEW, False, 1, 15))}


def check_new(case):
    import gyp.MSVSSettings as M
    err = io.StringIO()
    M.ValidateMSBuildSettings(as_dict(case["set"]), err)
    if err.getvalue():
        raise Violation("a valid new-style set was reported: %r\n%s" % (err.getvalue(), json.dumps(case)))
    return {"nontrivial": len(case["set"]) > 2}


def enum_all():
    """Every setting with every value of its finite domain (and samples of the others), each alone."""
    res = []
    for t, s in OLD_ITEMS:
        how, nt, name, kind, labels, new = OLD[t][s]
        if kind == "enum" and how != "new":
            vals = [str(i) for i, v in enumerate(labels) if v is not None]
        elif kind == "enum":
            vals = labels + new
        elif kind == "bool":
            vals = ["true", "false"]
        elif kind.startswith("int"):
            vals = ["0", "1033"]
        else:
            vals = ["$(InputDir)$(OutDir)/x", ""] + ([["$(InputName)", "b"], []] if kind == "list" else [])
        res += [{"set": [[t, s, v]], "junk": None} for v in vals if v is not None]
    return res


CAMPAIGNS = [Campaign("every-value", None, check_conv, quick=0, enum=enum_all),
             Campaign("convert", conv_cases, check_conv, quick=6000),
             Campaign("invalid", invalid_cases, check_invalid, quick=6000),
             Campaign("new-style", new_cases, check_new, quick=2000)]
ASSUMPTIONS = ["the table of settings in lib/data/msvs_settings.json is the intended one (extracted from the code once and reviewed)",
               "a setting that two old tools move to the same new place is given once"]


def setup():
    gyprun.load()
