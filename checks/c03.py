"""C03: variable, command and file-list expansion against a reference evaluator over generated scopes."""
import json
import os
import posixpath

from hypothesis import strategies as st

from vh import core, gypgen as G, gyprun
from vh.core import Campaign, Violation

ID = "C03"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least one reference to a defined variable, command or file list is "
        "expanded into the handed-over target (or the reference rejects the project because of one)")

SAFE = ["a", "b c", "'q a' r", "x\\ y", "1", "007", "0", "-4", "x.y", "p/q", "d=e", "-f", "", " z", "Ab", "00", "2 3"]
WILD = ["$(v0)", "<v0", "a<b", "q\"r", "s'", "\\t", "`u`", "v$w", "#x", "^y", ">z", "a(b)c", "{k}", "<(v0", "%s",
        "*", "a;b", "\t", "c\\\\d", "e\"f g", "~", "?", "|", "&"]


FILES = ["f.txt", "num.txt", "multi.txt", "lead.txt"]


@st.composite
def text(draw, lvl, sym, whole_ok, names, cmds=True):
    """A string that may reference variables of lower level."""
    n = draw(st.integers(1, 3))
    parts = []
    for _ in range(n):
        k = draw(st.sampled_from(["lit", "lit", "ref", "ref", "ref", "list", "cmd", "nest", "wild", "auto"]))
        v = [x for x in names if x[0] == "v" and int(x[1]) < lvl]
        l = [x for x in names if x[0] == "l" and int(x[1]) < lvl]
        if k == "ref" and v:
            parts.append("%s(%s)" % (sym, draw(st.sampled_from(v))))
        elif k == "list" and l:
            parts.append("%s%s(%s)" % (sym, draw(st.sampled_from(["", "@", "@"])), draw(st.sampled_from(l))))
        elif k == "nest" and v and lvl > 1:
            d = draw(st.sampled_from(["0", "<1"]))
            parts.append("%s(v%s(n0))" % (sym, sym) if d == "0" else "%s( %s )" % (sym, draw(st.sampled_from(v))))
        elif k == "cmd" and cmds and draw(st.integers(0, 2)) == 0:
            parts.append(draw(command(sym, v, l)))
        elif k == "wild" and draw(st.integers(0, 3)) == 0:
            parts.append(draw(st.sampled_from(WILD)))
        elif k == "auto" and lvl >= 9:
            parts.append("%s(%s)" % (sym, draw(st.sampled_from(["_target_name", "_type", "_toolset", "_foo", "_defines",
                                                                "_undefd!", "OS"]))))
        elif k == "auto" and draw(st.integers(0, 40)) == 17:
            # a name nobody defines is refused, unless it ends as the merge operators do
            parts.append("%s(%s)" % (sym, draw(st.sampled_from(["nope", "nope_", "no.pe-", "nope9", "nope!", "nope/", "_x_"]))))
        else:
            parts.append(draw(st.sampled_from(SAFE)))
    if whole_ok and draw(st.integers(0, 1)):
        if cmds and draw(st.integers(0, 7)) == 3:
            return "%s!@(cat %s)" % (sym, draw(st.sampled_from(FILES)))
        if draw(st.integers(0, 9)) == 4:
            return draw(st.sampled_from([" %s", "%s ", " %s "])) % parts[0]     # no longer the whole item
        return parts[0]
    return draw(st.sampled_from(["", "", " ", "/"])).join(parts)


@st.composite
def command(draw, sym, v, l):
    k = draw(st.sampled_from(["echo", "echo", "cat", "list", "count", "count", "fail", "refcat"]))
    at = draw(st.sampled_from(["", "@"]))
    arg = ""
    if v and draw(st.booleans()):
        arg = " %s(%s)" % (sym, draw(st.sampled_from(v)))
    if k == "echo":
        return "%s!%s(echo x%s y)" % (sym, at, arg)
    if k == "list":
        return "%s!%s([\"echo\", \"x%s\", \"k\"])" % (sym, at, arg)
    if k == "cat":
        return "%s!%s(cat %s)" % (sym, at, draw(st.sampled_from(FILES)))
    if k == "refcat":
        return "%s!%s(cat ref.txt)" % (sym, at)
    if k == "count":
        return "%s!%s(sh cnt.sh %s)" % (sym, at, draw(st.sampled_from(["k1", "k2", "k3"])))
    return draw(st.sampled_from(["%s!(false)", "%s!([\"false\"])", "%s!(exit 3)", "%s!(kill -9 $$)",
                                 "%s!(kill -TERM $$)"] + ["%s!(echo ok)"] * 9)) % sym


@st.composite
def scope(draw, sym_choices, names_above, levels, cond=True, depth=0):
    d = {}
    names = set(names_above)
    for i in sorted(draw(st.lists(st.integers(0, levels - 1), max_size=3, unique=True))):
        kind = draw(st.sampled_from(["v", "v", "l"]))
        nm = "%s%d" % (kind, i)
        pct = draw(st.sampled_from(["", "", "%"]))
        sym = draw(st.sampled_from(sym_choices))
        if kind == "v":
            val = draw(text(i, sym, False, sorted(names)))
            if draw(st.integers(0, 5)) == 0:
                val = draw(st.sampled_from([3, 0, -1, ""]))
        else:
            val = [draw(text(i, sym, True, sorted(names))) for _ in range(draw(st.integers(0, 3)))]
        d[nm + pct] = val
        names.add(nm)
    if draw(st.integers(0, 3)) == 0:
        d["n0"] = draw(st.sampled_from(["0", "0", "1"]))
    if depth == 0 and draw(st.integers(0, 3)) == 0:
        sub, n2 = draw(scope(sym_choices, names, levels, cond, 1))
        for k in sorted(d):
            if k[0] == "v" and k != "variables" and draw(st.integers(0, 2)) == 1:
                sub.pop(k.rstrip("%"), None)
                sub[k.rstrip("%") + "%"] = draw(st.sampled_from(["dfl", 0, "x"]))     # the own value, if any, wins
        d["variables"] = sub
    if cond and draw(st.integers(0, 4)) == 0:
        sub, n2 = draw(scope(sym_choices, names, levels, False, 1))
        # redefining a list that a sibling refers to has no documented meaning
        sub = {k: v for k, v in sub.items() if k[0] != "l" or k.rstrip("%") not in {x.rstrip("%") for x in d}}
        d["conditions"] = [[draw(st.sampled_from(["OS=='linux'", "OS=='mac'", "n0==0"] )), sub]]
    return d, names


@st.composite
def cases(draw):
    D = {}
    for nm in draw(st.lists(st.sampled_from(["v0", "v1", "v2", "n0"]), max_size=2, unique=True)):
        D[nm] = draw(st.sampled_from(["0", "1", "dd", "e f"])) if nm != "n0" else "0"
    names = set(D)
    if "n0" not in D:
        D["n0"] = "0"
    fv, n1 = draw(scope(["<"], names, 4))
    tv, n2 = draw(scope(["<", "<", "<", ">", "^"], n1, 6))
    sv, n3 = draw(scope(["<", "<", ">", "^"], n2, 6))
    syms = st.sampled_from(["<", "<", "<", ">", "^"])
    latenames = sorted(n2)

    def one(whole):
        return syms.flatmap(lambda s: text(9, s, whole, latenames if s != "<" else sorted(n2)))
    target = {"foo": draw(one(False)), "defines": draw(st.lists(one(True), max_size=4)),
              "dd": {"bar": draw(syms.flatmap(lambda s: text(9, s, False, sorted(n3)))),
                     "x_list": draw(st.lists(syms.flatmap(lambda s: text(9, s, True, sorted(n3))), max_size=3))}}
    fl = None
    if draw(st.integers(0, 3)) == 0:
        l = [x for x in sorted(n2) if x[0] == "l"]
        fl = draw(st.sampled_from(["<|(fl.txt", "<|(sub.d/fl2.txt"])) if False else "<|(fl.txt"
        if l:
            fl += " <@(%s)" % draw(st.sampled_from(l))
        fl += " tail)"
    return {"D": D, "fv": fv, "tv": tv, "sv": sv, "target": target, "filelist": fl,
            "dir": draw(st.sampled_from(["", "p"])), "order": draw(st.booleans()),
            "second": draw(st.sampled_from([None, None, None, "q/p", "r"]))}


CNT = "echo $1 >> cnt.log\necho r$1\n"
RAW = {"f.txt": "content one\n", "num.txt": "42\n", "multi.txt": "m1 'm 2'\nm3\n", "ref.txt": "<(n0)\n",
       "cnt.sh": CNT, "lead.txt": "   lead 'k  l'\n\n"}
OTHER = {"f.txt": "another content\n", "num.txt": "007\n", "multi.txt": "\tn1 \"n 2\" \n", "lead.txt": "nolead", "ref.txt": "<(n0) 2\n"}


def build(case):
    d = case["dir"]
    t = {"target_name": "t", "type": "none", "variables": case["tv"]}
    body = dict(case["target"])
    if case["sv"]:
        body["dd"] = dict(body["dd"], variables=case["sv"])
    if case["filelist"]:
        body["flist"] = case["filelist"]
    if case["order"]:
        body = dict(reversed(list(body.items())))
    t.update(body)
    main = (d + "/" if d else "") + "a.gyp"
    files = {main: {"variables": case["fv"], "targets": [t]}}
    for k, v in RAW.items():
        files[(d + "/" if d else "") + k] = {"$raw": v}
    roots = [main]
    if case.get("second"):
        # the same text once more in another directory, where the commands find other files
        d2 = case["second"] + "/"
        files[d2 + "b.gyp"] = {"variables": case["fv"], "targets": [dict(t, target_name="t2")]}
        roots.append(d2 + "b.gyp")
        for k, v in dict(RAW, **OTHER).items():
            files[d2 + k] = {"$raw": v}
    return files, roots


def evaluate(case):
    files, roots = build(case)
    D = {k: (int(v) if v.isdigit() and str(int(v)) == v else v) for k, v in case["D"].items()}
    status, ref, r = G.verify(files, roots, {}, defines=D)
    labels = [status]
    if status == "oom":
        return {"nontrivial": False, "labels": labels}
    if status == "reject":
        labels.append(ref.kind)
    txt = json.dumps([case["target"], case["fv"], case["tv"], case["sv"]])
    for s in ("<(", "<@(", ">(", ">@(", "^(", "<!", ">!", "^!", "sh cnt.sh"):
        if s in txt:
            labels.append("has " + s)
    if status == "ok":
        root = os.path.join(core.scratch_root(), "proj")
        for sub in [case["dir"]] + [case["second"]] * bool(case.get("second")):
            log = os.path.join(root, sub, "cnt.log")
            runs = open(log).read().split() if os.path.exists(log) else []
            want = sorted({t.split()[2] for t, cwd in r_commands(r) if t.startswith("sh cnt.sh")
                           and posixpath.normpath(cwd or ".") == (sub or ".")})
            if sorted(runs) != want:
                raise Violation("commands run in %r: expected each of %r once, got %r\n%s" % (
                    sub, want, runs, json.dumps(files)))
        if case.get("second"):
            labels.append("two directories")
        lists = {}
        for p, its in r_lists(r):
            lists.setdefault(p, []).append(its)
        for p, v in lists.items():
            if any(x != v[0] for x in v):
                continue
            labels.append("filelist")
            full = os.path.join(root, p)
            got = open(full).read() if os.path.exists(full) else None
            if got != "".join(i + "\n" for i in v[0]):
                raise Violation("file list %s: expected lines %r, file has %r\n%s" % (p, v[0], got, json.dumps(files)))
    return {"nontrivial": "(" in txt, "labels": labels}


def r_commands(r):
    return r.ref_commands


def r_lists(r):
    return r.ref_filelists


CAMPAIGNS = [Campaign("scopes", cases, evaluate, quick=4500)]
ASSUMPTIONS = ["brackets inside references are balanced", "no variable refers to itself",
               "commands are the ones the generator knows (echo, cat, sh, false, exit, kill)",
               "a list expanded in list context holds no reference to another list nested in it"]


def setup():
    gyprun.load()
