"""C04: conditional sections against a reference evaluator over generated condition trees."""
import json

from hypothesis import strategies as st

from vh import gypgen as G, gyprun
from vh.core import Campaign

ID = "C04"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least one condition list with two or more possible branches is evaluated, "
        "or the project is rejected for a malformed or undefined condition")

SV = {"s1": ["a", "b", "linux", "x-y", ""], "s2": ["a", "b", "10", "2"], "n1": [0, 1, 2, 10], "n2": [0, 1, 2],
      "ls": [["a", "b"], [], ["linux"]]}


def atom(late):
    names = ["s1", "s2", "OS", "_marker"] + (["_target_name", "_type", "_toolset"] if late else ["_target_name", "_toolset"])
    strs = ["a", "b", "linux", "mac", "t1", "none", "static_library", "target", "host", "m0", ""]
    return st.one_of(
        st.tuples(st.sampled_from(names), st.sampled_from(["==", "!="]), st.sampled_from(strs)).map(
            lambda t: '%s%s"%s"' % t),
        st.tuples(st.sampled_from(["n1", "n2"]), st.sampled_from(["==", "!=", "<", ">", "<=", ">="]),
                  st.integers(0, 3)).map(lambda t: "%s %s %d" % t),
        st.tuples(st.sampled_from(["a", "linux", "zz"]), st.sampled_from(["in", "not in"]),
                  st.sampled_from(["ls", "_defines"])).map(lambda t: '"%s" %s %s' % t),
        st.sampled_from(["n1", "n2", "1", "0", "s1", "'<(s1)'=='a'", "<(n1)", "<(n1)==1", "'<(OS)'!='linux'",
                         "<(n1)+<(n2)>2", "[x for x in ls if x=='a']", "'a' + s1 == 'ab'",
                         "v('1.10')>v('1.9')", "v(\"2.0\") < v(\"1.0\")", "(n1)"]),
    )


def expr(late):
    a = atom(late)
    return st.recursive(a, lambda c: st.one_of(
        st.tuples(c, st.sampled_from([" and ", " or "]), c).map(lambda t: "(" + t[0].strip() + ")" + t[1] + "(" + t[2].strip() + ")"),
        c.map(lambda x: "not (" + x.strip() + ")")), max_leaves=3)


@st.composite
def chain(draw, depth, late, ctr, allow_bad=True):
    c = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        e = draw(expr(late))
        if e in c[::2]:
            continue      # a repeated test in one chain can never hold, and merging lists unifies equal strings
        c.append(e)
        c.append(draw(body(depth, late, ctr)))
    if draw(st.booleans()):
        c.append(draw(body(depth, late, ctr)))
    if allow_bad and draw(st.integers(0, 60)) == 37:
        k = draw(st.sampled_from(["short", "str", "extra", "undef", "syntax", "notdict", "listexpr"]))
        if k == "short":
            c = c[:1]
        elif k == "str":
            c = "OS=='linux'"
        elif k == "extra":
            c = c + [{}, {}]
        elif k == "undef":
            c[0] = "no_such_name==1"
        elif k == "syntax":
            c[0] = "OS=="
        elif k == "notdict":
            c[1] = "x"
        elif k == "listexpr":
            c[0] = "<@(ls)"
    return c


@st.composite
def body(draw, depth, late, ctr):
    ctr[0] += 1
    m = "m%d" % ctr[0]
    if draw(st.integers(0, 7)) == 3:
        return {}                 # a branch that chooses nothing still ends the chain
    b = {"defines": [m]}
    for k in draw(st.lists(st.sampled_from(["scalar", "op", "var", "sub", "nested", "nested", "late", "path"]),
                           max_size=2, unique=True)):
        if k == "scalar":
            b["marker"] = m
        elif k == "op":
            b["defines" + draw(st.sampled_from(["+", "="]))] = b.pop("defines")
        elif k == "var":
            b["variables"] = {"s1": m, "n1": draw(st.integers(0, 2))}
            b["sub"] = {"cflags": ["<(s1)" if not late else ">(s1)"]}
        elif k == "sub":
            b["sub"] = {"defines": [m], "conditions" if not late else "target_conditions":
                        [draw(chain(0, late, ctr, False))]}
        elif k == "nested" and depth:
            b["conditions" if not late else "target_conditions"] = draw(
                st.lists(chain(depth - 1, late, ctr, False), min_size=1, max_size=2))
        elif k == "late" and not late and depth:
            b["target_conditions"] = [draw(chain(0, True, ctr, False))]
        elif k == "path":
            b["sources"] = [m + ".c"]
    return b


@st.composite
def cases(draw):
    ctr = [0]
    vars_ = {k: draw(st.sampled_from(v)) for k, v in SV.items()}
    late_vars = {k: draw(st.sampled_from(v)) for k, v in SV.items()}
    t = {"early": draw(st.lists(chain(2, False, ctr), max_size=2)),
         "late": draw(st.lists(chain(2, True, ctr), max_size=2)),
         "defaults": draw(st.lists(chain(1, False, ctr), max_size=1)),
         "dlate": draw(st.lists(chain(1, True, ctr), max_size=1)),
         "root": draw(st.lists(chain(0, False, ctr), max_size=1)),
         "vcond": draw(st.one_of(st.none(), st.tuples(expr(False).filter(lambda e: "_" not in e), st.sampled_from([0, 1, 2]),
                                                      st.sampled_from([0, 1, 2])).map(list)))}
    other = {k: draw(st.sampled_from(v)) for k, v in SV.items()} if draw(st.booleans()) else None
    return {"vars": vars_, "late_vars": late_vars, "other_vars": other, "t": t,
            "vnest": draw(st.sampled_from([None, None, "<(s1)", "", "a"])), "type": draw(st.sampled_from(["none", "static_library"])),
            "two": draw(st.booleans()), "toolsets": draw(st.booleans())}


def build(case):
    t = case["t"]
    targets = []
    for n in (["t1", "t2"] if case["two"] else ["t1"]):
        x = {"target_name": n, "type": case["type"], "marker": "m0", "defines": ["base"], "variables": dict(case["late_vars"])}
        if n == "t2" and case.get("other_vars"):
            x["variables"] = dict(case["other_vars"])       # the same conditions, with other values
        if case["toolsets"]:
            x["toolsets"] = ["target", "host"]
        if t["early"]:
            x["conditions"] = t["early"]
        if t["late"]:
            x["target_conditions"] = t["late"]
        targets.append(x)
    root = {"variables": dict(case["vars"]), "targets": targets}
    if t["vcond"]:
        root["variables"]["conditions"] = [[t["vcond"][0], {"n2": t["vcond"][1]}, {"n2": t["vcond"][2]}]]
    if case.get("vnest") is not None:
        # a default below, and the own value that wins over it
        root["variables"].update({"variables": {"s2%": "zz"}, "s2": case["vnest"]})
        root["variables"].setdefault("conditions", []).append(["s2=='a'", {"n1": 1}, {"n1": 0}])
    if t["defaults"] or t["dlate"]:
        # the defaults carry the automatics their conditions mention
        root["target_defaults"] = {"defines": ["dflt"], "target_name": "td", "toolset": "target", "marker": "md",
                                   "variables": dict(case["vars"])}
        if t["defaults"]:
            root["target_defaults"]["conditions"] = t["defaults"]
        if t["dlate"]:
            root["target_defaults"]["target_conditions"] = t["dlate"]
    if t["root"]:
        root["conditions"] = t["root"]
        root["marker"] = "mr"
        root["defines"] = ["r"]
        root["target_name"] = "tr"
        root["toolset"] = "target"
    return {"a.gyp": root}, "a.gyp"


def evaluate(case):
    files, main = build(case)
    status, ref, r = G.verify(files, [main], {"toolsets": case["toolsets"]})
    labels = [status]
    if status == "reject":
        labels.append(ref.kind)
    n = sum(len(case["t"][k]) for k in ("early", "late", "defaults", "dlate", "root"))
    multi = any(len(c) > 2 for k in ("early", "late", "defaults", "dlate") for c in case["t"][k])
    labels += [k for k in ("early", "late", "defaults", "dlate", "root", "vcond") if case["t"][k]]
    return {"nontrivial": status == "reject" or multi, "labels": labels}


CAMPAIGNS = [Campaign("conditions", cases, evaluate, quick=2000)]
ASSUMPTIONS = ["conditions are evaluated by the reference as Python expressions over the variables in scope"]


def setup():
    gyprun.load()
