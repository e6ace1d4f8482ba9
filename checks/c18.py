"""C18: stateful: sequences of edits to a generated project, each followed by a real incremental make, against a clean build.

After the sequence every artifact a clean build of the final project makes must exist with the same content, the
makefiles must have regenerated themselves into what a direct generation writes, and a further build must do nothing.
"""
import copy
import json
import os
import posixpath
import shutil
import time

from hypothesis import strategies as st

from vh import gypbuild as B, gypproj as P, gyprun, stubs
from vh.core import Campaign, Violation

ID = "C18"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least two edits changed the project between builds and at least one of them "
        "changed a project file, a header, an action's input or a setting")
OPS = ["src", "src", "hdr", "hdr", "hdrinc", "in", "in", "rin", "cp", "def", "undef", "cflag", "tddef", "dds", "libs",
       "addsrc", "rmsrc", "args", "rargs", "dep", "del", "del", "touch", "conf", "hdrdel", "incl", "incledit", "extra",
       "product", "stale", "optional", "confdef", "nop", "swapsrc"]


@st.composite
def cases(draw):
    p = P.normalise(draw(P.project(max_targets=4)))
    multi = draw(st.integers(0, 11)) == 3
    if not multi:   # the known finding about several outputs would hide everything else
        used = {(g[1], g[2], g[3]) for t in p["targets"] for s in t["sources"] for g in s.get("gen", ())}
        for ti, t in enumerate(p["targets"]):
            for ai, a in enumerate(t["actions"]):
                if len(a["out"]) > 1:
                    a["out"] = a["out"][:1]
                    if a["src"] and not P.compiled_ext(a["out"][0]["path"]):
                        a["src"] = False
            for r in t["rules"]:
                r["outs"] = r["outs"][:1]
            for s in t["sources"]:
                s["gen"] = [g for g in s.get("gen", ()) if g[3] == 0 and
                            p["targets"][g[1]]["actions"][g[2]]["out"][0]["path"].endswith(".h")]
            for a in t["actions"]:
                a["in"] = [i for i in a["in"] if i["kind"] == "file" or i["o"] == 0]
    steps = draw(st.lists(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 20), st.integers(0, 20)),
                                   min_size=1, max_size=3), min_size=2, max_size=4))
    return {"p": p, "steps": [[list(o) for o in s] for s in steps], "conf": draw(st.integers(0, 1)),
            "jobs": draw(st.sampled_from([1, 4, 8])), "D": draw(st.booleans()), "I": draw(st.booleans())}


def pick(xs, i):
    return xs[i % len(xs)] if xs else None


class State:
    def __init__(self, case):
        self.p = copy.deepcopy(case["p"])
        self.conf = self.p["confs"][case["conf"] % len(self.p["confs"])]
        self.extra = {"extra.gypi": 0, "incl.gypi": None}
        self.args = (["-Doptv=fromcmd"] if case["D"] else []) + (["-Iextra.gypi"] if case["I"] else [])
        self.p["gypi"] = {"variables": {"optv%": "dflt"}}
        self.p["tdextra"] = {}
        td = self.p["td"]
        td["defines"] = list(td.get("defines", [])) + ["OPT=<(optv)"]
        self.n = 0
        self.real = 0
        self.deep = False
        self.flags = set()

    def files(self):
        f = P.render(self.p)
        f["extra.gypi"] = json.dumps({"target_defaults": {"defines": ["XTRA=%d" % self.extra["extra.gypi"]]}})
        if self.extra["incl.gypi"] is not None:
            f["incl.gypi"] = json.dumps({"target_defaults": {"cflags": ["-fincl%d" % self.extra["incl.gypi"]]}})
            f["common.gypi"] = f["common.gypi"].replace("{", '{"includes": ["incl.gypi"],', 1)
        return f

    def apply(self, op, a, b, root):
        """Change the model; returns nothing. Bookkeeping of what kind of edit it was."""
        p = self.p
        ts = p["targets"]
        t = pick(ts, a)
        comp = [x for x in ts if x["type"] != "none"]
        c = pick(comp, a)
        self.n += 1
        if op == "src":
            s = pick(t["sources"], b)
            if s:
                s["v"] += 1
        elif op == "hdr":
            h = pick(sorted(p["headers"]), b)
            if h:
                p.setdefault("hv", {})[h] = p.get("hv", {}).get(h, 0) + 1
                self.deep = True
        elif op == "hdrinc":
            h, s = pick(sorted(p["headers"]), b), pick(c["sources"], a) if c else None
            if h and s:
                s["inc"] = [x for x in s["inc"] if x != h] if h in s["inc"] else s["inc"] + [h]
        elif op == "in":
            ins = [i for x in ts for y in x["actions"] for i in y["in"] if i["kind"] == "file"]
            i = pick(ins, b)
            if i:
                i["v"] += 1
                self.deep = True
        elif op == "rin":
            ins = [i for x in ts for y in x["rules"] for i in y["srcs"] + y["extra"]]
            i = pick(ins, b)
            if i:
                i["v"] += 1
                self.deep = True
        elif op == "cp":
            fs = [f for x in ts for y in x["copies"] for f in y["files"]]
            f = pick(fs, b)
            if f:
                f["v"] += 1
        elif op == "def" and c:
            c["set"].setdefault("defines", []).append("N%d" % self.n)
            self.deep = True
        elif op == "undef" and c and c["set"].get("defines"):
            c["set"]["defines"].pop(b % len(c["set"]["defines"]))
            self.deep = True
        elif op == "cflag" and c:
            c["set"].setdefault(pick(["cflags", "cflags_c", "cflags_cc"], b), []).append("-fn%d" % self.n)
            self.deep = True
        elif op == "confdef" and c:
            c["conf"].setdefault(pick(p["confs"], b), {}).setdefault("defines", []).append("CN%d" % self.n)
            self.deep = True
        elif op == "tddef":
            p["td"]["defines"].append("TN%d" % self.n)
            self.deep = True
        elif op == "dds":
            t.setdefault("dds", {}).setdefault("defines", []).append("DN%d" % self.n)
            self.deep = True
        elif op == "libs":
            link = [x for x in ts if x["type"] in P.LINK]
            x = pick(link, a)
            if x:
                x.setdefault("libraries", []).append("-ln%d" % self.n)
                self.deep = True
        elif op == "addsrc" and c:
            c["sources"].append({"path": "%sn%d.%s" % (pick(P.SUB, b), self.n, pick(["c", "cc"], b)), "inc": [], "v": 0,
                                 "gen": []})
            self.deep = True
        elif op == "rmsrc" and c and len(c["sources"]) > 1 and (c["type"] != "static_library" or b % 4 == 0):
            c["sources"].pop(b % len(c["sources"]))
            self.deep = True
            if c["type"] == "static_library":
                self.flags.add("archive")
        elif op == "swapsrc" and c and c["sources"] and (c["type"] != "static_library" or b % 4 == 0):
            s = c["sources"][b % len(c["sources"])]
            s["path"] = posixpath.join(posixpath.dirname(s["path"]), "sw%d.c" % self.n)
            if c["type"] == "static_library":
                self.flags.add("archive")
            self.deep = True
        elif op == "args":
            x = pick([y for x in ts for y in x["actions"]], b)
            if x:
                x["args"] = x["args"] + ["n%d" % self.n]
                self.deep = True
        elif op == "rargs" and b % 3 == 0:
            x = pick([y for x in ts for y in x["rules"]], b)
            if x:
                x["args"] = x["args"] + ["n%d" % self.n]
                self.flags.add("rule")
        elif op == "dep":
            ti = a % len(ts)
            js = [j for j in range(ti) if j not in ts[ti]["deps"] and ts[j]["dir"] >= ts[ti]["dir"]]
            j = pick(js, b)
            if j is not None:
                ts[ti]["deps"].append(j)
                self.deep = True
        elif op == "conf":
            self.conf = pick(p["confs"], p["confs"].index(self.conf) + 1)
        elif op == "hdrdel":
            h = pick(sorted(p["headers"]), b)
            if h and len(p["headers"]) > 1:
                del p["headers"][h]
                for k in p["headers"]:
                    p["headers"][k] = [x for x in p["headers"][k] if x != h]
                for x in ts:
                    for s in x["sources"]:
                        s["inc"] = [y for y in s["inc"] if y != h]
                self.deep = True
        elif op == "incl":
            self.extra["incl.gypi"] = 0 if self.extra["incl.gypi"] is None else None
            self.deep = True
        elif op == "incledit" and self.extra["incl.gypi"] is not None:
            self.extra["incl.gypi"] += 1
            self.deep = True
        elif op == "extra":
            self.extra["extra.gypi"] += 1
            self.deep = True
        elif op == "product" and c:
            c["product"] = {"product_name": "pn%d" % self.n}
            self.deep = True
        elif op in ("del", "touch", "stale"):
            self.disturb(op, a, b, root)

    def disturb(self, op, a, b, root):
        if op == "touch":
            fs = sorted(P.render(self.p))
            f = os.path.join(root, fs[(a * 21 + b) % len(fs)])
            if os.path.exists(f):
                os.utime(f)
            return
        outs = sorted(k for k in B.tree(root, "out") if not k.endswith(".stamp"))
        if not outs:
            return
        f = os.path.join(root, outs[(a * 21 + b) % len(outs)])
        if op == "del":
            os.unlink(f)
        elif os.path.isfile(f) and not os.path.islink(f) and not f.endswith((".stamp",)):
            # an output as an interrupted or restored build leaves it: other content, older than its inputs
            if os.stat(f).st_nlink == 1:
                with open(f, "a") as fh:
                    fh.write("stale\n")
                os.utime(f, (1, 1))


def sync(root, old, new):
    n = 0
    for f in old:
        if f not in new:
            os.unlink(os.path.join(root, f))
            n += 1
    for f, txt in new.items():
        if old.get(f) != txt:
            q = os.path.join(root, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as fh:
                fh.write(txt)
            n += 1
    return n


def makefiles(root, norm):
    res = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != "out"]
        for f in fs:
            if f == "Makefile" or f.endswith(".mk"):
                with open(os.path.join(d, f)) as fh:
                    res[os.path.relpath(os.path.join(d, f), root)] = fh.read().replace(norm, "@ROOT@")
    return res


def evaluate(case):
    s = State(case)
    j = json.dumps(case)
    f0 = s.files()
    root, _ = B.prepare(s.p, "make", name="inc", args=s.args, extra_files={
        k: v for k, v in f0.items()})
    kw = {"jobs": case["jobs"]}
    b = B.build(root, "make", s.conf, **kw)
    B.must(b, "the first build", case)
    cur = f0
    changed = 0
    for step in case["steps"]:
        time.sleep(0.006)
        for op, x, y in step:
            s.apply(op, x, y, root)
        new = s.files()
        changed += bool(sync(root, cur, new))
        cur = new
        time.sleep(0.006)
        b = B.build(root, "make", s.conf, **kw)
        B.must(b, "the build after %r" % step, case)
    # the state a clean build of the final project leaves
    clean, _ = B.prepare(s.p, "make", name="clean", args=s.args, extra_files=cur)
    b2 = B.build(clean, "make", s.conf, **kw)
    B.must(b2, "a clean build", case)
    inc, cl = makefiles(root, root), makefiles(clean, clean)
    for k in cl:
        if inc.get(k) != cl[k]:
            a1, a2 = (inc.get(k) or "").split("\n"), cl[k].split("\n")
            d = [(u, v) for u, v in zip(a1, a2) if u != v][:2]
            raise Violation("after the edits %s is not what generating it directly writes: %r\n%s" % (k, d, j))
    want, have = B.tree(clean, "out/" + s.conf), B.tree(root, "out/" + s.conf)
    known = None
    bad = sorted(k for k in want if have.get(k) != want[k] and not k.endswith(".stamp"))
    if bad:
        sig = None
        if "rule" in s.flags:
            sig = "rule-command"
        elif "archive" in s.flags:
            sig = "archive-members"
        known = Violation("after the edits the build differs from a clean one in %s: %r instead of %r\n%s" % (
            bad[:3], (have.get(bad[0]) or "missing")[:300], want[bad[0]][:300], j), sig=sig)
        if sig is None:
            raise known
    # outputs in the source tree
    gt, gw = {}, {}
    for top, res in ((root, gt), (clean, gw)):
        for d, ds, fs in os.walk(top):
            if "/gen" in d[len(top):] and "/out" not in d[len(top):]:
                for f in fs:
                    res[os.path.relpath(os.path.join(d, f), top)] = open(os.path.join(d, f)).read()
    bad = sorted(k for k in gw if gt.get(k) != gw[k])
    if bad and not known:
        raise Violation("after the edits the generated files %s differ from a clean build's\n%s" % (bad, j),
                        sig="rule-command" if "rule" in s.flags else None)
    # nothing changed: nothing is rebuilt
    before = dict(have)
    time.sleep(0.003)
    b3 = B.build(root, "make", s.conf, **kw)
    B.must(b3, "the build with nothing to do", case)
    if b3.log:
        multi = any(len(a["out"]) > 1 for t in s.p["targets"] for a in t["actions"])
        raise Violation("nothing changed, yet the build ran %s\n%s" % (
            [[x["tool"]] + x.get("writes", []) for x in b3.log][:4], j), sig="multi-output" if multi else None)
    if B.tree(root, "out/" + s.conf) != before:
        raise Violation("a build with nothing to do changed the results\n%s" % j)
    if known:
        raise known
    return {"nontrivial": changed >= 2 and s.deep, "labels": sorted({o[0] for x in case["steps"] for o in x})}


CAMPAIGNS = [Campaign("edits", cases, evaluate, quick=240, shrink_seconds=60, shrink_evals=120)]
ASSUMPTIONS = ["edits have a later time stamp than the outputs of the build before them",
               "files an earlier version of the project produced may stay behind"]


def setup():
    gyprun.load()
    stubs.setup()
