"""C46: stateful: sequences of edits to a generated project, each followed by generating and an incremental Ninja build,
against a clean build.

The edits are those of C18. After each step the build files are written again by the generator, as node-gyp does, and
the real ninja runs with stand-in tools. After the last step every artifact of a clean build must be there with the
same content, building again must run nothing, generating again must change no build file, and a change of one source
must rerun only what depends on it.
"""
import json
import os
import time

from hypothesis import strategies as st

from vh import gypbuild as B, gypproj as P, gyprun, stubs
from vh.core import Campaign, Violation
import c18

ID = "C46"
LEVEL = "exploration"
RULE = ("a case is non-trivial when at least two edits changed the project between builds and at least one of them "
        "changed a project file, a header, an action's input or a setting")

# a stale output that is older than its inputs is left out: ninja's log, not gyp, decides about those
OPS = [o for o in c18.OPS if o != "stale"]


@st.composite
def cases(draw):
    p = P.normalise(draw(P.project(max_targets=4)))
    steps = draw(st.lists(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 20), st.integers(0, 20)),
                                   min_size=1, max_size=3), min_size=2, max_size=4))
    return {"p": p, "steps": [[list(o) for o in s] for s in steps], "conf": draw(st.integers(0, 1)),
            "jobs": draw(st.sampled_from([1, 4, 8])), "D": draw(st.booleans()), "I": draw(st.booleans())}


def buildfiles(root):
    res = {}
    for d, ds, fs in os.walk(os.path.join(root, "out")):
        for f in fs:
            if f.endswith(".ninja"):
                q = os.path.join(d, f)
                res[os.path.relpath(q, root)] = (open(q).read(), os.stat(q).st_mtime_ns)
    return res


def evaluate(case):
    s = c18.State(case)
    j = json.dumps(case)
    cur = s.files()
    root, _ = B.prepare(s.p, "ninja", name="inc", args=s.args, extra_files=cur)
    kw = {"jobs": case["jobs"]}
    B.must(B.build(root, "ninja", s.conf, **kw), "the first build", case)
    changed = 0
    for step in case["steps"]:
        time.sleep(0.006)
        for op, x, y in step:
            s.apply(op, x, y, root)
        new = s.files()
        changed += bool(c18.sync(root, cur, new))
        cur = new
        time.sleep(0.006)
        B.generate(s.p, "ninja", root, s.args)
        B.must(B.build(root, "ninja", s.conf, **kw), "the build after %r" % step, case)
    clean, _ = B.prepare(s.p, "ninja", name="clean", args=s.args, extra_files=cur)
    B.must(B.build(clean, "ninja", s.conf, **kw), "a clean build", case)
    inc, cl = buildfiles(root), buildfiles(clean)
    for k in cl:
        a, b = inc.get(k, ("missing",))[0].replace(root, "@"), cl[k][0].replace(clean, "@")
        if a != b:
            raise Violation("after the edits %s is not what generating it in a fresh tree writes: %r\n%s" % (
                k, [(u, v) for u, v in zip(a.split("\n"), b.split("\n")) if u != v][:2], j))
    want, have = B.tree(clean, "out/" + s.conf), B.tree(root, "out/" + s.conf)
    bad = sorted(k for k in want if have.get(k) != want[k] and not k.endswith(".stamp"))
    if bad:
        raise Violation("after the edits the build differs from a clean one in %s: %r instead of %r\n%s" % (
            bad[:3], (have.get(bad[0]) or "missing")[:300], want[bad[0]][:300], j))
    gt, gw = {}, {}
    for top, res in ((root, gt), (clean, gw)):
        for d, ds, fs in os.walk(top):
            if "/gen" in d[len(top):] and "/out" not in d[len(top):]:
                for f in fs:
                    res[os.path.relpath(os.path.join(d, f), top)] = open(os.path.join(d, f)).read()
    bad = sorted(k for k in gw if gt.get(k) != gw[k])
    if bad:
        raise Violation("after the edits the generated files %s differ from a clean build's\n%s" % (bad, j))
    time.sleep(0.003)
    B.generate(s.p, "ninja", root, s.args)
    again = buildfiles(root)
    if {k: v[0] for k, v in again.items()} != {k: v[0] for k, v in inc.items()}:
        raise Violation("generating the same project again writes something else\n%s" % j)
    b3 = B.build(root, "ninja", s.conf, **kw)
    B.must(b3, "the build with nothing to do", case)
    if b3.log:
        raise Violation("nothing changed, yet the build ran %s\n%s" % (
            [[x["tool"]] + x.get("writes", []) for x in b3.log][:4], j))
    if B.tree(root, "out/" + s.conf) != have:
        raise Violation("a build with nothing to do changed the results\n%s" % j)
    labels = sorted({o[0] for x in case["steps"] for o in x})
    labels += narrow(case, s, root, cur, kw, j)
    return {"nontrivial": changed >= 2 and s.deep, "labels": labels}


def narrow(case, s, root, cur, kw, j):
    """One source edited: only its own compilation, and the links of targets that use it, run again."""
    own = [(t, x) for t in s.p["targets"] if t["type"] != "none" for x in t["sources"] if P.compiled_ext(x["path"])]
    if not own:
        return []
    t, x = own[case["steps"][0][0][1] % len(own)]
    time.sleep(0.006)
    x["v"] += 1
    new = s.files()
    touched = [f for f in new if new[f] != cur.get(f)]
    c18.sync(root, cur, new)
    b = B.build(root, "ninja", s.conf, **kw)
    B.must(b, "the build after one source changed", case)
    runs = B.compile_runs(b.log)
    if [os.path.basename(r[1] or "?") for r in runs] != [os.path.basename(x["path"])]:
        raise Violation("%s changed, and the build compiled %r\n%s" % (touched, [r[1] for r in runs], j))
    ts = s.p["targets"]
    again = {ts.index(t)}
    for _ in ts:
        again |= {k for k, x in enumerate(ts) if x["type"] in P.LINK and set(P.link_closure(s.p, k)) & again}
    want = sorted(P.product_base(ts[k]) for k in again)
    got = sorted(os.path.basename(x["writes"][0]) for x in B.ar_runs(b.log) + B.link_runs(b.log))
    for _ in ts:        # a link may also wait for what its target depends on without linking it
        again |= {k for k, x in enumerate(ts) if set(x["deps"]) & again}
    most = [P.product_base(ts[k]) for k in again if ts[k]["type"] != "none"]
    if len(set(got)) != len(got) or set(want) - set(got) or set(got) - set(most):
        raise Violation("%s changed: the products %r hold it, the build made %r again\n%s" % (touched, want, got, j))
    acts = B.act_runs(b.log)
    binary = any(i["kind"] != "file" for y in s.p["targets"] for a in y["actions"] for i in a["in"])
    if acts and not binary and not s.p.get("tools"):
        raise Violation("%s changed, and the build ran the actions %r\n%s" % (
            touched, [a["argv"] for a in acts][:2], j))
    return ["one source"]


CAMPAIGNS = [Campaign("edits", cases, evaluate, quick=280, shrink_seconds=60, shrink_evals=120)]
ASSUMPTIONS = ["edits have a later time stamp than the outputs of the build before them",
               "the generator runs before each build", "files an earlier version of the project produced may stay behind"]


def setup():
    gyprun.load()
    stubs.setup()
