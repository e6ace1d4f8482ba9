#!/usr/bin/env python3
"""tools/mkseed.py DIR: read DIR/spec.py (ID, PROPERTY, NEEDS, BREAKS, FILE, OLD, NEW or EDITS, DEMO[, EXTRA])
and create seeded/ID after confirming it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, capture_output=True, **k)


def one(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    out = os.path.join(VERIF, "seeded", ns["ID"])
    scratch = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
    try:
        wt = os.path.join(scratch, "repo")
        shutil.copytree("/repo", wt, symlinks=True)
        demo = os.path.join(scratch, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.sh"), "w").write(ns["DEMO"].lstrip("\n"))
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        for k, v in ns.get("EXTRA", {}).items():
            open(os.path.join(demo, k), "w").write(v.lstrip("\n"))
        r = sh("bash %s/demo.sh" % demo, wt)
        if r.returncode != 0:
            return "demo fails on the unchanged tree:\n" + r.stdout + r.stderr
        if sh("git status --porcelain", wt).stdout.strip():
            return "demo dirties the tree"
        edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%d matches in %s for %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        r = sh("bash %s/demo.sh" % demo, wt)
        if r.returncode == 0:
            return "demo passes with the change"
        msg = r.stdout[-600:] + r.stderr[-600:]
        # original lines only
        tests = sh("/opt/venv/bin/python -m pytest -q gyp 2>&1 | tail -3", wt)
        t = sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json; cat %s/o.json" % (wt, scratch, scratch, scratch, scratch), wt)
        base = json.load(open("/opt/vp/BASELINE.json"))
        try:
            o = json.load(open(scratch + "/o.json"))
        except Exception as e:
            return "tests gave no result: %s %s" % (e, t.stdout[-500:] + t.stderr[-500:])
        need = base.get("stable") or base.get("tests") or base.get("pass") or base
        passed = o.get("passed") or o.get("pass") or o
        miss = [x for x in (need if isinstance(need, list) else need) if x not in (passed if isinstance(passed, list) else passed)]
        if miss:
            return "stable tests fail: %s" % miss[:5]
        d = sh("git diff", wt).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(d)
        for n in os.listdir(demo):
            shutil.copy2(os.path.join(demo, n), out)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "ok: " + msg.strip().replace("\n", " | ")[-300:]
    finally:
        shutil.rmtree(scratch)


for s in [a if a.endswith(".py") else a.rstrip("/") + "/spec.py" for a in sys.argv[1:]]:
    print(s, one(s), flush=True)
