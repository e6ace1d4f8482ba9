#!/usr/bin/env python3
"""tools/mut.py FILE [NAME...]: mutation sweep. FILE defines M = [(name, property, file, old, new)], each applied to a
scratch copy of BASE (default /repo) and given to the quick check of the property (several as "C01,C02")."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("BASE", "/repo")
ns = {}
exec(open(sys.argv[1]).read(), ns)
for name, props, f, old, new in ns["M"]:
    if sys.argv[2:] and name not in sys.argv[2:]:
        continue
    d = "/dev/shm/mut/%d-%s" % (os.getpid(), name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) != 1:
        print(name, "MATCHES", s.count(old), flush=True)
        shutil.rmtree(d)
        continue
    open(p, "w").write(s.replace(old, new))
    for prop in props.split(","):
        t = time.time()
        r = subprocess.run(["timeout", "800", "python3-vt", V + "/checks/run.py", prop], cwd=V, text=True, capture_output=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        out = (r.stdout + r.stderr).strip().replace("\n", " | ")
        print("%-28s %s %s %3ds %s" % (name, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode),
                                       time.time() - t, out[:170 if r.returncode == 1 else 300]), flush=True)
    shutil.rmtree(d)
