import ast, glob, os, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
D = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, D, True)

def write(files):
    for k, v in files.items():
        p = os.path.join(D, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(v if isinstance(v, str) else repr(v))

def gyp(*args, fmt="gypd", env=None, cwd=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    return subprocess.run([sys.executable, os.path.join(REPO, "gyp/gyp_main.py"), "-f", fmt, "--depth=.",
                           "--no-parallel", "-DOS=linux"] + list(args), cwd=cwd or D, env=e,
                          capture_output=True, text=True, timeout=120)

def load(name):
    return ast.literal_eval(open(os.path.join(D, name)).read())

def targets(files, *args):
    """{target name: dict} of a.gyp after processing"""
    write(files)
    r = gyp("a.gyp", *args)
    assert r.returncode == 0, r.stderr
    ts = load("a.gypd")["targets"]
    for t in ts:
        t.update(t["configurations"][t["default_configuration"]])
    return {t["target_name"]: t for t in ts}
