"""Stand-in programs (shell scripts) that record how they were called and then behave as told."""
import os


def make(path, record, how, extra="", python=None):
    """how: exit status, or the name of a signal to die from. python: version it reports when asked as an interpreter."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    s = "#!/bin/sh\n"
    if python is not None:
        s += ('if [ "$1" = -c ]; then\n  case "$2" in\n    *sys.executable*) echo "%s";;\n    *version_info*) echo "%s";;\n  esac\n  exit 0\nfi\n'
              % (path, python))
    s += ('n=0; while [ -e "%s.$n" ]; do n=$((n+1)); done\n'
          '{ pwd; printf "%%s\\0" "$@"; printf "\\001\\0"; env -0; } > "%s.$n.tmp"\n' % (record, record))
    s += extra
    s += 'mv "%s.$n.tmp" "%s.$n"\n' % (record, record)
    s += "exit %d\n" % how if isinstance(how, int) else "kill -%s $$\nsleep 5\n" % how
    with open(path, "w") as f:
        f.write(s)
    os.chmod(path, 0o755)


def calls(record):
    """[(cwd, argv, env)] in order."""
    out = []
    while os.path.exists("%s.%d" % (record, len(out))):
        raw = open("%s.%d" % (record, len(out)), "rb").read().decode("utf-8", "surrogateescape")
        cwd, _, rest = raw.partition("\n")
        items = rest.split("\0")
        k = items.index("\001")
        env = dict(x.split("=", 1) for x in items[k + 1:] if "=" in x)
        out.append((cwd, items[:k], env))
    return out
