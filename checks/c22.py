"""C22: POSIX, ninja and make quoting: what real sh, bash, ninja and make hand to a process against the original."""
import json
import os
import re
import subprocess

from hypothesis import strategies as st

from vh import gyprun, posix
from vh.core import Campaign, HarnessError, Violation, fresh_dir

ID = "C22"
LEVEL = "exploration"
RULE = ("a case is non-trivial when an argument holds a shell, make or ninja metacharacter, whitespace, or a variable "
        "reference, or (for line folding) is longer than a line")
SPECIAL = list(" \t\n\"'`\\!#%&()*+,-./:;<=>?@[]^_{|}~") + ["$$", "\r", "\x01", "\x7f", "é", "日", "a", "B", "0"]
HOT = ["\\\\", "\\'", '\\"', "''", "a b", "&&", "||", "#x", " # ", "~", "~/x", "{a,b}", "*", "?", "[a-z]", "!x", "%s", "--",
       "-n", "\\n", "x=y", "2>&1", "$(x)", "<(a)", "\\", "'", '"', "`date`", "=", ":", ";", ",", "  "]
ENV = {"VX": "value", "VY": "two words", "VZ": "", "V_Q": "a\"b'c*"}


def args(dollar=False, newline=True, extra=()):
    pieces = [p for p in SPECIAL + HOT + list(extra) if (newline or not set(p) & set("\n\r")) and "$" not in p]
    w = st.one_of(st.text(alphabet=[p for p in pieces if len(p) == 1], max_size=10),
                  st.lists(st.sampled_from(pieces), max_size=5).map("".join), st.sampled_from(pieces + [""]))
    if dollar:
        w = st.one_of(w, st.lists(st.one_of(w, st.sampled_from(["$VX", "${VY}", "$VZ", "${V_Q}", "${VX}"])),
                                  max_size=4).map(lambda l: "".join(
                                      p + ("" if i + 1 == len(l) or not (re.search(r"\$[A-Z_]+$", p) and
                                                                        re.match(r"[A-Za-z0-9_]", l[i + 1])) else ".")
                                      for i, p in enumerate(l))))
    return w


def run(argv, cwd, inp=None):
    p = subprocess.run(argv, cwd=cwd, input=inp, capture_output=True, env={**ENV, "PATH": os.environ["PATH"],
                                                                          "LC_ALL": "C.UTF-8"}, timeout=120)
    return p


def split0(data):
    d = data.decode("utf-8", "surrogateescape")
    return d.split("\0")[:-1]


def interesting(l):
    return any(re.search(r"[^\w./=:@+,-]", a) or a == "" for a in l)


@st.composite
def sh_cases(draw):
    n = draw(st.integers(8, 16))
    return {"shell": draw(st.sampled_from(["sh", "bash"])),
            "lists": [draw(st.lists(args(dollar=True), min_size=1, max_size=4)) for _ in range(n)]}


def expand(a):
    return re.sub(r"\$\{([A-Z_]+)\}|\$([A-Z_]+)", lambda m: ENV[m.group(1) or m.group(2)], a)


def check_sh(case):
    import gyp.common as C
    lines = []
    for i, l in enumerate(case["lists"]):
        for a in l:
            if not isinstance(C.EncodePOSIXShellArgument(a), str):
                raise Violation("not a string")
        lines.append("printf '%%s\\0' %s >o%d" % (C.EncodePOSIXShellList(l), i))
    d = fresh_dir("sh")
    p = run([case["shell"]], d, ("\n".join(lines) + "\n").encode("utf-8", "surrogateescape"))
    for i, l in enumerate(case["lists"]):
        f = os.path.join(d, "o%d" % i)
        got = split0(open(f, "rb").read()) if os.path.exists(f) else None
        want = [expand(a) for a in l]
        if got != want:
            raise Violation("%s reads %r, encoded as %r, as %r (%s)"
                            % (case["shell"], l, C.EncodePOSIXShellList(l), got, p.stderr[-300:]))
        if not any("$" in a or "\n" in a for a in l):
            try:
                if posix.split(C.EncodePOSIXShellList(l)) != l:
                    raise HarnessError("the model splits %r differently from sh" % C.EncodePOSIXShellList(l))
            except posix.Unsafe:
                raise HarnessError("the model rejects %r" % C.EncodePOSIXShellList(l))
    n = C.EncodePOSIXShellArgument(7)
    if n != "7":
        raise Violation("the integer 7 is encoded as %r" % n)
    return {"nontrivial": any(interesting(l) for l in case["lists"]),
            "labels": ["expansion"] if any("$" in a for l in case["lists"] for a in l) else []}


PATHS = st.lists(st.sampled_from(["a", "b c", "d$ e", "f:g", "h", " x", "é", "1", "%", "#", "="]), min_size=1,
                 max_size=5).map("".join).map(str.strip)


@st.composite
def ninja_cases(draw):
    n = draw(st.integers(2, 5))
    return {"builds": [{"args": draw(st.lists(args(newline=False, extra=[]), min_size=1, max_size=5)),
                        "dollars": draw(st.lists(st.sampled_from(["$", "$x", "a$", "${y}", "$$", "$ "]), max_size=2)),
                        "pad": draw(st.sampled_from([0, 0, 40, 70, 78, 90, 200])),
                        "path": draw(PATHS), "in": draw(st.lists(PATHS, max_size=3)),
                        "how": draw(st.sampled_from(["rule", "var", "var"]))} for _ in range(n)],
            "comment": draw(st.text(alphabet="ab $:|#", max_size=100))}


def check_ninja(case):
    import gyp.ninja_syntax as N
    from gyp.generator import ninja as G
    d = fresh_dir("ninja")
    want = {}
    with open(os.path.join(d, "build.ninja"), "w", encoding="utf-8") as f:
        w = N.Writer(f)
        w.comment(case["comment"])
        w.newline()
        w.rule("v", "$cmd >out.$n", description="V $n")
        for i, b in enumerate(case["builds"]):
            al = list(b["args"]) + b["dollars"]
            if b["pad"]:
                al.insert(0, "p" * b["pad"])
            cmd = "printf '%s\\0' " + " ".join(G.QuoteShellArgument(N.escape(a), "linux") for a in al)
            out = "o%d_%s" % (i, b["path"])
            ins = ["i%d_%d_%s" % (i, k, p) for k, p in enumerate(b["in"])]
            for k, p in enumerate(ins):
                w.build(p, "touch%d_%d" % (i, k), [])
                w.rule("touch%d_%d" % (i, k), "touch " + G.QuoteShellArgument(N.escape(p), "linux"))
            if b["how"] == "rule":
                w.rule("r%d" % i, cmd + " >out.%d" % i)
                w.build(out, "r%d" % i, ins[:1], ins[1:2], ins[2:])
            else:
                w.build(out, "v", ins[:1], ins[1:2], ins[2:], variables=[("cmd", cmd), ("n", str(i))])
            want[i] = (al, out, ins)
        w.default([N.escape_path(x[1]) for x in want.values()])
    # rules must precede their use only by name in ninja: rewrite is not needed, as touch rules follow the statements
    text = open(os.path.join(d, "build.ninja"), encoding="utf-8").read()
    stmts = re.split(r"(?m)^(?=rule |build |default |# )", text)
    with open(os.path.join(d, "build.ninja"), "w", encoding="utf-8") as f:
        f.write("".join(sorted(stmts, key=lambda s: not s.startswith("rule "))))
    p = run(["ninja", "-j2"], d)
    for i, (al, out, ins) in want.items():
        f = os.path.join(d, "out.%d" % i)
        got = split0(open(f, "rb").read()) if os.path.exists(f) else None
        if got != al:
            raise Violation("through ninja and sh, %r became %r\n%s\n%s" % (al, got, p.stdout[-500:], json.dumps(case)))
        for x in ins:
            if not os.path.exists(os.path.join(d, x)):
                raise Violation("the input %r was not made\n%s\n%s" % (x, p.stdout[-500:], json.dumps(case)))
    q = run(["ninja", "-t", "targets", "all"], d)
    names = {l.rsplit(": ", 1)[0] for l in q.stdout.decode("utf-8", "surrogateescape").splitlines()}
    exp = {x for _, o, ins in want.values() for x in [o] + ins}
    if names != exp:
        raise Violation("ninja sees the outputs %r instead of %r\n%s" % (sorted(names), sorted(exp), json.dumps(case)))
    return {"nontrivial": any(interesting(b["args"]) or b["dollars"] or b["pad"] for b in case["builds"])}


@st.composite
def make_cases(draw):
    n = draw(st.integers(2, 6))
    return {"defs": [draw(st.lists(args(newline=False, extra=["$"]), min_size=1, max_size=4)) for _ in range(n)],
            "dollars": draw(st.sampled_from(["", "$", "$x", "$(CC)", "$$"]))}


def check_make(case):
    from gyp.generator import make as M
    d = fresh_dir("make")
    want = []
    with open(os.path.join(d, "Makefile"), "w", encoding="utf-8") as f:
        f.write("all:%s\n" % "".join(" o%d" % i for i in range(len(case["defs"]))))
        for i, l in enumerate(case["defs"]):
            l = [a + case["dollars"] for a in l]
            want.append(["-D" + a for a in l])
            f.write("DEFS_%d := \\\n%s\n" % (i, " \\\n".join("\t" + M.EscapeCppDefine("-D" + a) for a in l)))
            f.write("cmd_%d = printf '%%s\\0' $(DEFS_%d) >$@\n" % (i, i))
            f.write("o%d:\n\t@$(cmd_%d)\n" % (i, i))
    p = run(["make", "-k"], d)
    for i, l in enumerate(want):
        f = os.path.join(d, "o%d" % i)
        got = split0(open(f, "rb").read()) if os.path.exists(f) else None
        if got != l:
            raise Violation("through make and sh, %r became %r\n%s\n%s" % (l, got, p.stderr[-500:], json.dumps(case)))
    for l in case["defs"]:
        for a in l:
            q = M.EscapeShellArgument(a)
            if "\n" not in a and posix.split(q) != [a]:
                raise Violation("EscapeShellArgument(%r) = %r" % (a, q))
            v = M.StringToMakefileVariable(a)
            if re.search(r"[^A-Za-z0-9_]", v) or len(v) != len(a):
                raise Violation("StringToMakefileVariable(%r) = %r" % (a, v))
    return {"nontrivial": any(interesting(l) for l in case["defs"])}


CAMPAIGNS = [Campaign("shell", sh_cases, check_sh, quick=1600),
             Campaign("ninja", ninja_cases, check_ninja, quick=1000),
             Campaign("make", make_cases, check_make, quick=1000)]
ASSUMPTIONS = ["text without NUL; for ninja and make without line breaks, which their formats cannot hold",
               "in EncodePOSIXShellArgument a $ that starts no reference to a variable is not generated"]


def setup():
    gyprun.load()
