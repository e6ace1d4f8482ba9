"""C21: Windows quoting decoded by a model of cmd batch expansion, project-file lists and CommandLineToArgvW."""
import json
import posixpath
import sys
import io

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, Violation

ID = "C21"
LEVEL = "exploration"
RULE = "a case is non-trivial when an argument holds a quote, a backslash, a percent sign, whitespace or a list separator"

PIECES = ["a", "b c", '"', "\\", "\\\\", '\\"', "%", "%PATH%", " ", "\t", "x=1", ",", ";", "$x", "&", "^", "é", "--f", "'",
          "#", "<", "|", ".", "%1", "-D", "^\"", "\\\\\\", "!", "(", ")"]
arg = st.lists(st.sampled_from(PIECES), max_size=6).map("".join)
patharg = st.sampled_from(["/opt", "-I/x", "a/b", "a//b/../c", "./x y/z", "x/./\"q\"", "/c /d", "a/b\\"])


def split_argv(s):
    """CommandLineToArgvW for the arguments after the program (Microsoft's documented rules)."""
    res, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in " \t":
            i += 1
        if i >= n:
            return res
        cur, quoted = [], False
        while i < n:
            c = s[i]
            if c == "\\":
                k = i
                while k < n and s[k] == "\\":
                    k += 1
                m = k - i
                if k < n and s[k] == '"':
                    cur.append("\\" * (m // 2))
                    if m % 2:
                        cur.append('"')
                        i = k + 1
                    else:
                        i = k
                else:
                    cur.append("\\" * m)
                    i = k
                continue
            if c == '"':
                if quoted and i + 1 < n and s[i + 1] == '"':
                    cur.append('"')
                    i += 2
                    continue
                quoted = not quoted
                i += 1
                continue
            if c in " \t" and not quoted:
                break
            cur.append(c)
            i += 1
        res.append("".join(cur))


def batch(s):
    """What a batch file makes of text without variable references: %% becomes %, and a single % is lost or worse."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "%":
            if s[i + 1:i + 2] != "%":
                raise Violation("a single %% is left in %r" % s)
            i += 1
        out.append(s[i])
        i += 1
    return "".join(out)


def split_list(s):
    """A .vcproj string list: separated by , and ; outside of quotes; the quotes stay."""
    res, cur, quoted = [], [], False
    for c in s:
        if c == '"':
            quoted = not quoted
        if c in ",;" and not quoted:
            res.append("".join(cur))
            cur = []
        else:
            cur.append(c)
    return res + ["".join(cur)]


def special(args):
    return any(c in a for a in args for c in '"\\% \t,;')


@st.composite
def rsp_cases(draw):
    return {"args": draw(st.lists(st.one_of(arg, arg, arg, patharg), min_size=1, max_size=5)),
            "prog": draw(st.sampled_from(["python", "call tool.bat", "call ../x/../y.bat", "a/./b", "echo"])),
            "quote": draw(st.sampled_from([True, True, True, False]))}


def want_arg(a):
    return a


def check_rsp(case):
    from gyp import msvs_emulation as M
    args = case["args"]
    j = json.dumps(case)
    if case["quote"]:
        for a in args:
            q = M.QuoteForRspFile(a)
            got = split_argv(batch(q))
            if got != [want_arg(a)]:
                raise Violation("%r quoted as %r is read back as %r" % (a, q, got))
    s = M.EncodeRspFileList([case["prog"]] + args, case["quote"])
    p = case["prog"]
    prog = "call " + posixpath.normpath(p[5:]) if p.startswith("call ") else posixpath.normpath(p)
    if not s.startswith(prog + " "):
        raise Violation("the command line %r does not start with %r\n%s" % (s, prog, j))
    rest = s[len(prog) + 1:]
    if not case["quote"]:
        if batch(rest) != " ".join(want_arg(a) for a in args):
            raise Violation("unquoted arguments %r became %r\n%s" % (args, rest, j))
    elif split_argv(batch(rest)) != [want_arg(a) for a in args]:
        raise Violation("the arguments %r are written as %r and read back as %r\n%s"
                        % (args, rest, split_argv(batch(rest)), j))
    return {"nontrivial": special(args)}


@st.composite
def define_cases(draw):
    return {"defs": draw(st.lists(arg, min_size=1, max_size=4))}


def check_vcproj(case):
    from gyp.generator import msvs as M
    items, defs = [], []
    old = sys.stderr
    for d in case["defs"]:
        if "\\043" in d:
            continue
        sys.stderr = io.StringIO()
        try:
            q = M._EscapeCppDefineForMSVS(d)
            warned = sys.stderr.getvalue()
        finally:
            sys.stderr = old
        odd = d.count('"') % 2
        if bool(warned) != bool(odd):
            raise Violation("%r: warning %r" % (d, warned))
        if "#" in q:
            raise Violation("%r keeps a # in %r" % (d, q))
        got = [batch(x).replace("\\043", "#") for x in split_argv("/D" + q)]
        # (a quote added by the list encoding is seen by the command line as well)
        if got != ["/D" + d]:
            raise Violation("the define %r is written as %r and read back as %r" % (d, q, got))
        if not odd:
            items.append(q)
            defs.append(d)
    if items:
        back = split_list(";".join(items))
        if back != items:
            raise Violation("the list of %r is split into %r" % (items, back))
    return {"nontrivial": special(case["defs"])}


def unescape_msbuild(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "%" and len(s) >= i + 3:
            out.append(chr(int(s[i + 1:i + 3], 16)))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def check_msbuild(case):
    from gyp.generator import msvs as M
    for d in case["defs"]:
        e = M._EscapeMSBuildSpecialCharacters(d)
        if any(c in e for c in "$@';?*"):
            raise Violation("special characters are left in %r" % e)
        if unescape_msbuild(e) != d:
            raise Violation("%r escaped as %r means %r" % (d, e, unescape_msbuild(e)))
        if '\\\\"' in d or "\\043" in d:
            M._EscapeCppDefineForMSBuild(d)
            continue
        q = M._EscapeCppDefineForMSBuild(d)
        if "#" in q:
            raise Violation("%r keeps a # in %r" % (d, q))
        got = batch(unescape_msbuild(q.replace("\\043", "#")))
        if got != d:
            raise Violation("the define %r is written as %r, which means %r" % (d, q, got))
    return {"nontrivial": special(case["defs"])}


@st.composite
def command_cases(draw):
    word = st.lists(st.sampled_from(["a", "b c", " ", "x=1", "-f", "$x", "é", "'", "/o:", "&", "()", "é"]), max_size=4).map("".join)
    return {"prog": draw(st.sampled_from(["python", "tools/x.bat", "cat", "a b/c.exe"])), "args": draw(st.lists(word, max_size=5)),
            "quote": draw(st.sampled_from([1, 1, 1, 0]))}


def check_command(case):
    from gyp.generator import msvs as M
    args = [a for a in case["args"] if "/" not in a or a[:1] in "/-" or "=" in a]
    rule = {"action": [case["prog"]] + args, "msvs_cygwin_shell": 0, "msvs_quote_cmd": case["quote"]}
    s = M._BuildCommandLineForRule({}, rule, True, True)
    prog = "type" if case["prog"] == "cat" else case["prog"].replace("/", "\\")
    if not case["quote"]:
        if s != " ".join(["call", prog] + args):
            raise Violation("%r became %r" % (rule["action"], s))
        return {"nontrivial": special(args)}
    if split_argv(s) != ["call", prog] + args:
        raise Violation("the command %r is written as %r and read back as %r" % (rule["action"], s, split_argv(s)))
    return {"nontrivial": special(args)}


CAMPAIGNS = [Campaign("response-file", rsp_cases, check_rsp, quick=5000),
             Campaign("vcproj-define", define_cases, check_vcproj, quick=5000),
             Campaign("msbuild-define", define_cases, check_msbuild, quick=3000),
             Campaign("command", command_cases, check_command, quick=2000)]
ASSUMPTIONS = ["arguments are split by Microsoft's documented rules (a model of CommandLineToArgvW; no Windows here)",
               "in .vcxproj defines a quote is given with at most one backslash before it, and % is doubled as documented",
               "path-like arguments are normalised as documented"]


def setup():
    gyprun.load()
