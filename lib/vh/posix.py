"""A POSIX shell word splitter for commands without expansions (differentially tested against /bin/sh in C22)."""


class Unsafe(Exception):
    """The shell would do more than split words."""


def split(s, dollar=False):
    """dollar: treat $ as an ordinary character, as readers of compilation databases do."""
    out, cur, i, n = [], None, 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\n":
            if c == "\n" and (cur is not None or out) and s[i:].strip():
                raise Unsafe("newline")
            if cur is not None:
                out.append(cur)
                cur = None
        elif c == "'":
            k = s.index("'", i + 1)
            cur = (cur or "") + s[i + 1:k]
            i = k
        elif c == '"':
            cur = cur or ""
            i += 1
            while s[i] != '"':
                if s[i] == "\\" and s[i + 1] in '$`"\\\n':
                    if s[i + 1] != "\n":
                        cur += s[i + 1]
                    i += 2
                    continue
                if s[i] in "$`" and not (dollar and s[i] == "$"):
                    if s[i] == "`" or s[i + 1:i + 2] and (s[i + 1].isalnum() or s[i + 1] in "_({@*#?$!-"):
                        raise Unsafe("expansion in double quotes: %r" % s)
                cur += s[i]
                i += 1
        elif c == "\\":
            i += 1
            if s[i] != "\n":
                cur = (cur or "") + s[i]
        elif not (dollar and c == "$") and c in "$`&|;<>()*?[" or (c in "~#" and cur is None):
            raise Unsafe("unquoted %r in %r" % (c, s))
        else:
            cur = (cur or "") + c
        i += 1
    if cur is not None:
        out.append(cur)
    return out
