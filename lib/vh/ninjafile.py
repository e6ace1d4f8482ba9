"""A small evaluator of Ninja files: every build edge with its inputs, outputs and fully expanded bindings."""
import os
import re

from .core import HarnessError

VAR = re.compile(r"\$(\$|:| |\n *|[A-Za-z0-9_-]+|\{[A-Za-z0-9_.-]+\})")


class Scope:
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent
        self.rules = parent.rules if parent else {}

    def get(self, k):
        return self.vars[k] if k in self.vars else self.parent.get(k) if self.parent else ""


def expand(s, look):
    def one(m):
        w = m.group(1)
        if w in ("$", ":", " "):
            return w
        if w[0] == "\n":
            return ""
        return look(w.strip("{}"))
    return VAR.sub(one, s)


def words(s):
    """split the raw text of a build line at unescaped spaces; ':' and '|' stay words of their own"""
    r, cur, i = [], "", 0
    while i < len(s):
        c = s[i]
        if c == "$" and i + 1 < len(s):
            if s[i + 1] == "\n":
                i += 2
                while i < len(s) and s[i] == " ":
                    i += 1
                if cur:
                    r.append(cur)
                    cur = ""
                continue
            cur += s[i:i + 2]
            i += 2
            continue
        if c == " " or c == ":":
            if cur:
                r.append(cur)
                cur = ""
            if c == ":":
                r.append(":")
        else:
            cur += c
        i += 1
    if cur:
        r.append(cur)
    return r


class Edge:
    def __init__(self, scope, rule, outs, ins, implicit, order, binds):
        self.scope, self.rule, self.outs, self.ins, self.implicit, self.order, self.binds = \
            scope, rule, outs, ins, implicit, order, binds

    def get(self, k, depth=0):
        if depth > 30:
            raise HarnessError("ninja variable loop at %s" % k)
        if k == "in":
            return " ".join(self.ins)
        if k == "in_newline":
            return "\n".join(self.ins)
        if k == "out":
            return " ".join(self.outs)
        if k in self.binds:
            return self.binds[k]
        rb = self.scope.rules.get(self.rule, {})
        if k in rb:
            return expand(rb[k], lambda v: self.get(v, depth + 1))
        return self.scope.get(k)


def lines(text):
    """logical lines: a '$' before a line end continues it"""
    out, cur = [], ""
    for ln in text.split("\n"):
        cur += ln
        n = len(cur) - len(cur.rstrip("$"))
        if n % 2:
            cur += "\n"
            continue
        out.append(cur)
        cur = ""
    return out


def load(root, name="build.ninja"):
    edges = []

    def read(name, scope):
        with open(os.path.join(root, name)) as f:
            ls = lines(f.read())
        i = 0
        while i < len(ls):
            ln = ls[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith("#"):
                continue
            body = []
            if re.match(r"(rule|build|pool) ", ln):
                while i < len(ls) and ls[i][:1] == " " and ls[i].strip():
                    k, v = ls[i].strip(" ").split("=", 1)
                    body.append((k.strip(), v.lstrip(" ")))
                    i += 1
            if ln.startswith("rule "):
                scope.rules[ln[5:].strip()] = dict(body)
            elif ln.startswith("build "):
                w = words(ln[6:])
                c = w.index(":")
                look = scope.get
                binds = {k: expand(v, look) for k, v in body}
                look2 = lambda v: binds[v] if v in binds else scope.get(v)
                part, cur = {"": [], "|": [], "||": []}, ""
                for x in w[c + 2:]:
                    if x in ("|", "||"):
                        cur = x
                    else:
                        part[cur].append(expand(x, look2))
                edges.append(Edge(scope, w[c + 1], [expand(x, look2) for x in w[:c] if x != "|"], part[""], part["|"],
                                  part["||"], binds))
            elif ln.startswith("subninja "):
                read(expand(ln[9:].strip(), scope.get), Scope(scope))
            elif ln.startswith(("include ", "default ", "pool ")):
                pass
            else:
                k, v = ln.split("=", 1)
                scope.vars[k.strip()] = expand(v.strip(" "), scope.get)
    read(name, Scope())
    return edges
