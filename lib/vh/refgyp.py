"""Reference model of GYP's input language, written from gyp's documentation and observed contract.

Purely functional over plain data: it never touches the code under test. A project is a mapping
path -> value (files), all paths relative to the working directory and normalized.
run(project, build_files, opts) returns {"list", "dicts"} or raises Reject(kind).
"""
import copy
import os
import posixpath
import re
import shlex

LINKABLE = ("executable", "shared_library", "loadable_module", "mac_kernel_extension", "windows_driver")
TYPES = LINKABLE + ("static_library", "none")
PATH_KEYS = {"destination", "files", "include_dirs", "inputs", "libraries", "outputs", "sources"}
NONCONF = {"actions", "configurations", "copies", "default_configuration", "dependencies",
           "dependencies_original", "libraries", "postbuilds", "product_dir", "product_extension",
           "product_name", "product_prefix", "rules", "run_as", "sources",
           "standalone_static_library", "suppress_wildcard", "target_name", "toolset", "toolsets",
           "type", "variables"}
INVALID_CONF = {"actions", "all_dependent_settings", "configurations", "dependencies",
                "direct_dependent_settings", "libraries", "link_settings", "sources",
                "standalone_static_library", "target_name", "type"}
DEFAULT_VARS = {
    "OS": "linux",
    "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "", "STATIC_LIB_PREFIX": "lib",
    "SHARED_LIB_PREFIX": "lib", "STATIC_LIB_SUFFIX": ".a", "SHARED_LIB_SUFFIX": ".so",
    "INTERMEDIATE_DIR": "$(obj)/gen", "SHARED_INTERMEDIATE_DIR": "$(obj)/sgen",
    "PRODUCT_DIR": "$(builddir)", "RULE_INPUT_ROOT": "%(INPUT_ROOT)s",
    "RULE_INPUT_DIRNAME": "%(INPUT_DIRNAME)s", "RULE_INPUT_PATH": "$(abspath $<)",
    "RULE_INPUT_EXT": "$(suffix $<)", "RULE_INPUT_NAME": "$(notdir $<)",
    "CONFIGURATION_NAME": "$(BUILDTYPE)", "LIB_DIR": "$(libdir)", "SHARED_LIB_DIR": "$(slibdir)",
}
EARLY, LATE, LATELATE = "<", ">", "^"


class Reject(Exception):
    """The documented contract says this input is refused."""

    def __init__(self, kind, msg="", names=()):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.names = list(names)


class OutOfModel(Exception):
    """The input is outside what this model defines (generators avoid it)."""


# ---------------------------------------------------------------- merging
def is_path_key(key, extra=()):
    key = key.rstrip("=+?!")
    if key in PATH_KEYS or key in extra:
        return True
    return re.search(r"_(dir|file|path)s?\Z", key) is not None


def reldir(fro_dir, to_dir):
    """Path of directory fro_dir as seen from to_dir (both relative to the same cwd)."""
    a = [p for p in posixpath.normpath(posixpath.join("/cwd/x/y/z", fro_dir)).split("/") if p]
    b = [p for p in posixpath.normpath(posixpath.join("/cwd/x/y/z", to_dir)).split("/") if p]
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return "/".join([".."] * (len(b) - i) + a[i:])


def rebase(item, to_file, fro_file):
    if to_file == fro_file:
        return item
    s = item
    if isinstance(s, int):
        return canon_int(rebase(str(s), to_file, fro_file))
    body = s[1:] if s[:1] in "\"'" and len(s) > 1 else s
    if body[:1] and body[:1] in "-/$<>^" or s[:1] and s[:1] in "-/$<>^":
        return item
    out = posixpath.normpath(posixpath.join(
        reldir(posixpath.dirname(fro_file), posixpath.dirname(to_file)), s))
    if s.endswith("/"):
        out += "/"
    return out


def scalar(x):
    return isinstance(x, (str, int))


def is_singleton(x):
    return isinstance(x, int) or (isinstance(x, str) and not x.startswith("-"))


def copy_item(x, ctx):
    if isinstance(x, dict):
        return merge_dict({}, x, ctx)
    if isinstance(x, list):
        return merge_list([], x, ctx, False, True)
    return x


def merge_list(to, fro, ctx, paths, append):
    to = list(to)
    if append:
        for x in fro:
            if scalar(x):
                x = rebase(x, ctx[0], ctx[1]) if paths else x
                if is_singleton_source(x, fro) and x in [y for y in to if scalar(y)]:
                    continue
                to.append(x)
            else:
                to.append(copy_item(x, ctx))
        return to
    front = []
    for x in fro:
        if scalar(x):
            single = is_singleton(x)
            x = rebase(x, ctx[0], ctx[1]) if paths else x
            if single:
                # an earlier occurrence anywhere (also one just prepended) moves here
                if x in front:
                    raise OutOfModel("duplicate within a prepended list")
                to = [y for y in to if not (scalar(y) and y == x)]
            front.append(x)
        else:
            front.append(copy_item(x, ctx))
    return front + to


def is_singleton_source(x, fro):
    return is_singleton(x)


def merge_dict(to, fro, ctx, extra=()):
    """Return `to` with `fro` merged in. ctx = (to_file, fro_file)."""
    out = dict(to)
    for k, v in fro.items():
        if k in out:
            if scalar(v) != scalar(out[k]) or (not scalar(v) and type(v) is not type(out[k])):
                raise Reject("merge-type", k, [k])
        if scalar(v):
            out[k] = rebase(v, *ctx) if is_path_key(k, extra) else v
        elif isinstance(v, dict):
            out[k] = merge_dict(out.get(k, {}), v, ctx, extra)
        elif isinstance(v, list):
            op = k[-1:] if k[-1:] in ("=", "+", "?") else ""
            base = k[:-1] if op else k
            present = {o for o in ("", "=", "+", "?") if base + o in fro}
            # what may not be combined with this policy in the same dict
            clash = {"=": {"", "?"}, "+": {"=", "?"}, "?": {"", "=", "+"}, "": {"=", "?"}}[op]
            if present & clash:
                raise Reject("list-policy", k, [k])
            if op == "=":
                cur = []
            elif op == "?" and base in out:
                continue
            else:
                cur = out.get(base, [])
                if not isinstance(cur, list):
                    raise Reject("merge-type", k, [base])
            out[base] = merge_list(cur, v, ctx, is_path_key(base, extra), op != "+")
        else:
            raise Reject("merge-unsupported", k)
    return out


# ---------------------------------------------------------------- expansion
INT_RE = re.compile(r"(0|-?[1-9][0-9]*)\Z")


def canon_int(s):
    if isinstance(s, str) and INT_RE.match(s) and s.isascii():
        return int(s)
    return s


def encode_posix(arg):
    """A shell word denoting arg, with $ references left alive."""
    s = str(arg)
    out = "".join("\\" + c if c in '"\\`' else c for c in s)
    if s == "" or any(c in "\t\n #$%&'()*;<=>?[{|}~" for c in s):
        out = '"' + out + '"'
    return out


class Expander:
    def __init__(self, run_command):
        self.run_command = run_command     # (command, is_list, dir) -> stdout text; raises Reject
        self.filelists = []
        self.steps = 0
        self.encode_list = lambda items: " ".join(encode_posix(i) for i in items)

    def find(self, s, sym, pos):
        pat = re.compile(re.escape(sym) + r"(!@|!|@|\||)([-a-zA-Z0-9_.]+)?\(")
        m = pat.search(s, pos)
        if not m:
            return None
        depth, i = 0, m.end() - 1
        stack = []
        while i < len(s):
            c = s[i]
            if c in "([{":
                stack.append(c)
            elif c in ")]}":
                if not stack or "([{".index(stack.pop()) != ")]}".index(c):
                    raise OutOfModel("unbalanced %r" % s)
                if not stack:
                    return m.start(), i + 1, m.group(1), m.group(2), s[m.end():i]
            i += 1
        if ")" not in s[m.end():]:
            return None
        raise OutOfModel("unbalanced %r" % s)

    def expand(self, value, sym, env, build_file, depth=0):
        """str/int -> str, int or list of str/int."""
        self.steps += 1
        if depth > 30 or self.steps > 20000:
            raise OutOfModel("recursion")
        if isinstance(value, int):
            return value
        s = value
        ci = canon_int(s)
        if isinstance(ci, int):
            return ci
        out, pos, hit = "", 0, False
        while True:
            f = self.find(s, sym, pos)
            if f is None:
                out += s[pos:]
                break
            start, end, kind, cmdstr, contents = f
            hit = True
            inner = env
            if kind == "|":
                inner = filter_lists({k: v for k, v in env.items()})
            contents = self.expand(contents, sym, inner, build_file, depth + 1)
            whole = "@" in kind and start == 0 and end == len(s)
            if not isinstance(contents, str):
                raise OutOfModel("non-string variable name")
            val = self.value(kind, cmdstr, contents.strip(), sym, env, build_file, depth)
            if whole:
                items = val if isinstance(val, list) else shlex.split(str(val))
                res = []
                for it in items:
                    r = self.expand(it, sym, env, build_file, depth + 1) if isinstance(it, str) else it
                    if isinstance(r, list):
                        raise OutOfModel("list in list")
                    res.append(canon_int(r))
                return res
            text = self.encode_list(val) if isinstance(val, list) else str(val)
            out += s[pos:start] + text
            pos = end
        if not hit:
            return s
        if out == s:
            return s
        return canon_int(self.expand(out, sym, env, build_file, depth + 1)) \
            if sym in out else canon_int(out)

    def value(self, kind, cmdstr, contents, sym, env, build_file, depth):
        if "!" in kind:
            if cmdstr:
                raise Reject("command-string", cmdstr)
            is_list = contents.lstrip().startswith("[")
            return self.run_command(contents, is_list, posixpath.dirname(build_file))
        if cmdstr:
            raise OutOfModel(kind)
        if kind == "|":
            words = shlex.split(contents)
            if words[0].startswith("/"):
                raise Reject("filelist-absolute", words[0])
            self.filelists.append((posixpath.normpath(posixpath.join(posixpath.dirname(build_file), words[0])),
                                   words[1:]))
            return words[0]
        if contents not in env:
            if contents[-1:] in ("!", "/"):
                return []
            raise Reject("undefined-variable", contents, [contents])
        v = env[contents]
        if isinstance(v, list):
            if any(not scalar(x) for x in v):
                raise Reject("variable-type", contents)
            return self.expand_list(v, sym, env, build_file, depth + 1)
        if not scalar(v):
            raise Reject("variable-type", contents)
        return v

    def expand_list(self, items, sym, env, build_file, depth=0):
        out = []
        for x in items:
            if isinstance(x, str):
                r = self.expand(x, sym, env, build_file, depth + 1)
                if isinstance(r, list):
                    out.extend(r)
                else:
                    out.append(r)
            else:
                out.append(x)
        return out


class Language:
    def __init__(self, run_command, eval_condition, extra_paths=()):
        self.x = Expander(run_command)
        self.eval_condition = eval_condition  # (text, env) -> bool, raises Reject
        self.extra_paths = extra_paths

    def automatics(self, env, d):
        for k, v in d.items():
            if isinstance(v, (str, int, list)):
                env["_" + k] = v

    def scope(self, env_in, d, own_key):
        env = dict(env_in)
        self.automatics(env, d)
        self.locals_(env, d, own_key)
        return env

    def locals_(self, env, d, own_key):
        for k, v in d.get("variables", {}).items():
            if not isinstance(v, (str, int, list)):
                continue
            if k.endswith("%"):
                n = k[:-1]
                if n in env:
                    continue
                if own_key == "variables" and n in d:
                    v = d[n]
                env[n] = v
            else:
                env[k] = v

    def process_dict(self, d, phase, env_in, build_file, own_key=None):
        d = dict(d)
        if "variables" in d:
            env = dict(env_in)
            self.automatics(env, d)
            env.update(d["variables"])
            d["variables"] = self.process_dict(d["variables"], phase, env, build_file, "variables")
        else:
            env = dict(env_in)
            self.automatics(env, d)
        self.locals_(env, d, own_key)
        for k, v in list(d.items()):
            if k != "variables" and isinstance(v, str):
                r = self.x.expand(v, phase, env, build_file)
                if isinstance(r, list):
                    raise Reject("list-in-string", k)
                d[k] = r
        env = self.scope(env_in, d, own_key)
        ckey = {EARLY: "conditions", LATE: "target_conditions"}.get(phase)
        if ckey and ckey in d:
            conds = d.pop(ckey)
            for c in conds:
                br = self.choose(c, phase, env, build_file)
                if br is not None:
                    br = self.process_dict(br, phase, env, build_file)
                    d = merge_dict(d, br, (build_file, build_file), self.extra_paths)
        env = self.scope(env_in, d, own_key)
        for k, v in list(d.items()):
            if k == "variables" or isinstance(v, str):
                continue
            if isinstance(v, dict):
                d[k] = self.process_dict(v, phase, env, build_file, k)
            elif isinstance(v, list):
                d[k] = self.process_list(v, phase, env, build_file)
                if env.get("_" + k) is v:
                    env["_" + k] = d[k]      # later siblings see the list's final value
        return d

    def process_list(self, items, phase, env, build_file):
        out = []
        for x in items:
            if isinstance(x, dict):
                out.append(self.process_dict(x, phase, env, build_file))
            elif isinstance(x, list):
                out.append(self.process_list(x, phase, env, build_file))
            elif isinstance(x, str):
                r = self.x.expand(x, phase, env, build_file)
                if isinstance(r, list):
                    out.extend(r)
                else:
                    out.append(r)
            else:
                out.append(x)
        return out

    def choose(self, c, phase, env, build_file):
        if not isinstance(c, list) or len(c) < 2:
            raise Reject("condition-shape", repr(c))
        i, taken, result = 0, False, None
        while i < len(c):
            if i + 1 >= len(c):
                raise Reject("condition-shape", repr(c))
            expr, yes, no = c[i], c[i + 1], None
            if not isinstance(yes, dict):
                raise Reject("condition-shape", repr(c))
            if i + 2 < len(c) and isinstance(c[i + 2], dict):
                no = c[i + 2]
                i += 3
                if i != len(c):
                    raise Reject("condition-shape", repr(c))
            else:
                i += 2
            if result is None:
                text = self.x.expand(expr, phase, env, build_file)
                if isinstance(text, list):
                    raise Reject("list-in-string", "condition")
                result = yes if self.eval_condition(text, env) else no
        return result


# ---------------------------------------------------------------- filters
def filter_lists(d):
    """Apply `!` and `/` keys everywhere inside d."""
    d = dict(d)
    ops = [k for k in d if k and k[-1] in "!/"]
    bases = []
    for k in ops:
        if not isinstance(d[k], list):
            raise Reject("filter-type", k, [k])
    for k in ops:
        b = k[:-1]
        if b not in d:
            continue
        if not isinstance(d[b], list):
            raise Reject("filter-type", k, [b])
        if b not in bases:
            bases.append(b)
    for k in ops:
        if k[:-1] not in d:
            del d[k]
    for b in bases:
        state = ["in"] * len(d[b])
        for ex in d.pop(b + "!", []):
            for i, it in enumerate(d[b]):
                if it == ex:
                    state[i] = "out"
        for action, pattern in d.pop(b + "/", []):
            if action not in ("exclude", "include"):
                raise Reject("filter-action", action)
            for i, it in enumerate(d[b]):
                if re.search(str(pattern), it if isinstance(it, str) else str(it)):
                    state[i] = "out" if action == "exclude" else "in"
        if b + "_excluded" in d:
            raise Reject("filter-excluded", b)
        kept = [x for x, s in zip(d[b], state) if s == "in"]
        gone = [x for x, s in zip(d[b], state) if s == "out"]
        d[b] = kept
        if gone:
            d[b + "_excluded"] = gone
    return {k: _filter_inner(v) for k, v in d.items()}


def _filter_inner(v):
    if isinstance(v, dict):
        return filter_lists(v)
    if isinstance(v, list):
        return [_filter_inner(x) for x in v]
    return v


# ---------------------------------------------------------------- targets
def parse_ref(ref):
    tool = None
    if "#" in ref:
        ref, tool = ref.rsplit("#", 1)
    if ":" in ref:
        f, t = ref.rsplit(":", 1)
    else:
        f, t = None, ref
    return f, t, tool


def resolve_ref(build_file, ref, toolset):
    f, t, tool = parse_ref(ref)
    if f:
        f = posixpath.normpath(posixpath.join(posixpath.dirname(build_file), f))
    else:
        f = build_file
    return f, t, tool or toolset


def qualified(f, t, tool):
    return "%s:%s#%s" % (f, t, tool)


def file_of(q):
    return q.rsplit(":", 1)[0]


class Pipeline:
    """From files on disk to what a generator receives."""

    def __init__(self, files, lang, env, multiple_toolsets=False, adjust=True, sort_deps=False,
                 nonconf=(), extra_sources=(), includes=(), depth=".", circular_check=True):
        self.links = {p: v["$link"] for p, v in files.items() if isinstance(v, dict) and "$link" in v}
        self.files = {p: v for p, v in files.items() if p not in self.links}
        self.lang = lang
        self.env = env
        self.multi = multiple_toolsets
        self.adjust = adjust
        self.sort_deps = sort_deps
        self.nonconf = NONCONF | set(nonconf)
        self.extra_sources = list(extra_sources)
        self.includes = list(includes)
        self.depth = depth
        self.circular = circular_check

    def resolve(self, build_file, ref, toolset):
        f, t, tool = resolve_ref(build_file, ref, toolset)
        for link, to in self.links.items():
            if f.startswith(link + "/"):
                f = posixpath.normpath(posixpath.join(posixpath.dirname(link), to, f[len(link) + 1:]))
        return f, t, tool

    # -- files
    def load_file(self, path, extra_includes, trail=()):
        if path not in self.files:
            raise Reject("missing-file", path, [path])
        if path in trail:
            raise OutOfModel("include cycle")
        data = self.files[path]
        if not isinstance(data, dict):
            raise Reject("not-a-dict", path, [path])
        data = copy.deepcopy(data)
        if data.get("skip_includes"):
            return data
        return self.includes_in(data, path, extra_includes, trail + (path,))

    def includes_in(self, d, path, extra, trail):
        d = dict(d)
        names = list(extra)
        for i in d.pop("includes", []):
            names.append(posixpath.normpath(posixpath.join(posixpath.dirname(path), i)))
        for n in names:
            d = merge_dict(d, self.load_file(n, [], trail), (path, n), self.lang.extra_paths)
        for k, v in list(d.items()):
            if isinstance(v, dict):
                d[k] = self.includes_in(v, path, [], trail)
            elif isinstance(v, list):
                d[k] = self.includes_list(v, path, trail)
        return d

    def includes_list(self, l, path, trail):
        return [self.includes_in(x, path, [], trail) if isinstance(x, dict)
                else self.includes_list(x, path, trail) if isinstance(x, list) else x for x in l]

    def toolsets(self, d):
        d = dict(d)
        if "targets" in d:
            out = []
            for t in d["targets"]:
                if "toolset" in t and "toolsets" not in t:
                    out.append(t)
                    continue
                sets = t.get("toolsets", ["target"]) if self.multi else ["target"]
                base = {k: v for k, v in t.items() if k != "toolsets"}
                for s in sets[1:] + sets[:1]:
                    n = copy.deepcopy(base)
                    n["toolset"] = s
                    out.append(n)
            d["targets"] = out
        if "conditions" in d:
            d["conditions"] = [[self.toolsets(e) if i and isinstance(e, dict) else e
                                for i, e in enumerate(c)] if isinstance(c, list) else c
                               for c in d["conditions"]]
        return d

    def load_targets(self, path):
        data = self.load_file(path, self.includes)
        data["_DEPTH"] = self.depth
        if "included_files" in data:
            raise Reject("included_files", path)
        data["included_files"] = ["?"]
        env = dict(self.env)
        if self.depth is not None:
            env["DEPTH"] = reldir(self.depth, posixpath.dirname(path)) or "."
        data = self.toolsets(data)
        data = self.lang.process_dict(data, EARLY, env, path)
        data = self.toolsets(data)
        if "target_defaults" in data:
            if "targets" not in data:
                raise Reject("no-targets", path, [path])
            dflt = data.pop("target_defaults")
            data["targets"] = [merge_dict(copy.deepcopy(dflt), t, (path, path), self.lang.extra_paths)
                               for t in data["targets"]]
        return data

    def load_all(self, roots):
        loaded, todo = {}, [posixpath.normpath(r) for r in roots]
        while todo:
            p = todo.pop(0)
            if p in loaded:
                continue
            loaded[p] = self.load_targets(p)
            for t in loaded[p].get("targets", []):
                for dep in t.get("dependencies", []):
                    todo.append(self.resolve(p, dep, None)[0])
        return loaded

    # -- graph
    def run(self, roots, root_targets=None):
        data = self.load_all(roots)
        T = {}
        order = {}
        for f, d in data.items():
            for t in d.get("targets", []):
                if "target_name" not in t:
                    raise Reject("no-target-name", f)
                q = qualified(f, t["target_name"], t["toolset"])
                if q in T:
                    raise Reject("duplicate-target", q, [q])
                T[q] = t
                order.setdefault(f, []).append(q)
        DS = ("dependencies", "export_dependent_settings")
        for q, t in T.items():
            f = file_of(q)
            for key in [b + o for b in DS for o in ("", "!", "/")]:
                if key not in t:
                    continue
                if key.endswith("/"):
                    raise OutOfModel("regex on dependencies")
                out = []
                for dep in t[key]:
                    df, dt, dtool = self.resolve(f, dep, t["toolset"])
                    if not self.multi:
                        dtool = t["toolset"]
                    out.append(qualified(df, dt, dtool))
                t[key] = out
            for key in [b + o for b in DS for o in ("", "!")]:
                if key == "dependencies" or key not in t:
                    continue
                for dep in t[key]:
                    if dep not in t.get("dependencies", []):
                        raise Reject("not-in-dependencies", dep, [dep])
        for q, t in T.items():
            if t.get("variables", {}).get("prune_self_dependency", 0):
                for key in DS:
                    if key in t:
                        t[key] = [x for x in t[key] if x != q] if q in t[key] else t[key]
        for q, t in T.items():
            for key in DS:
                if key not in t:
                    continue
                out = []
                for dep in t[key]:
                    df, rest = dep.rsplit(":", 1)
                    dt, dtool = rest.rsplit("#", 1)
                    if dt != "*" and dtool != "*":
                        out.append(dep)
                        continue
                    if df == file_of(q):
                        raise Reject("wildcard-same-file", dep, [q])
                    for cand in order.get(df, []):
                        ct = T[cand]
                        if int(ct.get("suppress_wildcard", 0)):
                            continue
                        if dt in ("*", ct["target_name"]) and dtool in ("*", ct["toolset"]):
                            out.append(cand)
                t[key] = out
        for q, t in T.items():
            if t.get("type") == "none":
                for key in DS:
                    if key in t:
                        for x in t[key]:
                            if x not in T:
                                raise Reject("missing-dependency", x, [x])
                        drop = [x for x in t[key] if T[x].get("variables", {}).get("link_dependency", 0)]
                        if drop:
                            t[key] = [x for x in t[key] if x not in drop]
        for q, t in T.items():
            part = {k: t.pop(k) for k in list(t) if k.rstrip("!/") in DS}
            t.update(filter_lists(part))
            for key in DS:
                if t.get(key):
                    t[key] = uniq(t[key])
        if self.circular:
            fg = {}
            for q, t in T.items():
                fg.setdefault(file_of(q), set())
            for q, t in T.items():
                for x in t.get("dependencies", []):
                    if file_of(x) != file_of(q):
                        if file_of(x) not in fg:
                            raise Reject("missing-dependency", x, [file_of(x)])
                        fg[file_of(q)].add(file_of(x))
            if has_cycle(fg):
                raise Reject("file-cycle", "")
        for q, t in T.items():
            for x in t.get("dependencies", []):
                if x not in T:
                    raise Reject("missing-dependency", x, [x])
        deps = {q: list(t.get("dependencies", [])) for q, t in T.items()}
        if has_cycle(deps):
            raise Reject("cycle", "")
        self.deps = deps
        if root_targets is not None:
            roots_q = []
            for r in root_targets:
                m = self.find_targets(r.strip(), T)
                if not m:
                    raise Reject("no-root-target", r, [r])
                roots_q += m
            want = set()
            for r in roots_q:
                want.add(r)
                want |= set(self.deep(r))
            T = {q: t for q, t in T.items() if q in want}
        seen = set()
        for q in T:
            f, rest = q.rsplit(":", 1)
            k = (posixpath.dirname(f), rest)
            if k in seen:
                raise Reject("colliding-targets", q, [rest])
            seen.add(k)
        flat = topo(T, deps)
        self.T, self.flat = T, flat
        for q in T:
            if "type" not in T[q]:
                raise Reject("no-type", q, [T[q]["target_name"]])
        for key in ("all_dependent_settings", "direct_dependent_settings", "link_settings"):
            # dependencies come before dependents; settings merged into a dependency (including the
            # settings dict itself) are visible to its dependents
            for q in flat:
                if key == "all_dependent_settings":
                    src = self.deep(q)
                elif key == "direct_dependent_settings":
                    src = self.direct_imported(q)
                else:
                    src = self.linked(q, T[q].get("allow_sharedlib_linksettings_propagation", True))
                for s in src:
                    if key in T[s]:
                        T[q] = merge_dict(T[q], T[s][key], (file_of(q), file_of(s)), self.lang.extra_paths)
            for q in flat:
                T[q].pop(key, None)
        if self.adjust:
            self.adjust_static(flat)
        for q in flat:
            T[q] = self.lang.process_dict(T[q], LATE, self.late_env, file_of(q))
        for q in flat:
            T[q] = self.configurations(q, T[q])
        for q in flat:
            T[q] = filter_lists(T[q])
        for q in flat:
            T[q] = self.lang.process_dict(T[q], LATELATE, self.late_env, file_of(q))
        for q in flat:
            self.validate(q, T[q])
        return {"list": flat, "dicts": {q: ints_to_str(T[q]) for q in flat}}

    @property
    def late_env(self):
        return self.env

    def find_targets(self, name, T):
        out = []
        for q in T:
            f, rest = q.rsplit(":", 1)
            t, tool = rest.rsplit("#", 1)
            if name == t:
                out.append(q)
        return out

    def deep(self, q):
        """Dependencies of q, transitively, dependencies first, in declared order."""
        out = []

        def visit(n):
            for d in self.deps[n]:
                if d not in out:
                    visit(d)
                    if d not in out:
                        out.append(d)
        visit(q)
        return out

    def direct_imported(self, q):
        out = list(self.deps[q])
        i = 0
        while i < len(out):
            ins = i + 1
            for e in self.T[out[i]].get("export_dependent_settings", []):
                if e not in out:
                    out.insert(ins, e)
                    ins += 1
            i += 1
        return out

    def linked(self, q, include_shared):
        out = []

        def visit(n, initial):
            t = self.T[n]
            ty = t["type"]
            linkable = ty in LINKABLE
            if initial and not linkable:
                return
            if ty == "none" and not t.get("dependencies_traverse", True):
                if n not in out:
                    out.append(n)
                return
            if not initial and ty in ("executable", "loadable_module", "mac_kernel_extension",
                                      "windows_driver"):
                return
            if not initial and ty == "shared_library" and not include_shared:
                return
            if n in out:
                return
            out.append(n)
            if initial or not linkable:
                for d in self.deps[n]:
                    visit(d, False)
        visit(q, True)
        return out

    def adjust_static(self, flat):
        T = self.T
        for q in flat:
            t = T[q]
            if t["type"] == "static_library":
                if "dependencies" not in t:
                    continue
                orig = list(t["dependencies"])
                keep = []
                for d in self.direct_imported(q):
                    dd = T[d]
                    if dd["type"] == "static_library":
                        if dd.get("hard_dependency", False):
                            keep.append(d)
                    elif d in orig:
                        keep.append(d)
                t = dict(t)
                t["dependencies_original"] = orig
                if keep:
                    t["dependencies"] = keep
                else:
                    del t["dependencies"]
                T[q] = t
            elif t["type"] in LINKABLE:
                t = dict(t)
                extra = [d for d in self.linked(q, True) if d != q]
                if extra:
                    cur = list(t.get("dependencies", []))
                    for d in extra:
                        if d not in cur:
                            cur.append(d)
                    t["dependencies"] = cur
                if self.sort_deps and "dependencies" in t:
                    t["dependencies"] = [d for d in reversed(flat) if d in t["dependencies"]]
                T[q] = t

    # -- configurations
    def strip_op(self, k):
        return k[:-1] if k[-1:] in ("=", "+", "?", "!", "/") else k

    def configurations(self, q, t):
        f = file_of(q)
        t = dict(t)
        confs = t.get("configurations", {"Default": {}})
        concrete = [c for c in confs if not confs[c].get("abstract")]
        if "default_configuration" not in t:
            if not concrete:
                raise Reject("no-concrete-configuration", q)
            t["default_configuration"] = sorted(concrete)[0]
        moved = {k: v for k, v in t.items() if self.strip_op(k) not in self.nonconf}

        def inherit(new, name, trail):
            if name in trail:
                return new
            if name not in confs:
                raise Reject("no-parent-configuration", name)
            for parent in confs[name].get("inherit_from", []):
                new = inherit(new, parent, trail + [name])
            new = merge_dict(new, confs[name], (f, f), self.lang.extra_paths)
            new.pop("abstract", None)
            return new
        out = {}
        for c in concrete:
            out[c] = inherit(copy.deepcopy(moved), c, [])
        t = {k: v for k, v in t.items() if self.strip_op(k) in self.nonconf}
        t["configurations"] = out
        for c in out:
            for k in out[c]:
                if k in INVALID_CONF:
                    raise Reject("invalid-configuration-key", k, [k])
        return t

    # -- validation
    def validate(self, q, t):
        if t.get("type") not in TYPES:
            raise Reject("bad-type", q, [q])
        if t.get("standalone_static_library", 0) and t["type"] != "static_library":
            raise Reject("standalone", q, [q])
        names, exts = set(), set()
        for r in t.get("rules", []):
            if r["rule_name"] in names:
                raise Reject("duplicate-rule", q, [r["rule_name"]])
            names.add(r["rule_name"])
            e = r["extension"].lstrip(".") if r["extension"][:1] == "." else r["extension"]
            if e in exts:
                raise Reject("duplicate-rule-extension", q, [e])
            exts.add(e)
            if "rule_sources" in r:
                raise Reject("rule_sources", q)
            srcs = [s for k in ["sources"] + self.extra_sources for s in t.get(k, [])
                    if posixpath.splitext(s)[1].lstrip(".") == e]
            if srcs:
                r["rule_sources"] = srcs
        ra = t.get("run_as")
        if ra:
            if not isinstance(ra, dict) or not ra.get("action") or not isinstance(ra["action"], list):
                raise Reject("run_as", q)
            if ra.get("working_directory") and not isinstance(ra["working_directory"], str):
                raise Reject("run_as", q)
            if ra.get("environment") and not isinstance(ra["environment"], dict):
                raise Reject("run_as", q)
        for a in t.get("actions", []):
            if not a.get("action_name"):
                raise Reject("anonymous-action", q)
            if a.get("inputs") is None:
                raise Reject("action-no-inputs", q)
            if a.get("action") and not a["action"][0]:
                raise Reject("empty-action", q)


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def has_cycle(g):
    color = {}

    def visit(n):
        color[n] = 1
        for m in g.get(n, ()):
            if color.get(m) == 1:
                return True
            if m not in color and visit(m):
                return True
        color[n] = 2
        return False
    return any(n not in color and visit(n) for n in g)


def topo(T, deps):
    """Some order with dependencies first (only relative order of related targets is meaningful)."""
    out, seen = [], set()

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        for d in deps[n]:
            visit(d)
        out.append(n)
    for q in sorted(T):
        visit(q)
    return out


def ints_to_str(v):
    if isinstance(v, dict):
        return {k: ints_to_str(x) for k, x in v.items()}
    if isinstance(v, list):
        return [ints_to_str(x) for x in v]
    if isinstance(v, int):
        return str(v)
    return v
