"""C24: Xcode projects read back by an own property list parser and compared with the targets they come from."""
import glob
import json
import os
import posixpath
import re
import shutil
import subprocess

from hypothesis import strategies as st

from vh import gyprun
from vh.core import Campaign, HarnessError, Violation, fresh_dir

ID = "C24"
LEVEL = "exploration"
RULE = ("a project is non-trivial when it has at least two targets, a dependency, an action, rule, copy or resource, and a "
        "define, setting, path or name holding a character special to property lists or the shell")

FILES = ["a.gyp", "p/b.gyp", "p/q/c.gyp", "a2.gyp"]
TYPES = ["executable", "static_library", "static_library", "shared_library", "loadable_module", "none"]
CONFIGS = [["Debug", "Release"], ["Debug", "Release"], ["Release", "Debug"], ["Release"], ["Z", "Debug & R", "a_b"]]
SRC = ["a.c", "b.cc", "c.cpp", "d.h", "sub/a.c", "sub/e.cxx", "../s.c", "sub/deep/f.cc", "m.m", "t.txt", "u.s", "n.mm", "é.c",
       "w & x/g.c", "q'.c", "sub/l.cc", "M.CPP", "o.swift", "lib/z.o", "a__b___c.c", "x/y/z/w.c", "-dash.c", 'q"t.c', "*/e.c", "/opt/k.c",
       "$(INTERMEDIATE_DIR)/gen.cc", "$(SHARED_INTERMEDIATE_DIR)/g/h.cc", "../../up/x.c", "back\\s.c", "f.framework", "./dot.c",
       "sub/../k2.c", "noext", "sub/noext", "tab\tt.c", "$(SDKROOT)/v.c"]
DEFS = ["A", "B=1", "C=a b", 'D="q"', "E=<&>", "F=50%", "G=a;b", "H=$x", "I=#", "J='k'", "K=,", "L=é", "M=(a)*?", "N=$(V)", "O=\\",
        "P=p", 'Q="c:\\\\d"', "R=/*x*/", "S=//", "T=a\tb", "U=\\\\", "V_=___", "W={}"]
DIRS = [".", "inc", "../x", "sub/in c", "a&b", "/abs/inc", "$(Foo)/inc", "é", "sub/", "'q'", "$(SDKROOT)/usr/inc"]
LIBS = ["$(SDKROOT)/usr/lib/libz.dylib", "$(SDKROOT)/System/Library/Frameworks/Foo.framework", "libbar.a", "lib/libx.a",
        "$(SDKROOT)/usr/lib/libc.dylib", "/opt/x/liby.dylib", "Baz.framework"]
NAMES = ["t", "lib", "a-b", "x.y", "T", "n & m", "ü", "q'q", 'w"w', "___", "a*", "$x", "libé "]
VALS = ["v", "", "a b", '"', "\\", "//x", "/*", "*/", "a//b", "___", "a___b", "é", "x\n", "x\ny", "\n", "a\tb", "\x07\x08\x0b\x0c", "\x01", "\x1f",
        "'", "$(X)", "${X}", "1", "-1", "YES", ";", "{", "(", "a;b", "=", "a=b", "#", "\\n", "\\U0041", "@", "\x7f", "\u2028", "x\\", "a-b", "a:b",
        "..", "./x", "a,b", "<", "\r\n"[1:]]
KEYS = ["GCC_X", "INFOPLIST_FILE", "OTHER_CFLAGS", "A B", "X[arch=i386]", "k-1", "é", "_", "a.b", "CL//x", 'Q"', "OTHER_LDFLAGS"]
ARGS = ["x", "a b", "--f=1", "-p", "$(V1)", "$(V1)/y z", "é", "k&l", '"', "\\", "'", "a\\b", "*", "`id`", "#", ";", "", "$(V2)$(V1)", "~", "!", "(a)", "{b}", "\t"]
RES = ["r/a.png", "r/en.lproj/M.strings", "r/fr.lproj/M.strings", "en.lproj/N.nib", "fr.lproj/N.nib", "i.icns", "r/dir/", "x/fr.lproj/M.strings",
       "x.xcassets", "r/fr.lproj/O.strings"]
COPYDST = ["dest", "sub/d e", "$(BUILT_PRODUCTS_DIR)", "$(BUILT_PRODUCTS_DIR)/x/y", "/abs/d", "$(SRCROOT)/q", "$(BUILT_PRODUCTS_DIR)/$(PLUGINS_FOLDER_PATH)",
           "$(BUILT_PRODUCTS_DIR)/$(WRAPPER_NAME)/z", "$(Foo)/bar", "../d"]
PRODUCT = {"executable": ("com.apple.product-type.tool", "", ""), "static_library": ("com.apple.product-type.library.static", "lib", ".a"),
           "shared_library": ("com.apple.product-type.library.dynamic", "lib", ".dylib"),
           "loadable_module": ("com.apple.product-type.library.dynamic", "", ".so"),
           "executable+b": ("com.apple.product-type.application", "", ".app"),
           "loadable_module+b": ("com.apple.product-type.bundle", "", ".bundle"),
           "shared_library+b": ("com.apple.product-type.framework", "", ".framework")}
ENV = {"V1": "one & two", "V2": "*", "V3": ""}


def some(x, n):
    return st.lists(st.sampled_from(x), unique=True, max_size=n)


LISTS = ("OTHER_CFLAGS", "OTHER_LDFLAGS", "_", 'Q"')


def settings(n):
    v = st.one_of(st.sampled_from(VALS), st.sampled_from(VALS), st.text(
        st.characters(codec="utf-8", exclude_characters="\r<>^", exclude_categories=("Cs",)), max_size=6))
    return st.lists(st.sampled_from(KEYS), unique=True, max_size=n).flatmap(lambda ks: st.fixed_dictionaries(
        {k: st.lists(v, max_size=3, unique=True) if k in LISTS else v for k in ks}))


@st.composite
def cases(draw):
    nf = draw(st.integers(1, len(FILES)))
    n = draw(st.integers(1, 5))
    ts = []
    for i in range(n):
        t = {"f": draw(st.integers(0, nf - 1)), "name": draw(st.sampled_from(NAMES)) + str(i),
             "type": draw(st.sampled_from(TYPES)), "src": draw(some(SRC, 5)), "defines": draw(some(DEFS, 4)),
             "include_dirs": draw(some(DIRS, 3)), "set": draw(settings(3)),
             "deps": draw(st.lists(st.integers(0, i - 1), unique=True, max_size=2)) if i else []}
        t["cdef"] = draw(st.lists(some(DEFS, 2), min_size=3, max_size=3))
        t["cset"] = draw(st.lists(settings(2), min_size=3, max_size=3))
        if draw(st.integers(0, 2)) == 1 and t["src"]:
            t["x"] = draw(st.sampled_from(t["src"]))
        k = draw(st.integers(0, 11))
        if k in (1, 2, 3):
            t["acts"] = [{"in": draw(some(["a.c", "in.txt", "sub/in2.txt", "b.cc", "../in3"], 2)),
                          "out": draw(some(["$(INTERMEDIATE_DIR)/o%d.c" % j, "gen/o1%d.cc" % j, "gen/o2%d.h" % j, "$(BUILT_PRODUCTS_DIR)/p%d" % j], 2)) or ["gen/q%d.c" % j],
                          "args": draw(some(ARGS, 4)), "as": draw(st.booleans()), "msg": draw(st.sampled_from([None, "do it", "a \"b\" 'c' $(V1)"]))}
                         for j in range(draw(st.integers(1, 2)))]
        if k in (3, 4, 5):
            t["rule"] = {"name": draw(st.sampled_from(["r", "my rule", "r-1", "7z"])), "as": draw(st.booleans()),
                         "in": draw(some(["tool.py", "sub/dep.txt"], 2)), "src": draw(some(["r1.foo", "sub/r2.foo", "sub/deep/r3.foo"], 3)),
                         "args": draw(some(["x", "a b", "--f=1", "'", '"', "k&l"], 2)), "msg": draw(st.booleans()),
                         "two": draw(st.booleans())}
        if k in (6, 3):
            t["copies"] = [{"destination": d, "files": draw(some(["in.txt", "sub/in2.txt", "data/", "f.framework", "../z y"], 3)) or ["in.txt"]}
                           for d in draw(st.lists(st.sampled_from(COPYDST), min_size=1, max_size=2, unique=True))]
        if k in (7, 8):
            t["prod"] = draw(st.fixed_dictionaries({}, optional={
                "product_name": st.sampled_from(["pn", "p & n", "libpn", "é", 'p"']), "product_prefix": st.sampled_from(["pre", "lib", ""]),
                "product_extension": st.sampled_from(["node", "xyz", "tar.gz"]), "product_dir": st.sampled_from(["$(BUILT_PRODUCTS_DIR)/sub", "x"])}))
            if "product_name" in t["prod"]:
                t["prod"]["product_name"] += str(i)
        if draw(st.integers(0, 3)) == 1:
            t["bundle"] = {"res": draw(some(RES, 4)), "hdr": draw(some(["pub.h", "sub/pub2.h"], 2)), "priv": draw(some(["priv.h", "sub/priv2.h"], 2))}
        t["libs"] = draw(some(LIBS, 3)) if draw(st.booleans()) else []
        t["ldirs"] = draw(some(DIRS, 2)) if draw(st.booleans()) else []
        if draw(st.integers(0, 5)) == 3:
            t["run"] = {"args": draw(some(ARGS, 3)), "wd": draw(st.sampled_from([None, "wd", "$(V1)"])),
                        "env": draw(st.sampled_from([{}, {"V9": "a b"}, {"V9": "$(V1)", "V8": "x"}]))}
        if draw(st.integers(0, 7)) == 5:
            t["post"] = draw(some(ARGS, 3))
        if draw(st.integers(0, 7)) == 5:
            t["nowild"] = 1
        ts.append(t)
    return {"t": ts, "cfg": draw(st.integers(0, len(CONFIGS) - 1)), "ser": draw(st.booleans()),
            "excl": draw(st.booleans()), "fset": draw(settings(1)),
            "genout": draw(st.sampled_from([None, None, "out", "out/d", "ABS"])), "suffix": draw(st.sampled_from(["", "", "", "_s"])),
            "give": draw(st.lists(st.integers(0, nf - 1), unique=True, min_size=1)), "again": draw(st.sampled_from(["no", "same", "add"]))}


def kind(t):
    return t["type"]


def bundled(t):
    return bool(t.get("bundle")) and t["type"] in ("executable", "shared_library", "loadable_module")


def rel(case, i, j):
    a, b = case["t"][i], case["t"][j]
    if a["f"] == b["f"]:
        return b["name"]
    base = posixpath.dirname(FILES[a["f"]])
    return "%s:%s" % (posixpath.relpath("/" + FILES[b["f"]], "/" + base), b["name"])


def build(case):
    docs = {}
    cn = CONFIGS[case["cfg"]]
    for i, t in enumerate(case["t"]):
        g = FILES[t["f"]]
        d = {"target_name": t["name"], "type": t["type"]}
        src = list(t["src"])
        if t.get("rule"):
            src += t["rule"]["src"]
        if src:
            d["sources"] = src
        if t.get("x"):
            d["sources!"] = [t["x"]]
        for k in ("defines", "include_dirs"):
            if t[k]:
                d[k] = t[k]
        if t["libs"] and t["type"] not in ("none", "static_library"):
            d["libraries"] = t["libs"]
        if t["ldirs"]:
            d["library_dirs"] = t["ldirs"]
        if t.get("prod"):
            d.update(t["prod"])
        if t["set"]:
            d["xcode_settings"] = t["set"]
        if t["deps"]:
            d["dependencies"] = [rel(case, i, j) for j in t["deps"]]
        if t.get("acts"):
            d["actions"] = []
            for k, a in enumerate(t["acts"]):
                x = {"action_name": "act %d" % k, "inputs": a["in"], "outputs": a["out"], "action": ["vrec"] + a["args"],
                     "process_outputs_as_sources": int(a["as"])}
                if a["msg"]:
                    x["message"] = a["msg"]
                d["actions"].append(x)
        if t.get("rule"):
            r = t["rule"]
            d["rules"] = [{"rule_name": r["name"], "extension": "foo", "inputs": r["in"],
                           "outputs": ["gen/<(RULE_INPUT_ROOT).gen.cc"] + (["gen/<(RULE_INPUT_NAME).h"] if r["two"] else []),
                           "action": ["vrec", "<(RULE_INPUT_PATH)"] + r["args"] + ["-o", "<@(_outputs)"],
                           "process_outputs_as_sources": int(r["as"])}]
            if r["msg"]:
                d["rules"][0]["message"] = "on <(RULE_INPUT_PATH)"
        if t.get("copies"):
            d["copies"] = t["copies"]
        if bundled(t):
            b = t["bundle"]
            d["mac_bundle"] = 1
            if b["res"]:
                d["mac_bundle_resources"] = b["res"]
            if b["hdr"]:
                d["mac_framework_headers"] = b["hdr"]
            if b["priv"]:
                d["mac_framework_private_headers"] = b["priv"]
        if t.get("run"):
            d["run_as"] = {"action": ["vrec"] + t["run"]["args"]}
            if t["run"]["wd"]:
                d["run_as"]["working_directory"] = t["run"]["wd"]
            if t["run"]["env"]:
                d["run_as"]["environment"] = t["run"]["env"]
        if t.get("post") is not None and t["type"] != "none":
            d["postbuilds"] = [{"postbuild_name": "pb", "action": ["vrec"] + t["post"]}]
        if t.get("nowild"):
            d["suppress_wildcard"] = 1
        d["configurations"] = {}
        for k, c in enumerate(cn):
            x = d["configurations"][c] = {}
            if t["cdef"][k]:
                x["defines"] = t["cdef"][k]
            if t["cset"][k]:
                x["xcode_settings"] = t["cset"][k]
        d["default_configuration"] = cn[0]
        docs.setdefault(g, {"targets": []})["targets"].append(d)
    for g in docs:
        if case["fset"]:
            docs[g]["xcode_settings"] = case["fset"]
    return docs


# ---- property lists

ESC = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", '"': '"', "\\": "\\", "'": "'"}


class Plist:
    def __init__(self, text, fail):
        self.s, self.i, self.fail = text, 0, fail

    def ws(self):
        s = self.s
        while self.i < len(s):
            if s[self.i] in " \t\r\n":
                self.i += 1
            elif s.startswith("//", self.i):
                j = re.compile("[\n\r\u2028\u2029]").search(s, self.i)
                self.i = j.end() if j else len(s)
            elif s.startswith("/*", self.i):
                e = s.find("*/", self.i + 2)
                if e < 0:
                    self.fail("an unterminated comment")
                self.i = e + 2
            else:
                return

    def expect(self, c):
        self.ws()
        if not self.s.startswith(c, self.i):
            self.fail("%r expected at %r" % (c, self.s[max(0, self.i - 60):self.i + 60]))
        self.i += len(c)

    def string(self):
        s = self.s
        if s.startswith('"', self.i):
            out, i = [], self.i + 1
            while True:
                if i >= len(s):
                    self.fail("an unterminated string")
                c = s[i]
                if c == '"':
                    self.i = i + 1
                    return "".join(out)
                if c == "\\":
                    e = s[i + 1:i + 2]
                    if e == "U":
                        h = s[i + 2:i + 6]
                        if not re.match(r"[0-9a-fA-F]{4}\Z", h):
                            self.fail("a bad escape %r" % s[i:i + 8])
                        out.append(chr(int(h, 16)))
                        i += 6
                        continue
                    m = re.match(r"[0-7]{1,3}", s[i + 1:i + 4])
                    if m:
                        out.append(chr(int(m.group(), 8)))
                        i += 1 + m.end()
                        continue
                    if e not in ESC:
                        self.fail("an unknown escape %r" % s[i:i + 8])
                    out.append(ESC[e])
                    i += 2
                    continue
                out.append(c)
                i += 1
        m = re.compile(r"[A-Za-z0-9_$/:.-]+").match(s, self.i)
        if not m:
            self.fail("a value expected at %r" % s[max(0, self.i - 60):self.i + 60])
        self.i = m.end()
        return m.group()

    def value(self):
        self.ws()
        c = self.s[self.i:self.i + 1]
        if c == "{":
            self.i += 1
            out = {}
            while True:
                self.ws()
                if self.s.startswith("}", self.i):
                    self.i += 1
                    return out
                k = self.string()
                if k in out:
                    self.fail("the key %r occurs twice" % k)
                self.expect("=")
                out[k] = self.value()
                self.expect(";")
        if c == "(":
            self.i += 1
            out = []
            while True:
                self.ws()
                if self.s.startswith(")", self.i):
                    self.i += 1
                    return out
                out.append(self.value())
                self.ws()
                if self.s.startswith(",", self.i):
                    self.i += 1
                elif not self.s.startswith(")", self.i):
                    self.fail("',' expected at %r" % self.s[max(0, self.i - 60):self.i + 60])
        return self.string()

    def document(self):
        if not self.s.startswith("// !$*UTF8*$!\n"):
            self.fail("the first line is %r" % self.s[:30])
        v = self.value()
        self.ws()
        if self.i != len(self.s):
            self.fail("text after the end: %r" % self.s[self.i:self.i + 60])
        return v


# what an object's references may point to; (is a list, kinds)
PHASES = ("PBXSourcesBuildPhase", "PBXFrameworksBuildPhase", "PBXShellScriptBuildPhase", "PBXCopyFilesBuildPhase", "PBXResourcesBuildPhase",
          "PBXHeadersBuildPhase")
FILEISH = ("PBXFileReference", "PBXVariantGroup", "PBXReferenceProxy")
REFS = {"PBXProject": {"buildConfigurationList": (0, ("XCConfigurationList",)), "mainGroup": (0, ("PBXGroup",)),
                       "targets": (1, ("PBXNativeTarget", "PBXAggregateTarget"))},
        "PBXGroup": {"children": (1, FILEISH + ("PBXGroup",))}, "PBXVariantGroup": {"children": (1, ("PBXFileReference",))},
        "PBXNativeTarget": {"buildConfigurationList": (0, ("XCConfigurationList",)), "buildPhases": (1, PHASES),
                            "dependencies": (1, ("PBXTargetDependency",)), "productReference": (0, ("PBXFileReference",)),
                            "buildRules": (1, ())},
        "PBXAggregateTarget": {"buildConfigurationList": (0, ("XCConfigurationList",)), "buildPhases": (1, PHASES),
                               "dependencies": (1, ("PBXTargetDependency",))},
        "XCConfigurationList": {"buildConfigurations": (1, ("XCBuildConfiguration",))},
        "XCBuildConfiguration": {"baseConfigurationReference": (0, ("PBXFileReference",))},
        "PBXTargetDependency": {"target": (0, ("PBXNativeTarget", "PBXAggregateTarget")), "targetProxy": (0, ("PBXContainerItemProxy",))},
        "PBXContainerItemProxy": {"containerPortal": (0, ("PBXProject", "PBXFileReference"))},
        "PBXReferenceProxy": {"remoteRef": (0, ("PBXContainerItemProxy",))},
        "PBXBuildFile": {"fileRef": (0, FILEISH)}, "PBXFileReference": {}}
for _p in PHASES:
    REFS[_p] = {"files": (1, ("PBXBuildFile",))}


class Project:
    def __init__(self, path, outer):
        self.path = path
        with open(os.path.join(path, "project.pbxproj"), encoding="utf-8", newline="") as h:
            self.text = h.read()
        def fail(m):
            outer("%s: %s" % (path, m))
        self.fail = fail
        d = Plist(self.text, fail).document()
        if sorted(d) != ["archiveVersion", "classes", "objectVersion", "objects", "rootObject"]:
            fail("the top level holds %s" % sorted(d))
        self.o = o = d["objects"]
        for k, v in o.items():
            if not re.match(r"[0-9A-F]{24}\Z", k):
                fail("%r is no identifier" % k)
            if v.get("isa") not in REFS:
                fail("%s is a %s" % (k, v.get("isa")))
        self.root = d["rootObject"]
        if self.root not in o or o[self.root]["isa"] != "PBXProject":
            fail("the root object is no project")
        self.parent, seen, todo = {}, {self.root}, [self.root]
        while todo:
            k = todo.pop()
            refs = []
            for key, (many, kinds) in REFS[o[k]["isa"]].items():
                v = o[k].get(key)
                if v is None:
                    continue
                if not isinstance(v, list if many else str):
                    fail("%s of %s is %r" % (key, k, v))
                for r in v if many else [v]:
                    refs.append((key, r, kinds))
            if o[k]["isa"] == "PBXProject":
                for e in o[k].get("projectReferences", []):
                    if sorted(e) != ["ProductGroup", "ProjectRef"]:
                        fail("a project reference holds %s" % sorted(e))
                    refs += [("ProductGroup", e["ProductGroup"], ("PBXGroup",)), ("ProjectRef", e["ProjectRef"], ("PBXFileReference",))]
            for key, r, kinds in refs:
                if r not in o:
                    fail("%s of the %s %s refers to %s, which does not exist" % (key, o[k]["isa"], k, r))
                if o[r]["isa"] not in kinds:
                    fail("%s of the %s %s refers to a %s" % (key, o[k]["isa"], k, o[r]["isa"]))
                if key == "children":
                    if r in self.parent:
                        fail("%s is in two groups" % r)
                    self.parent[r] = k
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        if set(o) != seen:
            k = sorted(set(o) - seen)[0]
            fail("the %s %s is not reachable: %s" % (o[k]["isa"], k, o[k]))
        p = o[self.root]
        self.base = os.path.normpath(os.path.join(os.path.dirname(path) or ".", p["projectDirPath"]))
        self.targets = [o[k] for k in p["targets"]]
        self.tid = {o[k]["name"]: k for k in p["targets"]}

    def where(self, k):
        """The place a file reference or group stands for: ('', path) on disk or (variable, path)."""
        v = self.o[k]
        if v["isa"] == "PBXReferenceProxy":
            return ("PROXY", k)
        tree, path = v["sourceTree"], v.get("path")
        if tree == "<group>":
            up = self.where(self.parent[k]) if k in self.parent else ("", "")
            if path is None:
                return up
            return (up[0], posixpath.join(up[1], path))
        if tree == "SOURCE_ROOT":
            return ("", path or "")
        if tree == "<absolute>":
            return ("", "/" + (path or "").lstrip("/"))
        return (tree, path or "")

    def place(self, k):
        tree, path = self.where(k)
        if tree == "":
            return os.path.normpath(os.path.join(self.base, path))
        if tree == "PROXY":
            return (tree, path)
        return "$(%s)%s" % (tree, "/" + posixpath.normpath(path) if path else "")

    def files(self, phase):
        """Places of the files of a build phase, variants spelled out."""
        out = []
        for b in phase["files"]:
            r = self.o[b]["fileRef"]
            s = self.o[b].get("settings")
            if self.o[r]["isa"] == "PBXVariantGroup":
                out.append(("variants", sorted(self.place(c) for c in self.o[r]["children"]), s))
            else:
                out.append((self.place(r), s))
        return out


def expected_place(p, path):
    if path.startswith("$("):
        m = re.match(r"\$\((.*?)\)(?:/(.*))?$", path)
        return "$(%s)%s" % (m.group(1), "/" + posixpath.normpath(m.group(2)) if m.group(2) else "")
    return os.path.normpath(os.path.join(p.base, path))


def undefine(v):
    """What Xcode's compiler sees of one entry: backslash keeps the next character, a bare space splits."""
    out, cur, i = [], "", 0
    while i < len(v):
        if v[i] == "\\" and i + 1 < len(v):
            cur += v[i + 1]
            i += 2
        elif v[i] in "\"'":
            raise ValueError("a bare quote")
        elif v[i] == " ":
            out.append(cur)
            cur = ""
            i += 1
        else:
            cur += v[i]
            i += 1
    return out + [cur]


def aslist(v):
    return v if isinstance(v, list) else [v]


def flat(v):
    """How a setting reads back: a list of one or none is written as a plain string; CR is written as LF (documented)."""
    f = lambda s: str(s).replace("\r", "\n")
    if isinstance(v, list):
        return "" if not v else f(v[0]) if len(v) == 1 else [f(x) for x in v]
    return f(v)


VREC = "#!/bin/sh\n: > \"$VREC_OUT\"\nfor a; do printf '%s\\0' \"$a\" >> \"$VREC_OUT\"; done\n"
VMAKE = """#!/bin/sh
printf '%s\\0' "$@" > "$VREC_OUT.$$"
while [ $# -gt 0 ] && [ "$1" != -o ]; do shift; done
shift
for a; do [ -d "${a%/*}" ] || exit 9; : > "$a"; done
"""


def sub(a):
    return re.sub(r"\$\((.*?)\)", lambda m: ENV.get(m.group(1), ""), a)


def run_script(script, work, fail, cwd):
    out = os.path.join(work, "rec")
    if os.path.exists(out):
        os.unlink(out)
    env = dict(ENV, PATH=work + ":/usr/bin:/bin", VREC_OUT=out, TMPDIR=work)
    r = subprocess.run(["/bin/sh", "-c", script], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode or not os.path.exists(out):
        fail("the script %r fails: %d %s" % (script, r.returncode, r.stderr.decode()[:300]))
    with open(out, "rb") as h:
        return h.read().decode().split("\0")[:-1], r.stdout.decode()


def stub(work, text):
    p = os.path.join(work, "vrec")
    with open(p, "w") as h:
        h.write(text)
    os.chmod(p, 0o755)


def check(case):
    docs = build(case)
    give = [FILES[i] for i in case["give"] if FILES[i] in docs]
    if not give:
        return None
    j = json.dumps(case)
    root = fresh_dir("xc")
    tree = os.path.join(root, "tree")
    work = os.path.join(root, "work")
    os.makedirs(work)
    stub(work, VREC)
    gyprun.write_tree(tree, docs)
    args = ["--depth", ".", "--no-parallel", "--no-circular-check"]
    dump = gyprun.dump(args + give, tree)
    if dump.rc != 0:
        return None
    genout = None if not case["genout"] else os.path.join(root, "absout") if case["genout"] == "ABS" else case["genout"]
    gargs = ["-f", "xcode"] + args
    if genout:
        gargs.append("--generator-output=" + genout)
    if case["suffix"]:
        gargs.append("--suffix=" + case["suffix"])
    if not case["ser"]:
        gargs += ["-G", "xcode_serialize_all_test_runs="]
    if not case["excl"]:
        gargs += ["-G", "xcode_list_excluded_files="]

    def fail(m):
        raise Violation("%s\n%s\n%s" % (m, json.dumps(docs, indent=1)[:4000], j))

    r = gyprun.gyp_main(gargs + give, tree)
    if r.rc != 0:
        fail("the project is valid but generation failed:\n%s" % r.err[-2500:])
    out = os.path.join(tree, genout or "")
    loaded = [f for f in FILES if f in docs and any(k.split(":")[0] == f for k in dump.dump["list"])]
    projects = {}
    for f in loaded:
        path = os.path.join(out, f[:-4] + case["suffix"] + ".xcodeproj")
        if not os.path.isdir(path):
            fail("no project for %s" % f)
        projects[f] = Project(path, fail)
        extra = [n for n in os.listdir(path) if n != "project.pbxproj" and not n.endswith(".make")]
        if extra:
            fail("%s holds %s" % (path, extra))
    have = sorted(glob.glob(out + "/**/*.xcodeproj", recursive=True)) + (
        sorted(glob.glob(tree + "/**/*.xcodeproj", recursive=True)) if os.path.isabs(genout or "") else [])
    if sorted(os.path.realpath(p) for p in have) != sorted(os.path.realpath(p.path) for p in projects.values()):
        fail("projects %s instead of %s" % (have, sorted(p.path for p in projects.values())))
    ids = {}
    # the targets that are in the files that were loaded
    spec = {(FILES[t["f"]], t["name"]): t for t in case["t"]}
    for f in loaded:
        project(case, docs, f, projects, spec, dump.dump, work, tree)
    if case["again"] != "no":
        before = {}
        for f in loaded:
            s = os.stat(projects[f].path + "/project.pbxproj")
            before[f] = (s.st_ino, s.st_mtime_ns, s.st_ctime_ns)
        if case["again"] == "add":
            g = loaded[0]
            docs2 = {g: dict(docs[g], targets=docs[g]["targets"] + [{
                "target_name": "zz new", "type": "static_library", "sources": ["zz/new.c"],
                "configurations": {c: {} for c in CONFIGS[case["cfg"]]}, "default_configuration": CONFIGS[case["cfg"]][0]}]),
                     "other.gyp": {"targets": [{"target_name": "oo", "type": "none"}]}}
            gyprun.write_tree(tree, docs2)
            give = give + ["other.gyp"]
        r = gyprun.gyp_main(gargs + give, tree)
        if r.rc != 0:
            fail("running again failed:\n%s" % r.err[-2500:])
        for f in loaded:
            changed = case["again"] == "add" and (f == loaded[0])
            s = os.stat(projects[f].path + "/project.pbxproj")
            p2 = Project(projects[f].path, fail)
            refers = case["again"] == "add" and any(
                "zz new" == v.get("remoteInfo") for v in p2.o.values())
            if not changed and not refers:
                if (s.st_ino, s.st_mtime_ns, s.st_ctime_ns) != before[f]:
                    fail("the project for %s was rewritten though nothing in it changed%s" % (
                        f, "" if p2.text == projects[f].text else " (it now differs)"))
            for name, k in projects[f].tid.items():
                if p2.tid.get(name) != k:
                    fail("the identifier of the target %s changed though it is not affected" % name)
                a, b = projects[f].o[k], p2.o[k]
                if a["buildConfigurationList"] != b["buildConfigurationList"]:
                    fail("the identifier of the configurations of the target %s changed" % name)
                if projects[f].o[a["buildConfigurationList"]] != p2.o[b["buildConfigurationList"]]:
                    fail("the identifiers of the configurations of the target %s changed" % name)
                if name not in ("All",) and a["buildPhases"] != b["buildPhases"]:
                    fail("the identifiers of the build phases of the target %s changed" % name)
    odd = json.dumps(docs, ensure_ascii=False)
    return {"nontrivial": bool(len(case["t"]) > 1 and any(t["deps"] for t in case["t"]) and (
        any(t.get("acts") or t.get("rule") or t.get("copies") or bundled(t) for t in case["t"])) and re.search(
            r"[^\w\s.,:/{}\[\]\"-]", odd)),
            "labels": sorted({t["type"] for t in case["t"]} | {k for t in case["t"] for k in ("acts", "rule", "copies", "bundle", "run", "post", "prod")
                                                               if t.get(k)}) + ["remote" if any(
                                                                   case["t"][d]["f"] != t["f"] for t in case["t"] for d in t["deps"]) else "local"],
            "sample": list(docs.items())[0]}


def project(case, docs, f, projects, spec, dump, work, tree):
    p = projects[f]
    fail = p.fail
    o = p.o
    gdir = os.path.normpath(os.path.join(tree, posixpath.dirname(f)))
    if os.path.realpath(p.base) != os.path.realpath(gdir):
        fail("its directory is %s instead of %s" % (p.base, gdir))
    ts = docs[f]["targets"]
    cn = CONFIGS[case["cfg"]]
    # which targets
    want, deps, runs = [], {}, []
    for d in ts:
        t = spec[(f, d["target_name"])]
        n = d["target_name"]
        want.append(n)
        helper = t["type"] != "none" and (d.get("actions") or d.get("rules"))
        q = "%s:%s#target" % (f, n)
        on = [tuple(k.rsplit("#", 1)[0].split(":", 1)) for k in dump["dicts"][q].get("dependencies", [])]
        deps[n] = list(on)
        if helper:
            want.append(n + " Support")
            deps[n + " Support"] = list(on)
            deps[n] = [(f, n + " Support")] + on
        if d.get("run_as"):
            want.append("Run " + n)
            deps["Run " + n] = [(f, n)]
            runs.append((f, "Run " + n))
    allof = [(f, d["target_name"]) for d in ts if not d.get("suppress_wildcard")]
    if len(allof) > 1 and not any(d["target_name"].lower() == "all" for d in ts):
        want.insert(0, "All")
        deps["All"] = allof
    if len(runs) > 1:
        want.insert(1, "Run All Tests")
        deps["Run All Tests"] = runs
    names = [t["name"] for t in p.targets]
    if names != want:
        fail("the targets are %s instead of %s" % (names, want))
    # dependencies
    for t in p.targets:
        got = []
        for k in t["dependencies"]:
            e = o[k]
            x = o[e["targetProxy"]]
            if x["proxyType"] != "1":
                fail("a dependency of %s is proxied as %s" % (t["name"], x["proxyType"]))
            if x["containerPortal"] == p.root:
                if e.get("target") != x["remoteGlobalIDString"] or e["target"] not in o:
                    fail("a dependency of %s points to two things" % t["name"])
                g, n = f, o[e["target"]]["name"]
            else:
                g, n = remote(p, projects, x, fail), None
                r = projects[g].o.get(x["remoteGlobalIDString"])
                if r is None or r["isa"] not in ("PBXNativeTarget", "PBXAggregateTarget"):
                    fail("a dependency of %s names %s, which is no target of %s" % (t["name"], x["remoteGlobalIDString"], g))
                n = r["name"]
                if e.get("name") != n or "target" in e:
                    fail("a dependency of %s on %s is labelled %s" % (t["name"], n, e.get("name")))
            if x["remoteInfo"] != n:
                fail("a dependency of %s on %s is described as %s" % (t["name"], n, x["remoteInfo"]))
            got.append((g, n))
        if got != deps[t["name"]]:
            fail("%s depends on %s instead of %s" % (t["name"], got, deps[t["name"]]))
    # project-wide settings
    order = []
    for d in ts:
        for c in [cn[0]] + sorted(cn):
            if c not in order:
                order.append(c)
    conf = configs(p, o[p.root], order, fail)
    for c in conf:
        for k, v in case["fset"].items():
            if conf[c].get(k) != flat(v):
                fail("the project's %s is %r instead of %r" % (k, conf[c].get(k), flat(v)))
    for e in o[p.root].get("projectReferences", []):
        g = remote(p, projects, {"containerPortal": e["ProjectRef"]}, fail)
        prods = []
        for k in o[e["ProductGroup"]]["children"]:
            v = o[k]
            x = o[v["remoteRef"]]
            r = projects[g].o.get(x["remoteGlobalIDString"])
            if v["isa"] != "PBXReferenceProxy" or r is None or r["isa"] != "PBXFileReference" or x["proxyType"] != "2":
                fail("a product of %s is %s" % (g, v))
            if v.get("path") != r.get("path") or x["containerPortal"] != e["ProjectRef"]:
                fail("the product %s of %s is shown as %s" % (r.get("path"), g, v.get("path")))
            prods.append(x["remoteGlobalIDString"])
        theirs = [t["productReference"] for t in projects[g].targets if t["isa"] == "PBXNativeTarget"]
        if prods != theirs:
            fail("the products of %s are %s instead of %s" % (g, prods, theirs))
    for d in ts:
        target(case, docs, f, d, projects, spec, dump, work, fail)


def remote(p, projects, x, fail):
    k = x["containerPortal"]
    where = os.path.realpath(os.path.join(p.base, p.where(k)[1])) if p.where(k)[0] == "" else p.where(k)
    for g, q in projects.items():
        if os.path.realpath(q.path) == where:
            return g
    fail("a reference to the project %s, which does not exist" % (where,))


def configs(p, t, want, fail):
    l = p.o[t["buildConfigurationList"]]
    got = [p.o[k]["name"] for k in l["buildConfigurations"]]
    if got != want or l.get("defaultConfigurationName") != want[0]:
        fail("the configurations of %s are %s (%s) instead of %s" % (t.get("name"), got, l.get("defaultConfigurationName"), want))
    return {p.o[k]["name"]: p.o[k]["buildSettings"] for k in l["buildConfigurations"]}


def target(case, docs, f, d, projects, spec, dump, work, fail0):
    p = projects[f]
    o = p.o
    n = d["target_name"]
    t = spec[(f, n)]
    by = {x["name"]: x for x in p.targets}
    x = by[n]
    fail = lambda m: fail0("target %s: %s" % (n, m))
    order = []
    cn = CONFIGS[case["cfg"]]
    for c in [cn[0]] + sorted(cn):
        if c not in order:
            order.append(c)
    conf = configs(p, x, order, fail)
    if n + " Support" in by:
        configs(p, by[n + " Support"], order, fail)
    typ = t["type"]
    # the product
    if typ == "none":
        if x["isa"] != "PBXAggregateTarget":
            fail("it is a %s" % x["isa"])
    else:
        pt, prefix, suffix = PRODUCT[typ + ("+b" if bundled(t) else "")]
        pr = t.get("prod", {})
        name = pr.get("product_name", n)
        prefix = pr.get("product_prefix", prefix)
        if "product_extension" in pr:
            suffix = "." + pr["product_extension"]
        if prefix and name.startswith(prefix):
            name = name[len(prefix):]
        if x["isa"] != "PBXNativeTarget" or x["productType"] != pt:
            fail("it is a %s of type %s" % (x["isa"], x.get("productType")))
        ref = o[x["productReference"]]
        if ref["path"] != prefix + name + suffix or ref["sourceTree"] != "BUILT_PRODUCTS_DIR":
            fail("its product is %s in %s instead of %s" % (ref["path"], ref["sourceTree"], prefix + name + suffix))
        for c, s in conf.items():
            over = dict(t["set"], **t["cset"][cn.index(c)])
            pn = s.get("PRODUCT_NAME", "")
            wrap = "WRAPPER" if bundled(t) else "EXECUTABLE"
            if s.get(wrap + "_PREFIX") != prefix:
                fail("its %s_PREFIX is %r" % (wrap, s.get(wrap + "_PREFIX")))
            if pn != name + (suffix if "product_extension" in pr and typ == "executable" and not bundled(t) else ""):
                fail("its PRODUCT_NAME is %r" % pn)
            if "product_extension" in pr and s.get(wrap + "_EXTENSION") != suffix[1:]:
                fail("its %s_EXTENSION is %r" % (wrap, s.get(wrap + "_EXTENSION")))
            if "product_dir" in pr and s.get("TARGET_BUILD_DIR") != pr["product_dir"]:
                fail("its TARGET_BUILD_DIR is %r" % s.get("TARGET_BUILD_DIR"))
            if (typ == "loadable_module" and not bundled(t)) != (s.get("MACH_O_TYPE") == "mh_bundle"):
                fail("its MACH_O_TYPE is %r" % s.get("MACH_O_TYPE"))
    # settings
    spd = dump["dicts"]["%s:%s#target" % (f, n)]["configurations"]
    for c in conf:
        s = conf[c]
        k = cn.index(c)
        over = merged(t["set"], t["cset"][k])
        for key, v in over.items():
            if key not in s or s[key] != flat(v):
                fail("%s in %s is %r instead of %r" % (key, c, s.get(key), flat(v)))
        want = list(t["defines"]) + [z for z in t["cdef"][k] if z not in t["defines"] or z.startswith("-")]
        got = aslist(s.get("GCC_PREPROCESSOR_DEFINITIONS", [])) if "GCC_PREPROCESSOR_DEFINITIONS" in s else []
        try:
            got = [undefine(v) for v in got]
        except ValueError:
            fail("bad quoting in the macros %s" % got)
        if got != [[v] for v in want]:
            fail("the macros of %s are %s instead of %s" % (c, got, want))
        for key, mine in (("HEADER_SEARCH_PATHS", "include_dirs"), ("LIBRARY_SEARCH_PATHS", "library_dirs")):
            have = aslist(s[key]) if key in s else []
            dirs = list(spd[c].get(mine, []))
            if mine == "library_dirs":
                first = []
                for l in d.get("libraries", []):
                    b = posixpath.dirname(l)
                    if b not in ("$(SDKROOT)/usr/lib",) and b not in first:
                        first.append(b)
                if set(have) != set(first) | set(dirs) or len(have) != len(set(have)):
                    fail("the library directories of %s are %s instead of %s" % (c, have, first + dirs))
            elif have != dirs:
                fail("the include directories of %s are %s instead of %s" % (c, have, dirs))
    # phases
    phases = [o[k] for k in x["buildPhases"]]
    sup = [o[k] for k in by[n + " Support"]["buildPhases"]] if n + " Support" in by else phases
    one = {}
    for q in phases:
        if q["isa"] not in ("PBXShellScriptBuildPhase", "PBXCopyFilesBuildPhase"):
            if q["isa"] in one:
                fail("two %s" % q["isa"])
            one[q["isa"]] = q
    src = [s for s in d.get("sources", []) if s != t.get("x")]
    comp, obj = [], []

    def add(s):
        e = posixpath.splitext(posixpath.basename(s))[1][1:].lower()
        if typ != "none" and e in ("c", "cc", "cpp", "cxx", "m", "mm", "s", "swift"):
            comp.append((expected_place(p, s), None))
        elif typ != "none" and e in ("a", "dylib", "framework", "o"):
            obj.append((expected_place(p, s), None))
    for a in d.get("actions", []):
        if a["process_outputs_as_sources"]:
            for s in a["outputs"]:
                add(s)
    for r in d.get("rules", []):
        if r["process_outputs_as_sources"]:
            for s in src:
                if s.endswith(".foo"):
                    b = posixpath.basename(s)
                    add("gen/%s.gen.cc" % b[:-4])
                    if t["rule"]["two"]:
                        add("gen/%s.h" % b)
    for s in src:
        if not (d.get("rules") and s.endswith(".foo")):
            add(s)
    got = p.files(one["PBXSourcesBuildPhase"]) if "PBXSourcesBuildPhase" in one else []
    if sorted(got, key=str) != sorted(comp, key=str):
        fail("it compiles %s instead of %s" % (got, comp))
    # linking
    link = list(obj)
    if typ not in ("none", "static_library"):
        for k in dump["dicts"]["%s:%s#target" % (f, n)].get("dependencies", []):
            g, m = k.rsplit("#", 1)[0].split(":", 1)
            u = spec[(g, m)]
            if u["type"] == "static_library" or u["type"] == "shared_library":
                q = projects[g]
                pid = [v for v in q.targets if v["name"] == m][0]["productReference"]
                link.append((("product", g, pid), None))
        for l in d.get("libraries", []):
            link.append((expected_place(p, l), None))
    got = []
    for b in one.get("PBXFrameworksBuildPhase", {}).get("files", []):
        r = o[b]["fileRef"]
        v = o[r]
        if v["isa"] == "PBXReferenceProxy":
            y = o[v["remoteRef"]]
            got.append((("product", remote(p, projects, y, fail), y["remoteGlobalIDString"]), o[b].get("settings")))
        elif v.get("sourceTree") == "BUILT_PRODUCTS_DIR":
            got.append((("product", f, r), o[b].get("settings")))
        else:
            got.append((p.place(r), o[b].get("settings")))
    if sorted(got, key=str) != sorted(link, key=str):
        fail("it links %s instead of %s" % (got, link))
    # resources and headers of bundles
    if bundled(t):
        rs = list(t["bundle"]["res"])
        got = p.files(one["PBXResourcesBuildPhase"]) if "PBXResourcesBuildPhase" in one else []
        have = []
        for g in got:
            if g[0] == "variants":
                have += [v for v in g[1]]
            else:
                have.append(g[0])
        mine = [expected_place(p, r) for r in rs]
        allres = {expected_place(p, r) for d2 in docs[f]["targets"] for r in d2.get("mac_bundle_resources", [])}
        if not set(mine) <= set(have) or not set(have) <= allres or len(have) != len(set(have)):
            fail("its resources are %s instead of %s" % (have, mine))
        got = p.files(one["PBXHeadersBuildPhase"]) if "PBXHeadersBuildPhase" in one else []
        mine = [(expected_place(p, h), {"ATTRIBUTES": ["Private"]}) for h in t["bundle"]["priv"]] + [
            (expected_place(p, h), {"ATTRIBUTES": ["Public"]}) for h in t["bundle"]["hdr"]]
        if sorted(got, key=str) != sorted(mine, key=str):
            fail("its headers are %s instead of %s" % (got, mine))
    # copies
    got = []
    for q in phases:
        if q["isa"] == "PBXCopyFilesBuildPhase":
            got.append((q["dstSubfolderSpec"], q["dstPath"], sorted(g[0] for g in p.files(q))))
    mine = []
    for c in d.get("copies", []):
        mine.append(destination(c["destination"]) + (sorted(expected_place(p, z) for z in c["files"]),))
    if sorted(got) != sorted(mine):
        fail("it copies %s instead of %s" % (got, mine))
    # scripts
    scripts = [q for q in sup if q["isa"] == "PBXShellScriptBuildPhase"]
    acts = [q for q in scripts if q["name"].startswith('Action "')]
    if len(acts) != len(d.get("actions", [])):
        fail("%d actions instead of %d" % (len(acts), len(d.get("actions", []))))
    for a in d.get("actions", []):
        mine = [q for q in acts if q["name"] == 'Action "%s"' % a["action_name"]]
        if len(mine) != 1 or mine[0]["inputPaths"] != a["inputs"] or mine[0]["outputPaths"] != a["outputs"]:
            fail("the action %s is %s" % (a["action_name"], mine))
        if mine[0]["shellPath"] != "/bin/sh":
            fail("the action's shell is %s" % mine[0]["shellPath"])
        argv, text = run_script(mine[0]["shellScript"], work, fail, work)
        if argv != [sub(z) for z in a["action"][1:]]:
            fail("the action runs with %s instead of %s" % (argv, [sub(z) for z in a["action"][1:]]))
        if a.get("message") and text != "note: %s\n" % sub(a["message"]):
            fail("the action says %r instead of %r" % (text, a["message"]))
    if typ != "none":
        posts = [q for q in phases if q["isa"] == "PBXShellScriptBuildPhase" and q["name"].startswith("Postbuild")]
        if len(posts) != len(d.get("postbuilds", [])):
            fail("%d postbuilds" % len(posts))
        for q, b in zip(posts, d.get("postbuilds", [])):
            plain = [z for z in b["action"][1:]]
            if not any("$(" in z for z in plain):
                argv, _ = run_script(q["shellScript"], work, fail, work)
                if argv != plain:
                    fail("the postbuild runs with %s instead of %s" % (argv, plain))
            if q is not phases[-1] and phases.index(q) < len(phases) - len(posts):
                fail("the postbuild runs before %s" % phases[-1]["isa"])
    if d.get("run_as"):
        rt = by["Run " + n]
        q = [o[k] for k in rt["buildPhases"]]
        if len(q) != 1 or q[0]["isa"] != "PBXShellScriptBuildPhase":
            fail("the phases of its runner are %s" % q)
        ra = d["run_as"]
        script = q[0]["shellScript"]
        cwd = os.path.join(work, "cwd")
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(os.path.join(cwd, "wd"))
        os.makedirs(os.path.join(cwd, ENV["V1"]))
        argv, text = run_script(script.replace('python -c', 'python3 -c'), work, fail, cwd)
        if argv != [sub(z) for z in ra["action"][1:]]:
            fail("it is run with %s instead of %s" % (argv, ra["action"][1:]))
        if ("GYP_serialize_test_runs" in script) != case["ser"]:
            fail("its runs are%s serialised" % (" not" if case["ser"] else ""))
        for key, v in ra.get("environment", {}).items():
            if 'export %s="%s"\n' % (key, v.replace("$(", "${").replace(")", "}")) not in script:
                fail("%s is not set for its run" % key)
        if ra.get("working_directory") and not script.startswith('cd "'):
            fail("it is not run in its directory")
    # rules
    for r in d.get("rules", []):
        rs = [s for s in src if s.endswith(".foo")]
        mine = [q for q in scripts if q["name"] == 'Rule "%s"' % r["rule_name"]]
        if len(mine) != (1 if rs else 0):
            fail("the rule %s has %d scripts" % (r["rule_name"], len(mine)))
        if rs:
            rule(p, t, r, rs, mine[0], work, fail)


def rule(p, t, r, rs, phase, work, fail):
    m = re.search(r'make -f "\$\{PROJECT_FILE_PATH\}/([^"]*)"', phase["shellScript"])
    if not m:
        fail("the rule's script is %r" % phase["shellScript"])
    mk = os.path.join(p.path, m.group(1))
    if not os.path.isfile(mk):
        fail("there is no %s" % mk)
    w = os.path.join(work, "make")
    shutil.rmtree(w, ignore_errors=True)
    for s in rs + r["inputs"]:
        os.makedirs(os.path.dirname(os.path.join(w, s)), exist_ok=True)
        open(os.path.join(w, s), "w").close()
        os.utime(os.path.join(w, s), (1000000000, 1000000000))
    stub(work, VMAKE)
    rec = os.path.join(work, "rec")

    def run():
        for z in glob.glob(rec + ".*"):
            os.unlink(z)
        q = subprocess.run(["make", "-j", "2", "-f", mk], cwd=w, env=dict(ENV, PATH=work + ":/usr/bin:/bin", VREC_OUT=rec),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if q.returncode:
            with open(mk) as h:
                fail("the rule's makefile fails: %s\n%s" % (q.stdout.decode()[-500:], h.read()))
        got = []
        for z in glob.glob(rec + ".*"):
            with open(z, "rb") as h:
                got.append(h.read().decode().split("\0")[:-1])
        return sorted(got)
    want = []
    for s in rs:
        b = posixpath.basename(s)
        want.append([s] + t["rule"]["args"] + ["-o", "gen/%s.gen.cc" % b[:-4]] + (["gen/%s.h" % b] if t["rule"]["two"] else []))
    try:
        got = run()
        if t["rule"]["two"]:
            got = sorted({tuple(g) for g in got})
            want = sorted(tuple(z) for z in want)
        if got != sorted(want):
            fail("the rule runs %s instead of %s" % (got, want))
        if run():
            fail("the rule runs again though nothing changed")
        victim = (rs + r["inputs"])[-1]
        os.utime(os.path.join(w, victim), (4000000000, 4000000000))
        got = run()
        if {g[0] for g in got} != set(rs if victim in r["inputs"] else [victim]):
            fail("after an edit of %s the rule runs %s" % (victim, got))
    finally:
        stub(work, VREC)


def destination(d):
    if d[0] not in "/$":
        return ("0", "$(SRCROOT)/" + d)
    if d.startswith("/"):
        return ("0", d[1:])
    if d.startswith("$(BUILT_PRODUCTS_DIR)"):
        rest = d[len("$(BUILT_PRODUCTS_DIR)"):].lstrip("/")
        for v, k in (("$(PLUGINS_FOLDER_PATH)", "13"), ("$(WRAPPER_NAME)", "1")):
            if rest.startswith(v):
                return (k, rest[len(v):].lstrip("/"))
        return ("16", rest)
    return ("0", d)


def merged(a, b):
    """Target-wide settings with those of a configuration merged in: lists are appended (repeated items once), others replaced."""
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, list) and isinstance(out.get(k), list):
            l = list(out[k])
            for z in v:
                if z.startswith("-") or z not in l:
                    l.append(z)
            out[k] = l
        else:
            out[k] = v
    return out


CAMPAIGNS = [Campaign("projects", cases, check, quick=500)]
ASSUMPTIONS = ["no Xcode here: project files are read by a property list parser written for this check",
               "dependencies after gyp's own adjustment are those a custom output format receives from the same input"]


def setup():
    gyprun.load()
