"""macOS builds on Linux: stand-ins for Apple's tools, and a model of what xcode_settings mean on a command line.

The tables below are written from Xcode's build setting reference and gyp's documentation, not from xcode_emulation.py.
"""
import json
import os
import posixpath
import shlex
import subprocess

from . import stubs
from .core import HarnessError, VERIF, Violation

TOOLS = ("mcc", "mcxx", "libtool", "dsymutil", "strip", "lipo", "mact", "xcodebuild", "xcrun", "sw_vers", "otool", "nm")
_dir = None
XCODES = [("4.6.3", "4H1503"), ("5.0.2", "5A3005"), ("5.1.1", "5B1008"), ("7.2", "7C68"), ("12.4", "12D4e")]
CONFS = ("Debug", "Release")


def setup():
    global _dir
    base = os.path.join(os.environ["VH_SCRATCH"], "mactools")
    os.makedirs(base, exist_ok=True)
    exe = os.path.join(base, "mtool")
    r = subprocess.run(["gcc", "-O1", "-w", "-o", exe, os.path.join(VERIF, "lib", "stubs", "mtool.c")],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("cannot build mtool: " + r.stderr)
    for t in TOOLS:
        p = os.path.join(base, t)
        if not os.path.lexists(p):
            os.symlink("mtool", p)
    _dir = base


def env(case):
    v, b = XCODES[case["xcode"]]
    return {"PATH": _dir + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C.UTF-8", "CC": "mcc", "CXX": "mcxx",
            "MXV": v, "MXB": b, "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/nonexistent",
            "TMPDIR": os.environ.get("VH_SCRATCH", "/tmp")}


def build(root, fmt, conf, case, *targets, jobs=1):
    log = os.path.join(root, "..", "vlog")
    if fmt == "make-mac":
        a = ["make", "-j%d" % jobs, "BUILDTYPE=" + conf] + list(targets)
    else:
        a = ["ninja", "-C", "out/" + conf, "-j%d" % jobs] + list(targets)
    return stubs.run(a, root, log, environ=dict(env(case), VLOG=log))


# ---- flags as units

TAKES = {"-isysroot": 1, "-arch": 1, "-include": 1, "-x": 1, "-framework": 1, "-install_name": 1,
         "-compatibility_version": 1, "-current_version": 1, "-o": 1, "-MF": 1, "-exported_symbols_list": 1,
         "-unexported_symbols_list": 1, "-reexported_symbols_list": 1, "-sectcreate": 3, "-weak_framework": 1}


def units(args):
    r, i = [], 0
    while i < len(args):
        k = TAKES.get(args[i], 0)
        r.append(tuple(args[i:i + 1 + k]))
        i += 1 + k
    return r


def shell(flags):
    """what a shell makes of flags that are written unquoted"""
    return units([w for f in flags for w in shlex.split(f)])


SYM = ("-exported_symbols_list", "-unexported_symbols_list", "-reexported_symbols_list")


def absolute(u, base):
    """paths in a unit made absolute"""
    def a(p):
        return posixpath.normpath(posixpath.join(base, p))
    h = u[0]
    if h in SYM or h == "-include":
        return (h, a(u[1]))
    if h == "-sectcreate":
        return u[:3] + (a(u[3]),)
    if h[:2] in ("-I", "-L") and len(u) == 1:
        return (h[:2] + a(h[2:]),)
    for s in SYM:
        if h.startswith("-Wl," + s + ","):
            return ("-Wl,%s,%s" % (s, a(h.split(",", 2)[2])),)
    return u


# ---- settings

def settings(case, t, conf):
    """target settings, then those of the configuration, over the file's own"""
    s = {k: list(v) if isinstance(v, list) else v for k, v in t["xs"].items()}
    for k, v in t["conf"].get(conf, {}).items():
        s[k] = s.get(k, []) + v if isinstance(v, list) else v
    g = dict(case.get("xs") or {})
    g.update(s)
    return g


def sdk_path(s):
    r = s.get("SDKROOT", "")
    return r if r.startswith("/") else "/sdks/%s.sdk" % (r or "macosx11.1")


def version(case):
    return tuple(int(x) for x in (XCODES[case["xcode"]][0] + ".0").split(".")[:2])


def archs(case, s):
    std = ["x86_64"] if version(case) >= (5, 0) else ["i386"]
    res = []
    for a in s.get("ARCHS") or ["$(ARCHS_STANDARD)"]:
        for b in std if a == "$(ARCHS_STANDARD)" else [a]:
            if b not in res:
                res.append(b)
    if s.get("VALID_ARCHS"):
        res = [a for a in res if a in s["VALID_ARCHS"]]
    return res


# setting -> (value that counts, flag, default)
BOOL_ALL = {
    "CLANG_WARN_CONSTANT_CONVERSION": ("YES", "-Wconstant-conversion", "NO"),
    "GCC_CHAR_IS_UNSIGNED_CHAR": ("YES", "-funsigned-char", "NO"),
    "GCC_CW_ASM_SYNTAX": ("YES", "-fasm-blocks", "YES"),
    "GCC_DYNAMIC_NO_PIC": ("YES", "-mdynamic-no-pic", "NO"),
    "GCC_ENABLE_PASCAL_STRINGS": ("YES", "-mpascal-strings", "YES"),
    "GCC_GENERATE_DEBUGGING_SYMBOLS": ("YES", "-gdwarf-2", "YES"),
    "GCC_SYMBOLS_PRIVATE_EXTERN": ("YES", "-fvisibility=hidden", "NO"),
    "GCC_TREAT_WARNINGS_AS_ERRORS": ("YES", "-Werror", "NO"),
    "GCC_WARN_ABOUT_MISSING_NEWLINE": ("YES", "-Wnewline-eof", "NO"),
    "LLVM_LTO": ("YES", "-flto", "NO"),
}
BOOL_X86 = {
    "GCC_ENABLE_SSE3_EXTENSIONS": ("YES", "-msse3", "NO"),
    "GCC_ENABLE_SUPPLEMENTAL_SSE3_INSTRUCTIONS": ("YES", "-mssse3", "NO"),
    "GCC_ENABLE_SSE41_EXTENSIONS": ("YES", "-msse4.1", "NO"),
    "GCC_ENABLE_SSE42_EXTENSIONS": ("YES", "-msse4.2", "NO"),
}
BOOL_CXX = {
    "GCC_ENABLE_CPP_RTTI": ("NO", "-fno-rtti", "YES"),
    "GCC_ENABLE_CPP_EXCEPTIONS": ("NO", "-fno-exceptions", "YES"),
    "GCC_INLINES_ARE_PRIVATE_EXTERN": ("YES", "-fvisibility-inlines-hidden", "NO"),
    "GCC_THREADSAFE_STATICS": ("NO", "-fno-threadsafe-statics", "YES"),
    "GCC_WARN_ABOUT_INVALID_OFFSETOF_MACRO": ("NO", "-Wno-invalid-offsetof", "YES"),
}
BOOL_OBJC = {
    "CLANG_ENABLE_OBJC_ARC": ("YES", "-fobjc-arc", "NO"),
    "CLANG_WARN_OBJC_MISSING_PROPERTY_SYNTHESIS": ("YES", "-Wobjc-missing-property-synthesis", "NO"),
}
BOOL_LD = {"DEAD_CODE_STRIPPING": ("YES", "-Wl,-dead_strip", "NO"), "PREBINDING": ("YES", "-Wl,-prebind", "NO")}
CHOICE = {
    "GCC_OPTIMIZATION_LEVEL": ["0", "1", "2", "3", "s"],
    "GCC_STRICT_ALIASING": ["YES", "NO"],
    "MACOSX_DEPLOYMENT_TARGET": ["10.6", "10.7", "10.13"],
    "DEBUG_INFORMATION_FORMAT": ["dwarf", "dwarf-with-dsym"],
    "GCC_C_LANGUAGE_STANDARD": ["ansi", "c99", "gnu11"],
    "CLANG_CXX_LANGUAGE_STANDARD": ["c++0x", "gnu++14", "c++17"],
    "CLANG_CXX_LIBRARY": ["libc++", "libstdc++"],
    "GCC_ENABLE_OBJC_GC": ["supported", "required", "unsupported"],
    "GCC_OBJC_CALL_CXX_CDTORS": ["YES", "NO"],
    "DYLIB_COMPATIBILITY_VERSION": ["1.2.3", "7"],
    "DYLIB_CURRENT_VERSION": ["4.5", "1.0"],
    "DEPLOYMENT_POSTPROCESSING": ["YES", "YES", "NO"],
    "STRIP_INSTALLED_PRODUCT": ["YES", "YES", "NO"],
    "STRIP_STYLE": ["all", "non-global", "debugging"],
    "STRIPFLAGS": ["-s exports.txt", "-u -r"],
}


def table(s, t):
    return [(f,) for k, (v, f, d) in t.items() if s.get(k, d) == v]


def c_family(case, s, ext, fdirs):
    """(general flags, warning flags, language flags, the user's, frameworks and Objective-C) for the extension"""
    a = archs(case, s)
    r = table(s, BOOL_ALL)
    if s.get("SDKROOT"):
        r.append(("-isysroot", sdk_path(s)))
    r.append(("-O" + s.get("GCC_OPTIMIZATION_LEVEL", "s"),))
    if "GCC_STRICT_ALIASING" in s:
        r.append(("-fstrict-aliasing" if s["GCC_STRICT_ALIASING"] == "YES" else "-fno-strict-aliasing",))
    if "MACOSX_DEPLOYMENT_TARGET" in s:
        r.append(("-mmacosx-version-min=" + s["MACOSX_DEPLOYMENT_TARGET"],))
    r.append(("-arch", a[0]))
    if a[0] in ("i386", "x86_64"):
        r += table(s, BOOL_X86)
    warn = shell(s.get("WARNING_CFLAGS", []))
    frame = [("-F" + d.replace("$(SDKROOT)", sdk_path(s)),) for d in fdirs]
    lang, user = [], []
    other = s.get("OTHER_CFLAGS", [])
    if ext in ("c", "m"):
        if "GCC_C_LANGUAGE_STANDARD" in s:
            v = s["GCC_C_LANGUAGE_STANDARD"]
            lang.append(("-ansi" if v == "ansi" else "-std=" + v,))
        user += shell(other)
    else:
        if "CLANG_CXX_LANGUAGE_STANDARD" in s:
            lang.append(("-std=" + s["CLANG_CXX_LANGUAGE_STANDARD"],))
        if "CLANG_CXX_LIBRARY" in s:
            lang.append(("-stdlib=" + s["CLANG_CXX_LIBRARY"],))
        lang += table(s, BOOL_CXX)
        for f in s.get("OTHER_CPLUSPLUSFLAGS", ["$(inherited)"]):
            bare = f.strip("${}()")
            user += shell(other) if f[0] == "$" and bare in ("inherited", "OTHER_CFLAGS") else shell([f])
    if ext in ("m", "mm"):
        g = s.get("GCC_ENABLE_OBJC_GC", "unsupported")
        if g != "unsupported":
            frame.append(("-fobjc-gc" if g == "supported" else "-fobjc-gc-only",))
        frame += table(s, BOOL_OBJC)
        if ext == "mm" and s.get("GCC_OBJC_CALL_CXX_CDTORS") == "YES":
            frame.append(("-fobjc-call-cxx-cdtors",))
    return r, warn, lang, user, frame


def product(t):
    """file name of a target's product outside bundles"""
    base = t["name"]
    if t["type"] != "executable" and base.startswith("lib"):
        base = base[3:]
    pre = {"static_library": "lib", "shared_library": "lib"}.get(t["type"], "")
    suf = {"static_library": ".a", "shared_library": ".dylib", "loadable_module": ".so"}.get(t["type"], "")
    if "product_extension" in t:
        suf = "." + t["product_extension"]
    return pre + t.get("product_name", base) + suf


def install_name(s, t):
    if t["type"] not in ("shared_library", "loadable_module"):
        return None
    if "LD_DYLIB_INSTALL_NAME" in s:
        return s["LD_DYLIB_INSTALL_NAME"]
    b = s.get("DYLIB_INSTALL_NAME_BASE", "/usr/local/lib")
    if b.startswith("@"):
        head, _, rest = b.partition("/")
        b = head + "/" + posixpath.normpath(rest) if rest else b
    else:
        b = posixpath.normpath(b)
    return b + "/" + product(t)


def link(case, s, t, gypdir, proddir, fdirs, libdirs):
    """(table flags, user flags) of a link; paths absolute"""
    r = table(s, BOOL_LD)
    for k, f in (("DYLIB_COMPATIBILITY_VERSION", "-compatibility_version"), ("DYLIB_CURRENT_VERSION", "-current_version")):
        if k in s:
            r.append((f, s[k]))
    if "MACOSX_DEPLOYMENT_TARGET" in s:
        r.append(("-mmacosx-version-min=" + s["MACOSX_DEPLOYMENT_TARGET"],))
    if s.get("SDKROOT"):
        r.append(("-isysroot", sdk_path(s)))
    r += [absolute(("-L" + p,), gypdir) for p in s.get("LIBRARY_SEARCH_PATHS", [])]
    if "ORDER_FILE" in s:
        r += [("-Wl,-order_file",), ("-Wl," + posixpath.normpath(posixpath.join(gypdir, s["ORDER_FILE"])),)]
    r.append(("-arch", archs(case, s)[0]))
    r.append(("-L" + proddir,))
    if t["type"] == "shared_library":
        r.append(("-shared",))
        r.append(("-install_name", install_name(s, t)))
    elif t["type"] == "loadable_module":
        r.append(("-bundle",))
    r += [("-Wl,-rpath," + p,) for p in s.get("LD_RUNPATH_SEARCH_PATHS", [])]
    r += [("-F" + d.replace("$(SDKROOT)", sdk_path(s)),) for d in fdirs]
    if "CLANG_CXX_LIBRARY" in s:
        r.append(("-stdlib=" + s["CLANG_CXX_LIBRARY"],))
    r += [("-L" + d,) for d in libdirs]
    return r, [absolute(u, gypdir) for u in shell(s.get("OTHER_LDFLAGS", []))]


def libraries(s, libs):
    r = []
    for x in dict.fromkeys(libs):
        b = posixpath.basename(x)
        if x.endswith(".framework"):
            r.append(("-framework", b[:-10]))
        elif "/" not in x and x.startswith("lib") and b.endswith((".a", ".dylib")):
            r.append(("-l" + b[3:].rsplit(".", 1)[0],))
        else:
            r.append((x.replace("$(SDKROOT)", sdk_path(s)),))
    return r


def compare(what, got, groups, j):
    """got holds the flags of all the groups and no other; groups: [(flags, name of a group that comes before)]"""
    want = [u for g in groups for u in g[0]]
    if sorted(got) != sorted(want):
        extra, missing = list(got), []
        for u in want:
            if u in extra:
                extra.remove(u)
            else:
                missing.append(u)
        raise Violation("%s: missing %r, unexpected %r\n%s" % (what, missing, extra, json.dumps(j)))
    for flags, before in groups:
        if before is None or not flags:
            continue
        pos = -1
        for u in flags:     # the user's flags keep their order
            k = [i for i, x in enumerate(got) if x == u and i > pos]
            if not k:
                raise Violation("%s: the flags %r are not in the order given: %r\n%s" % (what, flags, got, json.dumps(j)))
            pos = k[0]
        late = [u for u in before if got.index(u) > len(got) - 1 - got[::-1].index(flags[0])]
        if late:            # so that they win
            raise Violation("%s: %r is not followed by the user's %r\n%s" % (what, late, flags, json.dumps(j)))
