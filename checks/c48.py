"""C48: msvs_settings through Ninja for Windows: the generated build files are evaluated on Linux and every command line
of cl, link, lib, rc, ml, midl and of actions and rules is split by Windows' rules and compared with tables."""
import json
import os
import posixpath
import re
import shlex
import subprocess
import xml.dom.minidom

from hypothesis import strategies as st

from vh import gyprun, ninjafile
from vh.core import Campaign, HarnessError, Violation, fresh_dir

ID = "C48"
LEVEL = "exploration"
RULE = "a case is non-trivial when its targets have at least six settings and both a compile and a link are compared"
VS = ["2010", "2012", "2013", "2013e", "2015", "2017", "2019", "2022"]

TF = ["true", "false"]


def onoff(flag):
    return {"true": flag, "false": flag + "-"}


CL = {
    "Optimization": {"0": "/Od", "1": "/O1", "2": "/O2", "3": "/Ox"},
    "InlineFunctionExpansion": {"0": "/Ob0", "1": "/Ob1", "2": "/Ob2"},
    "StringPooling": {"true": "/GF", "false": None},
    "EnableFiberSafeOptimizations": {"true": "/GT", "false": None},
    "OmitFramePointers": onoff("/Oy"),
    "EnableIntrinsicFunctions": onoff("/Oi"),
    "FavorSizeOrSpeed": {"0": None, "1": "/Ot", "2": "/Os"},
    "FloatingPointModel": {"0": "/fp:precise", "1": "/fp:strict", "2": "/fp:fast"},
    "CompileAsManaged": {"true": "/clr"},
    "WholeProgramOptimization": {"true": "/GL", "false": None},
    "WarningLevel": {"0": "/W0", "1": "/W1", "3": "/W3", "4": "/W4"},
    "WarnAsError": {"true": "/WX", "false": None},
    "CallingConvention": {"0": "/Gd", "1": "/Gr", "2": "/Gz", "3": "/Gv"},
    "DebugInformationFormat": {"0": None, "1": "/Z7", "3": "/Zi", "4": "/ZI"},
    "RuntimeTypeInfo": onoff("/GR"),
    "EnableFunctionLevelLinking": onoff("/Gy"),
    "MinimalRebuild": {"true": "/Gm", "false": None},
    "BufferSecurityCheck": onoff("/GS"),
    "BasicRuntimeChecks": {"0": None, "1": "/RTCs", "2": "/RTCu", "3": "/RTC1"},
    "RuntimeLibrary": {"0": "/MT", "1": "/MTd", "2": "/MD", "3": "/MDd"},
    "ExceptionHandling": {"0": None, "1": "/EHsc", "2": "/EHa"},
    "DefaultCharIsUnsigned": {"true": "/J", "false": None},
    "TreatWChar_tAsBuiltInType": onoff("/Zc:wchar_t"),
    "EnablePREfast": {"true": "/analyze", "false": None},
    "EnableEnhancedInstructionSet": {"1": "/arch:SSE", "2": "/arch:SSE2", "3": "/arch:AVX", "4": "/arch:IA32",
                                     "5": "/arch:AVX2"},
}
CL_DEFAULT = {"Optimization": "2", "FloatingPointModel": "0"}


def no(flag):
    return {"0": None, "1": flag + ":NO", "2": flag}


LINK = {
    "GenerateDebugInformation": {"true": "/DEBUG", "false": None},
    "TargetMachine": {"1": "/MACHINE:X86", "17": "/MACHINE:X64", "3": "/MACHINE:ARM", "18": "/MACHINE:ARM64"},
    "TreatLinkerWarningAsErrors": {"true": "/WX", "false": "/WX:NO"},
    "MapExports": {"true": "/MAPINFO:EXPORTS", "false": None},
    "TerminalServerAware": no("/TSAWARE"),
    "LinkIncremental": no("/INCREMENTAL"),
    "BaseAddress": {"0x400000": "/BASE:0x400000"},
    "FixedBaseAddress": no("/FIXED"),
    "RandomizedBaseAddress": no("/DYNAMICBASE"),
    "DataExecutionPrevention": no("/NXCOMPAT"),
    "OptimizeReferences": {"0": None, "1": "/OPT:NOREF", "2": "/OPT:REF"},
    "EnableCOMDATFolding": {"0": None, "1": "/OPT:NOICF", "2": "/OPT:ICF"},
    "LinkTimeCodeGeneration": {"0": None, "1": "/LTCG", "2": "/LTCG:PGINSTRUMENT", "3": "/LTCG:PGOPTIMIZE",
                               "4": "/LTCG:PGUPDATE"},
    "ResourceOnlyDLL": {"true": "/NOENTRY", "false": None},
    "EntryPointSymbol": {"Start": "/ENTRY:Start", "wWinMain": "/ENTRY:wWinMain"},
    "Profile": {"true": "/PROFILE", "false": None},
    "LargeAddressAware": no("/LARGEADDRESSAWARE"),
}
LIB = {"LinkTimeCodeGeneration": {"true": "/LTCG", "false": None},
       "TargetMachine": {"1": "/MACHINE:X86", "17": "/MACHINE:X64", "3": "/MACHINE:ARM"}}
LINK_LISTS = {"DelayLoadDLLs": ("/DELAYLOAD:", ["ole32.dll", "d2.dll"]),
              "ForceSymbolReferences": ("/INCLUDE:", ["sym1", "_s2"]),
              "IgnoreDefaultLibraryNames": ("/NODEFAULTLIB:", ["libcmt.lib", "msvcrt"]),
              "AdditionalDependencies": ("", ["user32.lib", "gdi32.lib"]),
              "AdditionalOptions": ("", ["/ignore:4199", "/opt:nowin98", "/time", "/subsystem:windows,5.02"])}
OUTFILES = ["$(OutDir)\\out_$(ProjectName).%s", "o_$(TargetName)_$(PlatformName).%s", "$(OutDir)\\$(PlatformName)$(TargetExt).%s",
            "<(PRODUCT_DIR)/n_$(TargetFileName).%s"]
DEFINES = ["A", "B=1", "C=\"q\"", "D=a b", "E=C:\\x\\", "F='z'", "G=\"a\\b\\\"", "H=\\\"", "I=", "J=x#y", "K=$1"]
INCS = ["inc", "../up", "d e", "in/c-$(ProjectName)", "$(PlatformName)/i", "<(SHARED_INTERMEDIATE_DIR)/g", "/abs/inc"]
ARGS = ["a b", "c'd", "e\"f", "g\\h", "i\\", "j\"\"k", "\\\"l", "", "<(PRODUCT_DIR)/m", "n=$(ProjectName)", "o/p", "&q", "r\\\\\\\"s"]
CYG = ["a b", "c'd", "e f'g", "h/i", "j=k", "&l", "m;n", "x\"y"]


def pick(draw, table, n):
    r = {}
    for k in draw(st.lists(st.sampled_from(sorted(table)), max_size=n)):
        r[k] = draw(st.sampled_from(sorted(table[k])))
    return r


def some(draw, xs, n=2):
    return draw(st.lists(st.sampled_from(xs), min_size=1, max_size=n, unique=True))


def rare(draw, n=3):
    return draw(st.integers(0, n)) == n // 2


@st.composite
def settings(draw, light):
    n = 2 if light else 7
    cl, ln, lb, rc, mf, cfg = pick(draw, CL, n), pick(draw, LINK, n), pick(draw, LIB, 2), {}, {}, {}
    if rare(draw):
        cl["DisableSpecificWarnings"] = some(draw, ["4018", "4244", "4800"], 3)
    if rare(draw):
        cl["AdditionalOptions"] = some(draw, ["/bigobj", "/MP", "/MP4", "/Zc:inline", "/std:c++17", "\"/DX=a b\""], 4)
    if rare(draw):
        cl["ForcedIncludeFiles"] = some(draw, ["f.h", "g/h.h"])
    if rare(draw):
        cl["PreprocessorDefinitions"] = some(draw, ["PD1", "PD2=\"2\"", "PD3=x y"])
    if rare(draw):
        cl["AdditionalIncludeDirectories"] = some(draw, ["ai1", "../ai2", "ai $(ProjectName)"])
    if rare(draw, 5):
        cl["ProgramDataBaseFileName"] = draw(st.sampled_from(OUTFILES[:2])) % "cpdb"
    for k, (_, vs) in LINK_LISTS.items():
        if rare(draw):
            ln[k] = some(draw, vs, 3)
    for sect in (ln, lb):
        if rare(draw):
            sect["AdditionalLibraryDirectories"] = some(draw, ["ald", "../a ld2", "l/$(PlatformName)"])
    if rare(draw):
        lb["AdditionalOptions"] = some(draw, ["/verbose", "/ignore:4221", "/wx"], 3)
    if rare(draw):
        ln["SubSystem"] = draw(st.sampled_from(["0", "1", "2"]))
        if draw(st.booleans()):
            ln["MinimumRequiredVersion"] = draw(st.sampled_from(["5.01", "6.0"]))
    if rare(draw):
        ln["StackReserveSize"] = "2097152"
        if draw(st.booleans()):
            ln["StackCommitSize"] = "4096"
    if rare(draw):
        ln["ImageHasSafeExceptionHandlers"] = draw(st.sampled_from(TF))
    if rare(draw):
        ln["GenerateManifest"] = draw(st.sampled_from(TF))
    if rare(draw):
        ln["EnableUAC"] = draw(st.sampled_from(TF))
    if rare(draw):
        ln["UACExecutionLevel"] = draw(st.sampled_from(["0", "1", "2"]))
    if rare(draw):
        ln["UACUIAccess"] = draw(st.sampled_from(TF))
    if rare(draw):
        ln["GenerateMapFile"] = draw(st.sampled_from(["true", "true", "false"]))
        if draw(st.booleans()):
            ln["MapFileName"] = draw(st.sampled_from(OUTFILES)) % "map"
    if rare(draw):
        ln["ProgramDatabaseFile"] = draw(st.sampled_from(OUTFILES)) % "pdb"
    if rare(draw):
        ln["ProfileGuidedDatabase"] = draw(st.sampled_from(OUTFILES)) % "pgd"
    if rare(draw):
        ln["UseLibraryDependencyInputs"] = draw(st.sampled_from(["true", "true", "false"]))
    if rare(draw):
        mf["EmbedManifest"] = draw(st.sampled_from(TF))
    if rare(draw):
        mf["AdditionalManifestFiles"] = some(draw, ["m1.manifest", "m/2.manifest"])
    if rare(draw):
        rc["Culture"] = draw(st.sampled_from(["1033", "1031", "2057"]))
    if rare(draw):
        rc["PreprocessorDefinitions"] = some(draw, ["R1", "R2=x"])
    if rare(draw):
        rc["AdditionalIncludeDirectories"] = some(draw, ["ri1", "../ri2"])
    s = {"VCCLCompilerTool": cl, "VCLinkerTool": ln, "VCLibrarianTool": lb, "VCResourceCompilerTool": rc, "VCManifestTool": mf}
    if rare(draw):
        s["MASM"] = {"UseSafeExceptionHandlers": draw(st.sampled_from(TF))}
    cfg["msvs_settings"] = {k: v for k, v in s.items() if v}
    if rare(draw):
        cfg["msvs_configuration_attributes"] = {"CharacterSet": draw(st.sampled_from(["0", "1", "2"]))}
    if rare(draw):
        cfg["msvs_disabled_warnings"] = some(draw, ["4100", "4127", "4996"], 3)
    if rare(draw):
        cfg["msvs_system_include_dirs"] = some(draw, ["sys1", "sys/$(ProjectName)"])
    if rare(draw):
        cfg["defines"] = some(draw, DEFINES, 4)
    if rare(draw):
        cfg["include_dirs"] = some(draw, INCS, 3)
    if rare(draw):
        cfg["library_dirs"] = some(draw, ["ld1", "../l d2", "ld/$(PlatformName)", "x/$(ProjectName)"])
    if rare(draw, 5):
        cfg["resource_include_dirs"] = some(draw, ["res1", "re s2"])
    return cfg


EXTS = ["c", "cc", "cpp", "cxx", "rc", "asm", "def", "obj", "idl", "txt", "in", "in2", "sub/n.c", "sub/m.cc"]


@st.composite
def cases(draw):
    ts = []
    n = draw(st.integers(1, 3))
    for i in range(n):
        ty = draw(st.sampled_from(["executable", "executable", "shared_library", "static_library", "loadable_module"]))
        t = {"name": "t%d" % i, "type": ty, "base": draw(settings(False)), "conf": {},
             "sources": draw(st.lists(st.sampled_from(EXTS), min_size=1, max_size=6, unique=True)),
             "deps": [d for d in range(i) if ts[d]["type"] in ("static_library", "shared_library") and draw(st.booleans())],
             "libs": draw(st.lists(st.sampled_from(["ws2_32.lib", "-lfoo", "bar", "-llua", "-lq.lib", "UP.LIB", "o.obj", "a.b"]), max_size=3,
                                   unique=True)),
             "acts": []}
        if not any(s in ("c", "cc") for s in t["sources"]):
            t["sources"].append(draw(st.sampled_from(["c", "cc"])))
        for c in ("Debug", "Release"):
            if draw(st.booleans()):
                t["conf"][c] = draw(settings(True))
        if rare(draw):
            t["tp"] = draw(st.sampled_from(["Win32", "x64"]))
        if rare(draw):
            t["product_name"] = "prod%d" % i
        if rare(draw, 5):
            t["product_prefix"] = "pre"
        if rare(draw, 5):
            t["product_extension"] = "xx"
        if rare(draw, 5):
            t["out"] = draw(st.sampled_from(OUTFILES)) % "bin"
        if rare(draw):
            t["noimp"] = draw(st.sampled_from(TF))
        if rare(draw):
            t["pch"] = draw(st.sampled_from(["c", "cc"]))
        if "idl" in t["sources"]:
            t["midl"] = {k: v for k, v in (("HeaderFileName", "$(InputName)_x.h"), ("DLLDataFileName", "dd.c"),
                                           ("InterfaceIdentifierFileName", "$(InputName)$(ProjectName)_i.c"),
                                           ("TypeLibraryName", "$(InputName).xlb"), ("ProxyFileName", "prx.c")) if rare(draw)}
            t["midl"]["OutputDirectory"] = draw(st.sampled_from(["m%d", "<(SHARED_INTERMEDIATE_DIR)/m%d"])) % i
        for k in range(draw(st.sampled_from([0, 0, 1, 2]))):
            cyg = draw(st.sampled_from([True, False, None]))
            t["acts"].append({"cyg": cyg, "args": draw(st.lists(st.sampled_from(CYG if cyg is not False else ARGS), max_size=4, unique=True)),
                              "src": draw(st.booleans())})
        if rare(draw):
            t["cyg"] = draw(st.booleans())
        if {"in", "in2"} & set(t["sources"]):
            t["rule"] = {"cyg": draw(st.sampled_from([True, False, None])), "src": draw(st.booleans())}
        ts.append(t)
    vs = draw(st.sampled_from(VS))
    return {"targets": ts, "vs": vs, "dir": draw(st.sampled_from(["", "", "sub", "a/b"])),
            "platform": draw(st.sampled_from(["", "Win32", "x64"])), "conf": draw(st.sampled_from(["Debug", "Release"])),
            "x64": draw(st.booleans())}


# ---- the model ----------------------------------------------------------------------------------------------------------

def old(case):
    return int(case["vs"][:4]) < 2015


def confs(case):
    return ["Debug", "Release", "Debug_x64", "Release_x64"] if old(case) else ["Debug", "Release"]


def build_conf(case):
    return case["conf"] + ("_x64" if old(case) and case["x64"] else "")


def platform(case, conf):
    if old(case):
        return "x64" if conf.endswith("_x64") else "Win32"
    return case["platform"]


def arch(case, t):
    return "x64" if (t.get("tp") or platform(case, build_conf(case))) == "x64" else "x86"


def merge(base, over):
    r = dict(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(r.get(k), dict):
            r[k] = merge(r[k], v)
        elif isinstance(v, list) and isinstance(r.get(k), list):
            # a configuration's own list comes after the target's; items already there are not repeated
            r[k] = r[k] + [x for x in v if x not in r[k]]
        else:
            r[k] = v
    return r


def tidy(case):
    for t in case["targets"]:
        for s in t["conf"].values():
            unique(t["base"], s)


def unique(a, b):
    for k, v in b.items():
        if isinstance(v, list) and isinstance(a.get(k), list):
            b[k] = [x for x in v if x not in a[k]]
        elif isinstance(v, dict) and isinstance(a.get(k), dict):
            unique(a[k], v)


def conf_settings(case, t, conf):
    """the x64 configurations of old Visual Studios carry one define of their own, to tell them apart"""
    c = conf.split("_")[0]
    s = merge(t["base"], t["conf"].get(c, {}))
    if conf.endswith("_x64"):
        s = merge(s, X64)
    return s


X64 = {"msvs_settings": {"VCCLCompilerTool": {"PreprocessorDefinitions": ["IN_X64"]},
                         "VCLinkerTool": {"AdditionalOptions": ["/in-x64"]}}}


def render(case):
    files, targets, d = {}, [], case["dir"]
    for i, t in enumerate(case["targets"]):
        spec = {"target_name": t["name"], "type": t["type"], "sources": [], "libraries": t["libs"],
                "dependencies": [case["targets"][x]["name"] for x in t["deps"]], "cflags": ["-no"], "ldflags": ["-no"],
                "configurations": {}}
        own = json.loads(json.dumps(t["base"]))
        if "out" in t:
            tool = "VCLibrarianTool" if t["type"] == "static_library" else "VCLinkerTool"
            own["msvs_settings"].setdefault(tool, {})["OutputFile"] = t["out"]
        if "midl" in t:
            own["msvs_settings"]["VCMIDLTool"] = t["midl"]
        if "noimp" in t:
            own["msvs_settings"]["NoImportLibrary"] = t["noimp"]
        spec.update(own)
        if t["type"] == "static_library":
            spec["link_settings"] = {"libraries": spec.pop("libraries")}
        for k in ("product_name", "product_prefix", "product_extension"):
            if k in t:
                spec[k] = t[k]
        if "tp" in t:
            spec["msvs_target_platform"] = t["tp"]
        for c in confs(case):
            s = json.loads(json.dumps(t["conf"].get(c.split("_")[0], {})))
            if c.endswith("_x64"):
                s = merge(s, X64)
            if platform(case, c):
                s["msvs_configuration_platform"] = platform(case, c)
            spec["configurations"][c] = s
        for e in t["sources"]:
            n = source(i, e)
            spec["sources"].append(n)
            files[posixpath.join(d, n)] = "int x;\n"
        if "pch" in t:
            spec["msvs_precompiled_header"] = "p/pch%d.h" % i
            spec["msvs_precompiled_source"] = "pch%d.%s" % (i, t["pch"])
            spec["sources"].append(spec["msvs_precompiled_source"])
            files[posixpath.join(d, spec["msvs_precompiled_source"])] = "int x;\n"
        spec["actions"] = [{"action_name": "act%d" % k, "inputs": ["in%d.txt" % i],
                            "outputs": ["<(INTERMEDIATE_DIR)/a%d_%d.c" % (i, k)], "process_outputs_as_sources": int(a["src"]),
                            "action": ["tool"] + a["args"]} for k, a in enumerate(t["acts"])]
        if "cyg" in t:
            spec["msvs_cygwin_shell"] = int(t["cyg"])
        if "rule" in t:
            spec["rules"] = [{"rule_name": "rule", "extension": "in",
                              "inputs": ["in%d.txt" % i], "process_outputs_as_sources": int(t["rule"]["src"]),
                              "outputs": ["<(SHARED_INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT)_r.cc", "gen/<(RULE_INPUT_NAME).h"],
                              "action": ["tool", "<(RULE_INPUT_PATH)", "-o", "<(RULE_INPUT_ROOT)_<(RULE_INPUT_EXT)", "x y"]}]
        for own, x in zip(t["acts"] + [t.get("rule")], spec["actions"] + spec.get("rules", [])):
            if own["cyg"] is not None:
                x["msvs_cygwin_shell"] = int(own["cyg"])
        files[posixpath.join(d, "in%d.txt" % i)] = ""
        targets.append(spec)
    g = {"targets": targets, "target_defaults": {"default_configuration": "Debug", "configurations": {c: {} for c in confs(case)}}}
    files[posixpath.join(d, "p.gyp")] = g
    return files


def source(i, e):
    if "/" in e:
        return e.replace(".", "%d." % i)
    base, ext = {"asm": ("c", "asm"), "in2": ("in2", "in")}.get(e, (e, e))
    return "s%d_%s.%s" % (i, base, ext)


def winargv(s):
    """the argument vector a Windows program gets (CommandLineToArgvW)"""
    r, cur, quoted, i, have = [], "", False, 0, False
    while i < len(s):
        c = s[i]
        if c == "\\":
            n = len(s[i:]) - len(s[i:].lstrip("\\"))
            i += n
            have = True
            if i < len(s) and s[i] == '"':
                cur += "\\" * (n // 2)
                if n % 2:
                    cur += '"'
                    i += 1
            else:
                cur += "\\" * n
            continue
        if c == '"':
            have = True
            if quoted and s[i + 1:i + 2] == '"':
                cur += '"'
                i += 1
            else:
                quoted = not quoted
        elif c in " \t\n" and not quoted:
            if have:
                r.append(cur)
            cur, have = "", False
        else:
            cur += c
            have = True
        i += 1
    if have:
        r.append(cur)
    return r


class Model:
    def __init__(self, case, root, i):
        self.case, self.t, self.i = case, case["targets"][i], i
        self.arch = arch(case, self.t)
        self.conf = build_conf(case)
        self.gypdir = os.path.normpath(os.path.join(root, case["dir"]))
        self.out = os.path.join(root, "out", self.conf)
        eff = self.conf
        if old(case):
            eff = case["conf"] + ("_x64" if self.arch == "x64" else "")
        self.plain = conf_settings(case, self.t, self.conf)     # include_dirs, defines and the like
        self.s = conf_settings(case, self.t, eff)               # msvs_*
        m = self.s.get("msvs_settings", {})
        self.cl, self.ln, self.lb, self.rc, self.mf, self.asm = [m.get(k, {}) for k in (
            "VCCLCompilerTool", "VCLinkerTool", "VCLibrarianTool", "VCResourceCompilerTool", "VCManifestTool", "MASM")]

    def macro(self, x):
        t = self.t
        name = t.get("product_prefix", "") + t.get("product_name", t["name"])
        ext = t.get("product_extension") or {"executable": "exe", "static_library": "lib"}.get(t["type"], "dll")
        for k, v in (("$(ProjectName)", t["name"]), ("$(PlatformName)", "Win32" if self.arch == "x86" else self.arch),
                     ("$(TargetName)", name), ("$(TargetFileName)", name + "." + ext), ("$(TargetExt)", "." + ext),
                     ("$(OutDir)\\", ""), ("<(PRODUCT_DIR)/", "")):
            x = x.replace(k, v)
        return x

    def path(self, x):
        x = self.macro(x.replace("<(SHARED_INTERMEDIATE_DIR)", posixpath.join(self.out, "gen")))
        return posixpath.normpath(posixpath.join(self.gypdir, x))

    def inout(self, x):
        return posixpath.normpath(posixpath.join(self.out, x))

    def product(self):
        t = self.t
        if "out" in t:
            return self.macro(t["out"])
        name = t.get("product_prefix", "") + t.get("product_name", t["name"]) + "." + (
            t.get("product_extension") or {"executable": "exe", "static_library": "lib"}.get(t["type"], "dll"))
        return name if t["type"] != "static_library" else posixpath.normpath(posixpath.join("obj", self.case["dir"], name))

    def implib(self):
        return self.t["type"] in ("shared_library", "loadable_module") and self.ln.get("ResourceOnlyDLL") != "true" and \
            self.t.get("noimp") != "true"

    def defines(self):
        d = list(self.plain.get("defines", []))
        d += {"1": ["_UNICODE", "UNICODE"], "2": ["_MBCS"]}.get(
            self.s.get("msvs_configuration_attributes", {}).get("CharacterSet"), [])
        return [x.replace("#", "\\043") for x in d + self.cl.get("PreprocessorDefinitions", [])]

    def includes(self):
        return [self.path(x) for x in self.plain.get("include_dirs", []) + self.s.get("msvs_system_include_dirs", []) +
                self.cl.get("AdditionalIncludeDirectories", [])]

    def cflags(self, cxx, pch):
        f = table(CL, dict(CL_DEFAULT, **self.cl))
        f += ["/wd" + w for w in self.s.get("msvs_disabled_warnings", []) + self.cl.get("DisableSpecificWarnings", [])]
        opts = [a for x in self.cl.get("AdditionalOptions", []) if not x.startswith("/MP") for a in winargv(x)]
        f += ["/FI" + x for x in self.cl.get("ForcedIncludeFiles", [])]
        if int(self.case["vs"][:4]) >= 2013:
            f.append("/FS")
        if cxx:
            f.append("/TP")
        if pch:
            h = "p/pch%d.h" % self.i
            f += ["/Yu" + h, "/FI" + h, "/Fp%s.pch%d.h.pch" % (self.t["name"], self.i)]
        return f, opts

    def pdb(self):
        """the link's pdb"""
        if self.ln.get("GenerateDebugInformation") != "true":
            return None
        if "ProgramDatabaseFile" in self.ln:
            return self.macro(self.ln["ProgramDatabaseFile"])
        return self.product() + ".pdb"

    def ldflags(self, manifest):
        ln = self.ln
        f = table(LINK, ln)
        opts = list(ln.get("AdditionalOptions", []))
        for k, (prefix, _) in LINK_LISTS.items():
            if k != "AdditionalOptions":
                f += [prefix + x for x in ln.get(k, [])]
        f += ["/LIBPATH:" + self.path(x) for x in ln.get("AdditionalLibraryDirectories", [])]
        f += ["/LIBPATH:" + self.path(x) for x in self.plain.get("library_dirs", [])]
        if "out" in self.t:
            f.append("/OUT:" + self.product())
        if self.pdb():
            f.append("/PDB:" + self.pdb())
        if "ProfileGuidedDatabase" in ln:
            f.append("/PGD:" + self.macro(ln["ProfileGuidedDatabase"]))
        if ln.get("GenerateMapFile") == "true":
            f.append("/MAP" + (":" + self.macro(ln["MapFileName"]) if "MapFileName" in ln else ""))
        v = "," + ln["MinimumRequiredVersion"] if "MinimumRequiredVersion" in ln else ""
        if ln.get("SubSystem") in ("1", "2"):
            f.append("/SUBSYSTEM:" + {"1": "CONSOLE", "2": "WINDOWS"}[ln["SubSystem"]] + v)
        if "StackReserveSize" in ln:
            f.append("/STACK:" + ln["StackReserveSize"] + ("," + ln["StackCommitSize"] if "StackCommitSize" in ln else ""))
        seh = ln.get("ImageHasSafeExceptionHandlers", "true" if self.arch == "x86" else None)
        if seh:
            f.append("/SAFESEH" if seh == "true" else "/SAFESEH:NO")
        if ln.get("RandomizedBaseAddress", "0") == "0" and ln.get("FixedBaseAddress") != "2":
            f.append("/DYNAMICBASE")
        if ln.get("DataExecutionPrevention", "0") == "0":
            f.append("/NXCOMPAT")
        deff = "def" in self.t["sources"]
        if deff:
            f.append("/DEF:" + self.path(source(self.i, "def")))
        if ln.get("GenerateManifest", "true") != "true":
            f.append("/MANIFEST:NO")
        else:
            f += ["/MANIFEST", "/ManifestFile:" + manifest, "/MANIFESTUAC:NO"]
            if self.t["type"] == "executable" and not deff:
                f.append("/ALLOWISOLATION")
        return f, opts

    def libs(self):
        r = []
        for x in self.t["libs"] if self.t["type"] != "static_library" else []:
            r.append(x)
        for d in closure(self.case, self.i):
            if self.case["targets"][d]["type"] == "static_library":
                r += self.case["targets"][d]["libs"]
        r = [x[2:] if x.startswith("-l") else x for x in r]
        return sorted({x if x.lower().endswith((".lib", ".obj")) else x + ".lib" for x in r})


def closure(case, i):
    r, todo = [], list(case["targets"][i]["deps"])
    while todo:
        d = todo.pop()
        if d in r:
            continue
        r.append(d)
        if case["targets"][d]["type"] == "static_library":
            todo += case["targets"][d]["deps"]
    return r


def table(tab, s):
    return [tab[k][v] for k, v in s.items() if k in tab and tab[k][v]]


# ---- the check ----------------------------------------------------------------------------------------------------------

class Checker:
    def __init__(self, case, root):
        self.case, self.root = case, root
        self.out = os.path.join(root, "out", build_conf(case))
        self.edges = [e for e in ninjafile.load(self.out) if e.rule != "phony"]
        self.cross_check()
        self.labels = set()

    def cross_check(self):
        """ninja itself reads the files and agrees on the command lines"""
        p = subprocess.run(["ninja", "-C", self.out, "-t", "compdb"], capture_output=True, text=True, timeout=60)
        if p.returncode:
            self.bad("ninja refuses the files: %s" % (p.stderr + p.stdout)[-600:])
        flat = lambda xs: sorted(" ".join(x.split()) for x in xs if x)
        got = flat(e.get("command") for e in self.edges if e.ins or e.implicit)
        want = flat(x["command"] for x in json.loads(p.stdout))
        if not set(want) <= set(got):
            raise HarnessError("ninjafile misreads: %r" % sorted(set(want) - set(got))[:2])

    def bad(self, what):
        raise Violation("%s\n%s" % (what, json.dumps(self.case)))

    def abs(self, p):
        return posixpath.normpath(posixpath.join(self.out, p))

    def multiset(self, what, got, want):
        if sorted(got) != sorted(want):
            extra, missing = list(got), []
            for u in want:
                if u in extra:
                    extra.remove(u)
                else:
                    missing.append(u)
            self.bad("%s: missing %r, unexpected %r" % (what, missing, extra))

    def one(self, what, pred):
        r = [e for e in self.edges if pred(e)]
        if len(r) != 1:
            self.bad("%s: %d build steps" % (what, len(r)))
        return r[0]

    def split(self, what, args, model, defines=True):
        """check and remove -D and -I"""
        d = [a[2:] for a in args if a.startswith("-D")]
        inc = [self.abs(a[2:]) for a in args if a.startswith("-I")]
        want = model.defines()
        if d != want:
            self.bad("%s: defines %r instead of %r" % (what, d, want))
        return inc, [a for a in args if a[:2] not in ("-D", "-I")]

    def flags(self, what, got, want):
        fixed, opts = want
        got = [self.norm(a) for a in got]
        self.multiset(what, got, fixed + opts)
        pos = [got.index(o) for o in opts]
        if pos != sorted(pos):
            self.bad("%s: AdditionalOptions out of order: %r" % (what, got))

    def norm(self, a):
        m = re.match(r"(/LIBPATH:|/DEF:)(.*)$", a)
        return m.group(1) + self.abs(m.group(2)) if m else a

    def target(self, i):
        case, t = self.case, self.case["targets"][i]
        m = Model(case, self.root, i)
        objs = []
        gen = []
        pre = "ninja -t msvc -e environment.%s -- cl.exe /nologo /showIncludes /FC " % m.arch
        for k, a in enumerate(t["acts"]):
            gen.append((self.action(m, k, a), a["src"]))
        if "rule" in t:
            gen += [(self.rule(m, source(i, e)), t["rule"]["src"]) for e in ("in", "in2") if e in t["sources"]]
        srcs = [(m.path(source(i, e)), source(i, e).rsplit(".", 1)[1]) for e in t["sources"]]
        if "pch" in t:
            srcs.append((m.path("pch%d.%s" % (i, t["pch"])), t["pch"]))
        srcs += [(g, g.rsplit(".", 1)[1]) for g, s in gen if s]
        pchobj, users = None, []
        pdbs = {}
        for src, ext in srcs:
            what = "%s of %s for %s" % (os.path.basename(src), t["name"], m.conf)
            mine = [e for e in self.edges if e.ins and self.abs(e.ins[0]) == src and e.rule in ("cc", "cxx", "rc", "asm", "idl")]
            kind = {"c": "cc", "cc": "cxx", "cpp": "cxx", "cxx": "cxx", "rc": "rc", "asm": "asm", "idl": "idl"}.get(ext)
            if ext == "obj":
                objs.append(src)
            if not kind:
                if mine:
                    self.bad("%s is compiled" % what)
                continue
            if len(mine) != 1:
                self.bad("%s: compiled %d times" % (what, len(mine)))
            e = mine[0]
            if e.rule != kind:
                self.bad("%s: compiled by %s" % (what, e.rule))
            self.labels.add(kind)
            if kind == "idl":
                self.idl(m, what, e, src)
                continue
            out = e.outs[0]
            objs.append(self.abs(out))
            if kind in ("cc", "cxx"):
                cmd = e.get("command")
                pdb = e.get("pdbname_" + ("c" if kind == "cc" else "cc"))
                if " ".join(cmd.split()) != pre + "@%s.rsp /c %s /Fo%s /Fd%s" % (out, e.ins[0], out, pdb):
                    self.bad("%s: the command is %r" % (what, cmd))
                if e.get("rspfile") != out + ".rsp" or e.get("deps") != "msvc":
                    self.bad("%s: response file %r, deps %r" % (what, e.get("rspfile"), e.get("deps")))
                pdbs.setdefault(kind, set()).add(pdb)
                args = winargv(e.get("rspfile_content"))
                inc, rest = self.split(what, args, m)
                if inc != m.includes():
                    self.bad("%s: include directories %r instead of %r" % (what, inc, m.includes()))
                pch = "pch" in t and t["pch"] == ("c" if kind == "cc" else "cc")
                if pch and src == m.path("pch%d.%s" % (i, t["pch"])):
                    yc = "/Ycp/pch%d.h" % i
                    if yc not in rest:
                        self.bad("%s: the precompiled header is not made" % what)
                    rest.remove(yc)
                    pchobj = self.abs(out)
                elif pch:
                    users.append((what, e))
                self.flags("compiling " + what, rest, m.cflags(kind == "cxx", pch))
            elif kind == "rc":
                a = self.tool(what, e, ["rc-wrapper", "environment." + m.arch, "rc.exe"])
                inc, rest = self.split(what, a, m)
                want = [m.path(x) for x in m.plain["resource_include_dirs"]] if "resource_include_dirs" in m.plain else m.includes()
                if inc != want:
                    self.bad("%s: include directories %r instead of %r" % (what, inc, want))
                got = ["/I" + self.abs(x[2:]) if x.startswith("/I") else x for x in rest]
                want = ["/I" + m.path(x) for x in m.rc.get("AdditionalIncludeDirectories", [])] + ["/I" + m.gypdir]
                want += ["/d" + x for x in m.rc.get("PreprocessorDefinitions", [])]
                if "Culture" in m.rc:
                    want.append("/l%x" % int(m.rc["Culture"]))
                self.multiset("compiling " + what, got, want + ["/fo" + out, e.ins[0]])
                if got[-1] != e.ins[0]:
                    self.bad("%s: the input is not the last argument: %r" % (what, got))
            else:
                a = self.tool(what, e, ["asm-wrapper", "environment." + m.arch, "ml64.exe" if m.arch == "x64" else "ml.exe"])
                inc, rest = self.split(what, a, m)
                want = ["/safeseh"] if m.asm.get("UseSafeExceptionHandlers") == "true" else []
                if rest != want + ["/c", "/Fo", out, e.ins[0]] or inc != m.includes():
                    self.bad("%s: %r" % (what, a))
        for what, e in users:
            if pchobj not in [self.abs(x) for x in e.implicit]:
                self.bad("%s does not wait for the precompiled header" % what)
        want = None
        if "ProgramDataBaseFileName" in m.cl:
            want = m.macro(m.cl["ProgramDataBaseFileName"])
        got = [x for v in pdbs.values() for x in v]
        if any(len(v) > 1 for v in pdbs.values()) or want and set(got) - {want} or not want and len(set(got)) < len(got):
            self.bad("%s: the compilers write %r%s" % (t["name"], pdbs, want and " instead of " + want))
        for p in got:
            if self.pdbs.setdefault(p, i) != i:
                if not want:
                    self.bad("%s: the compiler's database %s is another target's" % (t["name"], p))
        self.objs[i] = objs
        self.link(m, objs)

    def tool(self, what, e, head):
        a = winargv(e.get("command"))
        if a[1:2 + len(head)] != ["gyp-win-tool"] + head:
            self.bad("%s: %r" % (what, a))
        return a[2 + len(head):]

    def idl(self, m, what, e, src):
        root = os.path.splitext(os.path.basename(src))[0]
        names = [m.t["midl"].get(k, root + d if d[0] in "._" else d).replace("$(InputName)", root).replace(
            "$(ProjectName)", m.t["name"]) for k, d in (
                ("TypeLibraryName", ".tlb"), ("HeaderFileName", ".h"), ("DLLDataFileName", "dlldata.c"),
                ("InterfaceIdentifierFileName", "_i.c"), ("ProxyFileName", "_p.c"))]
        outdir = m.path(m.t["midl"]["OutputDirectory"])
        a = self.tool(what, e, ["midl-wrapper", "environment." + m.arch])
        want = [self.abs(x) for x in e.outs]
        if sorted(want) != sorted(posixpath.join(outdir, x) for x in names[1:]):
            self.bad("%s makes %r" % (what, want))
        if self.abs(a[0]) != outdir or a[1:6] != names or self.abs(a[6]) != src:
            self.bad("%s: %r" % (what, a))
        inc = [self.abs(x[2:]) for x in a[7:] if x.startswith("-I")]
        rest = [x for x in a[7:] if not x.startswith("-I")]
        if inc != [m.path(x) for x in m.s.get("msvs_system_include_dirs", [])]:
            self.bad("%s: include directories %r" % (what, inc))
        if rest != ["/char", "signed", "/env", "win32" if m.arch == "x86" else m.arch, "/Oicf"]:
            self.bad("%s: %r" % (what, rest))

    def argv(self, m, what, e, own):
        # an action's or rule's msvs_cygwin_shell comes before the target's, and both before the default
        cyg = own["cyg"] if own["cyg"] is not None else m.t.get("cyg", True)
        a = winargv(e.get("command"))
        rsp = e.get("rspfile")
        tail = [] if cyg else [a[-1]]
        if a[1:] != ["gyp-win-tool", "action-wrapper", "environment." + m.arch, rsp] + tail or \
                tail and self.abs(tail[0]) != m.gypdir:
            self.bad("%s: %r" % (what, a))
        if self.rsps.setdefault(rsp, e) is not e:
            self.bad("%s: the response file %s is another step's" % (what, rsp))
        c = e.get("rspfile_content")
        if not cyg:
            return winargv(c)
        x = re.match(r'call "(.*)\\setup_env\.bat" && set CYGWIN=nontsec && (bash -c .*)$', c, re.S)
        b = x and winargv(x.group(2))
        if not x or self.abs(x.group(1)) != m.gypdir or len(b) != 3:
            self.bad("%s: %r" % (what, c))
        try:
            w = shlex.split(b[2])
        except ValueError as err:
            self.bad("%s: bash refuses %r: %s" % (what, b[2], err))
        if len(w) < 3 or w[0] != "cd" or w[2] != ";" or self.abs(w[1]) != m.gypdir:
            self.bad("%s: %r" % (what, w))
        return w[3:]

    def action(self, m, k, a):
        what = "action %d of %s" % (k, m.t["name"])
        name = "a%d_%d.c" % (m.i, k)
        e = self.one(what, lambda e: any(os.path.basename(x) == name for x in e.outs) and e.rule not in ("cc", "cxx"))
        got = self.argv(m, what, e, a)
        want = ["tool"] + [x.replace("$(ProjectName)", m.t["name"]) for x in a["args"]]
        if "<(PRODUCT_DIR)/m" in want:
            want = [os.path.relpath(self.out, m.gypdir) + "/m" if x == "<(PRODUCT_DIR)/m" else x for x in want]
        if got != want:
            self.bad("%s runs %r instead of %r" % (what, got, want))
        if m.path("in%d.txt" % m.i) not in [self.abs(x) for x in e.ins]:
            self.bad("%s does not depend on its input: %r" % (what, e.ins))
        self.labels.add("action" + ("/cygwin" if e.get("rspfile_content").startswith("call") else ""))
        return self.abs(e.outs[0])

    def rule(self, m, src):
        what = "the rule of %s on %s" % (m.t["name"], src)
        e = self.one(what, lambda e: e.ins and self.abs(e.ins[0]) == m.path(src))
        got = self.argv(m, what, e, m.t["rule"])
        root = src[:-3]
        want = ["tool", src, "-o", root + "_.in", "x y"]
        if got != want:
            self.bad("%s runs %r instead of %r" % (what, got, want))
        outs = [self.abs(x) for x in e.outs]
        want = [posixpath.join(self.out, "gen", root + "_r.cc"), m.path("gen/" + src + ".h")]
        if outs != want or m.path("in%d.txt" % m.i) not in [self.abs(x) for x in e.implicit]:
            self.bad("%s makes %r from %r" % (what, outs, e.implicit))
        self.labels.add("rule")
        return outs[0]

    def link(self, m, objs):
        t = m.t
        what = "linking %s for %s" % (t["name"], m.conf)
        prod = m.product()
        e = self.one(what, lambda e: e.outs[0] == prod)
        ins = [self.abs(x) for x in e.ins]
        self.labels.add(t["type"])
        if t["type"] == "static_library":
            if winargv(e.get("command"))[1:] != ["gyp-win-tool", "link-wrapper", "environment." + m.arch, "False", "lib.exe",
                                                 "/nologo", "/ignore:4221", "/OUT:" + prod, "@%s.rsp" % prod]:
                self.bad("%s: %r" % (what, e.get("command")))
            got = winargv(e.get("rspfile_content"))
            self.multiset(what + ": members", ins, objs)
            f = table(LIB, m.lb) + ["/LIBPATH:" + m.path(x) for x in m.lb.get("AdditionalLibraryDirectories", [])]
            self.flags(what, [x for x in got if x not in e.ins], (f, m.lb.get("AdditionalOptions", [])))
            return
        x = re.match(r'\S+ gyp-win-tool link-with-manifests environment\.%s (True|False) (\S+) "\S+ gyp-win-tool link-wrapper '
                     r'environment\.%s False link\.exe /nologo (.*)" ([12]) mt\.exe rc\.exe "(\S*)" ?(.*)$' % (m.arch, m.arch),
                     " ".join(e.get("command").split()))
        if not x:
            self.bad("%s: %r" % (what, e.get("command")))
        embed, binary, args, res, inter, manifests = x.groups()
        if (embed == "True") != (m.mf.get("EmbedManifest", "true") == "true") or binary != prod:
            self.bad("%s: embedding the manifest: %s, into %s" % (what, embed, binary))
        if res != ("1" if t["type"] == "executable" else "2"):
            self.bad("%s: the manifest is resource %s" % (what, res))
        want = ["/OUT:" + prod, "@%s.rsp" % e.get("binary")]
        imp = prod + ".lib" if m.implib() else None
        if t["type"] != "executable":
            want += ["/DLL"] + (["/IMPLIB:" + imp] if imp else [])
        self.multiset(what, args.split(), want)
        if imp and imp not in e.outs or m.pdb() and (imp or t["type"] == "executable") and m.pdb() not in e.outs:
            self.bad("%s: the step's outputs are %r" % (what, e.outs))
        got = winargv(e.get("rspfile_content"))
        wi = list(objs)
        for d in closure(self.case, m.i):
            o = Model(self.case, self.root, d)
            if o.t["type"] == "static_library":
                if m.ln.get("UseLibraryDependencyInputs") == "true":
                    wi += self.objs[d]
                    self.labels.add("component objects")
                else:
                    wi.append(self.abs(o.product()))
            else:
                wi.append(self.abs(o.product() + (".lib" if o.implib() else "")))
        self.multiset(what + ": inputs", ins, wi)
        rest = list(got)
        for a in e.ins:
            if a not in rest:
                self.bad("%s: %s is not on the command line" % (what, a))
            rest.remove(a)
        for a in m.libs():
            if a not in rest:
                self.bad("%s: the library %s is not on the command line" % (what, a))
            rest.remove(a)
        self.flags(what, rest, m.ldflags(inter))
        self.manifest(m, what, inter, manifests.split(), e)
        if "def" in t["sources"] and m.path(source(m.i, "def")) not in [self.abs(x) for x in e.implicit]:
            self.bad("%s: not repeated when the .def file changes" % what)

    def manifest(self, m, what, inter, files, e):
        if m.ln.get("GenerateManifest", "true") != "true":
            if inter or files:
                self.bad("%s: manifests without GenerateManifest: %r" % (what, files))
            return
        add = [self.abs(x) for x in files[1:]]
        if add != [m.path(x) for x in m.mf.get("AdditionalManifestFiles", [])]:
            self.bad("%s: additional manifests %r" % (what, add))
        if not set(files) <= set(e.implicit):
            self.bad("%s: not repeated when a manifest changes" % what)
        if self.mans.setdefault(files[0], m.i) != m.i or self.mans.setdefault(inter, m.i) != m.i:
            self.bad("%s: the manifest %s is another target's" % (what, files[0]))
        with open(self.abs(files[0])) as f:
            doc = xml.dom.minidom.parseString(f.read())
        lv = [(x.getAttribute("level"), x.getAttribute("uiAccess")) for x in doc.getElementsByTagName("requestedExecutionLevel")]
        want = []
        if m.ln.get("EnableUAC", "true") == "true":
            want = [({"0": "asInvoker", "1": "highestAvailable", "2": "requireAdministrator"}[m.ln.get("UACExecutionLevel", "0")],
                     m.ln.get("UACUIAccess", "false"))]
        if lv != want or doc.documentElement.getAttribute("manifestVersion") != "1.0":
            self.bad("%s: the manifest asks for %r instead of %r" % (what, lv, want))
        self.labels.add("manifest")

    def run(self):
        self.objs, self.pdbs, self.rsps, self.mans = {}, {}, {}, {}
        outs = [self.abs(o) for e in self.edges for o in e.outs]
        if len(outs) != len(set(outs)):
            self.bad("two steps make %r" % [o for o in outs if outs.count(o) > 1][:2])
        for i in range(len(self.case["targets"])):
            self.target(i)


def evaluate(case):
    tidy(case)
    root = os.path.join(fresh_dir("win"), "src")
    os.makedirs(root)
    gyprun.write_tree(root, render(case))
    env = {"GYP_MSVS_VERSION": case["vs"], "GYP_MSVS_OVERRIDE_PATH": "C:\\VS", "DXSDK_DIR": "C:\\dx", "CFLAGS": None,
           "CXXFLAGS": None, "CPPFLAGS": None, "LDFLAGS": None, "CC": None, "CXX": None, "AR": None, "LD": None}
    r = gyprun.gyp_main(["-f", "ninja-win", "--depth=.", "--no-parallel", "-Gninja_use_custom_environment_files=1",
                         posixpath.join(case["dir"], "p.gyp")], root, env=env)
    if r.rc:
        raise Violation("a valid project was rejected: rc=%s %s\n%s" % (r.rc, r.err[-1500:], json.dumps(case)))
    c = Checker(case, root)
    c.run()
    n = sum(len(v) for t in case["targets"] for v in t["base"]["msvs_settings"].values() if isinstance(v, dict))
    return {"nontrivial": n >= 6 and bool({"cc", "cxx"} & c.labels), "labels": sorted(c.labels) + ["vs" + case["vs"][:4]]}


CAMPAIGNS = [Campaign("msvs", cases, evaluate, quick=600, shrink_seconds=60, shrink_evals=150)]
ASSUMPTIONS = ["nothing is compiled: the command lines of the generated Ninja files are the observed behaviour",
               "the environment files are supplied by the user (ninja_use_custom_environment_files)"]


def setup():
    gyprun.load()
