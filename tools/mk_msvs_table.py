"""Extract the table of Visual Studio settings (names, types, value domains) once, for review and for C20's oracle.

The result, lib/data/msvs_settings.json, is committed: the check compares the code's behaviour against the file, so it
is not regenerated when the check runs.  Entry: old tool -> setting -> [kind, new tool, new name, labels, new labels].
"""
import json
import sys

sys.path.insert(0, "/repo/gyp/pylib")
import gyp.MSVSSettings as M  # noqa: E402


def cells(f):
    return dict(zip(f.__code__.co_freevars, [c.cell_contents for c in f.__closure__ or ()]))


def kind(t):
    n = type(t).__name__
    if n == "_Integer":
        return ["int%d" % t._msbuild_base, None, None]
    if n == "_Enumeration":
        new = sorted(t._msbuild_values - {x for x in t._label_list if x is not None})
        return ["enum", t._label_list, new]
    return [{"_String": "str", "_StringList": "list", "_Boolean": "bool"}[n], None, None]


old, new = {}, {}
for tool, settings in M._msvs_to_msbuild_converters.items():
    for name, f in settings.items():
        c = cells(f)
        q = f.__qualname__.split(".")[0]
        nt = M._msbuild_name_of_tool[tool]
        if q == "_Renamed":
            e = ["same", nt, c["msbuild_name"]] + kind(c["setting_type"])
        elif q == "_MovedAndRenamed":
            e = ["same", c["msbuild_tool_name"], c["msbuild_settings_name"]] + kind(c["setting_type"])
        elif q == "_MSVSOnly":
            e = ["dropped", None, None] + kind(M._msvs_validators[tool][name].__self__)
        elif q == "_MSBuildOnly":
            e = ["new", nt, name] + kind(M._msbuild_validators[nt][name].__self__)
        elif q == "_ConvertedToAdditionalOption":
            e = ["flag", nt, c["flag"], "bool", None, None]
        else:
            e = ["preprocess", nt, None, "enum", ["0", "1", "2"], []]
        old.setdefault(tool, {})[name] = e
for tool, settings in M._msbuild_validators.items():
    for name, f in settings.items():
        new.setdefault(tool, {})[name] = kind(f.__self__)
with open("/verif/lib/data/msvs_settings.json", "w") as f:
    json.dump({"old": old, "new": new}, f, indent=0, sort_keys=True)
print(sum(map(len, old.values())), sum(map(len, new.values())))
