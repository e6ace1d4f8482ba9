"""A gyp output format that writes down what a generator receives (used with -f path/vdump.py)."""
import json
import os

_cfg = json.loads(os.environ.get("VDUMP_CFG", "{}"))

generator_default_variables = {
    "EXECUTABLE_PREFIX": "",
    "EXECUTABLE_SUFFIX": "",
    "STATIC_LIB_PREFIX": "lib",
    "SHARED_LIB_PREFIX": "lib",
    "STATIC_LIB_SUFFIX": ".a",
    "SHARED_LIB_SUFFIX": ".so",
    "INTERMEDIATE_DIR": "$(obj)/gen",
    "SHARED_INTERMEDIATE_DIR": "$(obj)/sgen",
    "PRODUCT_DIR": "$(builddir)",
    "RULE_INPUT_ROOT": "%(INPUT_ROOT)s",
    "RULE_INPUT_DIRNAME": "%(INPUT_DIRNAME)s",
    "RULE_INPUT_PATH": "$(abspath $<)",
    "RULE_INPUT_EXT": "$(suffix $<)",
    "RULE_INPUT_NAME": "$(notdir $<)",
    "CONFIGURATION_NAME": "$(BUILDTYPE)",
    "LIB_DIR": "$(libdir)",
    "SHARED_LIB_DIR": "$(slibdir)",
}
generator_default_variables.update(_cfg.get("variables", {}))

generator_additional_non_configuration_keys = _cfg.get("nonconf", [])
generator_additional_path_sections = _cfg.get("paths", [])
generator_extra_sources_for_rules = _cfg.get("extra_sources", [])
generator_supports_multiple_toolsets = _cfg.get("toolsets", False)
generator_wants_static_library_dependencies_adjusted = _cfg.get("adjust", True)
generator_wants_sorted_dependencies = _cfg.get("sorted", False)
generator_filelist_paths = _cfg.get("filelist", None)


def CalculateVariables(default_variables, params):
    default_variables.setdefault("OS", "linux")


def GenerateOutput(target_list, target_dicts, data, params):
    with open(os.environ["VDUMP_OUT"], "w") as f:
        json.dump({"list": list(target_list), "dicts": target_dicts,
                   "order": list(target_dicts),
                   "data": {k: v for k, v in data.items()
                            if isinstance(k, str) and isinstance(v, dict)}},
                  f, default=lambda o: {"__class__": type(o).__name__})
