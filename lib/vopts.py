"""A gyp output format that writes down which options, definitions and files a generator was started with."""
import json
import os

generator_default_variables = {
    "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "", "STATIC_LIB_PREFIX": "lib", "SHARED_LIB_PREFIX": "lib", "STATIC_LIB_SUFFIX": ".a",
    "SHARED_LIB_SUFFIX": ".so", "INTERMEDIATE_DIR": "gen", "SHARED_INTERMEDIATE_DIR": "sgen", "PRODUCT_DIR": "out", "RULE_INPUT_ROOT": "r",
    "RULE_INPUT_DIRNAME": "d", "RULE_INPUT_PATH": "p", "RULE_INPUT_EXT": "e", "RULE_INPUT_NAME": "n", "CONFIGURATION_NAME": "cfg",
    "LIB_DIR": "l", "SHARED_LIB_DIR": "s"}


def CalculateVariables(default_variables, params):
    default_variables.setdefault("OS", "linux")


def GenerateOutput(target_list, target_dicts, data, params):
    import gyp
    o = params["options"]
    files = {}
    for k, v in data.items():
        if isinstance(k, str) and isinstance(v, dict) and v.get("targets"):
            t = v["targets"][0]["configurations"]["Default"]
            files[os.path.realpath(k)] = {"marks": v.get("marks"), "set": {n: t[n] for n in t if n.startswith("v_")}}
    real = lambda p: None if p is None else os.path.realpath(p)
    with open(os.environ["VOPTS_OUT"], "a") as f:
        f.write(json.dumps({
            "flavor": params.get("flavor", ""), "files": files, "flags": params["generator_flags"], "output": real(o.generator_output),
            "depth": real(o.depth), "toplevel": real(o.toplevel_dir), "suffix": o.suffix, "check": bool(o.check), "given": list(params["build_files"]),
            "again": gyp.RegenerateFlags(o), "cwd": params["cwd"]}) + "\n")
