import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import checklib

MODULES = {
    "C01": "ir_children", "C02": "ir_clone", "C03": "ir_match",
    "C04": "ir_base:transparency", "C05": "ir_base:identity", "C06": "ir_base:traversal", "C07": "passes", "C08": "folding", "C09": "sideeff",
    "C10": "cleanup", "C11": "canon", "C12": "cfgraph", "C13": "reaching", "C14": "ast_nodes:clone", "C15": "ast_nodes:visitors", "C16": "types_unify:unification",
    "C17": "types_algebra:algebra",
    "C18": "translate:translation",
    "C19": "ir_types",
    "C20": "codegen",
    "C21": "lowering",
}


def loader(mod):
    m, _, fn = mod.partition(":")
    return lambda: getattr(importlib.import_module(m), fn or "run")()


if __name__ == "__main__":
    sys.exit(checklib.main({k: loader(v) for k, v in MODULES.items()}))
