"""setup_cmd: checks that what the monitors need is here. Everything is compiled from /repo at check time."""

import importlib
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf

for name in ("pynini", "importlib_resources"):
    importlib.import_module(name)
for module, _ in vf.PIPELINES.values():
    importlib.import_module(module)
for tool in ("gcc", "g++", "clang++"):
    if shutil.which(tool) is None:
        sys.exit("missing tool: " + tool)
os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
print("setup ok")
