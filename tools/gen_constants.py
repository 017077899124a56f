"""records the integer constants of the sources under contract (tools/constants.json)"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
os.chdir(H)
import check
out = {}
for f in sorted(os.listdir("specs")):
    if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"):
        out[f[:-3].upper()] = sorted(check.all_ints(importlib.import_module("specs." + f[:-3])))
json.dump(out, open("tools/constants.json", "w"))
