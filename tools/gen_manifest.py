"""writes MANIFEST.json from properties.jsonl and the specs present"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "specs", i.lower() + ".py")):
        n = NOTES.get(i, {})
        m_ = importlib.import_module("specs." + i.lower())
        if "note" not in n:
            n = dict(n, note=f"{getattr(m_, 'LEVEL', '')}. Parts with a stated bound and the run-time contracts are reported separately and not counted as proved. Assumes: "
                     + "; ".join(getattr(m_, "ASSUMPTIONS", [])) + ". Floats as reals; trusts pyvc, z3, cvc5 and the numpy semantics in pyvc/npmodel.py.")
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique=n.get("technique", "contract-based deductive verification (VCs generated from the source, discharged by normalisation/z3/cvc5)"),
                           level=n.get("level", "proof"), level_note=n.get("note", "All obligations of the contracts are discharged for all inputs; floats as reals.")))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup_check.py", checks=checks, not_applicable=na,
         notes="python3 check.py <ID> [quick|thorough]; see DESIGN.md")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
