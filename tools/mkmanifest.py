"""write MANIFEST.json from the contracts present"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
    "C22": "numerical stability, convergence and conservation of long floating-point integrations are whole-history "
           "statements about rounding and discretisation error; no per-function contract within reach expresses them",
}
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(H, "contracts", i.lower() + ".py")) and os.path.exists(os.path.join(H, "replay", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "technique": "contract-based deductive verification of the real source (symbolic VC generation with loop and "
                         "callee contracts, discharged by normal forms, z3 and cvc5)",
            "level": "proof",
            "level_note": NOTE.get(i, "Every obligation is generated from /repo's current source for all grid sizes and "
                          "field values and must be discharged. Assumes real arithmetic for floating point and the stated "
                          "contracts of numpy/scipy/spharm/xarray/matplotlib/falwa/pywt, which a short concrete run of the "
                          "same contracts validates; functions outside the verified subset after a change fall back to that "
                          "bounded check and are reported as such."),
        })
    else:
        na.append({"property": i, "reason": "contracts for this property are not finished yet"})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, sys; sys.path.insert(0, '.'); import vfy.unit\"",
     "checks": checks, "not_applicable": na,
     "notes": "Verifier in vfy/, contracts in contracts/, concrete replay checks in replay/, see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
