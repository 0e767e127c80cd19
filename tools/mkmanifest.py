"""Writes MANIFEST.json from the checks that exist.  Not run by any check."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAXPR = "symbolic execution of the jaxpr traced from the real code, equalities decided by z3"
INT = "symbolic execution of the real Python over z3 integers, all paths"
TAB = "z3 bit-vector claims over the live group tables with symbolic indices"
T = {
    "C01": TAB, "C03": TAB, "C04": TAB, "C02": JAXPR, "C05": JAXPR, "C06": JAXPR,
    "C36": TAB + "; " + JAXPR,
    "C33": "attribute accesses recorded from the real call, all interleavings of the threads decided by z3",
    "C14": INT, "C15": INT, "C18": INT + "; " + JAXPR, "C20": INT + "; " + JAXPR, "C31": INT + "; " + JAXPR,
}
NOTE = (
    "Within the stated bounds (see BOUNDS in checks/%s.py and the evidence file) the claim holds for every input value; "
    "a counterexample is replayed on the real, unpatched code before it is reported. Trusts: JAX tracing, the primitive "
    "semantics in lib/ (cross-validated against JAX), z3, exact real arithmetic instead of floats."
)
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(ROOT + "/checks/%s.py" % i):
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, JAXPR), "level": "other", "level_note": NOTE % i,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
