"""writes MANIFEST.json from properties.jsonl"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
TECH = "symbolic execution of the real Python code on symbolic tensors; z3 decides the assertions (solver-based checking)"
NOTE = (
    "holds for all real values of inputs, weights, vectors and matrices at the listed sizes, layer settings and call sequences; "
    "floating-point rounding is not encoded; torch operators are encoded by their mathematical definition"
)
NOTES = {
    "C20": "precision loss is encoded as an uninterpreted rounding function at every narrowing conversion, for all values at the listed sizes",
    "C21": "real arithmetic extended with infinities and NaN at the float32 overflow and underflow thresholds; inputs up to 1e4 in magnitude, one to three entries; rounding of ordinary results is not encoded",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        continue
    cmd = "/opt/venv/bin/python -W ignore /verif/check.py --property %s --tier %s"
    checks.append(
        {
            "property": p,
            "quick_cmd": cmd % (p, "quick"),
            "thorough_cmd": cmd % (p, "thorough"),
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTES.get(p, NOTE),
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -W ignore -c \"import sys; sys.path.insert(0, '/verif'); from symtorch import runner; print('z3 and torch found')\"",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "Solver-based checking only. See DESIGN.md; known and fixed defects are in KNOWN_FINDINGS.txt.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
