"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", i + ".py")):
        checks.append(dict(property=i, quick_cmd=f"/opt/veriftools/pyvenv/bin/python -B run.py {i} --tier quick",
                           thorough_cmd=f"/opt/veriftools/pyvenv/bin/python -B run.py {i} --tier thorough",
                           technique="symbolic execution of the real Python source over exact reals; z3 decides every path and obligation; counterexamples replayed on the real package",
                           level="model_checking",
                           level_note=NOTES.get(i, "") + " Bounded: topologies, counts and sampling density are enumerated configurations, numbers are symbolic over stated boxes; exact real arithmetic, floating-point rounding outside the claim."))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, "no check yet")))
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python -B tools/selftest.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
