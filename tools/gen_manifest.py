"""MANIFEST.json from properties.jsonl and the registered obligations"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
obs = check.load_props(None)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {o.prop for o in obs}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(
            property=i,
            quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
            technique="bounded symbolic execution of the Python source of /repo with SMT deciding every branch and claim (z3 nlsat/QF_NRA, cvc5 fallback); counterexamples replayed on the installed package",
            level="model_checking",
            level_note="complete over all real values of the symbolic inputs within the stated sizes, iteration counts and histories; floats are modelled as reals, library calls by exact stand-ins or contracts (DESIGN.md)",
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no harness decides it yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
