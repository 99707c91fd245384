#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
sys.dont_write_bytecode = True
import props, run as runner
P = sorted(props.P, key=lambda d: d["id"])
NA = getattr(props, "NA", {})
for d in P:
    assert len(d["title"]) <= 80, d["id"] + " title %d" % len(d["title"])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
checks = []
for d in P:
    if d["id"] in NA:
        continue
    m = importlib.import_module("harness." + runner.harness_for(d["id"]))
    checks.append(dict(property=d["id"], quick_cmd="python3-vt run.py %s --tier quick" % d["id"],
                       thorough_cmd="python3-vt run.py %s --tier thorough" % d["id"],
                       technique="symbolic execution of the real source (numpy/scipy modelled) with z3 deciding every branch and "
                                 "obligation; counterexamples replayed on the real package",
                       level="model_checking", level_note="bounds: " + m.BOUNDS))
man = dict(version=1, setup_cmd="python3-vt tools/selfcheck.py", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")
