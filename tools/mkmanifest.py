#!/usr/bin/env python3
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ".")
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
try:
    from pydv import props
except ImportError: props = None
checks = []
for i in ids:
    pr = props is not None and props.has(i)
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
        technique=(props.TECHNIQUE.get(i, "contracts on the real Python source, verification conditions discharged by z3/cvc5; bounded run-time contracts for the rest") if pr else "run-time contracts on the real code over generated inputs (bounded stand-in)"),
        level=props.LEVEL.get(i, "proof") if pr else "exploration",
        level_note=(props.NOTE[i] if pr else "bounded: run-time contracts evaluated on generated inputs, configurations and seeds; nothing is proved beyond them")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[], notes="Each check regenerates its obligations from /repo's current source. See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
