"""Writes /verif/MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plan import PLAN

NOTE = ("TLC explores the bounded models in spec/ exhaustively and the implementation is run against every one of "
        "their transitions (spec to code); randomized, adversarial and fault-injected executions of the implementation "
        "are recorded in full and validated by TLC against the specification (code to spec). Exhaustive within the "
        "bounds of the models, sampling beyond them. Trusts TLC, the JSON module, and that the harness records what "
        "the public API returns.")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
manifest = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --offline --quiet",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p} --tier quick",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "technique": PLAN[p].get("technique",
                                 "TLA+ specification: TLC model checking, model-generated tests replayed into the code, and trace validation"),
        "level": "model_checking",
        "level_note": PLAN[p].get("note", NOTE),
    } for p in props if p in PLAN],
    "not_applicable": [{"property": p, "reason": "its check isn't built yet"} for p in props if p not in PLAN],
    "notes": "See DESIGN.md. No hooks: everything is observed through the public API.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
