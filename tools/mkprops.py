"""Write properties.jsonl, checks.json and MANIFEST.json from props_table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props_table as t
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def files(p):
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    return p["files"]

with open(f"{root}/properties.jsonl", "w") as o:
    for p in t.P:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files(p), "state": [], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": ["calls to the contracts, their results, and their ledger entries"], "hook_needed": None}}) + "\n")

json.dump({p["id"]: {k: p[k] for k in ("profiles", "rules", "viol")} for p in t.P}, open(f"{root}/checks.json", "w"), indent=1)

NOTE = ("Conformance of the real contracts, run natively in the soroban host, to an executable Quint specification over "
        "simulated behaviours: every call's outcome, result, required authorizations and the complete state afterwards are compared; "
        "{}Bounded: a sample of behaviours (random choices steered to limits), two lending pools, four assets, five accounts; "
        "the oracle and the liquidity pool are stand-ins.")
def note(p):
    v = p["viol"]
    return NOTE.format(f"the predicates {', '.join(v)} of spec/props.qnt are evaluated on the specification's own steps. " if v else
                       "the property is the specification's own guard, so conformance decides it. ")
json.dump({
    "version": 1, "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                "technique": "Quint specification: simulated behaviours replayed into the real contracts, state compared after every call",
                "level": "model_checking", "level_note": note(p)} for p in t.P],
    "not_applicable": [],
    "notes": "No hooks in /repo: the harness (harness/) drives the contracts' public entry points and reads their ledger entries. "
             "properties.jsonl, checks.json and this file are written by tools/mkprops.py from tools/props_table.py.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
