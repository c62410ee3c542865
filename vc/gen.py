"""writes properties.jsonl and MANIFEST.json from props/spec.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    from props import spec
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for pid, p in list(spec.PROPS.items()) + list(getattr(spec, "NOT_APPLICABLE", {}).items()):
            d = {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": [p["observe"]] , "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    checks = []
    for pid, p in spec.PROPS.items():
        note = p["note"] or ("Every obligation generated from the current source of the functions under contract is discharged by z3/cvc5 for all inputs and iterations; " 
                             "trusted: the VC generator in vc/, its models of numpy primitives (listed in the evidence), integers and floats as mathematical numbers.")
        if p["bounded"]:
            note += " Bounded (not proved) parts: " + "; ".join(p.get("bounded_note", [])) if p.get("bounded_note") else " Some functions are covered by bounded stand-ins, labelled in the evidence."
        checks.append({"property": pid, "quick_cmd": f"python3-vt -m vc.check {pid} --tier quick", "thorough_cmd": f"python3-vt -m vc.check {pid} --tier thorough",
                       "technique": "contract-based deductive verification (weakest-precondition style VC generation over the real Python source, z3/cvc5)", "level": p["level"], "level_note": note})
    m = {"version": 1, "setup_cmd": "python3-vt -m vc.setup", "checks": checks,
         "not_applicable": [{"property": k, "reason": v["reason"]} for k, v in getattr(spec, "NOT_APPLICABLE", {}).items()],
         "notes": "See DESIGN.md. Contracts in props/k_*.py, engine in vc/, known findings in known_findings.json."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
