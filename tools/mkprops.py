"""Write properties.jsonl and MANIFEST.json from specs/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "specs"))
from props import PROPS, NOT_APPLICABLE
sys.path.insert(0, HERE)
from sa.rules import RULES

TECH = ("value-flow normalisation of every function in scope (abstract interpretation to closed symbolic terms) "
        "compared with the audited reference definitions")
NOTE = ("Decides, for all inputs, that each function in scope denotes the same term (value, raised conditions, effects) as the "
        "reference definition audited against the property, modulo the algebra in sa/terms.py; {extra}"
        "functions the comparison cannot decide are listed in the evidence and not alarmed. Trusts the reference, the models of "
        "JAX/NumPy/SciPy operations in sa/api.py, and real arithmetic for re-association.")


def line(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NOT_APPLICABLE:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(line(p), ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        t = TECH
        ex = ""
        rel = [r for r in p["relations"] if r in RULES]
        rul = [r for r in p["rules"] if r in RULES]
        if rel:
            t += "; relational obligations between code paths (%s)" % ", ".join(rel)
            ex += "the relational obligations compare two paths of the current tree with each other; "
        if rul:
            t += "; structural rules (%s)" % ", ".join(rul)
        checks.append({"property": p["id"], "quick_cmd": "python3 -m sa.check %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 -m sa.check %s" % p["id"],
                       "technique": t, "level": "other", "level_note": NOTE.format(extra=ex)})
    man = {"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
           "notes": "No hooks in /repo. Fixed and known defects: known_findings.json."}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
