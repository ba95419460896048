"""Decide one property on /repo's current source:  python3 -m sa.check <ID>"""
from __future__ import annotations
import json, os, re, sys, time
sys.setrecursionlimit(60000)
from . import conform as cf

HERE = cf.HERE
REPO = os.environ.get("FEAX_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "specs"))


def props():
    from props import PROPS
    return {p["id"]: p for p in PROPS}


def in_scope(p, q):
    q = q[5:] if q.startswith("feax.") else q
    return any(re.fullmatch(r, q) for r in p["scope"])


def known():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"known": [], "fixed": []}


def say(x):
    print(x, flush=True)


def main(argv):
    pid = argv[0]
    p = props()[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    R = cf.run(REPO, deep=(lambda q: in_scope(p, q)) if tier == "thorough" else None)
    viol, und = cf.findings(R)
    V, U = [], []
    for r in viol:
        if touches(p, r):
            V.append({"rule": "conformance", "entry": r["q"], "status": r["status"], "note": r["note"],
                      "disagreements": r["diffs"],
                      "message": "%s no longer denotes its reference definition" % r["q"] if r["status"] != "missing"
                      else "%s is gone" % r["q"]})
    for r in und:
        if touches(p, r):
            U.append({"entry": r["q"], "status": r["status"], "note": r["note"]})
    extra = {}
    from . import rules
    if True:

        for name in [n for n in p["relations"] + p["rules"] if n in rules.RULES]:
            res = rules.RULES[name](cf.Ctx, p)
            extra[name] = {"obligations": res["obligations"], "decided": res["decided"], "samples": res.get("samples", [])[:5]}
            V += [dict(v, rule=name) for v in res["violations"]]
            U += res.get("undecided", [])
    K = known()
    out = []
    for v in V:
        hit = [k for k in K["known"] if k["property"] == pid and k["rule"] == v["rule"] and k["entry"] == v["entry"]
               and k.get("site", v.get("site")) == v.get("site")]
        if hit:
            say("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
        else:
            out.append(v)
    S = [r for q, r in R.items() if in_scope(p, q)]
    fns = {}
    for r in S:
        fns.update(dict(r["funcs"]))
    kinds = {}
    for r in S:
        kinds[r["kind"]] = kinds.get(r["kind"], 0) + 1
    cov = {
        "explanation": "Every entry in scope (function, method, constructor, class, constant) of the current tree is evaluated symbolically, "
                       "with all control paths merged, into one closed term of its parameters and compared with the reference term; "
                       "counts below are of this run.",
        "entries_in_scope": len(S), "entries_by_kind": kinds,
        "entries_proved_equal": sum(r["status"] == "same" for r in S),
        "functions_interpreted": len(fns), "statements_interpreted": sum(r["stmts"] for r in S),
        "term_nodes": sum(r["size"] for r in S),
        "summarised_callees": len({c for r in S for c in r["calls"]}),
        "obligations": len(S) + sum(e["obligations"] for e in extra.values()),
        "discharged": sum(r["status"] == "same" for r in S) + sum(e["decided"] for e in extra.values()),
        "rules": extra, "undecided": U[:40],
        "samples": [{"entry": r["q"], "status": r["status"], "statements": r["stmts"], "term_nodes": r["size"],
                     "summarised_callees": r["calls"][:4]} for r in sorted(S, key=lambda r: -r["size"])[:6]],
    }
    if tier == "thorough":
        D = [r for r in S if "deep" in r]
        cov["inlined_comparisons"] = len(D)
        cov["inlined_proved_equal"] = sum(r["deep"] == "same" for r in D)
        cov["inlined_term_nodes"] = sum(r["deep_size"] for r in D)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["specs/ref is the audited definition of the property's mechanisms",
                          "models of JAX/NumPy/SciPy primitives in sa/api.py", "real arithmetic (no rounding)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(out)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if out:
        rep = os.path.join(HERE, "evidence", pid + ".violations.json")
        json.dump(out, open(rep, "w"), indent=1)
        for v in out[:10]:
            d = (v.get("disagreements") or [{}])[0]
            say("%s: %s%s" % (v["rule"], v["message"], " at %s" % d["at"] if d.get("at") else ""))
            if d.get("found"):
                say("   reference: %s\n   found:     %s" % (d["reference"][:300], d["found"][:300]))
        say("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    say("%s: %d/%d obligations discharged, %d undecided, %.1f s" % (pid, cov["discharged"], cov["obligations"], len(U), ev["wall_s"]))
    return 0


def touches(p, r):
    return in_scope(p, r["q"])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
