#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and cases.py (run by hand after editing either)."""
import json, os
import cases
V = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, quant, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, note=note))
NA = []
exec(open(os.path.join(V, "props_table.py")).read())
TECH = ("symbolic execution of the repository's LLVM bitcode from its public API (own executor over clang 18 -O1 bitcode regenerated from /repo on every run); "
        "every assertion is decided by SMT (Z3, cvc5 fallback) for all values of the symbolic inputs within the bounds, every counterexample replayed on a native AddressSanitizer build")
TECH_PY = ("symbolic execution of the repository's Python sources (own executor over the syntax tree regenerated from /repo on every run: strings of symbolic characters, path forking); "
           "every branch and assertion is decided by Z3 for all values within the bounds, rule equivalence for all criterion states; every counterexample replayed on the unchanged sources")
PY = {"C33"}
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as o:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            o.write(json.dumps({k: v for k, v in x.items() if k != "note"}) + "\n")
    checks = []
    for x in P:
        i = x["id"]
        if i in cases.PROPS:
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                           "technique": TECH_PY if i in PY else TECH, "level": "model_checking", "level_note": "bounded: " + cases.PROPS[i]["bounds"] + (". " + x["note"] if x["note"] else "") + ". Exhaustive within the bounds when evidence says so; " + ("string methods and regular expressions are modelled (pysym/)." if i in PY else "run-time library, XML library and sockets are models (rt/).")})
    ids = {x["id"] for x in P}
    assert not [i for i in cases.PROPS if i not in ids], [i for i in cases.PROPS if i not in ids]
    assert not [x["id"] for x in P if x["id"] not in cases.PROPS and x["id"] not in [n[0] for n in NA]], "unclaimed"
    json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA]},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")
main()
