"""Single source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), level="proof", note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "state": [{"name": n, "meaning": m} for n, m in state],
                            "mechanism": [{"name": n, "where": w} for n, w in mech]}), level, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    p = P.pop()[0]
    NA.append((p, reason))


exec(open(os.path.join(HERE, "props_text.py")).read())

NOTE = ("every obligation generated from the clang IR of the current sources is discharged for all inputs and iterations by z3/cvc5; "
        "trusts the clang front end, engine/*.py, the library models and the assumptions listed in the evidence file. ")
TECH = "deductive verification of function contracts: symbolic execution of clang IR of /repo, loop invariants, z3/cvc5"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted([p for p, _, _ in P] + [p for p, _ in NA], key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": "python3-vt check.py %s quick" % p["id"],
                       "thorough_cmd": "python3-vt check.py %s thorough" % p["id"],
                       "technique": TECH, "level": lv, "level_note": NOTE + n} for p, lv, n in sorted(P, key=lambda x: x[0]["id"])],
           "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA]}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
