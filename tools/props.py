#!/usr/bin/env python3
"""Property table: writes properties.jsonl and MANIFEST.json (run by hand after editing; both files are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/stcal/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, claimed=True, **extra):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": [SRC + f for f in files], "mechanism": [{"name": n, "where": SRC + w} for n, w in mech]} | extra,
        "_technique": technique, "_note": note, "_claimed": claimed})


PYTECH = "symbolic execution of the Python source (numpy modelled over z3 terms), claims decided by z3, counterexamples replayed on the real code"
PYNOTE = ("Every input within the bounds stated in the evidence, with floating point as exact extended reals (NaN and infinities modelled, rounding not); "
          "trusts z3 and the engine's numpy model (compared with the real code on a witness of several paths per case).")


def main():
    import propdata  # noqa: F401  (fills P and NA)

    have = {f[:-3] for f in os.listdir(os.path.join(HERE, "checks"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if not p["_claimed"]:
            continue
        assert p["id"] in have, p["id"]
        assert len(p["title"]) <= 80, p["title"]
        run = f"/opt/venv/bin/python run.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": run, "thorough_cmd": run + " --tier thorough",
                       "technique": p["_technique"] or PYTECH, "level": "model_checking", "level_note": p["_note"] or PYNOTE})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'.'); import symx.harness\"",
           "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA],
           "notes": "No hooks: the checks read /repo's working tree and change nothing in it. Known findings and fixed defects: known_findings.jsonl."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    import sys

    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["props"] = sys.modules["__main__"]
    main()
