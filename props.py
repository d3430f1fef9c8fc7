#!/usr/bin/env python3
"""Single source of the properties: writes properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS

TRUST_GEO = "Trusts the C++ compiler, libm and the reference formulas in the harness."
TRUST_SHIM = "Trusts the C++ compiler, libm, the harness's reference and /verif/shim/matrix (the stand-in for PX4/Matrix, which is not available offline; it passes the repository's own 120 tests)."
P = []


def p(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe), state=list(state)))


exec(open(os.path.join(V, "props_data.py")).read())


def main():
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    na = []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            anchors = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
            if x["observe"]:
                anchors["observe_at"] = x["observe"]
            if x["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
            anchors["hook_needed"] = None
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]},
                                "why_tests_cant": x["why"], "anchors": anchors}) + "\n")
    checks = []
    for x in P:
        c = CHECKS.get(x["id"])
        if c is None:
            assert x.get("note", "").startswith("NA: "), x["id"] + " has no check and no reason"
            na.append({"property": x["id"], "reason": x["note"][4:]})
            continue
        checks.append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + x["id"],
                       "technique": c["technique"], "level": c["level"], "level_note": x["note"]})
    for k in CHECKS:
        assert k in ids, k + " has no property"
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks drive the public interfaces only. Every check rebuilds from /repo's working tree (objects are cached in build/ by content hash)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
