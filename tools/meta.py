#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table; claims are the keys of harness/plan.py's PLANS."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
from plan import PLANS  # noqa: E402

G, X = "dpm/detail/generic/", "dpm/detail/x86/"
SIMD = "every element type, every ABI (scalar, fixed-size, packed, SSE- and AVX-backed, sizes that leave part of the last native vector unused), every instruction set the library dispatches on (SSE2 … AVX2+FMA)"
P = []


def prop(i, title, st, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API declared in dpm/simd.hpp and dpm/math.hpp"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


TAIL = ("unused lanes", "native vectors of a simd object past size() hold arbitrary data that no operation may let through", X + "type.hpp")
from props import define  # noqa: E402
define(prop, dict(G=G, X=X, SIMD=SIMD, TAIL=TAIL))


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in PLANS:
            pl = PLANS[i]
            checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                           "technique": pl.get("technique", "bounded exhaustive exploration of the compiled library against an element-wise reference model"),
                           "level": pl["level"], "level_note": pl["note"], "evidence_file": "evidence/%s.json" % i})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    unknown = set(PLANS) - set(ids)
    assert not unknown, unknown
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: all drivers use the public API only. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    for p in P:
        if p["id"] in PLANS and PLANS[p["id"]]["rule"] == "todo":
            print("no rule text:", p["id"])


from props import NA  # noqa: E402
if __name__ == "__main__":
    main()
