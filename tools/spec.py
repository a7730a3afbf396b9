#!/usr/bin/env python3
# Single source of properties.jsonl and MANIFEST.json.  Run after editing: python3 tools/spec.py
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # properties
CLAIM = {}      # id -> (level, note)
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, claim=None, na=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
    if claim: CLAIM[id] = claim
    if na: NA[id] = na
exec(open(os.path.join(HERE, "tools", "props.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash run.sh build " + " ".join(FLAVOURS),
     "hooks": {"guard": "LTTOOLBOX_VERIF_SIM", "enable": "No hook was needed in /repo: the simulator is linked in front of libc, operator new, pthreads and the std streams, so the guard define is passed to the build but guards nothing.", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Deterministic simulation with fault injection. run.sh check ID builds the simulator from /repo's working tree and runs the seeded search; run.sh replay FILE replays a recorded violation. See DESIGN.md."}
for p in P:
    if p["id"] in CLAIM:
        note = CLAIM[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick bash run.sh check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash run.sh check " + p["id"],
          "technique": "deterministic simulation with fault injection (seeded search, exact replay)", "level": "exploration", "level_note": note})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
assert set(ids) == set(CLAIM) | set(NA), set(ids) ^ (set(CLAIM) | set(NA))
print(len(P), "properties,", len(CLAIM), "claimed,", len(NA), "not applicable")
