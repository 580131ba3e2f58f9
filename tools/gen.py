#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=(), race=False, limit=200,
         assumptions=(), level="exploration", claimed=True):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, quant=" ".join(quant.split()),
                  why=" ".join(why.split()), files=files, mech=mech, observe=observe, technique=technique, note=" ".join(note.split()),
                  state=state, race=race, limit=limit, assumptions=list(assumptions), level=level, claimed=claimed))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

claimed = [p for p in P if p["claimed"]]
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claimed"]],
    "notes": "No hooks in /repo: every monitor observes the exported API (virtual clock, race detector, recorded histories, recording SQL driver on a real SQL engine, scratch file trees). See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
json.dump({p["id"]: {"race": p["race"], "limit": p["limit"], "level": p["level"], "assumptions": p["assumptions"]} for p in claimed},
          open(os.path.join(V, "checks.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(claimed), "claimed")
