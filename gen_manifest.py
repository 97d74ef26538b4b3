#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert all(os.path.exists("/repo/"+f) for f in files), (id, files)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state, observe=observe))

exec(open(os.path.join(D, "properties_table.py")).read())

MODEL = "runtime monitoring: reference-model oracle over the real code under generated workloads"
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                "observe_at": list(p["observe"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
tech = globals().get("TECH", {})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": tech.get(p["id"], MODEL),
        "level": LEVEL.get(p["id"], "exploration"), "level_note": p["note"]} for p in P],
    "not_applicable": NA,
    "notes": "No hooks in /repo are needed: every monitor observes the public API and the CLI. The commits in /repo are repairs (fix:), listed in known_findings.txt."},
    open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
