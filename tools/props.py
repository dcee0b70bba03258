#!/usr/bin/env python3
"""Authoring-time source of properties.jsonl, MANIFEST.json and checks.json (all committed)."""
import json, os
V = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
SCH = [f"src/generated_schema/{v}/mcp_schema.rs" for v in V]
UTL = [f"src/generated_schema/{v}/schema_utils.rs" for v in V]
BUILT = json.load(open(os.path.join(os.path.dirname(__file__), "built.json")))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, rule, note, min_evals=100, watch=None, hook=False, assumptions=None, **cfg):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, rule=rule,
                  note=note, min_evals=min_evals, watch=watch, hook=hook, assumptions=assumptions or [], cfg=cfg))


# how much of each monitor's workload a quick run does, in hundredths of its base
QUICK = {"C03": 800, "C04": 900, "C05": 900, "C06": 1000, "C07": 1800, "C08": 2000, "C10": 3000, "C11": 6000, "C12": 2400, "C13": 1000, "C14": 2000, "C15": 2000, "C17": 1200,
         "C18": 800, "C19": 6000, "C21": 6000, "C22": 1000}
exec(open(os.path.join(os.path.dirname(__file__), "props_list.py")).read())

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": p["hook"]}
        if p["watch"]:
            a["observe_at"] = p["watch"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=True) + "\n")
for p in P:
    if p["id"] in QUICK:
        p["cfg"]["quick_scale"] = QUICK[p["id"]]
built = [p for p in P if p["id"] in BUILT]
json.dump({p["id"]: {"rule": p["rule"], "min_evals": p["min_evals"], "assumptions": p["assumptions"], **p["cfg"]} for p in built}, open("checks.json", "w"), indent=1)
m = {
    "version": 1,
    "setup_cmd": "./check.py setup",
    "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']} quick", "thorough_cmd": f"./check.py {p['id']} thorough",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in built],
    "not_applicable": [{"property": p["id"], "reason": "the monitor for it is not built yet"} for p in P if p["id"] not in BUILT],
    "notes": "No hook in /repo: every monitor watches the public API. Each check builds one observer per protocol version from /repo's working tree.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(built), "built")
