#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "crates/weaver_resolver/src/"
S = "crates/weaver_semconv/src/"
F = "crates/weaver_forge/src/"
L = "crates/weaver_live_check/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, technique, note))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

NA = []
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _, _ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks = [{"property": d["id"], "quick_cmd": f"./check.sh {d['id']} quick", "thorough_cmd": f"./check.sh {d['id']} thorough",
               "evidence_file": f"evidence/{d['id']}.json", "technique": t, "level": "exploration", "level_note": n} for d, t, n in P]
    m = {"version": 1, "setup_cmd": "./build.sh all", "checks": checks, "not_applicable": NA,
         "notes": "One Rust harness (harness/) drives the public APIs of /repo's crates (path dependencies) and, where stated, the weaver binary built from /repo. No hooks in /repo are needed."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    print(len(P), "properties")
