#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from describe.py"""
import json, os
import describe
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
    for id, p in sorted(describe.P.items()):
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": [p["observe"]]}
        fd.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 sim/build.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unmodified and replace libc, sqlite's VFS and libcurl at link time", "source_commits": []},
    "checks": [],
    "not_applicable": [{"property": i, "reason": r} for i, r in describe.NA],
    "notes": "All checks: python3 check.py ID quick|thorough. They build the simulator against /repo's working tree by themselves.",
}
for id, p in sorted(describe.P.items()):
    if p.get("na"):
        m["not_applicable"].append({"property": id, "reason": p["na"]})
        continue
    m["checks"].append({"property": id, "quick_cmd": f"python3 check.py {id} quick", "thorough_cmd": f"python3 check.py {id} thorough",
                        "technique": "deterministic simulation with fault injection, seeded search over schedules and faults",
                        "level": "exploration",
                        "level_note": p.get("level_note", "Seeded sampling of schedules, faults and histories: evidence, not proof. Trusts the simulated kernel and, where used, the stubbed scanners.")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(m, fd, indent=1)
    fd.write("\n")
