#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, "..", "sim"))
import props
V = os.path.dirname(H)
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        for x in d["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(d) + "\n")
hooks = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines() if l.split(" ", 1)[1].startswith("hooks:")]
m = {"version": "1",
     "setup_cmd": "python3 sim/build.py",
     "hooks": {"guard": "VOSS_SIM",
               "enable": "sim/build.py compiles /repo's current sources with -DVOSS_SIM outside /repo and links them with the simulator in sim/rt",
               "source_commits": hooks[::-1]},
     "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"],
                            "quick_cmd": "python3 sim/check.py " + p["id"],
                            "thorough_cmd": "python3 sim/check.py %s thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": "deterministic simulation with fault injection: " + p["technique"],
                            "level": p.get("level", "exploration"),
                            "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
