#!/usr/bin/env python3
"""Replays a violation: exit 1 if it shows again exactly, 0 if not."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework, properties  # noqa: F401 (registers configurations and oracles)


def main():
    d = json.load(open(sys.argv[1]))
    rn = framework.Runner("replay")
    try:
        bad, res = rn.judge(d["case"])
    finally:
        rn.close()
    h = framework.hashes(res)
    same = any(k == d["violation"] for k, _ in bad)
    exact = h == d["case"].get("expect_hash") or any(r.how == "timeout" for r in res)
    for k, m in bad:
        print(k, m)
    print("same violation: %s, identical event log: %s" % (same, exact))
    if "-v" in sys.argv:
        for r in res:
            print(r.out, r.err, r.log)
    return 1 if same and exact else 0


sys.exit(main())
