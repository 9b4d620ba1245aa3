#!/usr/bin/env python3
"""check.py PROPERTY: searches seeds for a violation. VERIF_TIER, VERIF_SEED."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework, properties


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick") if len(sys.argv) < 3 else sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = properties.PROPS[pid]
    secs = float(os.environ.get("VSIM_SECONDS", p["thorough"] if tier == "thorough" else p["quick"]))
    return framework.search(pid, p["gens"], secs, tier, seed, p["rule"], {"real": p["real"], "stub": p["stub"]}, level=p["level"])


if __name__ == "__main__":
    sys.exit(main())
