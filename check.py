#!/usr/bin/env python3
"""check.py <property>|all  -  decide a property on /repo's current source."""
import argparse
import gc
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
os.environ.setdefault("PYTHONHASHSEED", "0")
gc.disable()

import props            # noqa: E402
from dump import Lock, DumpError, make_dump, REPO    # noqa: E402
from grammar import big_stack       # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.json")


def known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        with Lock():
            dump = make_dump()
    except DumpError as x:
        print("cannot analyse: the source does not type-check\n" + str(x))
        return 2
    ids = props.IDS if a.prop == "all" else [a.prop]
    res = big_stack(props.decide, dump, ids, tier)
    rc = 0
    for pid in ids:
        r = res[pid]
        new = []
        for f in r.findings:
            k = [x for x in known() if x["property"] == pid and x["key"] == f.key]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
            else:
                new.append(f)
        for u in sorted(set(r.undecided)):
            print("UNDECIDED property=%s %s" % (pid, u))
        if new:
            rc = 1
            d = os.path.join(HERE, "build", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, pid + ".json")
            with open(path, "w") as o:
                json.dump({"property": pid, "repo": REPO, "findings": [f.json() for f in new]}, o, indent=1)
            for f in new[:8]:
                print("%s: %s" % (f.where, f.text))
                for x in f.detail:
                    print("    " + x[:600])
            if len(new) > 8:
                print("... and %d more, see the replay file" % (len(new) - 8))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        if not a.no_evidence:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            ev = {"property": pid, "tier": tier, "seed": seed, "level": r.level, "coverage": r.coverage,
                  "assumptions": r.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as o:
                json.dump(ev, o, indent=1)
        if not new:
            print("property=%s holds: %s" % (pid, r.summary))
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
