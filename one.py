#!/usr/bin/env python3
"""one.py MIR.json PID REGEX : run single obligations and print details (development aid)"""
import sys, re, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import mir, config, run
P = mir.Prog(sys.argv[1]); run.G["P"] = P
b = int(os.environ.get("B", "20"))
for n, i in sorted(P.roots.items()):
    if re.search(sys.argv[3], n):
        r = run.run_root((n, i, config.cfg_for(sys.argv[2], n, os.environ.get("TIER", "quick")), b))
        print("%s %.1fs paths %d checks %d undec %d panic %d fail %d div %d steps %d parts %d" % (n, r["wall"], r["paths"], sum(r["checks"].values()), len(r["undec"]), len(r["panic"]), len(r["fail"]), len(r["div"]), r["steps"], r["partitions"]))
        for u in sorted(set(r["undec"]))[:5]: print("   UNDEC", u[:300])
        for u in r["div"][:2]: print("   DIV", u)
        seen = set()
        for l, t, w in r["fail"]:
            if l in seen: continue
            seen.add(l); print("   FAIL", l, t)
        seen = set()
        for l, t in r["panic"]:
            if l in seen: continue
            seen.add(l); print("   PANIC", l, t)
