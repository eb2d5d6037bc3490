#!/usr/bin/env python3
"""dev.py MIR.json PID [REGEX] : run obligations in parallel, print those not fully decided (development aid)"""
import sys, re, os, time, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
import mir, config, run
P = mir.Prog(sys.argv[1]); run.G["P"] = P
config.PROPS["PROBE"] = {"roots": [r"\bprobe::"], "floor": 0, "rule": ""}
pid = sys.argv[2]; rx = sys.argv[3] if len(sys.argv) > 3 else "."
b = int(os.environ.get("B", "60"))
jobs = [(n, i, config.cfg_for(pid, n, os.environ.get("TIER", "quick")), b) for n, i in sorted(P.roots.items()) if any(re.search(r, n) for r in config.PROPS[pid]["roots"]) and re.search(rx, n)]
tot = dec = 0
t0 = time.time()
rs = []
with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=8) as pool:
    for r in pool.imap_unordered(run.run_root, jobs, chunksize=1):
        rs.append(r)
for r in sorted(rs, key=lambda r: r["name"]):
        tot += 1
        bad = r["undec"] or r["panic"] or r["fail"] or r["div"] or not r["checks"]
        dec += not bad
        if bad or os.environ.get("ALL"):
            print("%s %.1fs paths %d checks %d undec %d panic %d fail %d div %d" % (r["name"], r["wall"], r["paths"], sum(r["checks"].values()), len(r["undec"]), len(r["panic"]), len(r["fail"]), len(r["div"])))
            for u in sorted(set(r["undec"]))[:2]: print("   UNDEC", u[:260])
            for u in r["div"][:1]: print("   DIV", u[0][:200])
            for l, t, w in {x[0]: x for x in r["fail"]}.values(): print("   FAIL", l, t[-8:])
            for l, t in {x[0]: x for x in r["panic"]}.values(): print("   PANIC", l, t[-8:])
print("obligations %d decided %d  %.1fs; slowest %s" % (tot, dec, time.time() - t0, [(r["name"], round(r["wall"], 1)) for r in sorted(rs, key=lambda r: -r["wall"])[:4]]))
