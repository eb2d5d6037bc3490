#!/usr/bin/env python3
"""allcheck.py [PID...] : development aid: dump /repo's MIR once, run all properties on it, one line per property"""
import sys, os, re, time, tempfile, shutil, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run, config
import mir
pids = sys.argv[1:] or sorted(config.PROPS)
tmp = tempfile.mkdtemp(dir="/tmp/w")
path, log = run.build(tmp)
if path is None:
    print("ALL witness does not build:", log[-1500:]); sys.exit()
prog = mir.Prog(path); run.G["P"] = prog
shutil.rmtree(tmp)
jobs = [(n, i, config.cfg_for(p, n, "quick"), config.budget(p, n, "quick"), p) for p in pids for n, i in sorted(prog.roots.items()) if any(re.search(r, n) for r in config.PROPS[p].get("roots", []))]
def go(j):
    return j[4], run.run_root(j[:4])
FIRST = os.environ.get("FIRST")
if FIRST:
    config.ladder = lambda cfg: [{"maxlen": cfg.get("maxlen", 2)}]
    import random; random.Random(1).shuffle(jobs)
out = {p: {"f": {}, "u": 0, "n": 0} for p in pids}
with multiprocessing.get_context("fork").Pool(int(os.environ.get("J", "8")), maxtasksperchild=16) as pool:
    for p, r in pool.imap_unordered(go, jobs, chunksize=2):
        o = out[p]; o["n"] += 1
        if "p18::ob_deep" in r["name"]: continue  # a known finding
        for l, tr, w in r["fail"]: o["f"][r["name"] + ": " + l] = 1
        if not config.PROPS[p].get("may_panic"):
            for m, tr in r["panic"]: o["f"][r["name"] + ": panic " + m] = 1
        if config.PROPS[p].get("termination"):
            for m, tr in r["div"]: o["f"][r["name"] + ": div " + m] = 1
        if r["undec"] or not r["checks"]: o["u"] += 1
        if FIRST and o["f"]:
            pool.terminate(); break
for p in pids:
    v = []
    for rule in config.PROPS[p].get("rules", ()):
        v += [x["key"] for x in rule("/repo", "quick")[0]]
    o = out[p]
    f = sorted(o["f"]) + v
    print("%s obligations %d undecided %d violations %d %s" % (p, o["n"], o["u"], len(f), " | ".join(f[:int(os.environ.get("N", "2"))])[:300]))
