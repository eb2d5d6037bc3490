#!/usr/bin/env python3
"""run.py <property> <quick|thorough> : decide one property of /repo's current tree.

Builds the witness crate against /repo (type check + MIR, nothing is executed), dumps the MIR and runs
the abstract interpreter over every obligation of the property; some properties add rules over the
source (analyzer/rules.py).  Exit 0: no violation found; exit 1: a line
`VIOLATION property=<id> replay=<path>` per property, and the construct in the replay file.
"""
import sys, os, json, time, signal, resource, subprocess, tempfile, shutil, multiprocessing, re

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "analyzer"))
import config  # noqa: E402


def scratch():
    d = os.environ.get("VERIF_SCRATCH") or os.path.join(ROOT, ".scratch")
    os.makedirs(d, exist_ok=True)
    return d


def build(tmp):
    out = os.path.join(tmp, "mir.json")
    env = dict(os.environ, VERIF_SCRATCH=tmp)
    r = subprocess.run(["bash", os.path.join(ROOT, "dump.sh"), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0 and os.path.exists(out):
        return out, ""
    return None, r.stdout


def repo_builds(tmp):
    env = dict(os.environ)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    r = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "mirror-mirror", "--all-features", "--target-dir", os.path.join(tmp, "t")], cwd="/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0


def trace(t):
    r = []
    while t:
        t, fn, line, lab = t
        r.append(lab)
    return r[::-1]


G = {}
MEM = 4 << 30


class Late(Exception):
    pass


def late(*_):
    raise Late()


def run_root(job):
    """one obligation, under growing bounds: the largest bounds that could be decided count, a failure under any"""
    name, iid, cfg, budget = job
    best = None
    for n, step in enumerate(config.ladder(cfg)):
        c = dict(cfg)
        c.update(step)
        r = run_once(name, iid, c, budget if n == 0 else min(budget, cfg.get("step_budget", 25)))
        r["bounds"] = {"sequence_length": c.get("maxlen"), "value_depth": c.get("value_depth", 1)}
        r["wall"] += best["wall"] if best else 0
        if best is None:
            best = r
            if r["undec"] or r["div"] or r["fail"] or r["panic"]:
                break
        elif r["fail"] or r["panic"]:
            best = r
            break
        elif r["undec"] or r["div"]:
            best["wall"] = r["wall"]
            break
        else:
            same = (r["paths"], r["steps"]) == (best["paths"], best["steps"])
            best = r
            if same and n > 0 and "value_depth" not in step:
                break
    return best


def run_once(name, iid, cfg, budget):
    import mir, models
    P = G["P"]
    models.STR[0] = P.str
    cfg = dict(cfg)
    cfg["deadline"] = time.time() + budget
    I = mir.Interp(P, cfg)
    inst = P.insts[iid]
    st = mir.State()
    args = [mir.sym("in", ("arg%d" % k,), inst["b"]["lt"][k + 1]) for k in range(inst["b"]["ac"])]
    t0 = time.time()
    # the analyser itself is bounded in memory and time: beyond, the obligation is undecided
    resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(budget) + 15)
    res = {"name": name, "fail": [], "panic": [], "div": [], "undec": [], "checks": {}, "paths": 0}
    try:
        outs = I.call(iid, args, st, ())
    except RecursionError:
        outs = [(st, "undec", "analyser recursion limit")]
    except mir.Undecided as u:
        outs = [(st, "undec", u.why)]
    except Exception as e:  # an unexpected program shape: undecided, never an alarm
        outs = [(st, "undec", "analyser: %r" % (e,))]
    signal.alarm(0)
    for s, k, v in outs:
        res["paths"] += 1
        if k == "ret":
            continue
        if k in ("panic",):
            if s.imp:
                res["undec"].append("imprecise: " + str(v))
            elif I.feasible(s):
                res["panic"].append((str(v), trace(s.trace)[-25:]))
        else:
            res[k].append(str(v) if k == "undec" else (str(v), trace(s.trace)[-25:]))
    for l, s, w in I.failures:
        where = [P.insts[f]["n"] for f in I.funcs_on(s)] if hasattr(I, "funcs_on") else []
        if s.imp:
            res["undec"].append("imprecise: " + l + " (" + ", ".join(s.imp[:3]) + ")")
        else:
            res["fail"].append((l, trace(s.trace)[-25:], w))
    res["checks"] = dict(I.checks)
    repo_fns = sorted(set(P.insts[f]["n"] for f in I.functions if "/repo/" in (P.insts[f]["f"] or "") or (P.insts[f]["f"] or "").startswith("crates/")))
    res["functions"] = len(I.functions)
    res["fnames"] = sorted(set(P.insts[f]["n"] for f in I.functions))
    res["repo_functions"] = repo_fns
    res["callsites"], res["partitions"], res["steps"] = I.callsites, I.partitions, I.steps
    res["models"] = sorted(I.models_used)
    res["wall"] = time.time() - t0
    return res


def bounds_used(results):
    d = {}
    for r in results:
        b = r["bounds"]
        k = "sequence length <= %s, dynamic values nested <= %s" % (b["sequence_length"], b["value_depth"])
        d[k] = d.get(k, 0) + 1
    return d


def known():
    d = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S.*?) \|\| (.*)$", line)
            if m:
                d[(m.group(1), m.group(2))] = m.group(3)
    return d


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    P = config.PROPS[pid]
    viol, rules_ev, undec = [], {}, []
    tmp = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=scratch())
    results = []
    try:
        # 1. source rules
        for rule in P.get("rules", ()):
            v, ev = rule("/repo", tier)
            viol += v
            rules_ev[rule.__name__] = ev
        # 2. obligations over MIR
        if P.get("roots"):
            path, log = build(tmp)
            if path is None:
                if repo_builds(tmp):
                    viol.append({"key": "witness", "what": "the client code that states the obligations no longer type-checks against the library", "detail": log[-4000:]})
                else:
                    print("the repository does not build; nothing analysed")
                    print(log[-2000:])
                    undec.append("repository does not build")
            else:
                import mir
                prog = mir.Prog(path)
                os.unlink(path)
                G["P"] = prog
                jobs = []
                for n, i in sorted(prog.roots.items()):
                    if any(re.search(rx, n) for rx in P["roots"]) and not (tier == "quick" and re.search(r"_thorough\b", n)):
                        jobs.append((n, i, config.cfg_for(pid, n, tier), config.budget(pid, n, tier)))
                if len(jobs) < P["floor"]:
                    viol.append({"key": "floor", "what": "only %d obligations found, %d expected" % (len(jobs), P["floor"]), "detail": ""})
                jobs.sort(key=lambda j: -config.weight(j[0]))
                with multiprocessing.get_context("fork").Pool(min(8, max(1, len(jobs))), maxtasksperchild=8) as pool:
                    results = list(pool.imap_unordered(run_root, jobs, chunksize=1))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    seen = {}
    for r in sorted(results, key=lambda r: r["name"]):
        for l, tr, w in r["fail"]:
            if P.get("only") == "panic" and w == "check":
                continue  # what is computed is the subject of the other properties
            seen.setdefault((r["name"] + ": " + l), {"key": r["name"] + ": " + l, "what": l, "obligation": r["name"], "path": tr, "how": w})
        if not P.get("may_panic"):
            for m, tr in r["panic"]:
                if P.get("only") == "panic" and re.search(r" at src/(?!types)", m):
                    continue  # the obligation's own: the object it looks for is not there
                fn = re.sub(r":\d+$", "", m)
                seen.setdefault((r["name"] + ": panic: " + fn), {"key": r["name"] + ": panic: " + fn, "what": m, "obligation": r["name"], "path": tr, "how": "a path of the analysed code panics"})
        for m, tr in r["div"]:
            if P.get("termination"):
                k = r["name"] + ": unbounded recursion"
                seen.setdefault(k, {"key": k, "what": m, "obligation": r["name"], "path": tr, "how": "recursion without progress"})
            else:
                undec.append(r["name"] + ": " + m)
        for u in r["undec"]:
            undec.append(r["name"] + ": " + u)
        if not r["checks"] and not r["undec"] and not r["div"] and not r["fail"] and not r["panic"] and "_nocheck" not in r["name"]:
            undec.append(r["name"] + ": no check point reached")
    viol += list(seen.values())
    kn = known()
    news = [v for v in viol if (pid, v["key"]) not in kn]
    olds = [v for v in viol if (pid, v["key"]) in kn]
    for v in olds:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["key"], kn[(pid, v["key"])]))
    allfn = sorted(set(f for r in results for f in r["fnames"]))
    allrepo = sorted(set(f for r in results for f in r["repo_functions"]))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": config.explain(pid),
            "rule": P["rule"],
            "obligations": len(results),
            "obligations_fully_decided": sum(1 for r in results if not r["undec"] and not r["div"] and r["checks"]),
            "check_points_decided": sum(sum(r["checks"].values()) for r in results),
            "labels": sorted(set(l for r in results for l in r["checks"])),
            "abstract_paths": sum(r["paths"] for r in results),
            "partitions": sum(r["partitions"] for r in results),
            "call_sites_interpreted": sum(r["callsites"] for r in results),
            "functions_analysed": len(allfn),
            "library_functions_analysed": allrepo,
            "modelled_std_items": len(set(m for r in results for m in r["models"])),
            "undecided": len(undec), "undecided_samples": sorted(set(undec))[:20],
            "source_rules": rules_ev,
            "bounds": bounds_used(results),
            "known_findings": [v["key"] for v in olds],
        },
        "assumptions": config.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": v["key"], "what": v["what"], "obligation": v.get("obligation", ""), "path": v.get("path", [])} for v in news],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if os.environ.get("VERIF_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall"])[:int(os.environ["VERIF_VERBOSE"])]:
            print("  %-50s %.1fs paths %d checks %d undec %d panic %d fail %d" % (r["name"], r["wall"], r["paths"], sum(r["checks"].values()), len(r["undec"]), len(r["panic"]), len(r["fail"])))
        import collections
        cc = collections.OrderedDict()
        for u in sorted(set(undec)):
            a, b = u.split(": ", 1)
            cc.setdefault(b.split(" @ ")[0], []).append(u)
        for b, us in cc.items():
            print("  UNDECIDED x%d  %s   e.g. %s" % (len(us), b, us[0][:250]))
    if news:
        rp = os.path.join(ROOT, "evidence", pid + ".violations.json")
        json.dump(news, open(rp, "w"), indent=1, default=str)
        for v in news[:20]:
            print("  %s" % v["key"])
            print("     %s" % str(v["what"])[:300])
            if v.get("path"):
                print("     path: %s" % " ; ".join(map(str, v["path"]))[:500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d checks=%d undecided=%d %.1fs" % (pid, len(results), ev["coverage"]["check_points_decided"], len(undec), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
