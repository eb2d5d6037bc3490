#!/usr/bin/env python3
"""reftool.py [NAME...] : development aid: apply behaviour-preserving edits (tools/refactors/*.py) to a copy of /repo, run its
tests and every check on it; reports violations and obligations no longer decided"""
import sys, os, subprocess, tempfile, shutil, glob
T = os.path.dirname(os.path.abspath(__file__))
names = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(T + "/refactors/*.py"))
for n in names:
    g = {}
    exec(open("%s/refactors/%s.py" % (T, n)).read(), g)
    d = tempfile.mkdtemp(dir="/tmp/w")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=d)
        bad = False
        for e in g["EDITS"]:
            f, o, w = e[:3]
            s = open(d + "/" + f).read()
            if s.count(o) != (e[3] if len(e) > 3 else 1):
                print(n, "EDIT does not apply", s.count(o), f, repr(o[:80])); bad = True
                continue
            open(d + "/" + f, "w").write(s.replace(o, w))
        if bad:
            continue
        p = d + "/p.diff"
        open(p, "w").write(subprocess.check_output(["git", "diff"], cwd=d, text=True))
        r = subprocess.run(["bash", T + "/under.sh", p, "bash", "-c", "bash /opt/vp/build.sh 2>&1 | grep -E '^error' -A12; bash /opt/vp/test.sh /tmp/w/rt.json 2>&1 | tail -1; python3 tools/allcheck.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("==", n)
        for l in r.stdout.splitlines():
            if l.startswith("P18") and "undecided 2 violations 2" in l:
                continue
            if not (l.startswith("P") and "undecided 0 violations 0" in l):
                print("  ", l[:600])
        sys.stdout.flush()
    finally:
        shutil.rmtree(d)
