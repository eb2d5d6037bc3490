#!/usr/bin/env python3
"""seedtool.py make|verify|check ID... : development aid for /verif/seeded.

make    write seeded/<id> from tools/seeds/<id>.py (edits, demonstration)
verify  in a private mount namespace with a copy of /repo: patch applies, builds, baseline tests pass, demo 0 / nonzero
check   in the same way: run the property's check (and with ALL=1 every check) on the patched tree
"""
import sys, os, json, subprocess, shutil, tempfile, re, concurrent.futures
V = "/verif"
DEMO = """#!/bin/bash
# exit 0 when the library behaves as the property says, nonzero otherwise
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mirror-mirror = { path = "$REPO/crates/mirror-mirror", features = [FEATURES] }
EXTRADEPS
END
cd "$D"
CARGO_TARGET_DIR="$D/target" timeout 280 cargo run -q --offline
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load(i):
    g = {}
    exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), g)
    return g


def make(i):
    g = load(i)
    t = tempfile.mkdtemp(dir="/tmp/w")
    sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (t, t))
    for f, old, new in g["EDITS"]:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old[:80])
        open(p, "w").write(s.replace(old, new))
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git diff", shell=True, cwd=t, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(g["MAIN"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO.replace("FEATURES", g.get("FEATURES", "")).replace("EXTRADEPS", g.get("DEPS", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)


INNER = r"""
set -u
cp -a /repo/. "$C"/
mount --bind "$C" /repo
cd /repo; git checkout -q -- . ; git clean -fdq -e target
MODE=$1; ID=$2; P=$3
git apply /verif/seeded/$ID/patch.diff || { echo "RESULT $ID patch does not apply"; exit; }
if [ $MODE = verify ]; then
  bash /opt/vp/build.sh >"$C"/b.log 2>&1 || { echo "RESULT $ID DOES NOT BUILD"; grep -m3 -A6 ^error "$C"/b.log; exit; }
  bash /opt/vp/test.sh "$C"/o.json >/dev/null 2>&1
  python3 - "$C"/o.json $ID <<'E'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k] if not isinstance(x[k],dict) else [n for n,v in x[k].items() if v in ('pass','passed',True)])
    return set(n for n,v in x.items())
m=names(b)-names(o)
print("RESULT %s tests %s"%(sys.argv[2], "ok %d"%len(names(b)) if not m else "FAIL "+str(sorted(m)[:5])))
E
  bash /verif/seeded/$ID/demo.sh >"$C"/d1.log 2>&1; a=$?
  git checkout -q -- .
  bash /verif/seeded/$ID/demo.sh >"$C"/d0.log 2>&1; b=$?
  echo "RESULT $ID demo patched=$a clean=$b"
  [ $b = 0 ] || tail -20 "$C"/d0.log
  grep -h -m2 -E "panicked|^error" "$C"/d1.log | sed "s/^/   $ID /"
else
  if [ -n "${ALL:-}" ]; then python3 /verif/tools/allcheck.py | sed "s/^/RESULT $ID /" | grep -v "undecided 0 violations 0"; exit; fi
  for p in $P; do
  python3 /verif/run.py $p quick >"$C"/c.log 2>&1; a=$?
  echo "RESULT $ID check $p exit=$a $(grep -v VIOLATION "$C"/c.log | grep -v '^$' | head -3 | cut -c1-300)"
  grep VIOLATION "$C"/c.log | head -3
  done
fi
"""


def inner(mode, i):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    p = m["property"]
    if os.environ.get("ALL"):
        p = " ".join(sorted(c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]))
    c = tempfile.mkdtemp(prefix="seed-%s-" % i, dir="/tmp/w")
    try:
        r = sh("unshare -m bash -s %s %s '%s'" % (mode, i, p), input=INNER, env=dict(os.environ, C=c))
        return r.stdout
    finally:
        shutil.rmtree(c, ignore_errors=True)


if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(os.listdir(V + "/seeded"))
    if mode == "make":
        for i in ids:
            make(i)
    elif mode == "both":
        for i in ids:
            make(i)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for o in ex.map(lambda x: inner(*x), [(m, i) for i in ids for m in ("verify", "check")]):
                print(o, end="", flush=True)
    else:
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
            for o in ex.map(lambda i: inner(mode, i), ids):
                print(o, end="", flush=True)
