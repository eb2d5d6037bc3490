#!/usr/bin/env python3
"""mutate.py gen N SEED OUTDIR : development aid: mechanical one-line changes of the library that build and pass its tests
mutate.py check DIR        : run every obligation on each of them; the ones nothing reports are listed in DIR/quiet.txt

The survivors are read by hand: either the change is an equivalent one, or concerns what no property is about, or a check is
too weak.  The scratch copies live under /tmp/w and are removed."""
import sys, os, re, random, subprocess, shutil, json, tempfile, concurrent.futures, glob
V = "/verif"
SKIP = ("tests", "pretty_print", "simple_type_name", "macaw")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def mutants():
    fs = sh("git -C /repo ls-files 'crates/*.rs'").stdout.split()
    out = []
    for f in fs:
        if any(s in f for s in SKIP):
            continue
        L = open("/repo/" + f).read().split("\n")
        fns = False
        for i, l in enumerate(L):
            s = l.strip()
            if "cfg(test)" in s and L[i + 1].strip().startswith("mod") and L[i + 1].rstrip().endswith("{"):
                break
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "pub fn", "fn ", "pub(crate) fn", "where", "pub struct", "struct", "pub enum")):
                continue
            c = l.split("//")[0].rstrip() if "//" in l and '"' not in l else l

            def m(new, d):
                if new != l:
                    out.append((f, i, l, new, d))
            for a, b in ((" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), ("true", "false"), ("false", "true"),
                         ("is_some()", "is_none()"), ("is_none()", "is_some()"), (".any(", ".all("), (".all(", ".any("), ("continue", "break"), ("self.", "other."), ("other.", "self."), (" + 1", " + 2"), (" + 1", ""), (" - 1", ""), ("+= 1", "+= 2"),
                         (".iter()", ".iter().rev()"), (".iter()", ".iter().skip(1)"), (".iter()", ".iter().take(1)"), (".into_iter()", ".into_iter().rev()"), (".iter_mut()", ".iter_mut().rev()"), (".iter_mut()", ".iter_mut().skip(1)"),
                         (".fields()", ".fields().skip(1)"), ("key", "value"), ("value", "key"), ("None =>", "_ =>"), (".field_at(", ".field_at(1 + "), (".field_at_mut(", ".field_at_mut(1 + "), (".get(", ".get(1 + "), (".values()", ".values().rev()"), (".keys()", ".keys().rev()"),
                         (".enumerate()", ".enumerate().skip(1)"), (".min(", ".max("), (".max(", ".min("), ("0", "1"), ("1", "0"), ("Struct", "TupleStruct"), ("TupleStruct", "Struct"), ("Tuple", "TupleStruct"), ("List", "Array"), ("Array", "List"),
                         ("left", "right"), ("right", "left"), ("a", "b"), ("b", "a"), ("lhs", "rhs"), ("docs", "&[]"), ("metadata", "Default::default()"), (".chain(", ".zip("), (".len()", ".len() + 1"), (".len()", ".len().saturating_sub(1)"), ("unwrap_or_default()", "unwrap()"),
                         (".map(", ".filter("), (".cloned()", ".cloned().rev()"), (".and_then(", ".filter("), (".skip(", ".take("), ("remove(", "get("), ("insert(", "remove("), ("variant", "field"), ("field", "variant"), ("usize", "u8"), ("i64", "i32"), ("u64", "u32"), ("u16", "u8"), ("f64", "f32"), ("i128", "i64"), ("u128", "u64"), ("i16", "i8")):
                w = a.strip()
                if re.match(r"^\w+$", w):
                    for k, mm in enumerate(re.finditer(r"\b%s\b" % w, c)):
                        m(c[:mm.start()] + b + c[mm.end():], "%s->%s#%d" % (w, b, k))
                else:
                    p = -1
                    while True:
                        p = c.find(a, p + 1)
                        if p < 0:
                            break
                        m(c[:p] + b + c[p + len(a):], "%s->%s" % (a, b))
            if s.endswith(";") and not s.startswith(("let", "return", "type", "pub", "const", "static")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                m("", "delete statement")
            mm = re.match(r"^(\s*)(\}? ?(?:else )?if) (?!let)(.*) \{$", c)
            if mm:
                m("%s%s !(%s) {" % mm.groups(), "negate")
                m("%s%s true || %s {" % mm.groups(), "if true")
                m("%s%s false && %s {" % mm.groups(), "if false")
            mm = re.match(r"^(\s*)(.* => )(.*),$", c)
            if mm and "{" not in mm.group(3):
                m("", "delete arm")
                m("%s%sNone," % mm.groups()[:2], "arm None")
                if i + 1 < len(L):
                    m2 = re.match(r"^(\s*)(.* => )(.*),$", L[i + 1])
                    if m2 and "{" not in m2.group(3):
                        out.append((f, i, l + "\n" + L[i + 1], "%s%s%s,\n%s%s%s," % (mm.group(1), mm.group(2), m2.group(3), m2.group(1), m2.group(2), mm.group(3)), "swap arms"))
            mm = re.match(r"^(\s*)(Some\(.*\))$", c)
            if mm:
                m(mm.group(1) + "None", "None")
            mm = re.match(r"^(\s*)(\w[\w.]*\(.*\)|\w+)\?;$", c)
            if mm:
                m("", "delete")
            # swap two arguments of a call
            for k, mm in enumerate(re.finditer(r"\((\w+), (\w+)\)", c)):
                if mm.group(1) != mm.group(2):
                    m(c[:mm.start()] + "(%s, %s)" % (mm.group(2), mm.group(1)) + c[mm.end():], "swap args#%d" % k)
            # drop a method of a chain on a line of its own
            if re.match(r"^\s*\.\w+\(.*\)$", c):
                m("", "drop call")
    seen, r = set(), []
    for x in out:
        k = (x[0], x[1], x[3])
        if k not in seen:
            seen.add(k)
            r.append(x)
    return r


def worker(k, jobs, outdir):
    d = "/tmp/w/mut%d" % k
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo %s && cd %s && git checkout -q -- ." % (d, d))
    res = []
    for n, (f, i, old, new, desc) in jobs:
        p = os.path.join(d, f)
        src = open(p).read()
        L = src.split("\n")
        w = old.count("\n") + 1
        assert "\n".join(L[i:i + w]) == old
        L[i:i + w] = new.split("\n")
        open(p, "w").write("\n".join(L))
        r = sh("timeout 200 cargo test --workspace --all-features --offline --no-fail-fast -j 2 -- --test-threads 2", cwd=d)
        o = r.stdout
        st = "build"
        if re.search(r"test result|Running", o) and "could not compile" not in o:
            bad = set(re.findall(r"^test (.*?) \.\.\. FAILED", o, re.M)) - {"tests::simple_type_name::works"}
            st = "survives" if not bad and "test result" in o and r.returncode != 124 else "tests"
        if st == "survives":
            diff = sh("git diff", cwd=d).stdout
            open("%s/%04d.diff" % (outdir, n), "w").write(diff)
        open("%s/log" % outdir, "a").write("%04d %s %s:%d %s\n" % (n, st, f, i + 1, desc))
        open(p, "w").write(src)
    shutil.rmtree(d, ignore_errors=True)


def check(d):
    for p in sorted(glob.glob(d + "/*.diff")):
        n = os.path.basename(p)[:4]
        done = open(d + "/checked").read() if os.path.exists(d + "/checked") else ""
        if n + " " in done:
            continue
        r = sh("FIRST=1 nice -n 5 bash %s/tools/under.sh %s timeout 1500 python3 tools/allcheck.py" % (V, p))
        f = [l for l in r.stdout.split("\n") if l.startswith(("P", "ALL")) and "violations 0" not in l]
        u = sum(int(x) for x in re.findall(r"undecided (\d+)", r.stdout))
        line = "%s %s undecided %d %s" % (n, "caught" if f else "QUIET", u, f[0][:200] if f else r.stdout[-150:].replace("\n", " ") if "P" not in r.stdout else "")
        open(d + "/checked", "a").write(line + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        os.makedirs(out, exist_ok=True)
        ms = mutants()
        print(len(ms), "mutants")
        # stratified by file and by line, so that no long file or line dominates
        R = random.Random(seed)
        by = {}
        for m in ms:
            by.setdefault(m[0], {}).setdefault(m[1], []).append(m)
        pool = []
        for f in by:
            ls = list(by[f].items())
            R.shuffle(ls)
            for _, x in ls[:max(12, len(ls) // 4)]:
                R.shuffle(x)
                pool += x[:2]
        R.shuffle(pool)
        jobs = list(enumerate(pool[:n]))
        W = int(os.environ.get("J", "3"))
        with concurrent.futures.ThreadPoolExecutor(W) as ex:
            list(ex.map(lambda k: worker(k, jobs[k::W], out), range(W)))
    else:
        check(sys.argv[2])
