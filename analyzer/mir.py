"""Abstract interpreter over the monomorphic MIR dumped by /verif/driver.

Domain.  A state maps abstract locations to abstract values.  Values are constants, provenance terms
(`Sym`: "field 1 of argument x", "element 0 of ...", hash-consed), aggregates, sequences, maps and
pointers (location + projection).  Control flow on an unknown discriminant / comparison splits the
state (trace partitioning); every partition keeps the fact that created it (`facts`: discriminants,
equalities, intervals), so that later tests on the same term agree.  No solver is used and nothing
is executed: a partition is kept unless the facts themselves contradict it.
"""
import json, os, re, sys, time, struct, itertools

sys.setrecursionlimit(200000)


class NeedFork(Exception):
    def __init__(self, opts):
        self.opts = opts  # list of (label, applier(state)->bool)


class PanicEx(Exception):
    def __init__(self, msg):
        self.msg = msg


class Undecided(Exception):
    def __init__(self, why):
        self.why = why


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- values
class Sym:
    __slots__ = ("op", "args", "ty", "id", "r")
    table = {}
    n = 0

    def __repr__(self):
        if self.r is None:
            if self.op == "in":
                self.r = str(self.args[0])
            else:
                self.r = "%s(%s)" % (self.op, ",".join(map(repr, self.args)))
                if len(self.r) > 160:
                    self.r = self.r[:150] + "~%d" % self.id
        return self.r


def sym(op, args, ty):
    k = (op, args, ty)
    s = Sym.table.get(k)
    if s is None:
        s = Sym()
        s.op, s.args, s.ty, s.r = op, args, ty, None
        Sym.n += 1
        s.id = Sym.n
        Sym.table[k] = s
    return s


def concat(parts, ty=None):
    out = []
    for p in parts:
        if isinstance(p, Sym) and p.op == "concat":
            ps = list(p.args)
        else:
            ps = [p]
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return sym("concat", tuple(out), STR[0] if ty is None else ty)


STR = [None]
STRFN = {
    "starts_with": lambda v, a: int(v.startswith(a)), "ends_with": lambda v, a: int(v.endswith(a)), "contains": lambda v, a: int(a in v),
    "trim": lambda v: v.strip(), "trim_start": lambda v: v.lstrip(), "trim_end": lambda v: v.rstrip(),
    "to_lowercase": lambda v: v.lower(), "to_uppercase": lambda v: v.upper(), "replace": lambda v, a, b: v.replace(a, b),
    "ascii_lower": lambda v: "".join(c.lower() if c.isascii() else c for c in v), "ascii_upper": lambda v: "".join(c.upper() if c.isascii() else c for c in v),
    "after": lambda v, a: v[len(a):], "before": lambda v, a: v[:len(v) - len(a)] if a else v, "strlen": lambda v: len(v.encode()),
    "trim_start_matches": lambda v, a: _tsm(v, a), "trim_end_matches": lambda v, a: _tem(v, a),
}


def _tsm(v, a):
    while a and v.startswith(a):
        v = v[len(a):]
    return v


def _tem(v, a):
    while a and v.endswith(a):
        v = v[:len(v) - len(a)]
    return v


class Agg:
    __slots__ = ("ty", "v", "f")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, f

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f and self.ty == o.ty

    def __hash__(self):
        return hash((self.ty, self.v, self.f))

    def __repr__(self):
        return "#%s.%s%r" % (self.ty, self.v, self.f)


class Ptr:
    __slots__ = ("a", "p", "m")

    def __init__(self, a, p=(), m=None):
        self.a, self.p, self.m = a, p, m

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.a == o.a and self.p == o.p and self.m == o.m

    def __hash__(self):
        return hash((self.a, self.p, self.m))

    def __repr__(self):
        return "&%r%s%s" % (self.a, "".join("." + str(x[1]) for x in self.p), ":%s" % (self.m,) if self.m else "")


class Seq:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.e == o.e

    def __hash__(self):
        return hash(("seq", self.e))

    def __repr__(self):
        return "[%s]" % ",".join(map(repr, self.e))


class MapV:
    __slots__ = ("e", "kind")

    def __init__(self, e, kind="btree"):
        self.e, self.kind = tuple(e), kind

    def __eq__(self, o):
        return isinstance(o, MapV) and self.e == o.e

    def __hash__(self):
        return hash(("map", self.e))

    def __repr__(self):
        return "{%s}" % ",".join("%r:%r" % x for x in self.e)


class Opq:
    __slots__ = ("k", "d")

    def __init__(self, k, *d):
        self.k, self.d = k, d

    def __eq__(self, o):
        return isinstance(o, Opq) and self.k == o.k and self.d == o.d

    def __hash__(self):
        return hash((self.k, self.d))

    def __repr__(self):
        return "<%s %s>" % (self.k, ",".join(map(repr, self.d)))


class Flt:
    __slots__ = ("b", "w")

    def __init__(self, b, w):
        self.b, self.w = b, w

    def __eq__(self, o):
        return isinstance(o, Flt) and self.b == o.b and self.w == o.w

    def __hash__(self):
        return hash(("flt", self.b, self.w))

    def val(self):
        return struct.unpack("<f", struct.pack("<I", self.b))[0] if self.w == 32 else struct.unpack("<d", struct.pack("<Q", self.b))[0]

    def __repr__(self):
        return "%rf%d" % (self.val(), self.w)


def mkflt(x, w):
    if w == 32:
        try:
            return Flt(struct.unpack("<I", struct.pack("<f", x))[0], 32)
        except OverflowError:
            return Flt(0x7F800000 if x > 0 else 0xFF800000, 32)
    return Flt(struct.unpack("<Q", struct.pack("<d", x))[0], 64)


class Fn:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Fn) and self.i == o.i

    def __hash__(self):
        return hash(("fn", self.i))


class TypeIdV:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, TypeIdV) and self.t == o.t

    def __hash__(self):
        return hash(("tid", self.t))

    def __repr__(self):
        return "TypeId#%s" % self.t


UNINIT = Opq("uninit")
ZST = Opq("zst")


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "facts", "imp", "trace", "log", "env")

    def __init__(self):
        self.mem, self.facts, self.imp, self.trace, self.log, self.env = {}, {}, (), None, (), None

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.facts = self.facts.copy()
        s.imp, s.trace, s.log, s.env = self.imp, self.trace, self.log, self.env
        return s


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.insts, self.statics = d["types"], d["insts"], d["statics"]
        for i, x in enumerate(self.insts):
            x["_id"] = i
        self.cache = {}
        self.roots = dict((n, i) for n, i in d["roots"])
        self.vt = {}
        for t, k, i in d["vt"]:
            self.vt[(t, k)] = i
        self.tr = {}
        for t, k, i in d["tr"]:
            self.tr[(t, k)] = i
        self.tyname = {}
        for i, t in enumerate(self.types):
            if t["n"] == "std::cmp::Ordering" and len(t["v"]) == 3:
                t["v"][0][1] = -1
            self.tyname.setdefault(t["n"], i)
        self.unit = self.tyname.get("()")
        self.usize = self.tyname.get("usize")
        self.bool = self.tyname.get("bool")
        self.str = self.tyname.get("str")
        self.symobj = self.tyname.get("symobj::SymObj", self.tyname.get("witness::symobj::SymObj"))

    def name_of(self, t):
        x = self.types[t]
        if x["k"] == "array":
            return "[%s; %s]" % (self.name_of(x["e"]), x["n"])
        return x["n"] if isinstance(x["n"], str) else x["k"]

    def adt(self, ty):
        t = self.types[ty]
        return t.get("d", "") if t["k"] == "adt" else ""


class Interp:
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.T = prog.types
        self.fid = itertools.count(1)
        self.aid = itertools.count(1)
        self.steps = 0
        self.cfg = cfg or {}
        self.max_steps = self.cfg.get("max_steps", 4_000_000)
        self.max_depth = self.cfg.get("max_depth", 260)
        self.deadline = self.cfg.get("deadline")
        self.maxlen = self.cfg.get("maxlen", 2)
        self.functions = set()
        self.callsites = 0
        self.partitions = 0
        self.models_used = set()
        self.unknown = {}
        self.checks = {}
        self.failures = []
        self.consts = {}
        self.UNIT = Agg(prog.unit, 0, ())
        self.model_cache = {}
        self.opt_cache = {}
        from models import find_model
        self.find_model = find_model

    # ---------- type helpers
    def tk(self, ty):
        return self.T[ty]["k"]

    def fields(self, ty, v):
        t = self.T[ty]
        if t["k"] in ("tuple", "closure"):
            return t["es"]
        return [x[1] for x in t["v"][v][2]]

    def variant(self, ty, name):
        for i, v in enumerate(self.T[ty]["v"]):
            if v[0] == name:
                return i
        raise KeyError(name)

    def is_opt(self, ty):
        return self.p.adt(ty).endswith("option::Option")

    def some(self, ty, v):
        return Agg(ty, 1, (v,))

    def none(self, ty):
        return Agg(ty, 0, ())

    def int_range(self, ty):
        t = self.T[ty]
        if t["k"] == "int":
            b = t["b"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["s"] else (0, (1 << b) - 1)
        if t["k"] == "bool":
            return (0, 1)
        if t["k"] == "char":
            return (0, 0x10FFFF)
        return None

    def wrap(self, x, ty):
        t = self.T[ty]
        if t["k"] == "int":
            b = t["b"]
            x &= (1 << b) - 1
            if t["s"] and x >> (b - 1):
                x -= 1 << b
        return x

    def unk(self, st, ty, why):
        n = next(self.aid)
        st.imp = st.imp + (why,)
        self.unknown[why] = self.unknown.get(why, 0) + 1
        return sym("unk", (n,), ty)

    # ---------- facts
    def norm(self, st, v):
        while type(v) is Sym:
            w = st.facts.get(("=", v))
            if w is None:
                if v.op == "concat":
                    return self.norm_concat(st, v)
                if v.op == "inj" and v.args[0] == "str_of":
                    x = self.norm(st, v.args[1])
                    return str(x) if isinstance(x, int) else v
                if v.op in STRFN:
                    w = self.strfn(st, v)
                    return v if w is None else w
                return v
            v = w
        return v

    def strfn(self, st, v):
        """value of a text function whose arguments are known, else None"""
        xs = [self.norm(st, x) for x in v.args]
        if all(isinstance(x, str) for x in xs):
            return STRFN[v.op](*xs)
        return None

    def feasible(self, st):
        """are the decisions taken about functions of texts consistent with the texts now known?"""
        for k, w in st.facts.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] in ("=", "ne") and type(k[1]) is Sym and k[1].op in STRFN:
                x = self.strfn(st, k[1])
                if x is None:
                    continue
                if k[0] == "=":
                    w = self.norm(st, w)
                    if not isinstance(w, Sym) and w != x:
                        return False
                elif x in [self.norm(st, z) for z in w]:
                    return False
        return True

    def norm_concat(self, st, v):
        ps = [self.norm(st, x) for x in v.args]
        if all(x is y for x, y in zip(ps, v.args)):
            return v
        return concat(ps, v.ty)

    def interval(self, st, s):
        iv = st.facts.get(("iv", s))
        if iv:
            return iv
        r = self.int_range(s.ty) if s.ty is not None else None
        if s.op == "strlen":
            r = (0, self.cfg.get("max_text", (1 << 63) - 1))
        if s.op == "cast":
            # value-preserving casts keep the source interval
            x = self.norm(st, s.args[0])
            if type(x) is Sym:
                i2 = self.interval(st, x)
                if i2 and r and i2[0] >= r[0] and i2[1] <= r[1]:
                    return i2
        return r

    def assume_eq(self, st, a, b):
        """record a == b ; False if contradictory"""
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return True
        if type(a) is not Sym:
            a, b = b, a
        if type(a) is not Sym:
            return False
        if self.known_ne(st, a, b):
            return False
        if type(b) is Sym:
            if b.id > a.id:
                a, b = b, a
            ia, ib = self.interval(st, a), self.interval(st, b)
            if ia and ib:
                lo, hi = max(ia[0], ib[0]), min(ia[1], ib[1])
                if lo > hi:
                    return False
                if a.ty == b.ty:
                    st.facts[("iv", b)] = (lo, hi)
            st.facts[("=", a)] = b
            na = st.facts.get(("ne", a))
            if na:
                st.facts[("ne", b)] = st.facts.get(("ne", b), frozenset()) | na
            return True
        if isinstance(b, int):
            iv = self.interval(st, a)
            if iv and not (iv[0] <= b <= iv[1]):
                return False
        st.facts[("=", a)] = b
        return True

    def known_ne(self, st, a, b):
        """do the disequality facts separate the normalised a and b (one of them symbolic)?"""
        for x, y in ((a, b), (b, a)):
            if type(x) is Sym:
                ne = st.facts.get(("ne", x))
                if ne and (y in ne or any(type(z) is Sym and self.norm(st, z) == y for z in ne)):
                    return True
        return False

    def assume_ne(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return False
        for x, y in ((a, b), (b, a)):
            if type(x) is Sym:
                st.facts[("ne", x)] = st.facts.get(("ne", x), frozenset()) | {y}
                if isinstance(y, int):
                    iv = self.interval(st, x)
                    if iv:
                        lo, hi = iv
                        ns = st.facts[("ne", x)]
                        while lo in ns and lo <= hi:
                            lo += 1
                        while hi in ns and lo <= hi:
                            hi -= 1
                        if lo > hi:
                            return False
                        if lo == hi:
                            st.facts[("=", x)] = lo
                        else:
                            st.facts[("iv", x)] = (lo, hi)
        return True

    def lin(self, v):
        if type(v) is Sym and v.op == "add" and isinstance(v.args[1], int):
            return v.args[0], v.args[1]
        return v, 0

    def eq(self, st, a, b):
        """scalar equality (ints, chars, bools, strings); forks when unknown"""
        a, b = self.norm(st, a), self.norm(st, b)
        if type(a) is not Sym and type(b) is not Sym:
            return a == b
        if a is b:
            return True
        if type(a) is Ptr or type(b) is Ptr:
            raise Undecided("scalar equality of %r and %r" % (a, b))
        (ba, ca), (bb, cb) = self.lin(a), self.lin(b)
        ba, bb = self.norm(st, ba), self.norm(st, bb)
        if (ca or cb):
            if ba is bb:
                return ca == cb
            if isinstance(bb, int) and type(ba) is Sym:
                a, b = ba, bb + cb - ca
            elif isinstance(ba, int) and type(bb) is Sym:
                a, b = bb, ba + ca - cb
            elif isinstance(ba, int) and isinstance(bb, int):
                return ba + ca == bb + cb
        if type(a) is not Sym:
            a, b = b, a
        # (inverse functions) app terms with equal injective heads
        if type(b) is Sym and a.op == b.op == "inj" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            for x, y in zip(a.args[1:], b.args[1:]):
                if not self.eq(st, x, y):
                    return False
            return True
        if a.op == "concat" or (type(b) is Sym and b.op == "concat"):
            r = self.concat_eq(st, a, b)
            if r is not None:
                return r
        if self.known_ne(st, a, b):
            return False
        if isinstance(b, int):
            iv = self.interval(st, a)
            if iv and not (iv[0] <= b <= iv[1]):
                return False
        if type(b) is Sym and ("ord",) in st.facts:
            x, y = self.reach(st, a, b), self.reach(st, b, a)
            if x == 2 or y == 2:
                return False
            if x and y:
                return True
        raise NeedFork([("eq(%r,%r)" % (a, b), lambda s: self.assume_eq(s, a, b)),
                        ("ne(%r,%r)" % (a, b), lambda s: self.assume_ne(s, a, b))])

    def concat_eq(self, st, a, b):
        """equality of texts made of pieces: True or False when the pieces decide it, else None"""
        xs = list(a.args) if type(a) is Sym and a.op == "concat" else [a]
        ys = list(b.args) if type(b) is Sym and b.op == "concat" else [b]
        # strip common ends
        for end in (0, -1):
            while xs and ys:
                x, y = xs[end], ys[end]
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if end == 0:
                        if x[:n] != y[:n]:
                            return False
                        x, y = x[n:], y[n:]
                    else:
                        if x[len(x) - n:] != y[len(y) - n:]:
                            return False
                        x, y = x[:len(x) - n], y[:len(y) - n]
                    xs[end], ys[end] = x, y
                    if not x:
                        xs.pop(end)
                    if not y:
                        ys.pop(end)
                elif x is y:
                    xs.pop(end)
                    ys.pop(end)
                else:
                    break
        if not xs and not ys:
            return True
        if len(xs) == 1 and len(ys) == 1:
            return self.eq(st, xs[0], ys[0])
        if not xs or not ys:
            rest = xs or ys
            if any(isinstance(x, str) or (type(x) is Sym and x.op == "inj") for x in rest):
                return False
        return None

    def lt(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        (ba, ca), (bb, cb) = self.lin(a), self.lin(b)
        ba, bb = self.norm(st, ba), self.norm(st, bb)
        if isinstance(ba, int):
            ba, ca = None, ba + ca
        if isinstance(bb, int):
            bb, cb = None, bb + cb
        if ba is bb:
            return ca < cb
        if ba is not None and bb is None:
            k = cb - ca  # ba < k
            iv = self.interval(st, ba)
            if iv:
                if iv[1] < k:
                    return True
                if iv[0] >= k:
                    return False

                def yes(s):
                    return self.set_iv(s, ba, iv[0], k - 1)

                def no(s):
                    return self.set_iv(s, ba, k, iv[1])
                raise NeedFork([("%r<%d" % (ba, k), yes), ("%r>=%d" % (ba, k), no)])
        if ba is None and bb is not None:
            k = ca - cb  # k < bb
            iv = self.interval(st, bb)
            if iv:
                if iv[0] > k:
                    return True
                if iv[1] <= k:
                    return False

                def yes(s):
                    return self.set_iv(s, bb, k + 1, iv[1])

                def no(s):
                    return self.set_iv(s, bb, iv[0], k)
                raise NeedFork([("%d<%r" % (k, bb), yes), ("%d>=%r" % (k, bb), no)])
        # two symbols (strings, floats, or ints): ordering atoms
        if ba is not None and bb is not None and ca == cb:
            ia = self.interval(st, ba) if type(ba) is Sym else None
            ib = self.interval(st, bb) if type(bb) is Sym else None
            if ia and ib:
                if ia[1] < ib[0]:
                    return True
                if ia[0] >= ib[1]:
                    return False
            r = self.order(st, ba, bb)
            if r is not None:
                return r

            def yes(s):
                s.facts[("ord",)] = s.facts.get(("ord",), ()) + ((ba, bb, True),)
                return self.assume_ne(s, ba, bb)

            def no(s):
                s.facts[("ord",)] = s.facts.get(("ord",), ()) + ((bb, ba, False),)
                return True
            raise NeedFork([("%r<%r" % (ba, bb), yes), ("%r>=%r" % (ba, bb), no)])
        return self.truth(st, sym("ltu", (a, b), self.p.bool))

    def reach(self, st, a, b):
        """0: no known order, 1: a <= b, 2: a < b, by the order facts"""
        es = [(self.norm(st, x), self.norm(st, y), t) for x, y, t in st.facts.get(("ord",), ())]
        if not es:
            return 0
        cs = sorted({x for e in es for x in e[:2] if isinstance(x, str)})
        es += [(x, y, True) for x, y in zip(cs, cs[1:])]
        best = {a: 1}
        work = [a]
        while work:
            x = work.pop()
            for p, q, t in es:
                if p is x or p == x:
                    w = 2 if t or best[x] == 2 or self.known_ne(st, p, q) else 1
                    if best.get(q, 0) < w:
                        best[q] = w
                        work.append(q)
        w = best.get(b, 0)
        if w == 1 and a is not b and self.known_ne(st, a, b):
            w = 2
        return w

    def order(self, st, a, b):
        """a < b decided by the order facts, or None"""
        if self.reach(st, a, b) == 2:
            return True
        if self.reach(st, b, a):
            return False
        return None

    def set_iv(self, s, x, lo, hi):
        if lo > hi:
            return False
        ns = s.facts.get(("ne", x), ())
        while lo in ns and lo <= hi:
            lo += 1
        while hi in ns and lo <= hi:
            hi -= 1
        if lo > hi:
            return False
        if lo == hi:
            return self.assume_eq(s, x, lo)
        s.facts[("iv", x)] = (lo, hi)
        return True

    def truth(self, st, v):
        v = self.norm(st, v)
        if isinstance(v, (int, bool)):
            return bool(v)
        if type(v) is Sym:
            if v.op == "not":
                return not self.truth(st, v.args[0])
            raise NeedFork([("%r" % v, lambda s: self.assume_eq(s, v, 1)), ("!%r" % v, lambda s: self.assume_eq(s, v, 0))])
        raise Undecided("truth of %r" % (v,))

    def choose(self, st, key, opts, label=None):
        f = st.facts.get(key)
        if f is not None:
            return f
        opts = list(opts)
        if len(opts) == 1:
            st.facts[key] = opts[0]
            return opts[0]

        def mk(o):
            def ap(s):
                s.facts[key] = o
                return True
            return ap
        raise NeedFork([("%s=%s" % (label or key, o), mk(o)) for o in opts])

    # ---------- symbolic expansion
    def depth(self, s, ty=None):
        n = 0
        while type(s) is Sym:
            if s.op in ("elem", "mapk", "mapv", "deref", "fld"):
                if s.op in ("elem", "mapv", "mapk"):
                    n += 1
                s = s.args[0]
            else:
                break
        return n

    def variants_of(self, st, s):
        """allowed variants of a symbolic enum (a bound on the abstract input, see cfg)"""
        t = self.T[s.ty]
        names = [v[0] for v in t["v"]]
        d = t.get("d", "")
        lim = self.cfg.get("limit", {})
        for key, fn in lim.items():
            if d.endswith(key):
                r = fn(self, s, names)
                if r is not None:
                    return [names.index(x) for x in r]
        out = []
        for i, v in enumerate(t["v"]):
            if any(self.tk(f[1]) == "never" or (self.tk(f[1]) == "adt" and self.T[f[1]]["ak"] == "enum" and not self.T[f[1]]["v"]) for f in v[2]):
                continue
            out.append(i)
        return out

    def expand(self, st, s):
        """one level of structure of a symbolic value"""
        s = self.norm(st, s)
        if type(s) is not Sym:
            return s
        t = self.T[s.ty]
        k = t["k"]
        if k in ("tuple", "closure"):
            return Agg(s.ty, 0, tuple(sym("fld", (s, 0, i), f) for i, f in enumerate(t["es"])))
        if k in ("ref", "ptr"):
            return self.lazy_ptr(st, s, t["e"])
        if k == "array":
            return Seq(sym("elem", (s, i), t["e"]) for i in range(t["n"]))
        if k == "slice":
            n = self.choose(st, ("len", s), range(0, self.maxlen_of(s) + 1), "len(%r)" % s)
            return Seq(sym("elem", (s, i), t["e"]) for i in range(n))
        if k == "adt":
            d = t["d"]
            if d.endswith("boxed::Box"):
                return self.lazy_ptr(st, s, t["a"][0])
            if d.endswith("vec::Vec"):
                n = self.choose(st, ("len", s), range(0, self.maxlen_of(s) + 1), "len(%r)" % s)
                return Seq(sym("elem", (s, i), t["a"][0]) for i in range(n))
            if d.endswith("BTreeMap") or d.endswith("HashMap"):
                n = self.choose(st, ("len", s), range(0, self.maxlen_of(s) + 1), "len(%r)" % s)
                ks = [sym("mapk", (s, i), t["a"][0]) for i in range(n)]
                if not st.facts.get(("mk", s)):
                    st.facts[("mk", s)] = True
                    for i in range(n):
                        for j in range(i):
                            x, y = self.norm(st, ks[i]), self.norm(st, ks[j])
                            if x == y:
                                raise Infeasible()
                            for x, y in ((x, y), (y, x)):
                                if type(x) is Sym:
                                    st.facts[("ne", x)] = st.facts.get(("ne", x), frozenset()) | {y}
                            if d.endswith("BTreeMap"):
                                st.facts[("ord",)] = st.facts.get(("ord",), ()) + ((ks[j], ks[i], True),)
                return MapV(((ks[i], sym("mapv", (s, i), t["a"][1])) for i in range(n)), "btree" if d.endswith("BTreeMap") else "hash")
            if d.endswith("string::String"):
                return s
            if t["ak"] == "struct":
                return Agg(s.ty, 0, tuple(sym("fld", (s, 0, i), f[1]) for i, f in enumerate(t["v"][0][2])))
            if t["ak"] == "enum":
                v = self.choose(st, ("d", s), self.variants_of(st, s), "variant(%r)" % s)
                if s.op == "mapk":
                    self.key_facts(st, s, v, t)
                return Agg(s.ty, v, tuple(sym("fld", (s, v, i), f[1]) for i, f in enumerate(t["v"][v][2])))
        return s

    def key_facts(self, st, s, v, t):
        """distinct, ordered map keys of an enum type: facts about their payloads"""
        if st.facts.get(("kf", s)):
            return
        st.facts[("kf", s)] = True
        m, i = s.args
        n = st.facts.get(("len", m))
        if n is None:
            return
        for j in range(n):
            if j == i:
                continue
            o = sym("mapk", (m, j), s.ty)
            vo = st.facts.get(("d", o))
            if vo is None or not st.facts.get(("kf", o)):
                continue
            if vo != v:
                if (vo < v) != (j < i):
                    raise Infeasible()
                continue
            if len(t["v"][v][2]) == 0:
                raise Infeasible()
            if len(t["v"][v][2]) == 1:
                ft = t["v"][v][2][0][1]
                lo, hi = (sym("fld", (o, v, 0), ft), sym("fld", (s, v, 0), ft)) if j < i else (sym("fld", (s, v, 0), ft), sym("fld", (o, v, 0), ft))
                for x, y in ((lo, hi), (hi, lo)):
                    st.facts[("ne", x)] = st.facts.get(("ne", x), frozenset()) | {y}
                st.facts[("ord",)] = st.facts.get(("ord",), ()) + ((lo, hi, True),)

    def maxlen_of(self, s):
        f = self.cfg.get("maxlen_fn")
        if f:
            r = f(self, s)
            if r is not None:
                return r
        return self.maxlen if self.depth(s) == 0 else min(1, self.maxlen)

    def lazy_ptr(self, st, s, pointee):
        a = ("L", s)
        t = self.T[pointee]
        m = None
        pt = pointee
        if t["k"] == "dyn":
            pt = self.p.symobj
            m = ("vt", pt)
        if a not in st.mem:
            st.mem[a] = sym("deref", (s,), pt)
        return Ptr(a, (), m)

    # ---------- memory
    def read_path(self, st, v, path):
        for i, e in enumerate(path):
            if type(v) is Sym:
                v = self.norm(st, v)
            tv = type(v)
            if e[0] == "F":
                if tv is Sym:
                    t = self.T[v.ty]
                    if v.op == "unk":
                        v = self.unk_field(st, v, e)
                        continue
                    if t["k"] == "adt" and t["ak"] == "enum" and e[2] is not None:
                        if self.p.adt(v.ty) and st.facts.get(("d", v)) is None:
                            # reading a field under a downcast fixes the variant
                            v = sym("fld", (v, e[2], e[1]), t["v"][e[2]][2][e[1]][1])
                            continue
                    v = self.expand(st, v)
                    tv = type(v)
                if tv is Ptr:
                    # Box / NonNull / Unique wrappers are transparent
                    continue
                if tv is Agg:
                    if e[2] is not None and v.v != e[2]:
                        raise Infeasible()
                    if e[1] >= len(v.f):
                        raise Undecided("field %s of %r" % (e, v))
                    v = v.f[e[1]]
                    continue
                if tv is Opq and v.k == "wrap":
                    v = v.d[0]
                    continue
                raise Undecided("project %r from %s %r" % (e, tv.__name__, v))
            elif e[0] == "I":
                if tv is Sym:
                    v = self.expand(st, v)
                    tv = type(v)
                if tv is Seq:
                    if not (0 <= e[1] < len(v.e)):
                        raise Undecided("index %r out of range" % (e[1],))
                    v = v.e[e[1]]
                    continue
                raise Undecided("index into %r" % (v,))
            elif e[0] in ("MK", "MV"):
                if tv is Sym:
                    v = self.expand(st, v)
                    tv = type(v)
                if tv is MapV:
                    # keyed by key value: stable under insertion / removal of others
                    for k, x in v.e:
                        if k == e[1]:
                            v = k if e[0] == "MK" else x
                            break
                    else:
                        raise Undecided("map entry vanished")
                    continue
                raise Undecided("map path into %r" % (v,))
            elif e[0] == "W":  # transparent wrapper payload (locks, cells ...)
                if tv is Opq:
                    v = v.d[e[1]]
                    continue
                raise Undecided("wrapper path into %r" % (v,))
            else:
                raise Undecided("path %r" % (e,))
        return v

    def unk_field(self, st, v, e):
        t = self.T[v.ty]
        try:
            if t["k"] in ("tuple", "closure"):
                ft = t["es"][e[1]]
            else:
                ft = t["v"][e[2] or 0][2][e[1]][1]
        except Exception:
            raise Undecided("field of unknown")
        return sym("unkf", (v, e[2], e[1]), ft)

    def write_path(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if type(v) is Sym:
            v = self.norm(st, v)
            if e[0] == "F" and e[2] is not None and type(v) is Sym:
                st.facts.setdefault(("d", v), e[2])
            v = self.expand(st, v)
        if e[0] == "F":
            if type(v) is Ptr:
                return self.write_path(st, v, path[1:], new)
            if type(v) is Opq and v.k == "uninit":
                v = Agg(None, e[2] or 0, ())
            if type(v) is Agg:
                f = list(v.f)
                while len(f) <= e[1]:
                    f.append(UNINIT)
                f[e[1]] = self.write_path(st, f[e[1]], path[1:], new)
                return Agg(v.ty, v.v, tuple(f))
            if type(v) is Opq and v.k == "wrap":
                return Opq("wrap", self.write_path(st, v.d[0], path[1:], new))
        elif e[0] == "I" and type(v) is Seq:
            l = list(v.e)
            if not (0 <= e[1] < len(l)):
                raise Undecided("write out of range")
            l[e[1]] = self.write_path(st, l[e[1]], path[1:], new)
            return Seq(l)
        elif e[0] == "MV" and type(v) is MapV:
            return MapV(((k, self.write_path(st, x, path[1:], new) if k == e[1] else x) for k, x in v.e), v.kind)
        elif e[0] == "W" and type(v) is Opq:
            d = list(v.d)
            d[e[1]] = self.write_path(st, d[e[1]], path[1:], new)
            return Opq(v.k, *d)
        raise Undecided("write %r into %r" % (e, v))

    def load(self, st, ptr):
        if type(ptr) is Sym:
            ptr = self.expand(st, ptr)
        if type(ptr) is not Ptr:
            raise Undecided("load from %r" % (ptr,))
        v = st.mem.get(ptr.a)
        if v is None:
            v = self.lazy_mem(st, ptr.a)
        return self.read_path(st, v, ptr.p)

    def lazy_mem(self, st, a):
        if isinstance(a, tuple) and a[0] == "static":
            sd = self.p.statics[a[1]]
            v = self.const(st, sd["v"], sd["t"]) if sd["v"] is not None else sym("static", (a[1],), sd["t"])
            st.mem[a] = v
            return v
        if isinstance(a, tuple) and a[0] == "K":
            return self.consts[a]
        if isinstance(a, tuple) and a[0] == "O":
            st.mem[a] = a[1]
            return a[1]
        if isinstance(a, tuple) and a[0] == "L":
            s = a[1]
            t = self.T[s.ty]
            e = t["e"] if t["k"] in ("ref", "ptr") else t["a"][0]
            if self.T[e]["k"] == "dyn":
                e = self.p.symobj
            v = sym("deref", (s,), e)
            st.mem[a] = v
            return v
        raise Undecided("read of missing location %r" % (a,))

    def store(self, st, ptr, val):
        if type(ptr) is Sym:
            ptr = self.expand(st, ptr)
        if type(ptr) is not Ptr:
            raise Undecided("store to %r" % (ptr,))
        if not ptr.p:
            st.mem[ptr.a] = val
            return
        v = st.mem.get(ptr.a)
        if v is None:
            try:
                v = self.lazy_mem(st, ptr.a)
            except Undecided:
                v = UNINIT
        st.mem[ptr.a] = self.write_path(st, v, ptr.p, val)

    def alloc(self, st, val):
        a = next(self.aid)
        st.mem[a] = val
        return Ptr(a)

    # ---------- constants
    def const(self, st, j, ty):
        if isinstance(j, (int, bool)):
            return int(j)
        t = self.T[ty]
        if "agg" in j:
            v, fs = j["agg"]
            if t["k"] == "adt":
                d = t["d"]
                if d.endswith("vec::Vec"):
                    return Seq(())
                if d.endswith("string::String"):
                    return ""
                if d.endswith("BTreeMap") or d.endswith("HashMap"):
                    return MapV((), "btree" if d.endswith("BTreeMap") else "hash")
            fts = self.fields(ty, v) if t["k"] in ("tuple", "closure", "adt") else []
            return Agg(ty, v, tuple(self.const(st, x, ft) for x, ft in zip(fs, fts)))
        if "seq" in j:
            return Seq(self.const(st, x, t["e"]) for x in j["seq"])
        if "str" in j:
            return j["str"]
        if "f" in j:
            return Flt(j["f"], t["b"])
        if "ref" in j:
            e = t["e"] if t["k"] in ("ref", "ptr") else ty
            if "vt" in j:
                inner = self.const(st, j["ref"], j["vt"])
                m = ("vt", j["vt"])
            else:
                inner = self.const(st, j["ref"], e)
                m = None
            a = ("K", id(j))
            self.consts[a] = inner
            return Ptr(a, (), m)
        if "fn" in j:
            return Fn(j["fn"])
        if "static" in j:
            return Ptr(("static", j["static"]))
        if "typeid" in j:
            return TypeIdV(j["typeid"])
        if "z" in j:
            return ZST
        if "dangling" in j:
            return Ptr(("dangling", j["dangling"]))
        if "opaque" in j:
            return Opq("constopaque", ty)
        raise Undecided("const %r" % (j,))

    # ---------- places
    def place(self, st, fr, pl):
        """-> Ptr location"""
        local, proj = pl
        a, p, m = (fr, local), (), None
        var = None
        for e in proj:
            if e == "*":
                v = st.mem.get(a)
                if v is None:
                    v = self.lazy_mem(st, a)
                v = self.read_path(st, v, p)
                v = self.norm(st, v)
                if type(v) is Sym:
                    if v.op in ("unk", "unkf"):
                        raise Undecided("deref of unknown value")
                    v = self.expand(st, v)
                if type(v) is not Ptr:
                    raise Undecided("deref of %r" % (v,))
                a, p, m = v.a, v.p, v.m
                var = None
            elif e[0] == "f":
                p = p + (("F", e[1], var),)
                var = None
                m = None
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "i":
                idx = self.norm(st, st.mem[(fr, e[1])])
                p, m = self.index_path(st, a, p, m, idx), None
            elif e[0] == "ci":
                cur = Ptr(a, p, m)
                n = self.seq_len(st, cur)
                lo = m[1] if m and m[0] == "sl" else 0
                idx = n - e[1] if e[3] else e[1]
                p, m = p + (("I", lo + idx),), None
            elif e[0] == "ss":
                cur = Ptr(a, p, m)
                n = self.seq_len(st, cur)
                lo = m[1] if m and m[0] == "sl" else 0
                to = n - e[2] if e[3] else e[2]
                m = ("sl", lo + e[1], lo + to)
            elif e[0] == "oc":
                pass
            else:
                raise Undecided("projection %r" % (e,))
        return Ptr(a, p, m)

    def index_path(self, st, a, p, m, idx):
        lo = m[1] if m and m[0] == "sl" else 0
        if isinstance(idx, int):
            return p + (("I", lo + idx),)
        n = self.seq_len(st, Ptr(a, p, m))
        for k in range(n):
            if self.eq(st, idx, k):
                return p + (("I", lo + k),)
        raise Undecided("symbolic index out of range")

    def seq_val(self, st, ptr):
        v = self.load(st, ptr)
        v = self.norm(st, v)
        if type(v) is Sym:
            v = self.expand(st, v)
        if type(v) is not Seq:
            raise Undecided("sequence expected, got %r" % (v,))
        return v

    def seq_len(self, st, ptr):
        if type(ptr) is Sym:
            ptr = self.expand(st, ptr)
        if ptr.m and ptr.m[0] == "sl":
            return ptr.m[2] - ptr.m[1]
        return len(self.seq_val(st, ptr).e)

    def seq_elems(self, st, ptr):
        """[(elem pointer)] of a slice pointer"""
        if type(ptr) is Sym:
            ptr = self.expand(st, ptr)
        n = self.seq_len(st, ptr)
        lo = ptr.m[1] if ptr.m and ptr.m[0] == "sl" else 0
        return [Ptr(ptr.a, ptr.p + (("I", lo + i),)) for i in range(n)]

    def operand(self, st, fr, o):
        if o[0] == "k":
            j = o[1]
            if isinstance(j, int):
                return j
            return self.const(st, j, o[2])
        pt = self.place(st, fr, o[1])
        v = st.mem.get(pt.a)
        if v is None:
            t = self.cur_lt[o[1][0]] if not o[1][1] else None
            if t is not None and self.is_zst(t):
                return self.zst_value(t)
            v = self.lazy_mem(st, pt.a)
        v = self.read_path(st, v, pt.p)
        return self.norm(st, v)

    def is_zst(self, ty):
        t = self.T[ty]
        if t["k"] in ("fndef",):
            return True
        if t["k"] in ("tuple", "closure"):
            return all(self.is_zst(x) for x in t["es"])
        if t["k"] == "adt" and t["ak"] == "struct":
            return all(self.is_zst(f[1]) for f in t["v"][0][2])
        return False

    def zst_value(self, ty):
        t = self.T[ty]
        if t["k"] in ("tuple", "closure"):
            return Agg(ty, 0, tuple(self.zst_value(x) for x in t["es"]))
        if t["k"] == "adt":
            return Agg(ty, 0, tuple(self.zst_value(f[1]) for f in t["v"][0][2]))
        return ZST

    # ---------- rvalues
    def binop(self, st, op, a, b, ty):
        a, b = self.norm(st, a), self.norm(st, b)
        op = op.replace("Unchecked", "")
        if isinstance(a, Flt) or isinstance(b, Flt) or (ty is not None and self.tk(ty) == "float"):
            return self.float_bin(st, op, a, b, ty)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("Eq", "Ne"):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    r = (a.a == b.a and a.p == b.p)
                    return int(r if op == "Eq" else not r)
            raise Undecided("pointer op %s %r %r" % (op, a, b))
        if op in ("Eq", "Ne"):
            if isinstance(a, (Opq, Agg)) and isinstance(b, (Opq, Agg)) and a == b:
                return int(op == "Eq")
            r = self.eq(st, a, b)
            return int(r if op == "Eq" else not r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op == "Lt":
                return int(self.lt(st, a, b))
            if op == "Gt":
                return int(self.lt(st, b, a))
            if op == "Le":
                return int(not self.lt(st, b, a))
            return int(not self.lt(st, a, b))
        if op == "Cmp":
            if self.eq(st, a, b):
                return Agg(ty, 1, ())
            return Agg(ty, 0 if self.lt(st, a, b) else 2, ())
        if isinstance(a, int) and isinstance(b, int):
            if op == "Add":
                return self.wrap(a + b, ty)
            if op == "Sub":
                return self.wrap(a - b, ty)
            if op == "Mul":
                return self.wrap(a * b, ty)
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op in ("Div", "Rem"):
                if b == 0:
                    raise PanicEx("division by zero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "Div" else a - q * b
            if op == "Shl":
                return self.wrap(a << (b & 127), ty)
            if op == "Shr":
                return a >> (b & 127)
        if op == "Add":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                base, c = self.lin(a)
                if c + b == 0:
                    return base
                return sym("add", (base, c + b), ty)
        if op == "Sub" and isinstance(b, int):
            base, c = self.lin(a)
            if c - b == 0:
                return base
            return sym("add", (base, c - b), ty)
        if op in ("BitAnd", "BitOr", "BitXor") and ty is not None and self.tk(ty) == "bool":
            x = self.truth(st, a)
            if op == "BitAnd":
                return int(x and self.truth(st, b))
            if op == "BitOr":
                return int(x or self.truth(st, b))
            return int(x != self.truth(st, b))
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and type(a) is Sym and type(b) is Sym and b.id < a.id:
            a, b = b, a
        return sym("bin", (op, a, b), ty)

    def isnan(self, st, z):
        if isinstance(z, Flt):
            return z.val() != z.val()
        if type(z) is Sym and z.op == "cast" and self.tk(z.ty) == "float":
            src = z.args[0]
            if type(src) is Sym and self.tk(src.ty) == "float":
                return self.isnan(st, self.norm(st, src))
            return False
        return self.truth(st, sym("isnan", (z,), self.p.bool))

    def fkey(self, x):
        """position of a float that is no number's complement in the total order of numbers (-0 is 0)"""
        if isinstance(x, Flt) and x.val() == 0:
            x = mkflt(0.0, x.w)
        return sym("fkey", (x,), self.p.str)

    def float_bin(self, st, op, a, b, ty):
        if isinstance(a, Flt) and isinstance(b, Flt):
            x, y = a.val(), b.val()
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            if op in ("Add", "Sub", "Mul"):
                return mkflt({"Add": x + y, "Sub": x - y, "Mul": x * y}[op], a.w)
            if op == "Div" and y != 0:
                return mkflt(x / y, a.w)
        if op in ("Eq", "Ne"):
            if self.isnan(st, a) or self.isnan(st, b):
                return int(op == "Ne")
            r = self.eq(st, self.fkey(a), self.fkey(b))
            return int(r == (op == "Eq"))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if self.isnan(st, a) or self.isnan(st, b):
                return 0
            if op in ("Gt", "Ge"):
                a, b = b, a
                op = {"Gt": "Lt", "Ge": "Le"}[op]
            a, b = self.fkey(a), self.fkey(b)
            if op == "Lt":
                return int(self.lt(st, a, b))
            return int(not self.lt(st, b, a))
        return sym("fbin", (op, a, b), ty)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            return self.place(st, fr, r[2])
        if k == "aadt":
            ops = tuple(self.operand(st, fr, o) for o in r[3])
            if r[4] is not None:
                return Opq("union", r[4], ops[0])
            t = self.T[r[1]]
            if t["k"] == "adt" and t["d"].endswith("ptr::NonNull"):
                return ops[0]
            return Agg(r[1], r[2], ops)
        if k == "atup":
            ops = tuple(self.operand(st, fr, o) for o in r[1])
            return Agg(self.tuple_ty(), 0, ops) if ops else self.UNIT
        if k == "aseq":
            return Seq(self.operand(st, fr, o) for o in r[1])
        if k == "rep":
            v = self.operand(st, fr, r[1])
            return Seq((v,) * r[2])
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == "cbin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            ov = 0
            if isinstance(a, int) and isinstance(b, int):
                x = {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(r[1])
                if x is not None and self.wrap(x, r[4]) != x:
                    ov = 1
            elif r[1] == "Sub":
                # underflow of unsigned subtraction is decided by the ordering of the operands
                t = self.T[r[4]]
                if t["k"] == "int" and not t["s"]:
                    ov = int(self.lt(st, a, b))
            v = self.binop(st, r[1], a, b, r[4])
            return Agg(None, 0, (v, ov))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, int):
                    return int(not v) if self.tk(r[3]) == "bool" else self.wrap(~v, r[3])
                if type(v) is Sym and v.op == "not":
                    return v.args[0]
                return sym("not", (v,), r[3])
            if r[1] == "Neg":
                if isinstance(v, int):
                    return self.wrap(-v, r[3])
                if isinstance(v, Flt):
                    return Flt(v.b ^ (1 << (v.w - 1)), v.w)
                return sym("neg", (v,), r[3])
            if r[1] == "PtrMetadata":
                if type(v) is Sym:
                    v = self.expand(st, v)
                if isinstance(v, Ptr):
                    if v.m and v.m[0] == "vt":
                        return Opq("vtable", v.m[1])
                    x = self.load(st, v)
                    if isinstance(x, str):
                        return len(x.encode())
                    if type(x) is Sym and self.tk(x.ty) == "str":
                        return sym("strlen", (x,), self.p.usize)
                    return self.seq_len(st, v)
            raise Undecided("unop %s" % r[1])
        if k == "len":
            return self.seq_len(st, self.place(st, fr, r[1]))
        if k == "disc":
            pt = self.place(st, fr, r[1])
            v = st.mem.get(pt.a)
            if v is None and isinstance(pt.a, tuple) and len(pt.a) == 2 and pt.a[0] == fr and not pt.p:
                # never written: a zero-sized value of the only inhabited variant
                inh = [x for x in self.T[r[2]].get("v", ()) if not any(self.tk(f[1]) == "never" for f in x[2])]
                if len(inh) == 1:
                    return inh[0][1]
            if v is None:
                v = self.lazy_mem(st, pt.a)
            v = self.norm(st, self.read_path(st, v, pt.p))
            return self.discr(st, v, r[2])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "arawptr":
            ops = [self.operand(st, fr, o) for o in r[2]]
            p, m = ops
            if isinstance(p, Ptr):
                if isinstance(m, Opq) and m.k == "vtable":
                    return Ptr(p.a, p.p, ("vt", m.d[0]))
                if isinstance(m, int) and self.tk(r[1]) == "slice":
                    lo = p.m[1] if p.m and p.m[0] == "sl" else 0
                    return Ptr(p.a, p.p, ("sl", lo, lo + m))
                return Ptr(p.a, p.p, p.m)
            raise Undecided("raw pointer aggregate")
        raise Undecided("rvalue %s" % k)

    _tup = None

    def tuple_ty(self):
        return None

    def discr(self, st, v, ty):
        if isinstance(v, Opq) and v.k == "ordering":
            return v.d[0]
        if type(v) is Sym:
            if v.op in ("unk", "unkf"):
                t = self.T[v.ty]
                vi = self.choose(st, ("d", v), range(len(t["v"])), "unk")
                return t["v"][vi][1]
            v = self.expand(st, v)
        if isinstance(v, Agg):
            t = self.T[ty]
            if t["k"] == "adt" and t["ak"] == "enum":
                d = t["v"][v.v][1]
                return d
            return 0
        raise Undecided("discriminant of %r" % (v,))

    def pointee(self, ty):
        t = self.T[ty]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt":
            d = t["d"]
            if d.endswith("boxed::Box") or d.endswith("Rc") or d.endswith("Arc") or d.endswith("Pin") or d.endswith("NonNull") or d.endswith("Unique"):
                return t["a"][0]
        return None

    def cast(self, st, kind, v, ty, src):
        if kind == "Unsize":
            sp, tp = self.pointee(src), self.pointee(ty)
            if type(v) is Sym:
                v = self.expand(st, v)
            if not isinstance(v, Ptr):
                return v
            if tp is not None and self.tk(tp) == "dyn" and self.tk(sp) != "dyn":
                return Ptr(v.a, v.p, ("vt", sp))
            return v
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype", "MutToConstPointer", "ArrayToPointer", "UnsafeFnPointer"):
            if kind == "Transmute":
                return self.transmute(st, v, ty, src)
            return v
        if kind == "IntToInt":
            if isinstance(v, int):
                return self.wrap(v, ty)
            if type(v) is Sym:
                iv = self.interval(st, v)
                r = self.int_range(ty)
                if iv and r and iv[0] == iv[1]:
                    return self.wrap(iv[0], ty)
                if src == ty:
                    return v
                if v.op == "cast" and type(v.args[0]) is Sym and self.norm(st, v.args[0]) is v.args[0] and v.args[0].ty == ty and self.int_range(v.ty) and r:
                    # there and back again: nothing was cut off
                    mid = self.int_range(v.ty)
                    inner = self.interval(st, v.args[0])
                    if mid[1] - mid[0] >= r[1] - r[0] or (inner and inner[0] >= mid[0] and inner[1] <= mid[1]):
                        return v.args[0]
                return sym("cast", (v,), ty)
            if isinstance(v, Agg) and not v.f:
                t = self.T[src]
                if t["k"] == "adt":
                    return self.wrap(t["v"][v.v][1], ty)
            return v if isinstance(v, Opq) else sym("cast", (v,), ty)
        if kind in ("IntToFloat", "FloatToFloat"):
            if isinstance(v, int):
                return mkflt(float(v), self.T[ty]["b"])
            if isinstance(v, Flt):
                return mkflt(v.val(), self.T[ty]["b"])
            if src == ty:
                return v
            if type(v) is Sym and v.op == "cast" and type(v.args[0]) is Sym and v.args[0].ty == ty and self.tk(ty) == "float" and self.T[ty]["b"] == 32:
                return v.args[0]
            return sym("cast", (v,), ty)
        if kind == "FloatToInt":
            if isinstance(v, Flt):
                x = v.val()
                r = self.int_range(ty)
                if x != x:
                    return 0
                if x in (float("inf"), float("-inf")):
                    return r[1] if x > 0 else r[0]
                return max(r[0], min(r[1], int(x)))
            return sym("cast", (v,), ty)
        if kind in ("Reify", "ClosureFn"):
            t = self.T[src]
            if t["k"] == "fndef" and t["i"] is not None:
                return Fn(t["i"])
        if kind in ("PointerExposeAddress", "PointerWithExposedProvenance", "FnPtrToPtr"):
            return v
        raise Undecided("cast %s" % kind)

    def transmute(self, st, v, ty, src):
        if src == ty or isinstance(v, Ptr):
            return v
        if type(v) is Sym and self.tk(src) in ("ref", "ptr") and self.tk(ty) in ("ref", "ptr"):
            return self.expand(st, v)
        ts, tt = self.T[src], self.T[ty]
        if isinstance(v, int) and tt["k"] in ("int", "bool", "char"):
            return self.wrap(v, ty)
        if isinstance(v, int) and tt["k"] == "float":
            return Flt(v & ((1 << tt["b"]) - 1), tt["b"])
        if isinstance(v, Flt) and tt["k"] == "int":
            return self.wrap(v.b, ty)
        if tt["k"] == "adt" and tt["d"].endswith("Option") and ts["k"] == "int" and (isinstance(v, int) or type(v) is Sym):
            # Option<NonZero<_>>: zero is None
            if self.eq(st, v, 0):
                return self.none(ty)
            if type(v) is Sym and v.op == "nzget":
                return self.some(ty, v.args[0])
            return self.some(ty, Opq("nz", v))
        if ts["k"] == "adt" and ts["d"].endswith("Option") and tt["k"] == "int" and self.T[ts["a"][0]]["k"] == "adt" and self.T[ts["a"][0]]["d"].endswith("NonZero"):
            if type(v) is Sym:
                v = self.expand(st, v)
            if isinstance(v, Agg):
                if not v.f:
                    return 0
                x = self.norm(st, v.f[0])
                return x.d[0] if isinstance(x, Opq) and x.k == "nz" else sym("nzget", (x,), ty)
        if isinstance(v, Opq) and v.k == "nz" and tt["k"] == "int":
            return v.d[0]
        # newtype wrapping / unwrapping
        if tt["k"] == "adt" and tt["ak"] == "struct" and len(tt["v"][0][2]) == 1 and tt["v"][0][2][0][1] == src:
            return Agg(ty, 0, (v,))
        if isinstance(v, Agg) and len(v.f) == 1:
            return v.f[0]
        if type(v) is Sym:
            return sym("transmute", (v,), ty)
        if isinstance(v, (Seq, MapV, str)):
            return v
        raise Undecided("transmute %s -> %s" % (ts["n"], tt["n"]))

    # ---------- execution
    def tick(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided("step budget exhausted")
        if self.deadline and self.steps % 2048 == 0 and time.time() > self.deadline:
            raise Undecided("time budget exhausted")

    def call(self, iid, args, st, stk):
        """-> list of (state, 'ret'|'panic'|'div'|'undec', value)"""
        inst = self.p.insts[iid]
        if len(stk) > self.max_depth:
            cyc = []
            for i in reversed(stk):
                if i in cyc:
                    break
                cyc.append(i)
            return [(st, "div", "recursion deeper than %d frames: %s" % (self.max_depth, " <- ".join(self.p.insts[i]["n"] for i in cyc[:12])))]
        if inst["k"] == "virtual":
            rcv = args[0]
            if type(rcv) is Sym:
                rcv = self.expand(st, rcv)
            if isinstance(rcv, Ptr) and rcv.m and rcv.m[0] == "vt":
                ct = rcv.m[1]
                target = self.p.vt.get((ct, inst["d"]))
                if target is None and inst["tm"]:
                    target = self.p.vt.get((ct, inst["tm"]))
                if target is None and re.search(r"ops::Fn(Mut)?::call(_mut)?$", inst["d"]):
                    target = self.p.vt.get((ct, "<closure>"))
                if target is None:
                    key = "novt:%s for %s" % (inst["d"], self.T[ct]["n"])
                    return [(st, "undec", key)]
                return self.call(target, [Ptr(rcv.a, rcv.p, None)] + list(args[1:]), st, stk)
            return [(st, "undec", "virtual call %s on %r" % (inst["d"], rcv))]
        m = self.model_cache.get(iid, False)
        if m is False:
            m = self.find_model(inst)
            self.model_cache[iid] = m
        if m is not None:
            self.models_used.add(inst["d"])
            return self.run_model(m, iid, inst, args, st, stk)
        if inst.get("sw") is not None:
            self.models_used.add(inst["d"])
            return self.call(inst["sw"], args, st, stk)
        if inst["b"] is None:
            if inst["sh"].startswith("DropGlue"):
                return [(st, "ret", self.UNIT)]
            c = self.ctor(inst, args)
            if c is not None:
                return [(st, "ret", c)]
            why = "unmodelled: " + (inst["d"] or inst["n"])
            self.unknown[why] = self.unknown.get(why, 0) + 1
            return [(st, "undec", why)]
        return self.exec_fn(iid, inst, args, st, stk)

    def ctor(self, inst, args):
        """tuple struct / variant constructor used as a function"""
        o = inst.get("o")
        if o is None or self.tk(o) != "adt":
            return None
        t = self.T[o]
        last = inst["d"].rsplit("::", 1)[-1]
        for i, v in enumerate(t.get("v", ())):
            if v[0] == last and len(v[2]) == len(args) and (inst["d"].startswith(t["d"]) or inst["d"].startswith("std::prelude::")):
                return Agg(o, i, tuple(args))
        return None

    def run_model(self, m, iid, inst, args, st, stk):
        work, out = [st], []
        while work:
            s = work.pop()
            snap = s.copy()
            try:
                r = m(self, s, inst, args, stk)
            except NeedFork as nf:
                self.fork(snap, nf, stk, 0, lambda s2: work.append(s2))
                continue
            except PanicEx as p:
                out.append((s, "panic", p.msg))
                continue
            except Infeasible:
                continue
            except Undecided as u:
                out.append((s, "undec", u.why))
                continue
            except (AttributeError, TypeError, IndexError, KeyError, ValueError, AssertionError) as e:
                if os.environ.get("MIR_RAISE"):
                    raise
                out.append((s, "undec", "model of %s: %r" % (inst["d"], e)))
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append((s, "ret", r))
        return [(s, "undec", "formatting error") if k == "fmterr" else (s, k, v) for s, k, v in out]

    def fork(self, st, nf, stk, line, push):
        fn = stk[-1] if stk else None
        for lab, ap in reversed(nf.opts):
            s2 = st.copy()
            if ap(s2):
                self.partitions += 1
                if self.deadline and self.partitions % 256 == 0 and time.time() > self.deadline:
                    raise Undecided("time budget exhausted")
                if self.partitions > self.cfg.get("max_partitions", 400000):
                    raise Undecided("partition budget exhausted")
                s2.trace = (s2.trace, fn, line, lab)
                push(s2)

    def exec_fn(self, iid, inst, args, st, stk):
        body = inst["b"]
        self.functions.add(iid)
        fr = next(self.fid)
        stk = stk + (iid,)
        mem = st.mem
        ac = body["ac"]
        args = list(args)
        if inst["cl"] and body["sp"] is None and len(args) == 2:
            tup = args[1]
            if type(tup) is Sym:
                tup = self.expand(st, tup)
            if isinstance(tup, Agg):
                args = [args[0]] + list(tup.f)
        if len(args) != ac:
            if body["sp"] is not None and len(args) != ac:
                # spread argument: collect the rest
                k = body["sp"] - 1
                args = args[:k] + [Agg(None, 0, tuple(args[k:]))]
            if len(args) != ac:
                return [(st, "undec", "arity %s" % inst["n"])]
        for i, v in enumerate(args):
            mem[(fr, i + 1)] = v
        lt = body["lt"]
        nl = len(lt)
        blocks = body["bb"]
        results = []
        work = [(st, 0, 0)]
        while work:
            st, bb, si = work.pop()
            self.cur_lt = lt
            try:
                while True:
                    stmts, term = blocks[bb]
                    n = len(stmts)
                    line = 0
                    while si < n:
                        s = stmts[si]
                        self.tick(st)
                        op = s[0]
                        if op == "=":
                            line = s[3]
                            v = self.rvalue(st, fr, s[2])
                            pl = s[1]
                            if not pl[1]:
                                st.mem[(fr, pl[0])] = v
                            else:
                                pt = self.place(st, fr, pl)
                                self.store(st, pt, v)
                        elif op == "dead":
                            st.mem.pop((fr, s[1]), None)
                        elif op == "sd":
                            pt = self.place(st, fr, s[1])
                            try:
                                cur = self.load(st, pt)
                            except Undecided:
                                cur = UNINIT
                            if isinstance(cur, Agg):
                                self.store(st, pt, Agg(cur.ty, s[2], cur.f))
                            else:
                                self.store(st, pt, Agg(None, s[2], ()))
                        else:
                            raise Undecided("statement %s" % op)
                        si += 1
                    self.tick(st)
                    op = term[0]
                    if op == "goto":
                        bb, si = term[1], 0
                    elif op == "sw":
                        line = term[5]
                        v = self.operand(st, fr, term[1])
                        tgt = None
                        if isinstance(v, int):
                            x = v
                            if x < 0 or True:
                                t = self.T[term[4]]
                                if t["k"] == "int":
                                    x = v & ((1 << t["b"]) - 1)
                            for c, b in term[2]:
                                if c == x:
                                    tgt = b
                                    break
                            else:
                                tgt = term[3]
                        else:
                            isb = self.tk(term[4]) == "bool"
                            if isb:
                                x = int(self.truth(st, v))
                                tgt = term[3]
                                for c, b in term[2]:
                                    if c == x:
                                        tgt = b
                                        break
                            else:
                                tgt = term[3]
                                for c, b in term[2]:
                                    cc = self.wrap(c, term[4])
                                    if self.eq(st, v, cc):
                                        tgt = b
                                        break
                        bb, si = tgt, 0
                    elif op == "ret":
                        v = st.mem.get((fr, 0))
                        if v is None:
                            v = self.zst_value(lt[0]) if self.is_zst(lt[0]) else UNINIT
                        for l in range(nl):
                            st.mem.pop((fr, l), None)
                        results.append((st, "ret", v))
                        break
                    elif op == "unr":
                        break
                    elif op == "resume":
                        break
                    elif op == "drop":
                        self.do_drop(st, fr, term)
                        bb, si = term[3], 0
                    elif op == "assert":
                        line = term[5]
                        c = self.truth(st, self.operand(st, fr, term[1]))
                        if c == term[2]:
                            bb, si = term[4], 0
                        else:
                            results.append((st, "panic", "%s at %s:%s" % (term[3], inst["f"], line)))
                            break
                    elif op == "call":
                        line = term[5]
                        self.callsites += 1
                        aargs = [self.operand(st, fr, a) for a in term[2]]
                        c = term[1]
                        if c[0] == "i":
                            target = c[1]
                        elif c[0] == "op":
                            f = self.operand(st, fr, c[1])
                            if not isinstance(f, Fn):
                                raise Undecided("call of %r" % (f,))
                            target = f.i
                            aargs = self.fnptr_args(target, aargs)
                        else:
                            raise Undecided("unresolved call %s" % c[1])
                        st.env = (inst["f"], line)
                        outs = self.call(target, aargs, st, stk)
                        self.cur_lt = lt
                        nxt = term[4]
                        dest = term[3]
                        for s2, k, v in outs:
                            if k == "ret":
                                if nxt is None:
                                    continue
                                if not dest[1]:
                                    s2.mem[(fr, dest[0])] = v
                                else:
                                    pt = self.place(s2, fr, dest)
                                    self.store(s2, pt, v)
                                work.append((s2, nxt, 0))
                            elif k == "panic":
                                m = v if " at " in v else "%s at %s:%s" % (v, inst["f"], line)
                                if " src/" not in m and "/repo/" not in m and (inst["f"] or "").startswith(("/repo/", "src/")):
                                    m += ", called at %s:%s" % (inst["f"], line)
                                results.append((s2, "panic", m))
                            else:
                                w = v if " @ " in str(v) else "%s @ %s:%s in %s" % (v, inst["f"].split("/")[-1], line, inst["n"])
                                results.append((s2, k, w))
                        break
                    else:
                        raise Undecided("terminator %s" % op)
            except NeedFork as nf:
                try:
                    self.fork(st, nf, stk, line, lambda s2: work.append((s2, bb, si)))
                except Undecided as u:
                    results.append((st, "undec", u.why))
                    break
            except Infeasible:
                continue
            except PanicEx as p:
                results.append((st, "panic", "%s at %s:%s" % (p.msg, inst["f"], line)))
            except Undecided as u:
                results.append((st, "undec", "%s @ %s:%s in %s" % (u.why, inst["f"].split("/")[-1], line, inst["n"])))
                if "budget" in u.why:
                    break
        return results

    def do_drop(self, st, fr, term):
        t = self.T[term[2]]
        if t["k"] == "adt" and ("Guard" in t["d"]):
            try:
                pt = self.place(st, fr, term[1])
                v = self.load(st, pt)
            except (Undecided, Infeasible):
                return
            if isinstance(v, Opq) and v.k == "guard":
                from models import release
                release(self, st, v)

    # ---------- closures / callbacks for models
    def fnptr_args(self, i, args):
        """a closure without captures behind a function pointer: its instance takes the closure and a tuple"""
        inst = self.p.insts[i]
        if inst["sh"].startswith("ClosureOnce"):
            return [Agg(None, 0, ())] + list(args)
        return args

    def call_fn(self, st, fv, fty, args, stk):
        """call a callable value of type fty with positional args"""
        if isinstance(fv, Fn):
            return self.call(fv.i, self.fnptr_args(fv.i, args), st, stk)
        t = self.T[fty]
        tup = Agg(None, 0, tuple(args)) if args else self.UNIT
        if t["k"] == "closure":
            i = self.p.tr.get((fty, "FnMut::call_mut"))
            if i is not None:
                p = self.alloc(st, fv)
                return self.call(i, [p, tup], st, stk)
            i = self.p.tr.get((fty, "FnOnce::call_once"))
            if i is not None:
                return self.call(i, [fv, tup], st, stk)
        if t["k"] == "fndef" and t["i"] is not None:
            return self.call(t["i"], args, st, stk)
        i = self.p.tr.get((fty, "FnOnce::call_once"))
        if i is not None:
            return self.call(i, [fv, tup], st, stk)
        return [(st, "undec", "callable %s" % t["n"])]


def bind(outs, f):
    """sequence: for each normal outcome (st, v) continue with f(st, v) -> list"""
    r = []
    for s, k, v in outs:
        if k == "ret":
            x = f(s, v)
            if isinstance(x, list):
                r.extend(x)
            else:
                r.append((s, "ret", x))
        else:
            r.append((s, k, v))
    return r
