"""Models (transfer functions) of std items the interpreter does not descend into."""
import re
from mir import *

MODELS = []


def model(*rx):
    def deco(f):
        for r in rx:
            MODELS.append((re.compile(r), f))
        return f
    return deco


def find_model(inst):
    d = inst["d"]
    if inst["k"] == "virtual":
        return None
    alts = {d, re.sub(r"\bstd::(array|slice|str|num|char)::<impl", r"core::\1::<impl", d), re.sub(r"\bstd::(slice|str)::<impl", r"alloc::\1::<impl", d)}
    for r, f in MODELS:
        if any(r.search(x) for x in alts):
            return f
    return None


# ------------------------------------------------------------------ helpers
def ld(I, st, p):
    return I.norm(st, I.load(st, p))


def as_ptr(I, st, v):
    v = I.norm(st, v)
    if type(v) is Sym:
        v = I.expand(st, v)
    if not isinstance(v, Ptr):
        raise Undecided("pointer expected: %r" % (v,))
    return v


def opt(I, inst, v):
    return I.none(inst["o"]) if v is None else I.some(inst["o"], v)


def expanded(I, st, v):
    v = I.norm(st, v)
    return I.expand(st, v) if type(v) is Sym else v


def sval(I, st, p):
    """string value behind a pointer (to str / String)"""
    v = ld(I, st, p)
    if isinstance(v, Ptr):
        return sval(I, st, v)
    if isinstance(v, str):
        return v
    if type(v) is Sym:
        t = I.T[v.ty]
        if t["k"] in ("ref",):
            return sval(I, st, I.expand(st, v))
        return v
    raise Undecided("string expected: %r" % (v,))


def veq(I, st, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    if type(a) is Sym and a is b:
        if I.tk(a.ty) != "float":
            return True
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a == b:
            return True
        return veq(I, st, I.load(st, a), I.load(st, b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ptr) and (isinstance(y, (str, int)) or type(y) is Sym and I.tk(y.ty) not in ("ref", "ptr") and not I.p.adt(y.ty).endswith("boxed::Box")):
            return veq(I, st, I.load(st, x), y)
    if isinstance(a, Flt) and isinstance(b, Flt):
        return a == b
    scal = (int, str)
    if isinstance(a, scal) and isinstance(b, scal):
        return a == b
    for x, y in ((a, b), (b, a)):
        if type(x) is Sym:
            k = I.tk(x.ty)
            if k in ("int", "bool", "char", "str") or I.p.adt(x.ty).endswith("string::String"):
                return I.eq(st, a, b)
            if k == "float":
                if isinstance(y, Flt) or type(y) is Sym:
                    return I.truth(st, sym("ftoteq", tuple(sorted((a, b), key=lambda q: (type(q) is Sym, getattr(q, "id", 0)))), I.p.bool))
    if type(a) is Sym:
        a = I.expand(st, a)
    if type(b) is Sym:
        b = I.expand(st, b)
    if type(a) is Sym or type(b) is Sym:
        return I.truth(st, sym("veq", (a, b), I.p.bool))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return veq(I, st, I.load(st, a), I.load(st, b))
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        for x, y in zip(a.f, b.f):
            if not veq(I, st, x, y):
                return False
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.e) != len(b.e):
            return False
        return all(veq(I, st, x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, MapV) and isinstance(b, MapV):
        if len(a.e) != len(b.e):
            return False
        return all(veq(I, st, k1, k2) and veq(I, st, v1, v2) for (k1, v1), (k2, v2) in zip(a.e, b.e))
    return a == b


def vlt(I, st, a, b):
    a, b = I.norm(st, a), I.norm(st, b)
    if isinstance(a, Ptr):
        a = ld(I, st, a)
    if isinstance(b, Ptr):
        b = ld(I, st, b)
    if isinstance(a, str) and isinstance(b, str):
        return a.encode() < b.encode()
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if isinstance(a, TypeIdV) and isinstance(b, TypeIdV):
        return a.t < b.t
    if type(a) is Sym and I.tk(a.ty) in ("int", "bool", "char", "str", "float") or I.p.adt(getattr(a, "ty", None) or 0).endswith("string::String"):
        return I.lt(st, a, b)
    if type(b) is Sym and (I.tk(b.ty) in ("int", "bool", "char", "str", "float") or I.p.adt(b.ty).endswith("string::String")):
        return I.lt(st, a, b)
    if type(a) is Sym:
        a = I.expand(st, a)
    if type(b) is Sym:
        b = I.expand(st, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v:
            return a.v < b.v
        for x, y in zip(a.f, b.f):
            if not veq(I, st, x, y):
                return vlt(I, st, x, y)
        return False
    if isinstance(a, Seq) and isinstance(b, Seq):
        for x, y in zip(a.e, b.e):
            if not veq(I, st, x, y):
                return vlt(I, st, x, y)
        return len(a.e) < len(b.e)
    if isinstance(a, MapV) and isinstance(b, MapV):
        fa = [z for kv in a.e for z in kv]
        fb = [z for kv in b.e for z in kv]
        return vlt(I, st, Seq(fa), Seq(fb))
    if isinstance(a, Flt) and isinstance(b, Flt):
        x, y = a.val(), b.val()
        return x < y if x == x and y == y else (x == x)
    return I.truth(st, sym("vlt", (a, b), I.p.bool))


def ordering(I, st, ty, a, b, lt=vlt, eq=veq):
    if eq(I, st, a, b):
        return mkord(I, ty, 0)
    return mkord(I, ty, -1 if lt(I, st, a, b) else 1)


def mkord(I, ty, n):
    return Agg(ty, n + 1, ())


def seqv(I, st, p):
    return I.seq_val(st, p)


def mapv(I, st, p):
    v = ld(I, st, p)
    if type(v) is Sym:
        v = I.expand(st, v)
        I.store(st, p, v)
    if not isinstance(v, MapV):
        raise Undecided("map expected: %r" % (v,))
    return v


def materialize_seq(I, st, p):
    """make the sequence at p concrete in memory (before mutating it)"""
    v = ld(I, st, p)
    if type(v) is Sym:
        v = I.expand(st, v)
        I.store(st, p, v)
    if not isinstance(v, Seq):
        raise Undecided("sequence expected: %r" % (v,))
    return v


def drain(I, st, it, ity, stk, limit=400):
    """run an iterator to exhaustion: list of outcomes with tuple of items"""
    nx = I.p.tr.get((ity, "Iterator::next"))
    if nx is None:
        ii = I.p.tr.get((ity, "IntoIterator::into_iter"))
        if ii is None:
            return [(st, "undec", "no iterator instance for %s" % I.T[ity]["n"])]
        oty = I.p.insts[ii]["o"]
        return bind(I.call(ii, [it], st, stk), lambda s, v: drain(I, s, v, oty, stk, limit))
    p = I.alloc(st, it)
    done = []
    work = [(st, ())]
    while work:
        s, acc = work.pop()
        if len(acc) > limit:
            done.append((s, "undec", "iterator longer than %d" % limit))
            continue
        for s2, k, v in I.call(nx, [p], s, stk):
            if k != "ret":
                done.append((s2, k, v))
                continue
            v = expanded(I, s2, v)
            if v.v == 0:
                s2.mem.pop(p.a, None)
                done.append((s2, "ret", acc))
            else:
                work.append((s2, acc + (v.f[0],)))
    return done


def clone_val(I, st, p, ty, stk):
    """outcomes of cloning the value at pointer p"""
    t = I.T[ty]
    if t["k"] in ("int", "bool", "char", "float", "ref", "ptr", "fnptr", "fndef") or I.p.adt(ty).endswith("string::String"):
        return [(st, "ret", ld(I, st, p))]
    i = I.p.tr.get((ty, "Clone::clone"))
    if i is None:
        return [(st, "undec", "no Clone for %s" % t["n"])]
    return I.call(i, [p], st, stk)


def clone_many(I, st, ptrs, ty, stk):
    outs = [(st, "ret", ())]
    for p in ptrs:
        outs = bind(outs, lambda s, acc, p=p: bind(clone_val(I, s, p, ty, stk), lambda s2, v: [(s2, "ret", acc + (v,))]))
    return outs


# ------------------------------------------------------------------ panics
@model(r"unwrap_failed$", r"expect_failed$", r"panicking::", r"^std::rt::panic", r"panic_fmt$", r"begin_panic", r"panic_bounds_check", r"slice_index_fail", r"panic_display", r"unreachable_display",
       r"assert_failed", r"panic_str", r"panic_explicit", r"panic_nounwind")
def m_panic(I, st, inst, args, stk):
    raise PanicEx("panic (%s)" % inst["d"].split("::")[-1])


# ------------------------------------------------------------------ witness hooks
@model(r"^(witness::)?(support::)?check$")
def m_check(I, st, inst, args, stk):
    lab = sval(I, st, args[0])
    c = I.truth(st, args[1])
    I.checks[lab] = I.checks.get(lab, 0) + 1
    if not c:
        if I.feasible(st):
            I.failures.append((lab, st.copy(), "check"))
        raise Infeasible()
    return I.UNIT


@model(r"^(witness::)?(support::)?forget$")
def m_forget(I, st, inst, args, stk):
    for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == "static"]:
        del st.mem[k]
    return I.UNIT


@model(r"^(witness::)?(support::)?assume$")
def m_assume(I, st, inst, args, stk):
    if not I.truth(st, args[0]):
        raise Infeasible()
    return I.UNIT


@model(r"^(witness::)?(support::)?same_loc$")
def m_same(I, st, inst, args, stk):
    a, b = as_ptr(I, st, args[0]), as_ptr(I, st, args[1])
    return int(a.a == b.a and a.p == b.p)


@model(r"^(witness::)?(support::)?veq$")
def m_veq(I, st, inst, args, stk):
    return int(veq(I, st, ld(I, st, args[0]), ld(I, st, args[1])))


@model(r"^(witness::)?(support::)?any$")
def m_any(I, st, inst, args, stk):
    lab = sval(I, st, args[0])
    v = sym("in", (lab,), inst["o"])
    return I.expand(st, v) if I.tk(inst["o"]) in ("ref",) else v


@model(r"^(witness::)?(support::)?any_reflect(_mut)?$")
def m_any_reflect(I, st, inst, args, stk):
    lab = sval(I, st, args[0])
    return so_ptr(I, st, sym("in", ("obj " + lab,), I.p.symobj))


@model(r"^(witness::)?(support::)?loc$")
def m_loc(I, st, inst, args, stk):
    a = as_ptr(I, st, args[0])
    return Opq("loc", a.a, a.p)


@model(r"^(witness::)?(support::)?at_loc$")
def m_at_loc(I, st, inst, args, stk):
    a = as_ptr(I, st, args[0])
    l = args[1]
    return int(isinstance(l, Opq) and l.d == (a.a, a.p))


@model(r"^(witness::)?(support::)?snap$")
def m_snap(I, st, inst, args, stk):
    """a deep copy of the abstract value behind the reference (for before / after comparisons)"""
    return Opq("snap", deep(I, st, args[0]))


def deep(I, st, p):
    v = ld(I, st, p)
    return v


def owns_box(I, ty, seen=()):
    """does a value of the type own heap cells the domain represents by pointers?"""
    k = ("owns_box", ty)
    if k in I.p.cache:
        return I.p.cache[k]
    if ty in seen:
        return False
    t = I.T[ty]
    seen = seen + (ty,)
    if t["k"] in ("tuple", "closure"):
        r = any(owns_box(I, x, seen) for x in t["es"])
    elif t["k"] in ("array", "slice"):
        r = owns_box(I, t["e"], seen)
    elif t["k"] == "adt":
        if t["d"].endswith("boxed::Box"):
            r = True
        elif t["d"].endswith(("vec::Vec", "BTreeMap", "HashMap")):
            r = any(owns_box(I, x, seen) for x in t["a"][:2] if isinstance(x, int))
        elif t["d"].endswith("string::String"):
            r = False
        else:
            r = any(owns_box(I, f[1], seen) for v in (t["v"] or ()) for f in v[2])
    else:
        r = False
    if len(seen) == 1:
        I.p.cache[k] = r
    return r


def deep_copy(I, st, v, ty):
    """a copy of the abstract value sharing no heap cell with it"""
    v = I.norm(st, v)
    if not owns_box(I, ty):
        return v
    if type(v) is Sym:
        v = I.expand(st, v)
    t = I.T[ty]
    if isinstance(v, Ptr):
        if t["k"] == "adt" and t["d"].endswith("boxed::Box"):
            e = t["a"][0]
            if I.T[e]["k"] == "dyn":
                raise Undecided("copy of a boxed trait object")
            return I.alloc(st, deep_copy(I, st, I.load(st, v), e))
        return v
    if isinstance(v, Agg):
        fts = I.fields(ty, v.v)
        return Agg(v.ty, v.v, tuple(deep_copy(I, st, x, ft) for x, ft in zip(v.f, fts)))
    if isinstance(v, Seq):
        e = t["e"] if t["k"] in ("array", "slice") else t["a"][0]
        return Seq(deep_copy(I, st, x, e) for x in v.e)
    if isinstance(v, MapV):
        return MapV(((k, deep_copy(I, st, x, t["a"][1])) for k, x in v.e), v.kind)
    return v


@model(r"^(witness::)?(support::)?twin_ref$")
def m_twin_ref(I, st, inst, args, stk):
    return deep_copy(I, st, ld(I, st, args[0]), inst["a"][0])


@model(r"^(witness::)?(support::)?twin$")
def m_twin(I, st, inst, args, stk):
    ty = inst["a"][0]
    return Agg(inst["o"], 0, (deep_copy(I, st, args[0], ty), deep_copy(I, st, args[0], ty)))


@model(r"^(witness::)?(support::)?unchanged$")
def m_unchanged(I, st, inst, args, stk):
    v = ld(I, st, args[0])
    s = args[1]
    return int(veq(I, st, v, s.d[0]))


@model(r"^(witness::)?(support::)?dyn_same$")
def m_dyn_same(I, st, inst, args, stk):
    a, b = as_ptr(I, st, args[0]), as_ptr(I, st, args[1])
    return int(a.a == b.a and a.p == b.p and a.m == b.m)


@model(r"^(witness::)?(support::)?dyn_is$")
def m_dyn_is(I, st, inst, args, stk):
    """concrete type of the object behind a trait-object pointer"""
    p = as_ptr(I, st, args[0])
    return int(p.m is not None and p.m[0] == "vt" and p.m[1] == inst["a"][-1])


# ------------------------------------------------------------------ intrinsics / mem / ptr / any
@model(r"intrinsics::discriminant_value$", r"^std::mem::discriminant$")
def m_discr(I, st, inst, args, stk):
    t = inst["a"][0]
    v = ld(I, st, args[0])
    d = I.discr(st, v, t)
    if inst["d"].endswith("mem::discriminant"):
        return Agg(inst["o"], 0, (d,))
    return d


@model(r"<std::mem::Discriminant<T> as std::cmp::PartialEq>::eq")
def m_discr_eq(I, st, inst, args, stk):
    return int(veq(I, st, ld(I, st, args[0]), ld(I, st, args[1])))


@model(r"intrinsics::(assume|cold_path|assert_inhabited|assert_zero_valid|assert_mem_uninitialized_valid)$", r"precondition_check$", r"hint::assert_unchecked$", r"^std::mem::drop$", r"^std::mem::forget$", r"^<std::boxed::Box<T, A> as std::ops::Drop>::drop$")
def m_nop(I, st, inst, args, stk):
    if inst["d"].endswith("mem::drop"):
        v = I.norm(st, args[0])
        if isinstance(v, Opq) and v.k == "guard":
            release(I, st, v)
    return I.UNIT


@model(r"intrinsics::(likely|unlikely|black_box)$", r"^std::hint::black_box$")
def m_id(I, st, inst, args, stk):
    return args[0]


@model(r"intrinsics::type_id$", r"^std::any::TypeId::of$")
def m_typeid_of(I, st, inst, args, stk):
    return TypeIdV(inst["a"][0])


@model(r"^<T as std::any::Any>::type_id$")
def m_any_typeid(I, st, inst, args, stk):
    return TypeIdV(inst["a"][0])


@model(r"intrinsics::type_name$", r"^std::any::type_name$")
def m_typename(I, st, inst, args, stk):
    t = I.T[inst["a"][0]]
    n = t["n"]
    if not isinstance(n, str):  # arrays keep their length there
        n = I.p.name_of(inst["a"][0])
    return I.alloc(st, n)


@model(r"TypeId as std::cmp::PartialEq>::(eq|ne)$", r"TypeId as std::cmp::PartialEq<")
def m_typeid_eq(I, st, inst, args, stk):
    r = ld(I, st, args[0]) == ld(I, st, args[1])
    return int(r if inst["d"].endswith("eq") else not r)


@model(r"intrinsics::needs_drop$", r"mem::needs_drop$", r"intrinsics::(is_val_statically_known)$")
def m_zero(I, st, inst, args, stk):
    return 0


@model(r"intrinsics::(size_of|min_align_of|align_of)$", r"^std::mem::(size_of|align_of)$")
def m_size(I, st, inst, args, stk):
    t = I.T[inst["a"][0]]
    if t["k"] == "int":
        return t["b"] // 8
    if t["k"] in ("bool", "char"):
        return 1 if t["k"] == "bool" else 4
    return sym("sizeof", (inst["a"][0],), I.p.usize)


@model(r"intrinsics::(unreachable|abort)$", r"unreachable_unchecked$")
def m_unreach(I, st, inst, args, stk):
    raise Infeasible()


@model(r"intrinsics::three_way_compare$")
def m_3way(I, st, inst, args, stk):
    return ordering(I, st, inst["o"], args[0], args[1])


@model(r"Ord for bool>::cmp$", r"impl std::cmp::Ord for bool>::cmp$")
def m_boolcmp(I, st, inst, args, stk):
    a, b = (int(I.truth(st, ld(I, st, x))) for x in args)
    return mkord(I, inst["o"], (a > b) - (a < b))


@model(r"intrinsics::(saturating_sub|saturating_add|wrapping_add|wrapping_sub|wrapping_mul)$", r"core::num::<impl \w+>::(saturating_sub|saturating_add|wrapping_add|wrapping_sub|wrapping_mul)$")
def m_sat(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    ty = inst["o"]
    r = I.int_range(ty)
    if isinstance(a, int) and isinstance(b, int):
        x = a - b if "sub" in op else (a + b if "add" in op else a * b)
        if op.startswith("sat"):
            return max(r[0], min(r[1], x))
        return I.wrap(x, ty)
    if op == "saturating_sub" and r[0] == 0:
        if I.lt(st, a, b):
            return 0
        return I.binop(st, "Sub", a, b, ty)
    if op == "saturating_add":
        if overflows(I, st, a, b, ty):
            return r[1]
        return I.binop(st, "Add", a, b, ty)
    return sym(op, (a, b), ty)


def overflows(I, st, a, b, ty):
    """does a + b leave the type's range? (unsigned types; forks)"""
    r = I.int_range(ty)
    if r[0] != 0:
        raise Undecided("signed checked arithmetic on symbols")
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        base, c = I.lin(a)
        if c:
            raise Undecided("checked arithmetic on sums")
        return I.lt(st, r[1] - b, a)
    return I.truth(st, sym("addovf", tuple(sorted((a, b), key=lambda x: x.id)), I.p.bool))


@model(r"core::num::<impl \w+>::(checked_add|checked_sub|checked_mul)$")
def m_checked(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    ity = I.T[inst["o"]]["a"][0]
    if isinstance(a, int) and isinstance(b, int):
        x = a - b if op == "checked_sub" else (a + b if op == "checked_add" else a * b)
        return opt(I, inst, x if I.wrap(x, ity) == x else None)
    if op == "checked_sub" and I.int_range(ity)[0] == 0:
        if I.lt(st, a, b):
            return opt(I, inst, None)
        return opt(I, inst, I.binop(st, "Sub", a, b, ity))
    if op == "checked_add":
        if overflows(I, st, a, b, ity):
            return opt(I, inst, None)
        return opt(I, inst, I.binop(st, "Add", a, b, ity))
    raise Undecided("checked arithmetic on symbols")


@model(r"TryFrom<\w+> for \w+>::try_from$", r"TryFrom<\w+>>::try_from$", r"num::.*try_from_.*")
def m_tryfrom(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    rt = inst["o"]
    ok = I.T[rt]["a"][0]
    r = I.int_range(ok)
    if r is None or not (isinstance(v, int) or (type(v) is Sym and I.int_range(v.ty))):
        raise Undecided("try_from %s" % inst["n"])
    err_t = I.T[rt]["a"][1]
    err = Agg(rt, 1, (sym("tryfromerr", (), err_t),))
    if isinstance(v, int):
        return Agg(rt, 0, (v,)) if r[0] <= v <= r[1] else err
    if I.lt(st, v, r[0]) or I.lt(st, r[1], v):
        return err
    return Agg(rt, 0, (v if v.ty == ok else sym("cast", (v,), ok),))


@model(r"^std::convert::num::<impl std::convert::From<\w+> for \w+>::from$", r"^core::convert::num::<impl std::convert::From<\w+> for \w+>::from$", r"char::convert::<impl std::convert::From<\w+> for \w+>::from$")
def m_numfrom(I, st, inst, args, stk):
    m = re.search(r"From<(\w+)> for (\w+)>", inst["d"])
    src, dst = I.p.tyname.get(m.group(1)), inst["o"]
    ks, kd = I.tk(src), I.tk(dst)
    kind = "IntToInt" if kd in ("int", "char") else ("FloatToFloat" if ks == "float" else "IntToFloat")
    return I.cast(st, kind, I.norm(st, args[0]), dst, src)


@model(r"intrinsics::integer_(min|max)$", r"impl std::cmp::Ord for \w+>::(min|max)$")
def m_minmax(I, st, inst, args, stk):
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    mx = inst["d"].endswith("max")
    if I.lt(st, a, b):
        return b if mx else a
    return a if mx else b


@model(r"<std::alloc::Global as std::clone::Clone>::clone$")
def m_globalclone(I, st, inst, args, stk):
    return I.norm(st, ld(I, st, args[0]))


@model(r"<std::mem::Discriminant<T> as std::hash::Hash>::hash$")
def m_discrhash(I, st, inst, args, stk):
    v = ld(I, st, args[0])
    hash_add(I, st, args[1], "discr", v.d[0] if isinstance(v, Opq) and len(v.d) == 1 else v)
    return I.UNIT


@model(r"^std::slice::(from_ref|from_mut)$")
def m_fromref(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    raise Undecided("slice::from_ref")


@model(r"^std::mem::(replace|take|swap)$")
def m_memrep(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    p = as_ptr(I, st, args[0])
    if op == "swap":
        q = as_ptr(I, st, args[1])
        a, b = ld(I, st, p), ld(I, st, q)
        I.store(st, p, b)
        I.store(st, q, a)
        return I.UNIT
    old = ld(I, st, p)
    if op == "replace":
        I.store(st, p, args[1])
        return old
    ty = inst["a"][0]
    i = I.p.tr.get((ty, "Default::default"))
    if i is None:
        raise Undecided("mem::take default")

    def k(s, v):
        I.store(s, p, v)
        return old
    return bind(I.call(i, [], st, stk), k)


@model(r"^std::ptr::(eq|addr_eq)$")
def m_ptreq(I, st, inst, args, stk):
    a, b = as_ptr(I, st, args[0]), as_ptr(I, st, args[1])
    return int(a.a == b.a and a.p == b.p)


@model(r"^std::mem::ManuallyDrop::<T>::new$", r"^std::ptr::NonNull::<T>::(new_unchecked|as_ptr|cast|as_ref|as_mut)$", r"^std::mem::MaybeUninit::<T>::new$")
def m_idarg(I, st, inst, args, stk):
    return args[0]


def downcast(I, st, inst, args):
    """(pointer or None) for downcast to inst['a'][-1]"""
    p = as_ptr(I, st, args[0])
    want = inst["a"][0]
    if not (p.m and p.m[0] == "vt"):
        raise Undecided("downcast of thin pointer")
    ct = p.m[1]
    if ct == want:
        return Ptr(p.a, p.p, None)
    if ct == I.p.symobj:
        o = ld(I, st, Ptr(p.a, p.p))
        return symobj_downcast(I, st, o, want)
    return None


@model(r"^<\(dyn std::any::Any(.*)\)>::(downcast_ref|downcast_mut|is)$", r"^<dyn std::any::Any(.*)>::(downcast_ref|downcast_mut|is)$")
def m_downcast(I, st, inst, args, stk):
    r = downcast(I, st, inst, args)
    if inst["d"].endswith("::is"):
        return int(r is not None)
    return opt(I, inst, r)


@model(r"Box::<\(?dyn std::any::Any.*>::downcast$")
def m_boxdown(I, st, inst, args, stk):
    r = downcast(I, st, inst, args)
    rt = inst["o"]
    return Agg(rt, 0, (r,)) if r is not None else Agg(rt, 1, (args[0],))


# ------------------------------------------------------------------ Box
@model(r"^std::boxed::Box::<T>::new$", r"^std::boxed::box_new$", r"^alloc::boxed::box_new$", r"^std::boxed::Box::<T>::from$", r"impl std::convert::From<T> for std::boxed::Box<T>>::from$", r"<std::boxed::Box<T> as std::convert::From<T>>::from$")
def m_boxnew(I, st, inst, args, stk):
    return I.alloc(st, args[0])


@model(r"Box::<T(, A)?>::(leak|into_raw|as_ptr|from_raw|into_pin|as_mut_ptr)$", r"<std::boxed::Box<T, A> as std::(ops::Deref|ops::DerefMut|convert::AsRef<T>|convert::AsMut<T>|borrow::Borrow<T>|borrow::BorrowMut<T>)>::")
def m_boxderef(I, st, inst, args, stk):
    if "as std" in inst["d"]:
        return ld(I, st, args[0]) if not isinstance(ld(I, st, args[0]), Sym) else I.expand(st, ld(I, st, args[0]))
    return args[0]


@model(r"<std::boxed::Box<T, A> as std::clone::Clone>::clone$", r"<std::boxed::Box<\[T\], A> as std::clone::Clone>::clone$", r"<std::boxed::Box<str> as std::clone::Clone>::clone$")
def m_boxclone(I, st, inst, args, stk):
    p = as_ptr(I, st, ld(I, st, args[0]))
    if "Box<[T]" in inst["d"]:
        return bind(clone_many(I, st, I.seq_elems(st, p), inst["a"][0], stk), lambda s, vs: I.alloc(s, Seq(vs)))
    if "Box<str>" in inst["d"]:
        return I.alloc(st, sval(I, st, p))
    if I.tk(inst["a"][0]) in ("slice", "str"):
        if I.tk(inst["a"][0]) == "str":
            return I.alloc(st, sval(I, st, p))
        return bind(clone_many(I, st, I.seq_elems(st, p), I.T[inst["a"][0]]["e"], stk), lambda s, vs: I.alloc(s, Seq(vs)))
    return bind(clone_val(I, st, p, inst["a"][0], stk), lambda s, v: I.alloc(s, v))


@model(r"<std::boxed::Box<T, A> as std::cmp::PartialEq>::(eq|ne)$")
def m_boxeq(I, st, inst, args, stk):
    ty = inst["a"][0]
    a, b = as_ptr(I, st, ld(I, st, args[0])), as_ptr(I, st, ld(I, st, args[1]))
    i = I.p.tr.get((ty, "PartialEq::eq"))
    neg = inst["d"].endswith("ne")
    if i is None:
        r = veq(I, st, a, b)
        return int(r != neg)
    return bind(I.call(i, [a, b], st, stk), lambda s, v: int(bool(v) != neg) if isinstance(v, int) else v)


@model(r"<std::boxed::Box<T> as std::default::Default>::default$")
def m_boxdefault(I, st, inst, args, stk):
    i = I.p.tr.get((inst["a"][0], "Default::default"))
    if i is None:
        raise Undecided("Box default")
    return bind(I.call(i, [], st, stk), lambda s, v: I.alloc(s, v))


# ------------------------------------------------------------------ strings
@model(r"^<str as std::string::ToString>::to_string$", r"<str as std::borrow::ToOwned>::to_owned$", r"impl std::borrow::ToOwned for str>::to_owned$", r"<std::string::String as std::convert::From<&str>>::from$", r"<std::string::String as std::convert::From<&mut str>>::from$",
       r"<std::string::String as std::clone::Clone>::clone$", r"<std::string::String as std::convert::From<&std::string::String>>::from$", r"<&str as std::string::SpecToString>::spec_to_string$",
       r"String as std::string::SpecToString>::spec_to_string", r"str as std::string::SpecToString>::spec_to_string", r"String as std::string::ToString", r"impl std::string::ToString for str")
def m_tostr(I, st, inst, args, stk):
    return sval(I, st, args[0])


@model(r"^<T as std::string::ToString>::to_string$", r"^<T as std::string::SpecToString>::spec_to_string$", r"^<T as alloc::string::SpecToString>::spec_to_string$")
def m_tostring(I, st, inst, args, stk):
    ty = inst["a"][0]
    while I.tk(ty) == "ref":
        args = [as_ptr(I, st, ld(I, st, args[0]))]
        ty = I.T[ty]["e"]
    k = I.tk(ty)
    if k == "str" or I.p.adt(ty).endswith("string::String"):
        return sval(I, st, args[0])
    v = ld(I, st, args[0])
    if k == "int":
        return str(v) if isinstance(v, int) else sym("inj", ("str_of", v), I.p.str)
    if k == "char":
        return chr(v) if isinstance(v, int) else sym("inj", ("str_of_char", v), I.p.str)
    if k == "bool":
        return "true" if I.truth(st, v) else "false"
    return fmt_value(I, st, ty, args[0], "Display", stk, lambda parts: concat(parts))


@model(r"^std::string::String::(as_str|as_mut_str|into_boxed_str|leak)$", r"<std::string::String as std::(ops::Deref|ops::DerefMut|convert::AsRef<str>|borrow::Borrow<str>|convert::AsRef<\[u8\]>)>::", r"<str as std::convert::AsRef<str>>::as_ref$", r"<std::string::String as std::borrow::Borrow<str>>::borrow$", r"impl std::borrow::Borrow<str> for std::string::String>::borrow$", r"impl std::convert::AsRef<str> for str>::as_ref$", r"impl std::convert::AsRef<str> for std::string::String>::as_ref$")
def m_strid(I, st, inst, args, stk):
    return as_ptr(I, st, args[0])


@model(r"^<std::string::String as std::convert::Into<.*>>::into$")
def m_strinto(I, st, inst, args, stk):
    raise Undecided("String into")


@model(r"impl std::cmp::PartialEq for str>::(eq|ne)$", r"String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", r"impl std::cmp::PartialEq<.*str.*> for .*(str|String)>::(eq|ne)$", r"impl std::cmp::PartialEq<.*String> for .*(str|String)>::(eq|ne)$", r"<(&'a )?str as std::cmp::PartialEq.*>::(eq|ne)$")
def m_streq(I, st, inst, args, stk):
    r = I.eq(st, sval(I, st, args[0]), sval(I, st, args[1]))
    return int(r if inst["d"].endswith("eq") else not r)


@model(r"impl std::cmp::Ord for str>::cmp$", r"String as std::cmp::Ord>::cmp$", r"impl std::cmp::PartialOrd for str>::partial_cmp$", r"String as std::cmp::PartialOrd>::partial_cmp$")
def m_strcmp(I, st, inst, args, stk):
    a, b = sval(I, st, args[0]), sval(I, st, args[1])
    o = inst["o"]
    if inst["d"].endswith("partial_cmp"):
        oty = I.T[o]["a"][0]
        return I.some(o, ordering(I, st, oty, a, b))
    return ordering(I, st, o, a, b)


@model(r"^std::string::String::(new|with_capacity)$", r"<std::string::String as std::default::Default>::default$")
def m_strnew(I, st, inst, args, stk):
    return ""


@model(r"^std::string::String::push_str$", r"<std::string::String as std::ops::AddAssign<&str>>::add_assign$", r"String as std::fmt::Write>::write_str$")
def m_pushstr(I, st, inst, args, stk):
    a, b = sval(I, st, args[0]), sval(I, st, args[1])
    I.store(st, as_ptr(I, st, args[0]), concat([a, b]))
    return Agg(inst["o"], 0, (I.UNIT,)) if "Write" in inst["d"] else I.UNIT


@model(r"<std::string::String as std::ops::Add<&str>>::add$")
def m_stradd(I, st, inst, args, stk):
    return concat([I.norm(st, args[0]), sval(I, st, args[1])])


@model(r"^std::string::String::push$", r"String as std::fmt::Write>::write_char$")
def m_pushch(I, st, inst, args, stk):
    a = sval(I, st, args[0])
    c = I.norm(st, args[1])
    I.store(st, as_ptr(I, st, args[0]), concat([a, chr(c) if isinstance(c, int) else sym("inj", ("str_of_char", c), I.p.str)]))
    return Agg(inst["o"], 0, (I.UNIT,)) if "Write" in inst["d"] else I.UNIT


@model(r"core::str::<impl str>::is_empty$", r"^std::string::String::is_empty$")
def m_strempty(I, st, inst, args, stk):
    return int(I.eq(st, sval(I, st, args[0]), ""))


@model(r"core::str::<impl str>::len$", r"^std::string::String::len$")
def m_strlen(I, st, inst, args, stk):
    v = sval(I, st, args[0])
    return len(v.encode()) if isinstance(v, str) else sym("strlen", (v,), I.p.usize)


@model(r"core::str::<impl str>::(to_owned|to_string|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|trim_start|trim_end|trim_start_matches|trim_end_matches|trim_left_matches|trim_right_matches|replace|strip_prefix|strip_suffix|starts_with|ends_with|contains|eq_ignore_ascii_case)", r"alloc::str::<impl str>::")
def m_strops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    op = {"to_ascii_lowercase": "ascii_lower", "to_ascii_uppercase": "ascii_upper", "trim_left_matches": "trim_start_matches", "trim_right_matches": "trim_end_matches"}.get(op, op)
    v = sval(I, st, args[0])
    if op in ("to_owned", "to_string", "into_string"):
        return v
    if op == "eq_ignore_ascii_case":
        w = sval(I, st, args[1])
        lo = lambda x: STRFN["ascii_lower"](x) if isinstance(x, str) else sym("ascii_lower", (x,), I.p.str)
        return int(I.truth(st, I.eq(st, v, w))) or int(I.eq(st, lo(v), lo(w)))
    a = []
    for x in args[1:]:
        x = I.norm(st, x)
        if isinstance(x, int):
            a.append(chr(x))
        elif type(x) is Sym and x.ty is not None and I.tk(x.ty) == "char":
            a.append(sym("inj", ("str_of_char", x), I.p.str))
        elif type(x) in (Sym, Ptr):
            a.append(sval(I, st, x))
        else:
            raise Undecided("str::%s with a pattern that is not text" % op)
    known = isinstance(v, str) and all(isinstance(x, str) for x in a)
    if op in ("starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix"):
        a, b = a[0], op in ("ends_with", "strip_suffix")
        test = {"strip_prefix": "starts_with", "strip_suffix": "ends_with"}.get(op, op)
        ps = v.args if type(v) is Sym and v.op == "concat" else (v,)
        end = ps[-1 if b else 0]
        if known:
            r = bool(STRFN[test](v, a))
        elif a == "":
            r = True
        elif test != "contains" and isinstance(end, str) and isinstance(a, str) and (len(end) >= len(a) or not (a.endswith(end) if b else a.startswith(end))):
            r = bool(STRFN[test](end, a))
        else:
            r = I.truth(st, sym(test, (v, a), I.p.bool))
        if op == test:
            return int(r)
        if not r:
            return opt(I, inst, None)
        if isinstance(end, str) and isinstance(a, str) and len(end) >= len(a):
            rest = concat(ps[:-1] + (end[:len(end) - len(a)],)) if b else concat((end[len(a):],) + ps[1:])
        else:
            rest = sym("text_before" if b else "text_after", (v, a), I.p.str)
            whole = concat([rest, a] if b else [a, rest])
            if type(v) is Sym and v.op not in ("concat", "inj"):
                st.facts[("=", v)] = whole
                na = st.facts.get(("ne", v))
                if na:
                    st.facts[("ne", whole)] = st.facts.get(("ne", whole), frozenset()) | na
            else:
                rest = sym("before" if b else "after", (v, a), I.p.str)
        return opt(I, inst, I.alloc(st, rest))
    if op in STRFN:
        r = STRFN[op](v, *a) if known else sym(op, (v,) + tuple(a), I.p.str)
        return I.alloc(st, r) if op.startswith("trim") else r
    raise Undecided("str::%s on symbol" % op)


# ------------------------------------------------------------------ Vec / slice / array
@model(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"<std::vec::Vec<T> as std::default::Default>::default$", r"^std::vec::Vec::<T, A>::new_in$")
def m_vecnew(I, st, inst, args, stk):
    return Seq(())


@model(r"^std::vec::Vec::<T, A>::push(_mut)?$")
def m_push(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = materialize_seq(I, st, p)
    I.store(st, p, Seq(v.e + (args[1],)))
    return I.UNIT


@model(r"^std::vec::Vec::<T, A>::pop$")
def m_pop(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = materialize_seq(I, st, p)
    if not v.e:
        return opt(I, inst, None)
    I.store(st, p, Seq(v.e[:-1]))
    return opt(I, inst, v.e[-1])


def conc_index(I, st, idx, n):
    """fork a symbolic index into 0..n-1 or None (>= n)"""
    idx = I.norm(st, idx)
    if isinstance(idx, int):
        return idx if 0 <= idx < n else None
    for k in range(n):
        if I.eq(st, idx, k):
            return k
    # all equalities refuted: >= n
    if I.lt(st, idx, n):
        raise Infeasible()
    return None


@model(r"^std::vec::Vec::<T, A>::(remove|swap_remove)$")
def m_remove(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = materialize_seq(I, st, p)
    k = conc_index(I, st, args[1], len(v.e))
    if k is None:
        raise PanicEx("Vec::remove index out of bounds")
    if inst["d"].endswith("swap_remove"):
        l = list(v.e)
        x = l[k]
        last = l.pop()
        if k < len(l):
            l[k] = last
        I.store(st, p, Seq(l))
        return x
    I.store(st, p, Seq(v.e[:k] + v.e[k + 1:]))
    return v.e[k]


@model(r"^std::vec::Vec::<T, A>::insert(_mut)?$")
def m_vinsert(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = materialize_seq(I, st, p)
    k = conc_index(I, st, args[1], len(v.e) + 1)
    if k is None:
        raise PanicEx("Vec::insert index out of bounds")
    I.store(st, p, Seq(v.e[:k] + (args[2],) + v.e[k:]))
    return I.UNIT


@model(r"^std::vec::Vec::<T, A>::(truncate|clear)$")
def m_trunc(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = materialize_seq(I, st, p)
    n = 0
    if inst["d"].endswith("truncate"):
        n = I.norm(st, args[1])
        if not isinstance(n, int):
            raise Undecided("truncate symbolic")
    I.store(st, p, Seq(v.e[:n]))
    return I.UNIT


@model(r"^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def m_reserve(I, st, inst, args, stk):
    return I.UNIT


@model(r"^std::vec::Vec::<T, A>::(len|is_empty)$", r"core::slice::<impl \[T\]>::(len|is_empty)$", r"core::array::<impl \[T; N\]>::len$")
def m_len(I, st, inst, args, stk):
    n = I.seq_len(st, as_ptr(I, st, args[0]))
    return int(n == 0) if inst["d"].endswith("is_empty") else n


@model(r"^std::vec::Vec::<T, A>::(as_slice|as_mut_slice|as_ptr|as_mut_ptr|leak|into_boxed_slice)$", r"<std::vec::Vec<T, A> as std::(ops::Deref|ops::DerefMut|convert::AsRef<.*>|convert::AsMut<.*>|borrow::Borrow<.*>)>::", r"core::array::<impl \[T; N\]>::(as_slice|as_mut_slice)$", r"<\[T\] as std::convert::AsRef<\[T\]>>::as_ref$", r"impl std::convert::AsRef<\[T\]> for .*>::as_ref$", r"impl std::borrow::Borrow(Mut)?<\[T\]> for .*>::borrow", r"core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr)$", r"impl std::convert::AsMut<\[T\]> for .*>::as_mut$")
def m_slice(I, st, inst, args, stk):
    if inst["d"].endswith("into_boxed_slice"):
        return I.alloc(st, args[0])
    return as_ptr(I, st, args[0])


def sub(I, p, lo, hi):
    b = p.m[1] if p.m and p.m[0] == "sl" else 0
    return Ptr(p.a, p.p, ("sl", b + lo, b + hi))


def elem(I, st, p, k):
    b = p.m[1] if p.m and p.m[0] == "sl" else 0
    return Ptr(p.a, p.p + (("I", b + k),))


def range_of(I, st, v, ty, n):
    """(lo, hi) of a Range* value over length n"""
    d = I.p.adt(ty)
    v = expanded(I, st, v)
    if d.endswith("RangeFull"):
        return 0, n
    f = [I.norm(st, x) for x in v.f]
    if d.endswith("RangeFrom"):
        lo, hi = f[0], n
    elif d.endswith("RangeTo"):
        lo, hi = 0, f[0]
    elif d.endswith("RangeToInclusive"):
        lo, hi = 0, f[0] + 1
    elif d.endswith("RangeInclusive"):
        lo, hi = f[0], f[1] + 1
    else:
        lo, hi = f[0], f[1]
    if not (isinstance(lo, int) and isinstance(hi, int)):
        lo2 = conc_index(I, st, lo, n + 1)
        hi2 = conc_index(I, st, hi, n + 1)
        if lo2 is None or hi2 is None:
            return None
        lo, hi = lo2, hi2
    if lo > hi or hi > n:
        return None
    return lo, hi


@model(r"core::slice::<impl \[T\]>::(get|get_mut)$")
def m_get(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    ity = inst["a"][1]
    if I.tk(ity) == "int":
        k = conc_index(I, st, args[1], n)
        return opt(I, inst, None if k is None else elem(I, st, p, k))
    r = range_of(I, st, args[1], ity, n)
    return opt(I, inst, None if r is None else sub(I, p, *r))


@model(r"<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$", r"impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$", r"core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$")
def m_index(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    # the index type is the last int / range typed generic argument
    ity = None
    for a in inst["a"]:
        if isinstance(a, int) and (I.tk(a) == "int" or "Range" in I.p.adt(a)):
            ity = a
    for a in inst["a"][1:]:
        if isinstance(a, int) and "Range" in I.p.adt(a):
            ity = a
    x = I.norm(st, args[1])
    if isinstance(x, int) or (type(x) is Sym and I.tk(x.ty) == "int"):
        k = conc_index(I, st, x, n)
        if k is None:
            raise PanicEx("index out of bounds")
        return elem(I, st, p, k)
    r = range_of(I, st, x, ity, n)
    if r is None:
        raise PanicEx("slice index out of range")
    return sub(I, p, *r)


@model(r"core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$", r"^std::vec::Vec::<T, A>::(first|last)$")
def m_first(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    if n == 0:
        return opt(I, inst, None)
    return opt(I, inst, elem(I, st, p, 0 if "first" in inst["d"].rsplit("::", 1)[1] else n - 1))


@model(r"core::slice::<impl \[T\]>::(split_first|split_last|split_first_mut|split_last_mut)$")
def m_splitfirst(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    if n == 0:
        return opt(I, inst, None)
    tt = I.T[inst["o"]]["a"][0]
    if "first" in inst["d"].rsplit("::", 1)[1]:
        return opt(I, inst, Agg(tt, 0, (elem(I, st, p, 0), sub(I, p, 1, n))))
    return opt(I, inst, Agg(tt, 0, (elem(I, st, p, n - 1), sub(I, p, 0, n - 1))))


@model(r"core::slice::<impl \[T\]>::split_at(_mut)?$")
def m_splitat(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    k = conc_index(I, st, args[1], n + 1)
    if k is None:
        raise PanicEx("split_at")
    return Agg(inst["o"], 0, (sub(I, p, 0, k), sub(I, p, k, n)))


@model(r"core::slice::<impl \[T\]>::(swap|reverse)$")
def m_sswap(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    if inst["d"].endswith("reverse"):
        vs = [ld(I, st, elem(I, st, p, k)) for k in range(n)]
        for k in range(n):
            I.store(st, elem(I, st, p, k), vs[n - 1 - k])
        return I.UNIT
    a, b = conc_index(I, st, args[1], n), conc_index(I, st, args[2], n)
    if a is None or b is None:
        raise PanicEx("swap out of bounds")
    x, y = ld(I, st, elem(I, st, p, a)), ld(I, st, elem(I, st, p, b))
    I.store(st, elem(I, st, p, a), y)
    I.store(st, elem(I, st, p, b), x)
    return I.UNIT


@model(r"core::slice::<impl \[T\]>::(iter|iter_mut)$", r"<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$", r"impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$", r"<&'a (mut )?\[T(; N)?\] as std::iter::IntoIterator>::into_iter$")
def m_iter(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    v = ld(I, st, Ptr(p.a, p.p))
    if type(v) is Sym:
        I.store(st, Ptr(p.a, p.p), I.expand(st, v))
    return Opq("sliter", p, 0, n)


@model(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::")
def m_sliter(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    ip = as_ptr(I, st, args[0])
    it = ld(I, st, ip)
    if not (isinstance(it, Opq) and it.k == "sliter"):
        raise Undecided("slice iterator %r" % (it,))
    p, i, j = it.d
    if op == "next":
        if i >= j:
            return opt(I, inst, None)
        I.store(st, ip, Opq("sliter", p, i + 1, j))
        return opt(I, inst, elem(I, st, p, i))
    if op == "next_back":
        if i >= j:
            return opt(I, inst, None)
        I.store(st, ip, Opq("sliter", p, i, j - 1))
        return opt(I, inst, elem(I, st, p, j - 1))
    if op == "size_hint":
        ot = I.T[inst["o"]]["es"][1]
        return Agg(inst["o"], 0, (j - i, I.some(ot, j - i)))
    if op == "len":
        return j - i
    raise Undecided("slice iter %s" % op)


@model(r"<std::slice::Iter(Mut)?<'_, T> as std::clone::Clone>::clone$", r"<std::vec::IntoIter<.*> as std::clone::Clone>::clone$", r"<std::slice::Iter<.*> as std::clone::Clone>::clone$", r"<std::collections::btree_map::\w+<.*> as std::clone::Clone>::clone$")
def m_iterclone(I, st, inst, args, stk):
    return ld(I, st, args[0])


@model(r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"impl std::iter::IntoIterator for \[T; N\]>::into_iter$", r"<\[T; N\] as std::iter::IntoIterator>::into_iter$")
def m_intoiter(I, st, inst, args, stk):
    v = expanded(I, st, args[0])
    if not isinstance(v, Seq):
        raise Undecided("into_iter of %r" % (v,))
    return Opq("intoiter", v.e)


@model(r"<std::(vec|array)::IntoIter<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::")
def m_vintoiter(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    ip = as_ptr(I, st, args[0])
    it = ld(I, st, ip)
    if not (isinstance(it, Opq) and it.k == "intoiter"):
        raise Undecided("into iterator")
    e = it.d[0]
    if op == "next":
        if not e:
            return opt(I, inst, None)
        I.store(st, ip, Opq("intoiter", e[1:]))
        return opt(I, inst, e[0])
    if op == "next_back":
        if not e:
            return opt(I, inst, None)
        I.store(st, ip, Opq("intoiter", e[:-1]))
        return opt(I, inst, e[-1])
    if op == "size_hint":
        ot = I.T[inst["o"]]["es"][1]
        return Agg(inst["o"], 0, (len(e), I.some(ot, len(e))))
    if op == "len":
        return len(e)
    raise Undecided("into iter %s" % op)


@model(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$")
def m_fromiter(I, st, inst, args, stk):
    return bind(drain(I, st, args[0], inst["a"][1], stk), lambda s, items: Seq(items))


@model(r"<std::vec::Vec<T, A> as std::iter::Extend<(&'a )?T>>::extend$", r"^std::vec::Vec::<T, A>::(extend_from_slice|append)$")
def m_extend(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    op = inst["d"].rsplit("::", 1)[1]
    if op == "append":
        v = materialize_seq(I, st, p)
        q = as_ptr(I, st, args[1])
        w = materialize_seq(I, st, q)
        I.store(st, p, Seq(v.e + w.e))
        I.store(st, q, Seq(()))
        return I.UNIT
    if op == "extend_from_slice":
        ps = I.seq_elems(st, as_ptr(I, st, args[1]))
        return bind(clone_many(I, st, ps, inst["a"][0], stk), lambda s, vs: (I.store(s, p, Seq(materialize_seq(I, s, p).e + tuple(vs))), I.UNIT)[1])
    ity = [a for a in inst["a"] if isinstance(a, int)][-1]

    def k(s, items):
        v = materialize_seq(I, s, p)
        if "&'a T" in inst["d"]:
            items = [ld(I, s, x) for x in items]
        I.store(s, p, Seq(v.e + tuple(items)))
        return I.UNIT
    return bind(drain(I, st, args[1], ity, stk), k)


@model(r"<std::vec::Vec<T, A> as std::clone::Clone>::clone$", r"impl std::clone::Clone for \[T; N\]>::clone$", r"<\[T; N\] as std::clone::Clone>::clone$", r"alloc::slice::<impl \[T\]>::(to_vec|to_vec_in)$", r"impl std::borrow::ToOwned for \[T\]>::to_owned$")
def m_vclone(I, st, inst, args, stk):
    ps = I.seq_elems(st, as_ptr(I, st, args[0]))
    return bind(clone_many(I, st, ps, inst["a"][0], stk), lambda s, vs: Seq(vs))


@model(r"alloc::slice::<impl \[T\]>::into_vec$", r"^std::slice::<impl \[T\]>::into_vec$", r"::into_vec$")
def m_intovec(I, st, inst, args, stk):
    return seqv(I, st, as_ptr(I, st, args[0]))


@model(r"box_assume_init_into_vec_unsafe$")
def m_boxassume(I, st, inst, args, stk):
    v = ld(I, st, as_ptr(I, st, args[0]))
    while not isinstance(v, Seq):
        if isinstance(v, Opq) and v.k in ("union", "wrap"):
            v = v.d[-1]
        elif isinstance(v, Agg) and len(v.f) >= 1:
            v = v.f[-1]
        else:
            raise Undecided("vec! payload %r" % (v,))
    return v


@model(r"^std::boxed::Box::<T>::new_uninit$", r"^std::boxed::Box::<T, A>::new_uninit_in$")
def m_newuninit(I, st, inst, args, stk):
    return I.alloc(st, Opq("uninit"))


@model(r"^std::vec::from_elem$")
def m_fromelem(I, st, inst, args, stk):
    n = I.norm(st, args[1])
    if not isinstance(n, int):
        n = I.choose(st, ("n", n), range(0, I.maxlen + 1))
    p = I.alloc(st, args[0])
    return bind(clone_many(I, st, [p] * n, inst["a"][0], stk), lambda s, vs: Seq(vs))


@model(r"<std::vec::Vec<T.*> as std::convert::From<.*>>::from$", r"<std::vec::Vec<T> as std::convert::From<\[T; N\]>>::from$")
def m_vecfrom(I, st, inst, args, stk):
    v = expanded(I, st, args[0])
    if isinstance(v, Seq):
        return v
    if isinstance(v, Ptr):
        ps = I.seq_elems(st, v)
        return bind(clone_many(I, st, ps, inst["a"][0], stk), lambda s, vs: Seq(vs))
    raise Undecided("Vec::from")


def try_into_array(I, st, v, rt, n, stk):
    if len(v.e) == n:
        return Agg(rt, 0, (v,))
    return Agg(rt, 1, (v,))


@model(r"TryFrom<std::vec::Vec<T, A>> for \[T; N\]>::try_from$", r"<\[T; N\] as std::convert::TryFrom<std::vec::Vec<T, A>>>::try_from$", r"<\[T; N\] as std::convert::TryFrom<&\[T\]>>::try_from", r"TryFrom<&'a \[T\]> for &'a \[T; N\]>::try_from")
def m_arrfromvec(I, st, inst, args, stk):
    v = expanded(I, st, args[0])
    rt = inst["o"]
    ok = I.T[rt]["a"][0]
    if isinstance(v, Ptr):
        n = I.T[I.T[ok]["e"]]["n"]
        return Agg(rt, 0 if I.seq_len(st, v) == n else 1, (v,)) if I.seq_len(st, v) == n else Agg(rt, 1, (sym("tryfromslice", (), I.T[rt]["a"][1]),))
    return try_into_array(I, st, v, rt, I.T[ok]["n"], stk)


@model(r"^std::array::from_fn$", r"core::array::from_fn$")
def m_fromfn(I, st, inst, args, stk):
    n = I.T[inst["o"]]["n"]
    fty = [a for a in inst["a"] if isinstance(a, int)][-1]
    outs = [(st, "ret", ())]
    p = None
    i = I.p.tr.get((fty, "FnMut::call_mut"))
    if i is None:
        raise Undecided("from_fn")
    p = I.alloc(st, args[0])
    for k in range(n):
        outs = bind(outs, lambda s, acc, k=k: bind(I.call(i, [p, Agg(None, 0, (k,))], s, stk), lambda s2, v: [(s2, "ret", acc + (v,))]))
    return bind(outs, lambda s, vs: Seq(vs))


@model(r"core::array::<impl \[T; N\]>::map$")
def m_arrmap(I, st, inst, args, stk):
    v = expanded(I, st, args[0])
    fty = inst["a"][-2] if I.T[inst["a"][-1]]["k"] not in ("closure", "fndef") else inst["a"][-1]
    for a in inst["a"]:
        if isinstance(a, int) and I.tk(a) in ("closure", "fndef"):
            fty = a
    outs = [(st, "ret", ())]
    for x in v.e:
        outs = bind(outs, lambda s, acc, x=x: bind(I.call_fn(s, args[1], fty, [x], stk), lambda s2, y: [(s2, "ret", acc + (y,))]))
    return bind(outs, lambda s, vs: Seq(vs))


def elems_eq(I, st, pa, pb, ta, stk):
    """elementwise PartialEq through the element type's instance when there is one"""
    i = I.p.tr.get((ta, "PartialEq::eq"))
    outs = [(st, "ret", 1)]
    for x, y in zip(pa, pb):
        def step(s, acc, x=x, y=y):
            if not I.truth(s, acc):
                return [(s, "ret", 0)]
            if i is None or I.tk(ta) in ("int", "bool", "char"):
                return [(s, "ret", int(veq(I, s, ld(I, s, x), ld(I, s, y))))]
            return I.call(i, [x, y], s, stk)
        outs = bind(outs, step)
    return outs


@model(r"PartialEq<.*> for \[T.*\]>::(eq|ne)$", r"PartialEq<.*> for std::vec::Vec<T.*>>::(eq|ne)$", r"<std::vec::Vec<T, A1> as std::cmp::PartialEq<.*>>::(eq|ne)$", r"<\[T.*\] as std::cmp::PartialEq<.*>>::(eq|ne)$", r"<&\[T\] as std::cmp::PartialEq<.*>>::(eq|ne)$", r"vec::partial_eq::<impl std::cmp::PartialEq", r"array::equality::<impl std::cmp::PartialEq")
def m_seqeq(I, st, inst, args, stk):
    neg = inst["d"].endswith("ne")
    a, b = as_ptr(I, st, args[0]), as_ptr(I, st, args[1])
    while isinstance(ld(I, st, a), Ptr):
        a = ld(I, st, a)
    while isinstance(ld(I, st, b), Ptr):
        b = ld(I, st, b)
    pa, pb = I.seq_elems(st, a), I.seq_elems(st, b)
    if len(pa) != len(pb):
        return int(neg)
    return bind(elems_eq(I, st, pa, pb, inst["a"][0], stk), lambda s, v: int(I.truth(s, v) != neg))


@model(r"<std::vec::Vec<T, A1?> as std::cmp::(Ord|PartialOrd.*)>::(cmp|partial_cmp)$", r"(Ord|PartialOrd) for \[T\]>::(cmp|partial_cmp)$", r"<std::vec::Vec<.*> as std::cmp::(Ord|PartialOrd.*)>::(cmp|partial_cmp)$")
def m_seqcmp(I, st, inst, args, stk):
    partial = inst["d"].endswith("partial_cmp")
    a, b = as_ptr(I, st, args[0]), as_ptr(I, st, args[1])
    pa, pb = I.seq_elems(st, a), I.seq_elems(st, b)
    ty = inst["a"][0]
    i = I.p.tr.get((ty, "PartialOrd::partial_cmp" if partial else "Ord::cmp"))
    oty = I.T[inst["o"]]["a"][0] if partial else inst["o"]
    wrap = (lambda v: I.some(inst["o"], v)) if partial else (lambda v: v)
    eqv = wrap(mkord(I, oty, 0))
    outs = [(st, "ret", eqv)]
    for x, y in zip(pa, pb):
        def step(s, acc, x=x, y=y):
            acc = expanded(I, s, acc)
            cur = acc
            if partial:
                if acc.v == 0:
                    return [(s, "ret", acc)]
                cur = expanded(I, s, acc.f[0])
            if cur.v != 1:
                return [(s, "ret", acc)]
            if i is None or I.tk(ty) in ("int", "bool", "char"):
                return [(s, "ret", wrap(ordering(I, s, oty, ld(I, s, x), ld(I, s, y))))]
            return I.call(i, [x, y], s, stk)
        outs = bind(outs, step)

    def fin(s, acc):
        acc = expanded(I, s, acc)
        cur = acc
        if partial:
            if acc.v == 0:
                return acc
            cur = expanded(I, s, acc.f[0])
        if cur.v != 1:
            return acc
        n, m = len(pa), len(pb)
        return wrap(mkord(I, oty, (n > m) - (n < m)))
    return bind(outs, fin)


@model(r"core::slice::<impl \[T\]>::contains$")
def m_contains(I, st, inst, args, stk):
    x = args[1]
    for p in I.seq_elems(st, as_ptr(I, st, args[0])):
        if veq(I, st, ld(I, st, p), ld(I, st, x)):
            return 1
    return 0


# ------------------------------------------------------------------ maps
@model(r"^std::collections::(BTreeMap|HashMap)::<.*>::(new|with_hasher|with_capacity|with_capacity_and_hasher)$", r"<std::collections::(BTreeMap|HashMap)<.*> as std::default::Default>::default$")
def m_mapnew(I, st, inst, args, stk):
    return MapV((), "btree" if "BTreeMap" in inst["d"] else "hash")


def map_find(I, st, m, key):
    for k, v in m.e:
        if veq(I, st, k, key):
            return k
    return None


def map_insert(I, st, p, key, val):
    """-> old value or None; key found/inserted is returned too"""
    m = mapv(I, st, p)
    k = map_find(I, st, m, key)
    if k is not None:
        old = [v for kk, v in m.e if kk == k][0]
        I.store(st, p, MapV(((kk, val if kk == k else v) for kk, v in m.e), m.kind))
        return old, k
    pos = len(m.e)
    if m.kind == "btree":
        for i, (kk, _) in enumerate(m.e):
            if vlt(I, st, key, kk):
                pos = i
                break
    I.store(st, p, MapV(m.e[:pos] + ((key, val),) + m.e[pos:], m.kind))
    return None, key


MAP = r"^std::collections::(BTreeMap|HashMap)::<K, V(, [AS])*>::"


@model(MAP + r"insert$")
def m_mapinsert(I, st, inst, args, stk):
    old, _ = map_insert(I, st, as_ptr(I, st, args[0]), I.norm(st, args[1]), args[2])
    return opt(I, inst, old)


@model(MAP + r"(get|get_mut|contains_key|get_key_value)$")
def m_mapget(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    k = map_find(I, st, m, ld(I, st, args[1]))
    if op == "contains_key":
        return int(k is not None)
    if k is None:
        return opt(I, inst, None)
    vp = Ptr(p.a, p.p + (("MV", k),))
    if op == "get_key_value":
        return opt(I, inst, Agg(I.T[inst["o"]]["a"][0], 0, (Ptr(p.a, p.p + (("MK", k),)), vp)))
    return opt(I, inst, vp)


@model(r"<std::collections::(BTreeMap|HashMap)<.*> as std::ops::Index<&Q>>::index$")
def m_mapindex(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    k = map_find(I, st, m, ld(I, st, args[1]))
    if k is None:
        raise PanicEx("map index: key not found")
    return Ptr(p.a, p.p + (("MV", k),))


@model(MAP + r"(remove|remove_entry)$")
def m_mapremove(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    k = map_find(I, st, m, ld(I, st, args[1]))
    if k is None:
        return opt(I, inst, None)
    old = [v for kk, v in m.e if kk == k][0]
    I.store(st, p, MapV(((kk, v) for kk, v in m.e if kk != k), m.kind))
    if inst["d"].endswith("entry"):
        return opt(I, inst, Agg(I.T[inst["o"]]["a"][0], 0, (k, old)))
    return opt(I, inst, old)


@model(MAP + r"(len|is_empty)$")
def m_maplen(I, st, inst, args, stk):
    n = len(mapv(I, st, as_ptr(I, st, args[0])).e)
    return n if inst["d"].endswith("len") else int(n == 0)


@model(MAP + r"clear$")
def m_mapclear(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    I.store(st, p, MapV((), m.kind))
    return I.UNIT


@model(MAP + r"(iter|iter_mut|keys|values|values_mut)$", r"<&'a (mut )?std::collections::(BTreeMap|HashMap)<.*> as std::iter::IntoIterator>::into_iter$")
def m_mapiter(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    mode = {"keys": "k", "values": "v", "values_mut": "v"}.get(op, "kv")
    return Opq("mapiter", p, tuple(k for k, _ in m.e), mode)


@model(r"<std::collections::(BTreeMap|HashMap)<.*> as std::iter::IntoIterator>::into_iter$", MAP + r"(into_iter|into_keys|into_values)$")
def m_mapintoiter(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    m = expanded(I, st, args[0])
    tt = None
    items = []
    for k, v in m.e:
        items.append(k if op == "into_keys" else v if op == "into_values" else Agg(None, 0, (k, v)))
    return Opq("intoiter", tuple(items))


@model(r"<std::collections::(btree_map|hash_map)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Range)<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::")
def m_mapiternext(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    ip = as_ptr(I, st, args[0])
    it = ld(I, st, ip)
    if isinstance(it, Opq) and it.k == "intoiter":
        return m_vintoiter(I, st, inst, args, stk)
    if not (isinstance(it, Opq) and it.k == "mapiter"):
        raise Undecided("map iterator")
    p, ks, mode = it.d
    if op in ("next", "next_back"):
        if not ks:
            return opt(I, inst, None)
        k = ks[0] if op == "next" else ks[-1]
        I.store(st, ip, Opq("mapiter", p, ks[1:] if op == "next" else ks[:-1], mode))
        kp, vp = Ptr(p.a, p.p + (("MK", k),)), Ptr(p.a, p.p + (("MV", k),))
        if mode == "k":
            return opt(I, inst, kp)
        if mode == "v":
            return opt(I, inst, vp)
        return opt(I, inst, Agg(I.T[inst["o"]]["a"][0], 0, (kp, vp)))
    if op == "size_hint":
        ot = I.T[inst["o"]]["es"][1]
        return Agg(inst["o"], 0, (len(ks), I.some(ot, len(ks))))
    if op == "len":
        return len(ks)
    raise Undecided("map iter %s" % op)


def map_from_items(I, s, items, kind):
    p = I.alloc(s, MapV((), kind))
    for it in items:
        it = expanded(I, s, it)
        map_insert(I, s, p, I.norm(s, it.f[0]), it.f[1])
    m = s.mem.pop(p.a)
    return m


@model(r"<std::collections::(BTreeMap|HashMap)<K, V.*> as std::iter::FromIterator<\(K, V\)>>::from_iter$")
def m_mapfromiter(I, st, inst, args, stk):
    kind = "btree" if "BTreeMap" in inst["d"] else "hash"
    ity = [a for a in inst["a"] if isinstance(a, int)][-1]
    return bind(drain(I, st, args[0], ity, stk), lambda s, items: map_from_items(I, s, items, kind))


@model(r"<std::collections::(BTreeMap|HashMap)<K, V.*> as std::convert::From<\[\(K, V\); N\]>>::from$")
def m_mapfrom(I, st, inst, args, stk):
    return map_from_items(I, st, expanded(I, st, args[0]).e, "btree" if "BTreeMap" in inst["d"] else "hash")


@model(r"<std::collections::(BTreeMap|HashMap)<K, V.*> as std::iter::Extend<\(K, V\)>>::extend$")
def m_mapextend(I, st, inst, args, stk):
    ity = [a for a in inst["a"] if isinstance(a, int)][-1]
    p = as_ptr(I, st, args[0])

    def k(s, items):
        for it in items:
            it = expanded(I, s, it)
            map_insert(I, s, p, I.norm(s, it.f[0]), it.f[1])
        return I.UNIT
    return bind(drain(I, st, args[1], ity, stk), k)


@model(r"<std::collections::(BTreeMap|HashMap)<K, V.*> as std::clone::Clone>::clone$")
def m_mapclone(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    kp = [Ptr(p.a, p.p + (("MK", k),)) for k, _ in m.e]
    vp = [Ptr(p.a, p.p + (("MV", k),)) for k, _ in m.e]
    kt, vt = inst["a"][0], inst["a"][1]
    return bind(clone_many(I, st, kp, kt, stk), lambda s, ks: bind(clone_many(I, s, vp, vt, stk), lambda s2, vs: MapV(zip(ks, vs), m.kind)))


@model(r"<std::collections::(BTreeMap|HashMap)<K, V.*> as std::cmp::PartialEq>::(eq|ne)$")
def m_mapeq(I, st, inst, args, stk):
    neg = inst["d"].endswith("ne")
    p, q = as_ptr(I, st, args[0]), as_ptr(I, st, args[1])
    m, n = mapv(I, st, p), mapv(I, st, q)
    if len(m.e) != len(n.e):
        return int(neg)
    ka = [Ptr(p.a, p.p + (("MK", k),)) for k, _ in m.e]
    kb = [Ptr(q.a, q.p + (("MK", k),)) for k, _ in n.e]
    va = [Ptr(p.a, p.p + (("MV", k),)) for k, _ in m.e]
    vb = [Ptr(q.a, q.p + (("MV", k),)) for k, _ in n.e]
    return bind(elems_eq(I, st, ka, kb, inst["a"][0], stk), lambda s, r: bind(elems_eq(I, s, va, vb, inst["a"][1], stk), lambda s2, v: int(I.truth(s2, v) != neg)) if I.truth(s, r) else int(neg))


@model(r"<std::collections::BTreeMap<K, V.*> as std::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp)$")
def m_mapcmp(I, st, inst, args, stk):
    a, b = mapv(I, st, as_ptr(I, st, args[0])), mapv(I, st, as_ptr(I, st, args[1]))
    o = inst["o"]
    if inst["d"].endswith("partial_cmp"):
        return I.some(o, ordering(I, st, I.T[o]["a"][0], a, b))
    return ordering(I, st, o, a, b)


@model(MAP + r"entry$")
def m_entry(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    k = map_find(I, st, m, I.norm(st, args[1]))
    t = inst["o"]
    if k is None:
        return Agg(t, I.variant(t, "Vacant"), (Opq("vac", p, I.norm(st, args[1])),))
    return Agg(t, I.variant(t, "Occupied"), (Opq("occ", p, k),))


def entry_slot(I, st, e, val):
    """pointer to the slot; val() supplies the value if vacant"""
    x = e.f[0]
    if x.k == "occ":
        return Ptr(x.d[0].a, x.d[0].p + (("MV", x.d[1]),))
    return None


@model(r"std::collections::(btree_map|hash_map)::Entry::<.*>::(or_insert_with|or_insert|or_default|or_insert_with_key)$")
def m_orinsert(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    e = expanded(I, st, args[0])
    s = entry_slot(I, st, e, None)
    if s is not None:
        return s
    p, key = e.f[0].d

    def put(s2, v):
        _, k = map_insert(I, s2, p, key, v)
        return Ptr(p.a, p.p + (("MV", k),))
    if op == "or_insert":
        return put(st, args[1])
    if op == "or_default":
        i = I.p.tr.get((inst["a"][1], "Default::default"))
        if i is None:
            raise Undecided("or_default")
        return bind(I.call(i, [], st, stk), put)
    fty = [a for a in inst["a"] if isinstance(a, int) and I.tk(a) in ("closure", "fndef", "fnptr")]
    if not fty:
        raise Undecided("or_insert_with closure type")
    if op == "or_insert_with":
        return bind(I.call_fn(st, args[1], fty[-1], [], stk), put)
    return bind(I.call_fn(st, args[1], fty[-1], [I.alloc(st, key)], stk), put)


@model(r"std::collections::(btree_map|hash_map)::Entry::<.*>::and_modify$")
def m_andmodify(I, st, inst, args, stk):
    e = expanded(I, st, args[0])
    s = entry_slot(I, st, e, None)
    if s is None:
        return e
    fty = [a for a in inst["a"] if isinstance(a, int) and I.tk(a) in ("closure", "fndef")][-1]
    return bind(I.call_fn(st, args[1], fty, [s], stk), lambda s2, v: e)


@model(r"std::collections::(btree_map|hash_map)::(VacantEntry|OccupiedEntry)::<.*>::(insert|get|get_mut|into_mut|remove|key|into_key|insert_entry)$")
def m_entryops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    x = I.norm(st, args[0])
    if isinstance(x, Ptr):
        x = ld(I, st, x)
    p, key = x.d
    slot = Ptr(p.a, p.p + (("MV", key),))
    if op == "insert" and x.k == "vac":
        _, k = map_insert(I, st, p, key, args[1])
        return Ptr(p.a, p.p + (("MV", k),))
    if op == "insert":
        old = ld(I, st, slot)
        I.store(st, slot, args[1])
        return old
    if op in ("get", "get_mut", "into_mut"):
        return slot
    if op == "key":
        return Ptr(p.a, p.p + (("MK", key),)) if x.k == "occ" else I.alloc(st, key)
    if op == "into_key":
        return key
    if op == "remove":
        m = mapv(I, st, p)
        old = ld(I, st, slot)
        I.store(st, p, MapV(((kk, v) for kk, v in m.e if kk != key), m.kind))
        return old
    raise Undecided("entry %s" % op)


# ------------------------------------------------------------------ iterators
@model(r"impl std::iter::Iterator for std::ops::Range<A>>::next$", r"<std::ops::Range<A> as std::iter::Iterator>::next$")
def m_rangenext(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    r = expanded(I, st, ld(I, st, p))
    a, b = I.norm(st, r.f[0]), I.norm(st, r.f[1])
    if I.lt(st, a, b):
        I.store(st, p, Agg(r.ty, 0, (I.binop(st, "Add", a, 1, inst["a"][0]), b)))
        return opt(I, inst, a)
    return opt(I, inst, None)


@model(r"impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def m_rangenextb(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    r = expanded(I, st, ld(I, st, p))
    a, b = I.norm(st, r.f[0]), I.norm(st, r.f[1])
    if I.lt(st, a, b):
        nb = I.binop(st, "Sub", b, 1, inst["a"][0])
        I.store(st, p, Agg(r.ty, 0, (a, nb)))
        return opt(I, inst, nb)
    return opt(I, inst, None)


@model(r"impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next$")
def m_rangeinext(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    r = expanded(I, st, ld(I, st, p))
    a, b, done = I.norm(st, r.f[0]), I.norm(st, r.f[1]), I.norm(st, r.f[2])
    if I.truth(st, done) or I.lt(st, b, a):
        return opt(I, inst, None)
    if I.lt(st, a, b):
        I.store(st, p, Agg(r.ty, 0, (I.binop(st, "Add", a, 1, inst["a"][0]), b, 0)))
    else:
        I.store(st, p, Agg(r.ty, 0, (a, b, 1)))
    return opt(I, inst, a)


@model(r"^std::ops::RangeInclusive::<Idx>::new$")
def m_rinew(I, st, inst, args, stk):
    return Agg(inst["o"], 0, (args[0], args[1], 0))


@model(r"^std::ops::RangeInclusive::<Idx>::(start|end)$")
def m_rise(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    return Ptr(p.a, p.p + (("F", 0 if inst["d"].endswith("start") else 1, None),))


@model(r"^std::ops::RangeInclusive::<Idx>::into_inner$")
def m_riinner(I, st, inst, args, stk):
    r = expanded(I, st, args[0])
    return Agg(inst["o"], 0, (r.f[0], r.f[1]))


@model(r"^std::iter::Zip::<A, B>::new$", r"std::iter::adapters::zip::zip$")
def m_zipnew(I, st, inst, args, stk):
    return Opq("zip", args[0], args[1])


@model(r"<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new$")
def m_zipnew2(I, st, inst, args, stk):
    return Opq("zip", args[0], args[1])


@model(r"<std::iter::Zip<A, B> as std::iter::Iterator>::next$", r"ZipImpl<A, B>>::next$")
def m_zipnext(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    na, nb = I.p.tr.get((inst["a"][0], "Iterator::next")), I.p.tr.get((inst["a"][1], "Iterator::next"))
    if na is None or nb is None:
        raise Undecided("zip next")

    def k1(s, x):
        x = expanded(I, s, x)
        if x.v == 0:
            return I.none(inst["o"])

        def k2(s2, y):
            y = expanded(I, s2, y)
            if y.v == 0:
                return I.none(inst["o"])
            return I.some(inst["o"], Agg(I.T[inst["o"]]["a"][0], 0, (x.f[0], y.f[0])))
        return bind(I.call(nb, [Ptr(p.a, p.p + (("W", 1),))], s, stk), k2)
    return bind(I.call(na, [Ptr(p.a, p.p + (("W", 0),))], st, stk), k1)


# ------------------------------------------------------------------ hashing (uninterpreted, injective)
@model(r"BuildHasher>::hash_one$", r"BuildHasher::hash_one$", r"ahash::.*hash_one$")
def m_hashone(I, st, inst, args, stk):
    seed = ld(I, st, args[0])
    v = args[1]
    while isinstance(I.norm(st, v), Ptr):
        v = ld(I, st, v)
    v = I.norm(st, v)
    if isinstance(v, TypeIdV):
        # an injective, seed-dependent function of the type
        st.log = st.log + (("hash_one", repr(seed)),)
        return 0x10000 + v.t + 0x1000000 * hash_seed(repr(seed))
    return sym("inj", ("hash", repr(seed), v), inst["o"])


@model(r"BuildHasher>::build_hasher$", r"Hasher as std::default::Default>::default$", r"DefaultHasher::new$")
def m_buildhasher(I, st, inst, args, stk):
    seed = repr(ld(I, st, args[0])) if args else "default"
    return Opq("hasher", seed, ())


def hasher_at(I, st, p):
    h = as_ptr(I, st, p)
    v = ld(I, st, h)
    while isinstance(v, Ptr):
        h = v
        v = ld(I, st, h)
    if not (isinstance(v, Opq) and v.k == "hasher"):
        raise Undecided("hasher %r" % (v,))
    return h, v


def hash_add(I, st, p, *terms):
    h, v = hasher_at(I, st, p)
    I.store(st, h, Opq("hasher", v.d[0], v.d[1] + terms))


@model(r"Hash for std::any::TypeId>::hash$", r"TypeId as std::hash::Hash>::hash$", r"std::hash::impls::<impl std::hash::Hash for (str|bool|char|[ui]\d+|[ui]size)>::hash$", r"core::hash::impls::<impl std::hash::Hash for (str|bool|char|[ui]\d+|[ui]size)>::hash$", r"impl std::hash::Hash for str>::hash$", r"<std::string::String as std::hash::Hash>::hash$")
def m_hash(I, st, inst, args, stk):
    x = args[0]
    while isinstance(I.norm(st, x), Ptr):
        x = ld(I, st, x)
    hash_add(I, st, args[1], I.norm(st, x))
    return I.UNIT


def hash_elem(I, st, inst, ty, p, hp, stk):
    """hash one element of a modelled container by its own implementation"""
    t = I.T[ty]
    hn = inst["n"].rsplit("::hash::<", 1)[-1].rstrip(">")
    if t["k"] in ("int", "bool", "char") or t.get("d", "").endswith("string::String"):
        hash_add(I, st, hp, ld(I, st, p))
        return [(st, "ret", I.UNIT)]
    idx = I.p.cache.get("hash_impls")
    if idx is None:
        idx = I.p.cache["hash_impls"] = {x["n"]: k for k, x in enumerate(I.p.insts) if "std::hash::Hash>::hash::<" in (x["n"] or "")}
    k = idx.get("<%s as std::hash::Hash>::hash::<%s>" % (t["n"], hn))
    if k is None:
        raise Undecided("hash of %s" % t["n"])
    return I.call(k, [p, hp], st, stk)


@model(r"<std::vec::Vec<T, A> as std::hash::Hash>::hash$", r"<impl std::hash::Hash for \[T\]>::hash$")
def m_vechash(I, st, inst, args, stk):
    ps = I.seq_elems(st, as_ptr(I, st, args[0]))
    hash_add(I, st, args[1], "len", len(ps))
    outs = [(st, "ret", I.UNIT)]
    for p in ps:
        outs = bind(outs, lambda s, _, p=p: hash_elem(I, s, inst, inst["a"][0], p, args[1], stk))
    return outs


@model(r"<std::collections::BTreeMap<K, V, A> as std::hash::Hash>::hash$")
def m_maphash(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    m = mapv(I, st, p)
    hash_add(I, st, args[1], "len", len(m.e))
    outs = [(st, "ret", I.UNIT)]
    for k in m.e:
        for w in ("K", "V"):
            outs = bind(outs, lambda s, _, k=k, w=w: hash_elem(I, s, inst, inst["a"][0 if w == "K" else 1], Ptr(p.a, p.p + (("M" + w, k[0]),)), args[1], stk))
    return outs


@model(r"Hasher as std::hash::Hasher>::write_\w+$", r"std::hash::Hasher::write_\w+$")
def m_hwrite(I, st, inst, args, stk):
    x = args[1]
    while isinstance(I.norm(st, x), Ptr):
        x = ld(I, st, x)
    hash_add(I, st, args[0], inst["d"].rsplit("::", 1)[1], I.norm(st, x))
    return I.UNIT


@model(r"core::f(32|64)::<impl f(32|64)>::is_nan$")
def m_isnan(I, st, inst, args, stk):
    x = I.norm(st, args[0])
    return int(I.isnan(st, x))


@model(r"^ordered_float::raw_double_bits$")
def m_odbits(I, st, inst, args, stk):
    """injective on the canonical (non-NaN) floats, up to the sign of zero"""
    x = I.norm(st, as_ptr(I, st, args[0]))
    x = ld(I, st, x)
    return sym("inj", ("fbits", I.fkey(x)), inst["o"])


def float_bits(I, st, x, ty, w):
    """the bits of a float: the payload of a NaN and the sign of a zero are functions of the float that its
    numeric value does not determine, the bits of any other number are an injective function of its value"""
    if I.isnan(st, x):
        return sym("inj", ("fbits", "nan", sym("nanbits", (x,), ty)), ty)
    if I.eq(st, I.fkey(x), I.fkey(mkflt(0.0, w))):
        return sym("inj", ("fbits", "zero", int(str(x.val())[0] == "-") if isinstance(x, Flt) else sym("zerosign", (x,), ty)), ty)
    return sym("inj", ("fbits", "num", I.fkey(x)), ty)


@model(r"f(32|64)::<impl f(32|64)>::to_(bits|ne_bytes|be_bytes|le_bytes)$")
def m_tobits(I, st, inst, args, stk):
    b = float_bits(I, st, I.norm(st, args[0]), I.p.str, 64 if "f64" in inst["d"] else 32)
    if inst["d"].endswith("to_bits"):
        return sym("inj", b.args, inst["o"])
    return b


@model(r"f(32|64)::<impl f(32|64)>::total_cmp$")
def m_totalcmp(I, st, inst, args, stk):
    x, y = I.norm(st, ld(I, st, args[0])), I.norm(st, ld(I, st, args[1]))

    def rank(v):
        if not I.isnan(st, v):
            return 1
        return 2 if I.truth(st, sym("nanpos", (v,), I.p.bool)) else 0

    def res(a, b, lt, eq):
        return mkord(I, inst["o"], -1 if lt else 0 if eq else 1)
    a, b = rank(x), rank(y)
    if a != b:
        return res(a, b, a < b, False)
    if a == 1:
        k, l = I.fkey(x), I.fkey(y)
        if not I.eq(st, k, l):
            return res(a, b, I.lt(st, k, l), False)
        if not I.eq(st, k, I.fkey(mkflt(0.0, 64 if "f64" in inst["d"] else 32))):
            return res(a, b, False, True)
        k, l = sym("zerosign", (x,), I.p.str), sym("zerosign", (y,), I.p.str)
    else:
        k, l = sym("nanbits", (x,), I.p.str), sym("nanbits", (y,), I.p.str)
    if I.eq(st, k, l):
        return res(a, b, False, True)
    return res(a, b, I.lt(st, k, l), False)


@model(r"^ordered_float::canonicalize_signed_zero$")
def m_canonz(I, st, inst, args, stk):
    return args[0]


@model(r"Hasher as std::hash::Hasher>::finish$", r"std::hash::Hasher::finish$")
def m_hfinish(I, st, inst, args, stk):
    v = ld(I, st, args[0])
    if not (isinstance(v, Opq) and v.k == "hasher"):
        raise Undecided("hasher %r" % (v,))
    if len(v.d[1]) == 1 and isinstance(v.d[1][0], TypeIdV):
        return 0x10000 + v.d[1][0].t + 0x1000000 * (hash_seed(v.d[0]))
    if all(isinstance(x, (str, int, TypeIdV, Flt)) for x in v.d[1]):
        return 0x7000000000 + hash_seed(repr(v))
    return sym("inj", ("hash", v.d[0]) + tuple(v.d[1]), inst["o"])


SEEDS = {}


def hash_seed(s):
    return SEEDS.setdefault(s, len(SEEDS))


@model(r"RandomState as std::clone::Clone>::clone$")
def m_rsclone(I, st, inst, args, stk):
    return ld(I, st, args[0])


# ------------------------------------------------------------------ NonZero, Duration
@model(r"^std::num::NonZero::<T>::get$")
def m_nzget(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    if isinstance(v, Opq) and v.k == "nz":
        return v.d[0]
    if type(v) is Sym:
        x = sym("nzget", (v,), inst["o"])
        if st.facts.get(("=", x)) is None and 0 not in st.facts.get(("ne", x), ()):
            I.assume_ne(st, x, 0)
        return x
    if isinstance(v, int):
        return v
    raise Undecided("NonZero %r" % (v,))


@model(r"^std::num::NonZero::<T>::new$")
def m_nznew(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    if I.eq(st, v, 0):
        return opt(I, inst, None)
    if type(v) is Sym and v.op == "nzget":
        return opt(I, inst, v.args[0])
    return opt(I, inst, Opq("nz", v))


@model(r"NonZero<T> as std::clone::Clone>::clone$", r"^<glam::\w+ as std::clone::Clone>::clone$", r"^<std::ops::RangeFull as std::clone::Clone>::clone$", r"^<std::time::Duration as std::clone::Clone>::clone$")
def m_nzclone(I, st, inst, args, stk):
    return ld(I, st, args[0])


@model(r"^std::time::Duration::as_secs_f32$")
def m_dsecs(I, st, inst, args, stk):
    return sym("secs_f32", (ld(I, st, args[0]),), inst["o"])


@model(r"^std::time::Duration::from_secs_f32$")
def m_dfrom(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    # panics outside [0, 2^64)
    neg = I.float_bin(st, "Lt", v, mkflt(0.0, 32), None)
    nan = not I.truth(st, I.float_bin(st, "Eq", v, v, None))
    big = I.truth(st, I.float_bin(st, "Ge", v, mkflt(float(2 ** 64), 32), None))
    if nan or I.truth(st, neg) or big:
        raise PanicEx("Duration::from_secs_f32 out of range")
    return sym("dur", (v,), inst["o"])


@model(r"^core::num::<impl .*>::(max|min)_value$")
def m_intlimit(I, st, inst, args, stk):
    lo, hi = I.int_range(inst["o"])
    return hi if inst["d"].endswith("max_value") else lo


# ------------------------------------------------------------------ locks, once cells
def release(I, st, g):
    p, mode = g.d
    held = dict(st.facts.get("locks", ()))
    key = (p.a, p.p)
    if key in held:
        n, w = held[key]
        held[key] = (n - 1, False) if mode == "r" else (0, False)
        if held[key] == (0, False):
            del held[key]
    st.facts["locks"] = tuple(sorted(held.items(), key=repr))


@model(r"RwLock::<T>::new$", r"Mutex::<T>::new$", r"^std::cell::(RefCell|Cell|UnsafeCell|OnceCell)::<T>::new$", r"OnceLock::<T>::new$")
def m_lnew(I, st, inst, args, stk):
    if "Once" in inst["d"]:
        return Opq("once", None)
    return Opq("wrap", args[0])


@model(r"RwLock::<T>::(read|write)$", r"Mutex::<T>::lock$")
def m_lock(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    mode = "r" if inst["d"].endswith("read") else "w"
    held = dict(st.facts.get("locks", ()))
    key = (p.a, p.p)
    n, w = held.get(key, (0, False))
    if w or (mode == "w" and n > 0):
        I.failures.append(("lock-reentry", st.copy(), "lock acquired while already held by the same thread"))
        raise PanicEx("deadlock: lock re-acquired while held")
    held[key] = (n + 1, False) if mode == "r" else (n, True)
    st.facts["locks"] = tuple(sorted(held.items(), key=repr))
    st.log = st.log + (("lock", mode, p.a),)
    rt = inst["o"]
    return Agg(rt, 0, (Opq("guard", p, mode),))


@model(r"(RwLockReadGuard|RwLockWriteGuard|MutexGuard)<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_guard(I, st, inst, args, stk):
    g = ld(I, st, args[0])
    if not (isinstance(g, Opq) and g.k == "guard"):
        raise Undecided("guard")
    p = g.d[0]
    return Ptr(p.a, p.p + (("W", 0),))


@model(r"PoisonError::<T>::into_inner$")
def m_poison(I, st, inst, args, stk):
    raise Infeasible()


@model(r"^once_cell::race::OnceBox::<T>::new$", r"race::OnceBox::<T>::new$")
def m_oncenew(I, st, inst, args, stk):
    return Opq("once", None)


def once_state(I, st, p):
    v = ld(I, st, p)
    if isinstance(v, Opq) and v.k == "once":
        return v
    I.store(st, p, Opq("once", None))
    return Opq("once", None)


@model(r"OnceBox::<T>::get_or_init$", r"OnceLock::<T>::get_or_init$", r"OnceCell::<T>::get_or_init$", r"Lazy::<.*>::force$")
def m_onceinit(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = once_state(I, st, p)
    boxed = "OnceBox" in inst["d"]
    if v.d[0] is not None:
        return v.d[0] if boxed else Ptr(p.a, p.p + (("W", 0),))
    fty = [a for a in inst["a"] if isinstance(a, int) and I.tk(a) in ("closure", "fndef", "fnptr")]
    if not fty:
        raise Undecided("get_or_init closure")

    def k(s, x):
        cur = once_state(I, s, p)
        if cur.d[0] is not None:
            return cur.d[0] if boxed else Ptr(p.a, p.p + (("W", 0),))
        I.store(s, p, Opq("once", x))
        return x if boxed else Ptr(p.a, p.p + (("W", 0),))
    return bind(I.call_fn(st, args[1], fty[-1], [], stk), k)


@model(r"OnceBox::<T>::get$", r"OnceLock::<T>::get$")
def m_onceget(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    v = once_state(I, st, p)
    boxed = "OnceBox" in inst["d"]
    if v.d[0] is None:
        return opt(I, inst, None)
    return opt(I, inst, v.d[0] if boxed else Ptr(p.a, p.p + (("W", 0),)))


# ------------------------------------------------------------------ formatting
def fmt_value(I, st, ty, p, trait, stk, k):
    i = I.p.tr.get((ty, trait + "::fmt"))
    if i is None:
        raise Undecided("no %s for %s" % (trait, I.T[ty]["n"]))
    buf = I.alloc(st, "")
    f = I.alloc(st, Opq("fmt", buf, 0))
    return bind(I.call(i, [p, f], st, stk), lambda s, v: k([ld(I, s, buf)]))


@model(r"ordered_float::FloatIsNan")
def m_of(I, st, inst, args, stk):
    raise Undecided("FloatIsNan")


# ------------------------------------------------------------------ symbolic Reflect objects
SCALARS = ["usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "char", "f32", "f64", "String"]
KINDS = ["Struct", "TupleStruct", "Tuple", "Enum", "Array", "List", "Map", "Scalar", "Opaque"]


def scalar_ty(I, name):
    return I.p.tyname["std::string::String" if name == "String" else name]


def so_kind(I, st, o):
    ks = I.cfg.get("kinds", KINDS)
    lim = I.cfg.get("kind_depth")
    if lim is not None and so_depth(o) >= lim:
        ks = I.cfg.get("leaf_kinds", ["Scalar", "Opaque"])
    return I.choose(st, ("kind", o), ks, "kind(%r)" % o)


def so_depth(o):
    n = 0
    while type(o) is Sym and o.op == "child":
        n, o = n + 1, o.args[0]
    return n


def so_scalar(I, st, o):
    return I.choose(st, ("sk", o), I.cfg.get("scalars", ["i32", "String"]), "scalar(%r)" % o)


def so_loc(o):
    return ("O", o)


def so_ptr(I, st, o, fat=True):
    a = ("O", o)
    if a not in st.mem:
        st.mem[a] = o
    return Ptr(a, (), ("vt", I.p.symobj) if fat else None)


def so_child(I, st, o, *path):
    c = sym("child", (o,) + path, I.p.symobj)
    return so_ptr(I, st, c)


def symobj_downcast(I, st, o, want):
    o = I.norm(st, o)
    tn = I.T[want]["n"]
    nm = {"std::string::String": "String"}.get(tn, tn)
    if nm in SCALARS:
        k, sk = st.facts.get(("kind", o)), st.facts.get(("sk", o))
        no = st.facts.get(("notval", o), ())
        if k not in (None, "Scalar") or sk not in (None, nm) or nm in no or nm not in I.cfg.get("scalars", ["i32", "String"]) or "Scalar" not in I.cfg.get("kinds", KINDS):
            return None
        if not st.facts.get(("isval", o)):
            def yes(s):
                s.facts[("kind", o)], s.facts[("sk", o)], s.facts[("isval", o)] = "Scalar", nm, True
                return True

            def neg(s):
                s.facts[("notval", o)] = no + (nm,)
                return True
            raise NeedFork([("%r is a %s" % (o, nm), yes), ("%r is no %s" % (o, nm), neg)])
        a = ("SV", o)
        if a not in st.mem:
            st.mem[a] = sym("sval", (o,), want)
        return Ptr(a)
    return None


@model(r"symobj::sym_key$", r"symobj::sym_val$")
def m_symkv(I, st, inst, args, stk):
    rp = as_ptr(I, st, args[0])
    o = ld(I, st, Ptr(rp.a, rp.p))
    n = so_len(I, st, o)
    k = conc_index(I, st, I.norm(st, args[1]), n)
    if k is None:
        return opt(I, inst, None)
    return opt(I, inst, so_child(I, st, o, "k" if inst["d"].endswith("key") else "v", k))


def so_names(I, st, o):
    """the (distinct) names of an enumerated struct-like object"""
    n = so_len(I, st, o)
    ns = [sym("nm", (o, k), I.p.str) for k in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                x, y = I.norm(st, ns[i]), I.norm(st, ns[j])
                if type(x) is Sym:
                    cur = st.facts.get(("ne", x), frozenset())
                    if y not in cur:
                        st.facts[("ne", x)] = cur | {y}
    return ns


def so_mode(I, st, o, first):
    m = st.facts.get(("mode", o))
    if m is None:
        st.facts[("mode", o)] = m = first
    return m


def so_vkind(I, st, o):
    return I.choose(st, ("vk", o), ["Struct", "Tuple", "Unit"], "variant_kind(%r)" % o)


def so_field(I, st, o, n):
    """field by name: child object or None"""
    if so_mode(I, st, o, I.cfg.get("mode", "named")) == "enum":
        for k, q in enumerate(so_names(I, st, o)):
            if I.eq(st, q, n):
                return so_child(I, st, o, "i", k)
        return None
    n = I.norm(st, n)
    for q in st.facts.get(("names", o), ()):
        if q is not n and I.eq(st, q, n):
            n = q
    if n not in st.facts.get(("names", o), ()):
        st.facts[("names", o)] = st.facts.get(("names", o), ()) + (n,)
    has = I.choose(st, ("has", o, n), [True, False], "has(%r.%r)" % (o, n))
    return so_child(I, st, o, "f", n) if has else None


@model(r"SymObj as mirror_mirror::", r"symobj::<impl mirror_mirror::.* for symobj::SymObj>::", r"<impl .* for (witness::)?symobj::SymObj>::")
def m_symobj(I, st, inst, args, stk):
    d = inst["d"]
    op = d.rsplit("::", 1)[1]
    m = re.search(r"(Reflect|TupleStruct|Tuple|Struct|Enum|Array|List|Map|DescribeType|FromReflect|Debug|Clone)(?:>| for)", d)
    tr = m.group(1) if m else "?"
    rp = as_ptr(I, st, args[0]) if args else None
    o = ld(I, st, Ptr(rp.a, rp.p)) if rp is not None else None
    fat = Ptr(rp.a, rp.p, ("vt", I.p.symobj)) if rp is not None else None
    oty = inst["o"]
    if tr == "Reflect":
        if op in ("as_any", "as_any_mut", "as_reflect", "as_reflect_mut"):
            return fat
        if op in ("reflect_ref", "reflect_mut", "reflect_owned"):
            k = so_kind(I, st, o)
            vi = I.variant(oty, k)
            fts = I.fields(oty, vi)
            if k == "Scalar":
                sk = so_scalar(I, st, o)
                sty = fts[0]
                sv = I.variant(sty, sk)
                sf = I.fields(sty, sv)[0]
                a = ("SV", o)
                if a not in st.mem:
                    st.mem[a] = sym("sval", (o,), scalar_ty(I, sk))
                val = Ptr(a) if I.tk(sf) == "ref" else st.mem[a]
                return Agg(oty, vi, (Agg(sty, sv, (val,)),))
            return Agg(oty, vi, (fat,) if fts else ())
        if op == "patch":
            st.log = st.log + (("patch", o, args[1]),)
            return I.UNIT
        if op == "to_value":
            return so_to_value(I, st, o, oty)
        if op == "type_name":
            st.mem[("tname", o)] = sym("tname", (o,), I.p.str)
            return Ptr(("tname", o))
        if op == "type_id":
            return sym("tid", (o,), oty)
        if op == "clone_reflect":
            return so_ptr(I, st, sym("clone", (o,), I.p.symobj))
        if op == "debug":
            return sym("debug", (o,), oty)
        if op == "type_descriptor":
            return sym("descr", (o,), oty)
    vk = so_vkind(I, st, o) if tr == "Enum" and op not in ("variant_name", "variants_len", "fields") else None
    if op in ("fields", "iter"):
        return I.exec_fn(I.p.insts.index(inst) if "_id" not in inst else inst["_id"], inst, args, st, stk)
    if op in ("field", "field_mut"):
        n = sval(I, st, args[1])
        return opt(I, inst, so_field(I, st, o, n) if vk in (None, "Struct") else None)
    if tr == "Map" and op in ("get", "get_mut"):
        kp = as_ptr(I, st, args[1])
        ko = ld(I, st, Ptr(kp.a, kp.p))
        if type(ko) is Sym and ko.op == "child" and ko.args[0] is o and ko.args[1] == "k":
            return opt(I, inst, so_child(I, st, o, "v", ko.args[2]))
        key = so_mapkey(I, st, o, kp, ko)
        has = I.choose(st, ("mhas", o, key), [True, False], "has(%r[#%d])" % (o, key))
        return opt(I, inst, so_child(I, st, o, "g", key) if has else None)
    if vk == "Unit" and op in ("field_at", "field_at_mut", "name_at"):
        return opt(I, inst, None)
    if vk == "Unit" and op == "fields_len":
        return 0
    if tr in ("Struct", "Enum") and vk != "Tuple" and op in ("field_at", "field_at_mut", "name_at", "fields_len"):
        if so_mode(I, st, o, "enum") != "enum":
            raise Undecided("object used both by name and by position")
    if vk == "Tuple" and op == "name_at":
        return opt(I, inst, None)
    if op in ("field_at", "field_at_mut") or (op in ("get", "get_mut") and tr in ("Array", "List")):
        idx = I.norm(st, args[1])
        key = idx
        n = so_len(I, st, o)
        k = conc_index(I, st, idx, n)
        return opt(I, inst, so_child(I, st, o, "i", k) if k is not None else None)
    if op in ("fields_len", "len", "fields_len"):
        return so_len(I, st, o)
    if op == "is_empty":
        return int(so_len(I, st, o) == 0)
    if op == "name_at":
        n = so_len(I, st, o)
        k = conc_index(I, st, args[1], n)
        if k is None:
            return opt(I, inst, None)
        st.mem[("nm", o, k)] = so_names(I, st, o)[k]
        return opt(I, inst, Ptr(("nm", o, k)))
    if op == "variant_name":
        st.mem[("vname", o)] = sym("vname", (o,), I.p.str)
        return Ptr(("vname", o))
    if op == "variant_kind":
        return Agg(oty, I.variant(oty, vk), ())
    if op == "variants_len":
        return sym("nvariants", (o,), I.p.usize)
    raise Undecided("symbolic object: %s::%s" % (tr, op))


def so_mapkey(I, st, o, kp, ko):
    """number of the key among the keys asked for so far (the same key, by value, gives the same answer)"""
    if I.p.adt(getattr(ko, "ty", None) or 0).endswith("::Value"):
        ko = expanded(I, st, ko)
    if isinstance(ko, Agg) and I.p.adt(ko.ty).endswith("::Value") and len(ko.f) == 1:
        ko = I.norm(st, ko.f[0])
    asked = st.facts.get(("mkeys", o), ())
    for n, k in enumerate(asked):
        if k is ko:
            return n
    for n, k in enumerate(asked):
        if type(k) is Sym and k.op in ("child", "in") and k.ty == I.p.symobj or type(ko) is Sym and ko.ty == I.p.symobj:
            continue
        if (type(k) is Sym) and (type(ko) is Sym) and k.ty != ko.ty:
            continue
        if veq(I, st, k, ko):
            return n
    st.facts[("mkeys", o)] = asked + (ko,)
    return len(asked)


TOV = {"Struct": "StructValue", "TupleStruct": "TupleStructValue", "Tuple": "TupleValue", "Enum": "EnumValue", "Array": "List", "List": "List", "Map": "Map"}


def so_to_value(I, st, o, vty):
    """to_value of an arbitrary object: an unknown Value of the matching kind"""
    v = sym("to_value", (o,), vty)
    if st.facts.get(("d", v)) is not None:
        return v
    k = so_kind(I, st, o)
    if k == "Scalar":
        sk = so_scalar(I, st, o)
        vi = I.variant(vty, sk)
        a = ("SV", o)
        if a not in st.mem:
            st.mem[a] = sym("sval", (o,), scalar_ty(I, sk))
        return Agg(vty, vi, (st.mem[a],))
    if k in TOV:
        st.facts[("d", v)] = I.variant(vty, TOV[k])
    return v


def so_len(I, st, o):
    return I.choose(st, ("olen", o), range(0, I.maxlen_of(o) + 1), "len(%r)" % o)


import models_fmt  # noqa: E402,F401
import models_std  # noqa: E402,F401
