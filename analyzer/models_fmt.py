"""Transfer functions of std::fmt: formatted text as a concatenation of literals and injective renderings."""
import re
from mir import *
import models as M
from models import as_ptr, bind, concat, drain, ld, sval

ALT = 1 << 23
BAD = (1 << 21) | (1 << 22) | (1 << 24) | (1 << 25) | (1 << 26) | (1 << 27) | (1 << 28)


def first(*rx):
    def deco(f):
        for r in rx:
            M.MODELS.insert(0, (re.compile(r), f))
        return f
    return deco


def fmt_of(I, st, fp):
    fp = as_ptr(I, st, fp)
    v = ld(I, st, fp)
    while isinstance(v, Ptr):
        fp = v
        v = ld(I, st, fp)
    if not (isinstance(v, Opq) and v.k == "fmt"):
        raise Undecided("formatter %r" % (v,))
    return v


def emit(I, st, fp, *parts):
    v = fmt_of(I, st, fp)
    I.store(st, v.d[0], concat([ld(I, st, v.d[0])] + list(parts)))


def scratch_fmt(I, st, flags):
    buf = I.alloc(st, "")
    return buf, I.alloc(st, Opq("fmt", buf, flags))


def ok(I, inst):
    return Agg(inst["o"], 0, (I.UNIT,))


def through(outs, inst, I, st_ok=None):
    """outcomes of a user fmt function -> ok or error"""
    def f(s, v):
        v = M.expanded(I, s, v)
        if isinstance(v, Agg) and v.v == 1:
            return [(s, "fmterr", None)]
        return [(s, "ret", None)]
    return bind(outs, f)


def caught(I, inst, outs):
    """formatting errors as the error of a fmt::Result"""
    r = []
    for s, k, v in outs:
        if k == "fmterr":
            e = [v2 for v2 in I.T[inst["o"]]["v"] if v2[0] == "Err"][0][2][0][1]
            r.append((s, "ret", Agg(inst["o"], 1, (Agg(e, 0, ()),))))
        else:
            r.append((s, k, v))
    return r


def unwrapped(outs):
    """formatting errors where text is demanded: a panic"""
    return [(s, "panic", "a formatting trait implementation returned an error") if k == "fmterr" else (s, k, v) for s, k, v in outs]


def esc_debug(v, q):
    o = ""
    for c in v:
        if c == q or c == "\\":
            o += "\\" + c
        elif c in "\n\r\t\0":
            o += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}[c]
        elif ord(c) < 32 or ord(c) == 127:
            o += "\\u{%x}" % ord(c)
        elif ord(c) > 127:
            raise Undecided("escape of non-ascii text")
        else:
            o += c
    return q + o + q


def fmt_any(I, st, ty, p, trait, fp, stk, raw=False):
    """format the value of type ty at p with the trait into the formatter at fp; outcomes with value None"""
    t = I.T[ty]
    k = t["k"]
    if k in ("ref", "ptr"):
        return fmt_any(I, st, t["e"], as_ptr(I, st, ld(I, st, p)), trait, fp, stk)
    if k == "dyn":
        q = as_ptr(I, st, p)
        i = None
        if q.m and q.m[0] == "vt":
            i = I.p.tr.get((ty, trait + "::fmt"))
            if i is None or I.p.insts[i]["b"] is None:
                i = None
            if i is not None:
                return through(I.call(i, [q, fp], st, stk), None, I)
            i = I.p.vt.get((q.m[1], "std::fmt::%s::fmt" % trait))
            if i is None:
                return fmt_any(I, st, q.m[1], Ptr(q.a, q.p), trait, fp, stk)
            inst = I.p.insts[i]
            if inst["b"] is None:
                return fmt_any(I, st, q.m[1], Ptr(q.a, q.p), trait, fp, stk)
            return through(I.call(i, [Ptr(q.a, q.p), fp], st, stk), None, I)
        raise Undecided("formatting %s at %r" % (t["n"], q))
    d = t.get("d", "") if k == "adt" else ""
    if d.endswith("borrow::Cow") and I.T[t["a"][-1]]["k"] == "str":
        w = I.expand(st, ld(I, st, p)) if type(ld(I, st, p)) is Sym else ld(I, st, p)
        q = w.f[0] if w.v == 0 else Ptr(p.a, p.p + (("F", 0, 1),))
        return fmt_any(I, st, I.p.str, q, trait, fp, stk)
    if k == "str" or d.endswith("string::String"):
        v = sval(I, st, p)
        if trait == "Debug":
            v = esc_debug(v, '"') if isinstance(v, str) else sym("inj", ("dbgstr", v), I.p.str)
        emit(I, st, fp, v)
        return [(st, "ret", None)]
    if k == "int":
        v = ld(I, st, p)
        emit(I, st, fp, str(v) if isinstance(v, int) else sym("inj", ("str_of", v), I.p.str))
        return [(st, "ret", None)]
    if k == "bool":
        emit(I, st, fp, "true" if I.truth(st, ld(I, st, p)) else "false")
        return [(st, "ret", None)]
    if k == "char":
        v = ld(I, st, p)
        if isinstance(v, int):
            emit(I, st, fp, esc_debug(chr(v), "'") if trait == "Debug" else chr(v))
        else:
            emit(I, st, fp, sym("inj", ("dbgchar" if trait == "Debug" else "str_of_char", v), I.p.str))
        return [(st, "ret", None)]
    if k == "float":
        v = ld(I, st, p)
        emit(I, st, fp, sym("inj", ("float" + trait, str(t["b"]), v), I.p.str))
        return [(st, "ret", None)]
    if trait == "Debug":
        if k == "tuple":
            es = t.get("es", ())
            if not es:
                emit(I, st, fp, "()")
                return [(st, "ret", None)]
            b = start(I, st, fp, "tuple", "")
            outs = [(st, "ret", None)]
            for n, e in enumerate(es):
                outs = bind(outs, lambda s, _, n=n, e=e: entry(I, s, b, None, e, Ptr(as_ptr(I, s, p).a, as_ptr(I, s, p).p + (("F", n, None),)), stk))
            return bind(outs, lambda s, _: finish(I, s, b))
        if k in ("slice", "array") or d.endswith("vec::Vec"):
            e = t.get("e") if k != "adt" else t["a"][0]
            b = start(I, st, fp, "list", "")
            outs = [(st, "ret", None)]
            for q in I.seq_elems(st, as_ptr(I, st, p)):
                outs = bind(outs, lambda s, _, q=q: entry(I, s, b, None, e, q, stk))
            return bind(outs, lambda s, _: finish(I, s, b))
        if d.endswith("BTreeMap") or d.endswith("HashMap"):
            q = as_ptr(I, st, p)
            m = M.mapv(I, st, q)
            b = start(I, st, fp, "map", "")
            outs = [(st, "ret", None)]
            for kk in m.e:
                outs = bind(outs, lambda s, _, kk=kk: key(I, s, b, t["a"][0], Ptr(q.a, q.p + (("MK", kk[0]),)), stk))
                outs = bind(outs, lambda s, _, kk=kk: val(I, s, b, t["a"][1], Ptr(q.a, q.p + (("MV", kk[0]),)), stk))
            return bind(outs, lambda s, _: finish(I, s, b))
    if trait == "Debug" and d in ("std::option::Option", "std::result::Result", "std::cmp::Ordering", "std::ops::Bound"):
        q = as_ptr(I, st, p)
        x = M.expanded(I, st, ld(I, st, q))
        if not isinstance(x, Agg):
            raise Undecided("debug of %r" % (x,))
        name, _, fs = t["v"][x.v]
        if not fs:
            emit(I, st, fp, name)
            return [(st, "ret", None)]
        b = start(I, st, fp, "tuple", name)
        outs = [(st, "ret", None)]
        for n, (_, e) in enumerate(fs):
            outs = bind(outs, lambda s, _, n=n, e=e: entry(I, s, b, None, e, Ptr(q.a, q.p + (("F", n, x.v),)), stk))
        return bind(outs, lambda s, _: finish(I, s, b))
    if d.endswith("boxed::Box"):
        return fmt_any(I, st, t["a"][0], as_ptr(I, st, ld(I, st, p)), trait, fp, stk)
    if d.endswith("num::NonZero"):
        v = ld(I, st, p)
        if isinstance(v, Opq) and v.k == "nz":
            v = I.norm(st, v.d[0])
        else:
            v = I.norm(st, sym("nzget", (v,), t["a"][0]))
        emit(I, st, fp, str(v) if isinstance(v, int) else sym("inj", ("str_of", v), I.p.str))
        return [(st, "ret", None)]
    if d.endswith("any::TypeId") or d.endswith("time::Duration"):
        v = ld(I, st, p)
        emit(I, st, fp, sym("inj", ("text", d, trait, repr(v)), I.p.str))
        return [(st, "ret", None)]
    if trait == "Display" and SYNTAX.search(d):
        emit(I, st, fp, sym("inj", ("text", d, repr(ld(I, st, p))), I.p.str))
        return [(st, "ret", None)]
    if trait == "Display" and d.endswith("SimpleTypeName") and I.cfg.get("simple_names"):
        # summary: its own obligations say what it writes
        x = sym("simple", (ld(I, st, p),), I.p.str)
        v = ld(I, st, p)
        of = v.f[0] if isinstance(v, Agg) else v
        plain = type(of) is Sym and of.op == "parsed" and isinstance(of.args[0], str) and PLAIN.match(of.args[0])
        if plain or I.choose(st, ("writable", x), (1, 0), "writable(%r)" % x):
            emit(I, st, fp, x)
            return [(st, "ret", None)]
        emit(I, st, fp, sym("part_of", (x,), I.p.str))
        return [(st, "fmterr", None)]
    i = I.p.tr.get((ty, trait + "::fmt"))
    if i is None:
        return [(st, "undec", "no %s for %s" % (trait, t["n"]))]
    inst = I.p.insts[i]
    if inst["b"] is None and not raw:
        return [(st, "undec", "unmodelled %s for %s" % (trait, t["n"]))]
    return through(I.call(i, [p, fp], st, stk), None, I)


PLAIN = re.compile(r"^[A-Za-z]\w*(::[A-Za-z]\w*)*$")  # a plain path is a type
SYNTAX = re.compile(r"^(syn|proc_macro2)::(lit::)?(Ident|LitInt|LitFloat)$")


@first(r"^syn::parse_str$")
def m_parse(I, st, inst, args, stk):
    v = sval(I, st, args[0])
    t = I.T[inst["o"]]["v"]
    ok_ty, err_ty = t[0][2][0][1], t[1][2][0][1]
    if (I.cfg.get("simple_names") and isinstance(v, str) and PLAIN.match(v)) or I.choose(st, ("parses", v, ok_ty), (1, 0), "parses(%r)" % (v,)):
        return Agg(inst["o"], 0, (sym("parsed", (v,), ok_ty),))
    return Agg(inst["o"], 1, (sym("parse_error", (v,), err_ty),))


@first(r"^syn::punctuated::Punctuated::<T, P>::iter$", r"^<&'a syn::punctuated::Punctuated<T, P> as std::iter::IntoIterator>::into_iter$")
def m_pitems(I, st, inst, args, stk):
    """the items of a punctuated sequence: the pairs, then the last one"""
    q = as_ptr(I, st, args[0])
    v = M.expanded(I, st, ld(I, st, q))
    pairs = Ptr(q.a, q.p + (("F", 0, None),))
    items = [Ptr(e.a, e.p + (("F", 0, None),)) for e in I.seq_elems(st, pairs)]
    last = M.expanded(I, st, v.f[1])
    if last.v == 1:
        items.append(as_ptr(I, st, last.f[0]))
    return Opq("punct", tuple(items))


@first(r"^<syn::punctuated::Iter<'a, T> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::(next|next_back|len)$", r"^syn::punctuated::Iter::<'a, T>::len$")
def m_pnext(I, st, inst, args, stk):
    q = as_ptr(I, st, args[0])
    v = ld(I, st, q)
    if not (isinstance(v, Opq) and v.k == "punct"):
        raise Undecided("syntax iterator %r" % (v,))
    e = v.d[0]
    if inst["d"].endswith("len"):
        return len(e)
    if not e:
        return M.opt(I, inst, None)
    back = inst["d"].endswith("back")
    I.store(st, q, Opq("punct", e[:-1] if back else e[1:]))
    return M.opt(I, inst, e[-1] if back else e[0])


# ------------------------------------------------------------------ builders
# Opq("dbg", kind, formatter ptr, count, pending key text, accumulated (alternate mode), name)
OPEN = {"struct": " { ", "tuple": "(", "list": "[", "set": "{", "map": "{"}
CLOSE = {"struct": " }", "tuple": ")", "list": "]", "set": "}", "map": "}"}


def start(I, st, fp, kind, name):
    """allocates the builder and returns its place"""
    return I.alloc(st, start_val(I, st, fp, kind, name))


def start_val(I, st, fp, kind, name):
    f = fmt_of(I, st, fp)
    if not f.d[1] & ALT:
        emit(I, st, fp, name)
        if kind in ("list", "set", "map"):
            emit(I, st, fp, OPEN[kind])
    return Opq("dbg", kind, as_ptr(I, st, fp), 0, None, (), name)


def render(I, st, b, ty, q, stk, k):
    v = ld(I, st, b)
    f = fmt_of(I, st, v.d[1])
    buf, g = scratch_fmt(I, st, f.d[1])
    return bind(fmt_any(I, st, ty, q, "Debug", g, stk), lambda s, _: k(s, ld(I, s, buf)))


def add(I, st, b, label, text):
    v = ld(I, st, b)
    kind, fp, n, pend, acc, name = v.d
    f = fmt_of(I, st, fp)
    if f.d[1] & ALT:
        acc = acc + ((label, text),)
    else:
        pre = ", " if n else (OPEN[kind] if kind in ("struct", "tuple") else "")
        if label is not None:
            emit(I, st, fp, pre, label, ": ", text)
        else:
            emit(I, st, fp, pre, text)
    I.store(st, b, Opq("dbg", kind, fp, n + 1, None, acc, name))
    return [(st, "ret", None)]


def entry(I, st, b, label, ty, q, stk):
    return render(I, st, b, ty, q, stk, lambda s, text: add(I, s, b, label, text))


def key(I, st, b, ty, q, stk):
    def k(s, text):
        v = ld(I, s, b)
        I.store(s, b, Opq("dbg", v.d[0], v.d[1], v.d[2], text, v.d[4], v.d[5]))
        return [(s, "ret", None)]
    return render(I, st, b, ty, q, stk, k)


def val(I, st, b, ty, q, stk):
    return render(I, st, b, ty, q, stk, lambda s, text: add(I, s, b, ld(I, s, b).d[3], text))


def finish(I, st, b, open_ended=False):
    v = ld(I, st, b)
    kind, fp, n, pend, acc, name = v.d
    f = fmt_of(I, st, fp)
    if f.d[1] & ALT:
        flat = []
        for l, t in acc:
            flat += ["" if l is None else l, t]
        emit(I, st, fp, sym("inj", ("pretty", kind, name, str(n), "1" if open_ended else "") + tuple(flat), I.p.str))
    elif kind in ("struct", "tuple"):
        if open_ended:
            emit(I, st, fp, (", .." if n else OPEN[kind] + "..") + CLOSE[kind])
        elif n:
            if kind == "tuple" and n == 1 and name == "":
                emit(I, st, fp, ",")
            emit(I, st, fp, CLOSE[kind])
    else:
        emit(I, st, fp, ((", .." if n else "..") if open_ended else "") + CLOSE[kind])
    return [(st, "ret", None)]


@first(r"fmt::Formatter::<'a>::debug_(struct|tuple|list|set|map)$", r"fmt::Formatter::debug_(struct|tuple|list|set|map)$", r"fmt::builders::debug_\w+_new$")
def m_builder(I, st, inst, args, stk):
    kind = re.search(r"debug_(struct|tuple|list|set|map)", inst["d"]).group(1)
    name = sval(I, st, args[1]) if len(args) > 1 else ""
    return start_val(I, st, args[0], kind, name)


def builder(I, st, v):
    b = as_ptr(I, st, v)
    x = ld(I, st, b)
    while isinstance(x, Ptr):
        b = x
        x = ld(I, st, b)
    if not (isinstance(x, Opq) and x.k == "dbg"):
        raise Undecided("debug builder %r" % (x,))
    return b


def deref_dyn(I, st, v):
    """(type, place) behind a `&dyn Debug` (or `&T`) argument"""
    q = as_ptr(I, st, v)
    if not (q.m and q.m[0] == "vt"):
        raise Undecided("&dyn Debug %r" % (q,))
    return q.m[1], Ptr(q.a, q.p)


@first(r"fmt::Debug(Struct|Tuple|List|Set|Map)::<.*>::(field|entry|key|value)$", r"fmt::builders::Debug(Struct|Tuple|List|Set|Map)::<.*>::(field|entry|key|value)$")
def m_bfield(I, st, inst, args, stk):
    b = builder(I, st, args[0])
    op = inst["d"].rsplit("::", 1)[1]
    kind = ld(I, st, b).d[0]
    if kind == "struct":
        name = sval(I, st, args[1])
        outs = entry(I, st, b, name, *deref_dyn(I, st, args[2]), stk)
    elif op == "key":
        outs = key(I, st, b, *deref_dyn(I, st, args[1]), stk)
    elif op == "value":
        outs = val(I, st, b, *deref_dyn(I, st, args[1]), stk)
    elif kind == "map":
        outs = bind(key(I, st, b, *deref_dyn(I, st, args[1]), stk), lambda s, _: val(I, s, b, *deref_dyn(I, s, args[2]), stk))
    else:
        outs = entry(I, st, b, None, *deref_dyn(I, st, args[1]), stk)
    return bind(outs, lambda s, _: [(s, "ret", args[0])])


@first(r"Debug(List|Set|Map)::<.*>::entries$")
def m_bentries(I, st, inst, args, stk):
    b = builder(I, st, args[0])
    kind = ld(I, st, b).d[0]
    ts = inst["a"]
    ity = ts[-1]

    def each(s, items):
        outs = [(s, "ret", None)]
        for it in items:
            if kind == "map":
                kt, vt = ts[0], ts[1]

                def one(s2, _, it=it):
                    x = M.expanded(I, s2, it)
                    kp, vp = I.alloc(s2, x.f[0]), I.alloc(s2, x.f[1])
                    return bind(key(I, s2, b, kt, kp, stk), lambda s3, _: val(I, s3, b, vt, vp, stk))
            else:
                def one(s2, _, it=it):
                    return entry(I, s2, b, None, ts[0], I.alloc(s2, it), stk)
            outs = bind(outs, one)
        return bind(outs, lambda s2, _: [(s2, "ret", args[0])])
    return bind(drain(I, st, M.norm_iter(I, st, args[1]) if hasattr(M, "norm_iter") else args[1], ity, stk), each)


@first(r"Debug(Struct|Tuple|List|Set|Map)::<.*>::(finish|finish_non_exhaustive)$")
def m_bfinish(I, st, inst, args, stk):
    b = builder(I, st, args[0])
    return bind(finish(I, st, b, inst["d"].endswith("exhaustive")), lambda s, _: [(s, "ret", ok(I, inst))])


@first(r"fmt::Formatter::<'a>::debug_(struct|tuple)_field\d_finish$", r"fmt::Formatter::<'a>::debug_(struct|tuple)_fields_finish$")
def m_derived(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    kind = "struct" if "struct" in op else "tuple"
    name = sval(I, st, args[1])
    if "fields" in op:
        vals = [ld(I, st, q) for q in I.seq_elems(st, as_ptr(I, st, args[-1]))]
    else:
        vals = list(args[2:])
    names = [None] * len(vals)
    if kind == "struct":
        if not isinstance(name, str):
            raise Undecided("unknown field names")
        name, *names = name.split(" ")
        if len(names) != len(vals):
            raise Undecided("field names %r" % (names,))
    b = start(I, st, args[0], kind, name)
    pairs = list(zip(names, vals))
    outs = [(st, "ret", None)]
    for n, v in pairs:
        outs = bind(outs, lambda s, _, n=n, v=v: entry(I, s, b, n, *deref_dyn(I, s, v), stk))
    return bind(bind(outs, lambda s, _: finish(I, s, b)), lambda s, _: [(s, "ret", ok(I, inst))])


# ------------------------------------------------------------------ arguments
@first(r"fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex|binary|octal|pointer|lower_exp|upper_exp)$")
def m_newarg(I, st, inst, args, stk):
    tr = inst["d"].rsplit("_", 1)[1]
    if not inst["d"].endswith(("new_display", "new_debug")):
        return Opq("fmtarg", None, inst["a"][0], args[0])
    return Opq("fmtarg", "Display" if tr == "display" else "Debug", inst["a"][0], args[0])


@first(r"fmt::Arguments::<.*>::new$")
def m_argsnew(I, st, inst, args, stk):
    t = I.seq_val(st, as_ptr(I, st, args[0]))
    a = as_ptr(I, st, args[1])
    return Opq("fmtargs", tuple(t.e), tuple(ld(I, st, q) for q in I.seq_elems(st, a)))


@first(r"fmt::Arguments::<.*>::(from_str|from_str_nonconst)$")
def m_argsstr(I, st, inst, args, stk):
    return Opq("fmtlit", sval(I, st, args[0]))


@first(r"fmt::Arguments::<.*>::(as_str|as_statically_known_str)$")
def m_argsasstr(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    while isinstance(v, Ptr):
        v = ld(I, st, v)
    return M.opt(I, inst, I.alloc(st, v.d[0]) if v.k == "fmtlit" else None)


def write_args(I, st, fp, v, stk):
    v = I.norm(st, v)
    if isinstance(v, Ptr):
        v = ld(I, st, v)
    if v.k == "fmtlit":
        emit(I, st, fp, v.d[0])
        return [(st, "ret", None)]
    if v.k != "fmtargs":
        raise Undecided("format arguments %r" % (v,))
    t, ar = v.d
    buf = fmt_of(I, st, fp).d[0]
    outs = [(st, "ret", None)]
    i = 0
    nxt = 0

    def u(n):
        nonlocal i
        x = 0
        for j in range(n):
            x |= t[i + j] << (8 * j)
        i += n
        return x
    while True:
        c = u(1)
        if c == 0:
            break
        if c < 0x80 or c == 0x80:
            n = c if c < 0x80 else u(2)
            text = bytes(t[i:i + n]).decode()
            i += n
            outs = bind(outs, lambda s, _, x=text: (emit(I, s, fp, x), [(s, "ret", None)])[1])
            continue
        flags = 0x60000020
        if c & 1:
            flags = u(4)
        if c & 2:
            u(2)
            flags |= 1 << 27
        if c & 4:
            u(2)
            flags |= 1 << 28
        k = nxt
        if c & 8:
            k = u(2)
        nxt = k + 1
        if (flags & BAD) or ((flags >> 29) & 3) != 3:
            return [(st, "undec", "formatting options %x" % flags)]
        a = ar[k]
        if not (isinstance(a, Opq) and a.k == "fmtarg") or a.d[0] is None:
            return [(st, "undec", "format argument %r" % (a,))]

        def one(s, _, a=a, flags=flags):
            g = I.alloc(s, Opq("fmt", buf, flags & ALT))
            return fmt_any(I, s, a.d[1], as_ptr(I, s, a.d[2]), a.d[0], g, stk)
        outs = bind(outs, one)
    return outs


@first(r"^std::fmt::format$", r"^alloc::fmt::format$", r"fmt::format::format_inner$")
def m_format(I, st, inst, args, stk):
    buf, g = scratch_fmt(I, st, 0)
    return unwrapped(bind(write_args(I, st, g, args[0], stk), lambda s, _: [(s, "ret", ld(I, s, buf))]))


@first(r"fmt::Formatter::<'a>::write_fmt$", r"<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt$")
def m_fwritefmt(I, st, inst, args, stk):
    fp = args[0]
    return caught(I, inst, bind(write_args(I, st, fp, args[1], stk), lambda s, _: [(s, "ret", ok(I, inst))]))


@first(r"^std::fmt::Write::write_fmt$", r"^std::fmt::write$", r"^core::fmt::write$")
def m_swritefmt(I, st, inst, args, stk):
    q = as_ptr(I, st, args[0])
    v = ld(I, st, q)
    while isinstance(v, Ptr):
        q = v
        v = ld(I, st, q)
    if isinstance(v, Opq) and v.k == "fmt":
        fp = q
    elif isinstance(v, str) or (type(v) is Sym and v.ty in (I.p.str, I.p.tyname.get("std::string::String"))):
        fp = I.alloc(st, Opq("fmt", Ptr(q.a, q.p), 0))
    else:
        raise Undecided("write_fmt into %r" % (v,))
    return caught(I, inst, bind(write_args(I, st, fp, args[1], stk), lambda s, _: [(s, "ret", ok(I, inst))]))


@first(r"fmt::Formatter::<'a>::(write_str|pad|write_char)$", r"<std::fmt::Formatter<'_> as std::fmt::Write>::(write_str|write_char)$")
def m_fwrite(I, st, inst, args, stk):
    if inst["d"].endswith("write_char"):
        c = I.norm(st, args[1])
        x = chr(c) if isinstance(c, int) else sym("inj", ("str_of_char", c), I.p.str)
    else:
        x = sval(I, st, args[1])
    emit(I, st, args[0], x)
    return ok(I, inst)


@first(r"fmt::Formatter::<'a>::alternate$")
def m_alternate(I, st, inst, args, stk):
    return int(bool(fmt_of(I, st, args[0]).d[1] & ALT))


@first(r"fmt::Formatter::<'a>::(width|precision)$")
def m_width(I, st, inst, args, stk):
    return M.opt(I, inst, None)


@first(r"^std::fmt::\S*<impl std::fmt::(Debug|Display) for .*>::fmt$", r"^<.* as std::fmt::(Debug|Display)>::fmt$", r"^(core|alloc|std)::.*<impl std::fmt::(Debug|Display) for .*>::fmt$")
def m_stdfmt(I, st, inst, args, stk):
    if inst["b"] is not None:
        return I.exec_fn(inst["_id"], inst, args, st, stk)
    m = re.search(r"impl std::fmt::(Debug|Display) for (.*)>::fmt$", inst["n"]) or None
    if m:
        trait, tn = m.group(1), m.group(2)
    else:
        m = re.match(r"^<(.*) as std::fmt::(Debug|Display)>::fmt$", inst["n"])
        if not m:
            raise Undecided("fmt of " + inst["n"])
        tn, trait = m.group(1), m.group(2)
    ty = I.p.tyname.get(tn)
    if ty is None:
        raise Undecided("fmt of type " + tn)
    # the self pointer may be fat
    return caught(I, inst, bind(fmt_any(I, st, ty, as_ptr(I, st, args[0]), trait, args[1], stk), lambda s, _: [(s, "ret", ok(I, inst))]))


def fmt_value(I, st, ty, p, trait, stk, k):
    buf, g = scratch_fmt(I, st, 0)
    return unwrapped(bind(fmt_any(I, st, ty, p, trait, g, stk), lambda s, v: [(s, "ret", k([ld(I, s, buf)]))]))


M.fmt_value = fmt_value
