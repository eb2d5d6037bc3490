"""Further transfer functions of std: text operations on known text, sub-slice iterators, draining, sets, deques."""
import re
from mir import *
import models as M
from models import as_ptr, bind, concat, expanded, ld, opt, sval, range_of, sub, conc_index
from models_fmt import first


# ------------------------------------------------------------------ iterators given by their items
LAZY = (r"<std::str::(Chars|CharIndices|Bytes|Split|RSplit|SplitN|RSplitN|SplitWhitespace|Lines|SplitTerminator|SplitInclusive)<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::",
        r"<std::slice::(Windows|Chunks|ChunksExact|ChunksMut|RChunks)<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::",
        r"<std::vec::Drain<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::",
        r"<std::collections::(btree_set|hash_set|vec_deque|btree_map|hash_map)::(Iter|IntoIter|Drain)<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::",
        r"<std::string::(Drain|IntoChars)<.*> as std::iter::(Iterator|DoubleEndedIterator)>::")


@first(*LAZY)
def m_lazyiter(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    ip = as_ptr(I, st, args[0]) if not isinstance(args[0], Opq) else I.alloc(st, args[0])
    it = ld(I, st, ip)
    if isinstance(it, Opq) and it.k == "mapiter":
        return M.m_mapiternext(I, st, inst, args, stk)
    if not (isinstance(it, Opq) and it.k == "intoiter"):
        raise Undecided("iterator %r" % (it,))
    e = it.d[0]
    if op in ("count", "len"):
        return len(e)
    if op == "last":
        return opt(I, inst, e[-1] if e else None)
    if op in ("nth", "nth_back"):
        n = I.norm(st, args[1])
        if not isinstance(n, int):
            raise Undecided("nth of a symbol")
        if n >= len(e):
            I.store(st, ip, Opq("intoiter", ()))
            return opt(I, inst, None)
        x = e[n] if op == "nth" else e[-1 - n]
        I.store(st, ip, Opq("intoiter", e[n + 1:] if op == "nth" else e[:-1 - n]))
        return opt(I, inst, x)
    if op in ("next", "next_back", "size_hint"):
        return M.m_vintoiter(I, st, inst, [ip] + list(args[1:]), stk)
    raise Undecided("iterator method " + op)


@first(r"<std::slice::Iter(Mut)?<'_, T> as std::iter::ExactSizeIterator>::", r"<std::(vec|array)::IntoIter<.*> as std::iter::ExactSizeIterator>::is_empty")
def m_sllen(I, st, inst, args, stk):
    it = ld(I, st, args[0])
    if isinstance(it, Opq) and it.k == "intoiter":
        n = len(it.d[0])
    else:
        n = M.m_sliter(I, st, dict(inst, d="<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len"), args, stk)
    return int(n == 0) if inst["d"].endswith("is_empty") else n


@first(r"<std::slice::Iter(Mut)?<'a, T>>::(as_slice|into_slice)$", r"^std::slice::Iter(Mut)?::<'a, T>::(as_slice|into_slice|as_mut_slice)$")
def m_asslice(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    it = ld(I, st, v) if isinstance(v, Ptr) else v
    if isinstance(it, Opq) and it.k == "sliter":
        p, lo, hi = it.d[:3]
        return sub(I, p, lo, hi)
    raise Undecided("slice iterator %r" % (it,))


@first(r"core::slice::<impl \[T\]>::(windows|chunks|chunks_exact|chunks_mut|rchunks)$")
def m_windows(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    k = I.norm(st, args[1])
    if not isinstance(k, int):
        raise Undecided("%s of a symbol" % op)
    if k == 0:
        raise PanicEx("chunk size is zero")
    if op == "windows":
        r = [(i, i + k) for i in range(0, n - k + 1)]
    elif op == "chunks_exact":
        r = [(i, i + k) for i in range(0, n - k + 1, k)]
    elif op == "rchunks":
        r = [(max(0, i - k), i) for i in range(n, 0, -k)]
    else:
        r = [(i, min(n, i + k)) for i in range(0, n, k)]
    return Opq("intoiter", tuple(sub(I, p, a, b) for a, b in r))


@first(r"^std::vec::Vec::<T, A>::drain$")
def m_drain(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    s = I.seq_val(st, p)
    rt = next(a for a in inst["a"][::-1] if isinstance(a, int) and "Range" in I.p.adt(a))
    r = range_of(I, st, args[1], rt, len(s.e))
    if r is None:
        raise PanicEx("drain out of range")
    I.store(st, p, Seq(s.e[:r[0]] + s.e[r[1]:]))
    return Opq("intoiter", s.e[r[0]:r[1]])


@first(r"^std::vec::Vec::<T, A>::splice$")
def m_splice(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    rt = next(a for a in inst["a"] if isinstance(a, int) and "Range" in I.p.adt(a))
    it = [a for a in inst["a"] if isinstance(a, int)][-1]

    def f(s2, items):
        s = I.seq_val(s2, p)
        r = range_of(I, s2, args[1], rt, len(s.e))
        if r is None:
            raise PanicEx("splice out of range")
        I.store(s2, p, Seq(s.e[:r[0]] + tuple(items) + s.e[r[1]:]))
        return [(s2, "ret", Opq("intoiter", s.e[r[0]:r[1]]))]
    return bind(M.drain(I, st, args[2], it, stk), f)


@first(r"^std::vec::Vec::<T, A>::extract_if$")
def m_extract(I, st, inst, args, stk):
    raise Undecided("Vec::extract_if")


@first(r"^std::iter::StepBy::<I>::new$", r"^std::iter::StepBy::<.*>::new$")
def m_stepnew(I, st, inst, args, stk):
    k = I.norm(st, args[1])
    if not isinstance(k, int):
        raise Undecided("step_by of a symbol")
    if k == 0:
        raise PanicEx("step_by(0)")
    return bind(M.drain(I, st, args[0], inst["a"][0], stk), lambda s, items: [(s, "ret", Opq("intoiter", tuple(items[::k])))])


@first(r"<std::iter::StepBy<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::", r"StepBy<.*> as std::iter::adapters::step_by::StepBy(Back)?Impl<.*>>::spec_")
def m_stepnext(I, st, inst, args, stk):
    d = inst["d"].replace("::spec_", "::")
    return m_lazyiter(I, st, dict(inst, d=d), args, stk)


# ------------------------------------------------------------------ text
def known_text(I, st, v, what):
    v = sval(I, st, v)
    if not isinstance(v, str):
        raise Undecided("%s of unknown text" % what)
    return v


def pattern(I, st, inst, v):
    """a str / char / String pattern as text"""
    x = I.norm(st, v)
    if isinstance(x, int):
        return chr(x)
    if isinstance(x, Ptr):
        y = sval(I, st, x)
        if isinstance(y, str):
            return y
    raise Undecided("pattern %r" % (x,))


def strs(I, st, xs):
    return Opq("intoiter", tuple(I.alloc(st, x) for x in xs))


@first(r"core::str::<impl str>::(chars|char_indices|bytes|split|rsplit|splitn|rsplitn|split_whitespace|lines|split_terminator)$")
def m_strsplit(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    v = known_text(I, st, args[0], op)
    if op == "chars":
        return Opq("intoiter", tuple(ord(c) for c in v))
    if op == "bytes":
        return Opq("intoiter", tuple(v.encode()))
    if op == "char_indices":
        o, r = 0, []
        for c in v:
            r.append(Agg(None, 0, (o, ord(c))))
            o += len(c.encode())
        return Opq("intoiter", tuple(r))
    if op == "split_whitespace":
        return strs(I, st, v.split())
    if op == "lines":
        return strs(I, st, v.split("\n")[:-1] if v.endswith("\n") else v.split("\n"))
    if op in ("splitn", "rsplitn"):
        n, pat = I.norm(st, args[1]), pattern(I, st, inst, args[2])
        if not isinstance(n, int):
            raise Undecided("splitn of a symbol")
        r = [] if n == 0 else (v.split(pat, n - 1) if op == "splitn" else v.rsplit(pat, n - 1)[::-1])
        return strs(I, st, r)
    pat = pattern(I, st, inst, args[1])
    if pat == "":
        raise Undecided("split by empty text")
    r = v.split(pat)
    if op == "split_terminator" and r and r[-1] == "":
        r = r[:-1]
    return strs(I, st, r[::-1] if op == "rsplit" else r)


@first(r"core::str::<impl str>::(find|rfind|split_once|rsplit_once|as_bytes|is_char_boundary|parse|is_ascii)$", r"alloc::str::<impl str>::repeat$", r"core::str::<impl str>::get$")
def m_strmore(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    if op == "as_bytes":
        v = sval(I, st, args[0])
        return I.alloc(st, Seq(tuple(v.encode())) if isinstance(v, str) else Opq("textbytes", v))
    v = known_text(I, st, args[0], op)
    if op in ("find", "rfind"):
        i = (v.find if op == "find" else v.rfind)(pattern(I, st, inst, args[1]))
        return opt(I, inst, None if i < 0 else len(v[:i].encode()))
    if op in ("split_once", "rsplit_once"):
        pat = pattern(I, st, inst, args[1])
        if pat not in v:
            return opt(I, inst, None)
        a, _, b = v.partition(pat) if op == "split_once" else v.rpartition(pat)
        return opt(I, inst, Agg(I.T[inst["o"]]["a"][0], 0, (I.alloc(st, a), I.alloc(st, b))))
    if op == "is_ascii":
        return int(v.isascii())
    if op == "repeat":
        n = I.norm(st, args[1])
        if not isinstance(n, int):
            raise Undecided("repeat of a symbol")
        return v * n
    if op == "get" and v.isascii():
        r = range_of(I, st, args[1], inst["a"][0] if isinstance(inst["a"][0], int) else inst["a"][1], len(v))
        return opt(I, inst, None if r is None else I.alloc(st, v[r[0]:r[1]]))
    if op == "parse":
        t = I.T[inst["o"]]["a"][0]
        et = I.T[inst["o"]]["a"][1]
        if I.tk(t) == "int":
            r = I.int_range(t)
            if re.match(r"^[+-]?[0-9]+$", v) and r[0] <= int(v) <= r[1] and not (v.startswith("-") and r[0] == 0):
                return Agg(inst["o"], 0, (int(v),))
            return Agg(inst["o"], 1, (sym("parseerr", (), et),))
        if I.tk(t) == "bool":
            return Agg(inst["o"], 0, (int(v == "true"),)) if v in ("true", "false") else Agg(inst["o"], 1, (sym("parseerr", (), et),))
    raise Undecided("str::%s" % op)


def text_of_bytes(I, st, v):
    """the text a known or abstract sequence of bytes is the encoding of"""
    if isinstance(v, Opq) and v.k == "textbytes":
        return v.d[0]
    if isinstance(v, Seq):
        x = [I.norm(st, b) for b in v.e]
        if all(isinstance(b, int) for b in x):
            try:
                return bytes(x).decode()
            except UnicodeDecodeError:
                return None
    raise Undecided("bytes as text")


@first(r"^std::string::String::from_utf8$", r"^core::str::(converts::)?from_utf8$", r"^std::str::from_utf8$")
def m_fromutf8(I, st, inst, args, stk):
    owned = "String" in inst["d"]
    t = text_of_bytes(I, st, args[0] if owned else ld(I, st, args[0]))
    if t is None:
        return Agg(inst["o"], 1, (sym("utf8err", (), I.T[inst["o"]]["a"][1]),))
    return Agg(inst["o"], 0, (t if owned else I.alloc(st, t),))


@first(r"^(witness::)?(support::)?text_bytes$")
def m_text_bytes(I, st, inst, args, stk):
    return I.alloc(st, Opq("textbytes", sval(I, st, args[0])))


@first(r"^(witness::)?(support::)?bytes_text$")
def m_bytes_text(I, st, inst, args, stk):
    t = text_of_bytes(I, st, ld(I, st, args[0]))
    if t is None:
        raise Undecided("bytes as text")
    return t


@first(r"^(witness::)?(support::)?text_vec$")
def m_text_vec(I, st, inst, args, stk):
    return Opq("textbytes", sval(I, st, I.alloc(st, args[0])))


@first(r"<str as std::ops::Index<I>>::index$", r"impl std::ops::Index<I> for str>::index$", r"<std::string::String as std::ops::Index<I>>::index$")
def m_strindex(I, st, inst, args, stk):
    rt = next((a for a in inst["a"][::-1] if isinstance(a, int) and "Range" in I.p.adt(a)), None)
    if I.p.adt(rt).endswith("RangeFull"):
        return as_ptr(I, st, args[0])
    v = known_text(I, st, args[0], "slicing")
    if not v.isascii():
        raise Undecided("slicing non-ascii text")
    r = range_of(I, st, args[1], rt, len(v))
    if r is None:
        raise PanicEx("str index out of range")
    return I.alloc(st, v[r[0]:r[1]])


@first(r"^std::string::String::(pop|insert|insert_str|truncate|clear|remove|drain|split_off|reserve|capacity|shrink_to_fit|into_bytes|as_bytes)$")
def m_stringops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    if op in ("reserve", "shrink_to_fit"):
        return I.UNIT
    if op == "into_bytes":
        return Seq(tuple(known_text(I, st, I.alloc(st, args[0]), op).encode()))
    if op == "as_bytes":
        v = sval(I, st, args[0])
        return I.alloc(st, Seq(tuple(v.encode())) if isinstance(v, str) else Opq("textbytes", v))
    p = as_ptr(I, st, args[0])
    if op == "clear":
        I.store(st, p, "")
        return I.UNIT
    v = sval(I, st, p)
    if op in ("insert", "insert_str") and I.norm(st, args[1]) == 0:
        x = I.norm(st, args[2])
        I.store(st, p, concat([chr(x) if isinstance(x, int) else sval(I, st, x), v]))
        return I.UNIT
    if op == "pop" and type(v) is Sym and v.op == "concat" and isinstance(v.args[-1], str):
        z = v.args[-1]
        I.store(st, p, concat(list(v.args[:-1]) + [z[:-1]]))
        return opt(I, inst, ord(z[-1]))
    if not isinstance(v, str) or not v.isascii():
        raise Undecided("String::%s of unknown text" % op)
    if op == "pop":
        I.store(st, p, v[:-1])
        return opt(I, inst, ord(v[-1]) if v else None)
    n = I.norm(st, args[1]) if len(args) > 1 else 0
    if not isinstance(n, int):
        raise Undecided("String::%s at a symbol" % op)
    if op in ("insert", "insert_str", "remove", "split_off") and n > len(v):
        raise PanicEx("String::%s out of range" % op)
    if op in ("insert", "insert_str"):
        x = I.norm(st, args[2])
        I.store(st, p, concat([v[:n], chr(x) if isinstance(x, int) else sval(I, st, x), v[n:]]))
        return I.UNIT
    if op == "truncate":
        I.store(st, p, v[:n])
        return I.UNIT
    if op == "remove":
        I.store(st, p, v[:n] + v[n + 1:])
        return ord(v[n])
    if op == "split_off":
        I.store(st, p, v[:n])
        return v[n:]
    raise Undecided("String::%s" % op)


def text_of(I, st, v):
    """text of an item: char, &str, String, Box<str>, Cow<str>"""
    v = I.norm(st, v)
    if isinstance(v, int):
        return chr(v)
    if isinstance(v, str):
        return v
    if isinstance(v, Ptr):
        x = ld(I, st, v)
        if isinstance(x, int):
            return chr(x)
        return text_of(I, st, x)
    if type(v) is Sym:
        t = I.T[v.ty]
        if t["k"] == "char":
            return sym("inj", ("str_of_char", v), I.p.str)
        if t["k"] in ("ref", "ptr"):
            return text_of(I, st, I.expand(st, v))
        if t["k"] == "str" or t.get("d", "").endswith("string::String"):
            return v
    if isinstance(v, Agg) and v.ty is not None and I.p.adt(v.ty).endswith("borrow::Cow"):
        return text_of(I, st, v.f[0])
    raise Undecided("text of %r" % (v,))


@first(r"<std::string::String as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)$")
def m_strcollect(I, st, inst, args, stk):
    ext = inst["d"].endswith("extend")
    it = args[1] if ext else args[0]
    ity = inst["a"][-1]

    def f(s, items):
        parts = [text_of(I, s, x) for x in items]
        if ext:
            p = as_ptr(I, s, args[0])
            I.store(s, p, concat([sval(I, s, p)] + parts))
            return [(s, "ret", I.UNIT)]
        return [(s, "ret", concat(parts))]
    return bind(M.drain(I, st, it, ity, stk), f)


@first(r"alloc::slice::<impl \[T\]>::(join|concat)$", r"alloc::slice::<impl \[.*\]>::(join|concat)$")
def m_join(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    o = inst["o"]
    ps = [ld(I, st, q) for q in I.seq_elems(st, p)]
    if I.p.adt(o).endswith("string::String"):
        sep = sval(I, st, args[1]) if len(args) > 1 else ""
        parts = []
        for i, x in enumerate(ps):
            if i and sep != "":
                parts.append(sep)
            parts.append(text_of(I, st, x))
        return concat(parts)
    if inst["d"].endswith("concat") and I.p.adt(o).endswith("vec::Vec"):
        e = I.T[o]["a"][0]
        qs = []
        for i, x in enumerate(ps):
            q = x if isinstance(x, Ptr) else M.elem(I, st, p, i)
            qs += I.seq_elems(st, q)
        return bind(M.clone_many(I, st, qs, e, stk), lambda s, vs: [(s, "ret", Seq(vs))])
    raise Undecided("join")


@first(r"PartialEq<(std::string::String|str|&'?\w* ?str)> for std::borrow::Cow<'\w+, str>>::(eq|ne)$", r"PartialEq<std::borrow::Cow<'\w+, str>> for (std::string::String|str|&'?\w* ?str)>::(eq|ne)$")
def m_cowstreq(I, st, inst, args, stk):
    a, b = (text_of(I, st, ld(I, st, x)) for x in args)
    r = I.eq(st, a, b)
    return int(r if inst["d"].endswith("eq") else not r)


# ------------------------------------------------------------------ chars
@first(r"char::methods::<impl char>::from_u32$", r"^std::char::from_u32$", r"char::convert::from_u32$")
def m_fromu32(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    ct = I.T[inst["o"]]["a"][0]
    if isinstance(v, int):
        return opt(I, inst, v if v < 0xD800 or 0xE000 <= v < 0x110000 else None)
    if type(v) is Sym and v.op == "cast" and type(v.args[0]) is Sym and v.args[0].ty == ct:
        return opt(I, inst, v.args[0])
    if I.lt(st, v, 0xD800) or (not I.lt(st, v, 0xE000) and I.lt(st, v, 0x110000)):
        return opt(I, inst, sym("cast", (v,), ct))
    return opt(I, inst, None)


@first(r"char::methods::<impl char>::(is_\w+|to_digit|to_ascii_\w+|len_utf8|eq_ignore_ascii_case)$")
def m_charops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    v = I.norm(st, args[0])
    if isinstance(v, Ptr):
        v = ld(I, st, v)
    if not isinstance(v, int):
        if op.startswith("is_") and len(args) == 1:
            return int(I.truth(st, sym("char" + op, (v,), I.p.bool)))
        raise Undecided("char::" + op)
    c = chr(v)
    if op == "len_utf8":
        return len(c.encode())
    if op == "to_digit":
        r = I.norm(st, args[1])
        try:
            return opt(I, inst, int(c, r))
        except ValueError:
            return opt(I, inst, None)
    f = {"is_alphabetic": c.isalpha, "is_numeric": c.isnumeric, "is_alphanumeric": c.isalnum, "is_whitespace": c.isspace, "is_uppercase": c.isupper, "is_lowercase": c.islower,
         "is_ascii": c.isascii, "is_ascii_digit": lambda: c in "0123456789", "is_ascii_lowercase": lambda: "a" <= c <= "z", "is_ascii_uppercase": lambda: "A" <= c <= "Z",
         "is_ascii_alphabetic": lambda: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda: c.isascii() and c.isalnum(), "is_ascii_whitespace": lambda: c in " \t\n\r\x0c"}.get(op)
    if f is None:
        if op == "is_digit":
            try:
                int(c, I.norm(st, args[1]))
                return 1
            except ValueError:
                return 0
        raise Undecided("char::" + op)
    return int(f())


@first(r"f(32|64)::<impl f(32|64)>::from_bits$")
def m_frombits(I, st, inst, args, stk):
    v = I.norm(st, args[0])
    w = I.T[inst["o"]]["b"]
    if isinstance(v, int):
        return Flt(v & ((1 << w) - 1), w)
    if type(v) is Sym and v.op == "inj":
        raise Undecided("from_bits of to_bits")
    return sym("frombits", (v,), inst["o"])


@first(r"std::boxed::convert::<impl std::boxed::Box<\(?dyn std::any::Any.*>>::downcast$")
def m_boxdown2(I, st, inst, args, stk):
    return M.m_boxdown(I, st, dict(inst, a=[inst["a"][-1]]), args, stk)


# ------------------------------------------------------------------ sets and deques, as maps to unit and sequences
SET = r"^std::collections::(BTreeSet|HashSet)::<.*>::"


@first(r"^std::collections::(BTreeSet|HashSet)::<.*>::(new|with_hasher|with_capacity|with_capacity_and_hasher|new_in)$", r"<std::collections::(BTreeSet|HashSet)<.*> as std::default::Default>::default$")
def m_setnew(I, st, inst, args, stk):
    return MapV((), "btree" if "BTree" in inst["d"] else "hash")


@first(SET + r"(insert|replace)$")
def m_setinsert(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    old = M.map_insert(I, st, p, args[1], I.UNIT)
    return int(old[0] is None)


@first(SET + r"(contains|get|remove|take|len|is_empty|clear|iter)$", r"<&'a std::collections::(BTreeSet|HashSet)<.*> as std::iter::IntoIterator>::into_iter$", r"<std::collections::(BTreeSet|HashSet)<.*> as std::iter::IntoIterator>::into_iter$")
def m_setops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    if op == "into_iter" and not inst["d"].startswith("<&"):
        m = expanded(I, st, args[0])
        return Opq("intoiter", tuple(k for k, _ in m.e))
    p = as_ptr(I, st, args[0])
    m = M.mapv(I, st, p)
    if op == "len":
        return len(m.e)
    if op == "is_empty":
        return int(not m.e)
    if op == "clear":
        I.store(st, p, MapV((), m.kind))
        return I.UNIT
    if op in ("iter", "into_iter"):
        return Opq("mapiter", p, tuple(k for k, _ in m.e), "k")
    key = ld(I, st, args[1])
    f = M.map_find(I, st, m, key)
    if op == "contains":
        return int(f is not None)
    if op == "get":
        return opt(I, inst, None if f is None else Ptr(p.a, p.p + (("MK", m.e[f][0] if isinstance(f, int) else f),)))
    if f is None:
        return 0 if op == "remove" else opt(I, inst, None)
    i = f if isinstance(f, int) else [k for k, _ in m.e].index(f)
    I.store(st, p, MapV(m.e[:i] + m.e[i + 1:], m.kind))
    return 1 if op == "remove" else opt(I, inst, m.e[i][0])


@first(r"<std::collections::(BTreeSet|HashSet)<.*> as std::iter::(FromIterator|Extend)<.*>>::(from_iter|extend)$", r"<std::collections::(BTreeSet|HashSet)<.*> as std::convert::From<\[T; N\]>>::from$")
def m_setfrom(I, st, inst, args, stk):
    kind = "btree" if "BTree" in inst["d"] else "hash"
    ext = inst["d"].endswith("extend")

    def f(s, items):
        q = as_ptr(I, s, args[0]) if ext else I.alloc(s, MapV((), kind))
        return fill(s, q, list(items))

    def fill(s, q, items):
        # map_insert forks by exception: isolate each insertion in a model call
        outs = [(s, "ret", None)]
        for x in items:
            outs = bind(outs, lambda s2, _, x=x: I.run_model(lambda I2, s3, inst2, a2, k2: (M.map_insert(I2, s3, q, x, I2.UNIT), 0)[1], None, inst, [], s2, stk))
        return bind(outs, lambda s2, _: [(s2, "ret", I.UNIT if ext else ld(I, s2, q))])
    if inst["d"].endswith("::from"):
        return f(st, expanded(I, st, args[0]).e)
    return bind(M.drain(I, st, args[1] if ext else args[0], inst["a"][-1], stk), f)


DEQ = r"^std::collections::VecDeque::<.*>::"


@first(DEQ + r"(new|with_capacity|new_in)$", r"<std::collections::VecDeque<.*> as std::default::Default>::default$")
def m_deqnew(I, st, inst, args, stk):
    return Seq(())


@first(DEQ + r"(push_back|push_front|pop_back|pop_front|len|is_empty|clear|front|back|front_mut|back_mut|get|get_mut|iter|extend)$", r"<std::collections::VecDeque<.*> as std::iter::Extend<T>>::extend$")
def m_deq(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    p = as_ptr(I, st, args[0])
    s = I.seq_val(st, p)
    e = s.e
    if op == "len":
        return len(e)
    if op == "is_empty":
        return int(not e)
    if op == "clear":
        I.store(st, p, Seq(()))
        return I.UNIT
    if op in ("push_back", "push_front"):
        I.store(st, p, Seq(e + (args[1],) if op == "push_back" else (args[1],) + e))
        return I.UNIT
    if op in ("pop_back", "pop_front"):
        if not e:
            return opt(I, inst, None)
        I.store(st, p, Seq(e[:-1] if op == "pop_back" else e[1:]))
        return opt(I, inst, e[-1] if op == "pop_back" else e[0])
    if op in ("front", "back", "front_mut", "back_mut"):
        return opt(I, inst, M.elem(I, st, p, 0 if op.startswith("front") else len(e) - 1) if e else None)
    if op in ("get", "get_mut"):
        k = conc_index(I, st, args[1], len(e))
        return opt(I, inst, None if k is None else M.elem(I, st, p, k))
    if op == "iter":
        return Opq("intoiter", tuple(M.elem(I, st, p, k) for k in range(len(e))))
    if op == "extend":
        return bind(M.drain(I, st, args[1], inst["a"][-1], stk), lambda s2, items: (I.store(s2, p, Seq(I.seq_val(s2, p).e + tuple(items))), [(s2, "ret", I.UNIT)])[1])
    raise Undecided("VecDeque")


# ------------------------------------------------------------------ shared ownership
@first(r"^std::(rc::Rc|sync::Arc)::<T>::new$", r"<std::(rc::Rc|sync::Arc)<T> as std::convert::From<T>>::from$")
def m_rcnew(I, st, inst, args, stk):
    return I.alloc(st, args[0])


@first(r"<std::(rc::Rc|sync::Arc)<T, A> as std::clone::Clone>::clone$")
def m_rcclone(I, st, inst, args, stk):
    return as_ptr(I, st, ld(I, st, args[0]))


@first(r"<std::(rc::Rc|sync::Arc)<T, A> as std::(ops::Deref|convert::AsRef<T>|borrow::Borrow<T>)>::")
def m_rcderef(I, st, inst, args, stk):
    return as_ptr(I, st, ld(I, st, args[0]))


@first(r"<std::(rc::Rc|sync::Arc)<T, A> as std::ops::Drop>::drop$")
def m_rcdrop(I, st, inst, args, stk):
    return I.UNIT


@first(r"^std::string::String::into_boxed_str$", r"<std::boxed::Box<str> as std::convert::From<std::string::String>>::from$", r"impl std::convert::From<std::string::String> for std::boxed::Box<str>>::from$")
def m_boxedstr(I, st, inst, args, stk):
    return I.alloc(st, args[0])


@first(r"core::str::<impl str>::len$", r"^std::string::String::len$")
def m_strlen2(I, st, inst, args, stk):
    v = sval(I, st, args[0])
    if isinstance(v, str):
        return len(v.encode())
    if type(v) is Sym and v.op in ("inj", "concat") and (v.op == "inj" or any(isinstance(y, str) or y.op == "inj" for y in v.args)):
        pass
    elif I.truth(st, I.eq(st, v, "")):
        return 0
    x = sym("strlen", (v,), I.p.usize)
    if st.facts.get(("iv", x)) is None:
        I.set_iv(st, x, 1, I.interval(st, x)[1])
    return x


@first(r"core::slice::<impl std::default::Default for &(mut )?\[T\]>::default$", r"core::str::<impl std::default::Default for &(mut )?str>::default$")
def m_emptyref(I, st, inst, args, stk):
    return I.alloc(st, "" if "str>" in inst["d"] else Seq(()))


# ------------------------------------------------------------------ numbers
@first(r"core::f(32|64)::<impl f(32|64)>::(is_finite|is_infinite|is_sign_negative|is_sign_positive)$", r"core::f(32|64)::math::", r"std::f(32|64)::<impl f(32|64)>::", r"core::f(32|64)::<impl f(32|64)>::(abs|signum|copysign|recip|to_degrees|to_radians|floor|ceil|round|trunc|fract)$")
def m_floatops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    x = I.norm(st, args[0])
    w = 32 if "f32" in inst["d"] else 64
    if op in ("is_finite", "is_infinite"):
        inf = any(I.truth(st, I.float_bin(st, "Eq", x, mkflt(z, w), None)) for z in (float("inf"), float("-inf")))
        return int(inf) if op == "is_infinite" else int(not inf and not I.isnan(st, x))
    if isinstance(x, Flt):
        import math
        v = x.val()
        if op in ("is_sign_negative", "is_sign_positive"):
            return int((math.copysign(1.0, v) < 0) == (op == "is_sign_negative"))
        f = {"abs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}.get(op)
        if f and v == v and abs(v) != float("inf"):
            return mkflt(float(f(v)), w)
    if op in ("is_sign_negative", "is_sign_positive"):
        r = I.truth(st, sym("signneg", (x,), I.p.bool))
        return int(r == (op == "is_sign_negative"))
    return sym("f_" + op, tuple(I.norm(st, a) for a in args), inst["o"])


INTOPS = {"pow": lambda a, b: a ** b, "abs": abs, "rem_euclid": lambda a, b: a % abs(b), "signum": lambda a: (a > 0) - (a < 0), "abs_diff": lambda a, b: abs(a - b), "count_ones": lambda a: bin(a).count("1"),
          "next_power_of_two": lambda a: 1 << max(0, (a - 1).bit_length()), "div_ceil": lambda a, b: -(-a // b), "is_power_of_two": lambda a: int(a > 0 and a & (a - 1) == 0),
          "unsigned_abs": abs, "div_euclid": lambda a, b: (a - a % abs(b)) // b, "ilog2": lambda a: a.bit_length() - 1, "isqrt": lambda a: __import__("math").isqrt(a)}


@first(r"core::num::<impl [iu](8|16|32|64|128|size)>::(%s)$" % "|".join(INTOPS))
def m_intops(I, st, inst, args, stk):
    op = inst["d"].rsplit("::", 1)[1]
    xs = [I.norm(st, a) for a in args]
    if all(isinstance(x, int) for x in xs):
        try:
            r = INTOPS[op](*xs)
        except ZeroDivisionError:
            raise PanicEx("division by zero")
        iv = I.int_range(inst["o"])
        if iv and not iv[0] <= r <= iv[1]:
            raise PanicEx("overflow in " + op)
        return r
    return I.unk(st, inst["o"], "integer " + op)


@first(r"iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::size_hint$")
def m_rangehint(I, st, inst, args, stk):
    v = expanded(I, st, ld(I, st, args[0]))
    a, b = I.norm(st, v.f[0]), I.norm(st, v.f[1])
    if not (isinstance(a, int) and isinstance(b, int)):
        raise Undecided("length of a symbolic range")
    ot = I.T[inst["o"]]["es"][1]
    return Agg(inst["o"], 0, (max(0, b - a), I.some(ot, max(0, b - a))))


@first(r"TryFrom<&\[T\]> for \[T; N\]>::try_from$", r"TryFrom<&mut \[T\]> for \[T; N\]>::try_from$")
def m_arrfromslice(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    rt = inst["o"]
    n = I.T[I.T[rt]["a"][0]]["n"]
    if I.seq_len(st, p) != n:
        return Agg(rt, 1, (sym("tryfromslice", (), I.T[rt]["a"][1]),))
    return Agg(rt, 0, (Seq(tuple(ld(I, st, q) for q in [M.elem(I, st, p, k) for k in range(n)])),))


# ------------------------------------------------------------------ boxed slices and text
@first(r"impl std::convert::From<std::vec::Vec<T, A>> for std::boxed::Box<\[T\], A>>::from$", r"impl std::convert::From<\[T; N\]> for std::boxed::Box<\[T\]>>::from$")
def m_boxedslice(I, st, inst, args, stk):
    return I.alloc(st, args[0])


@first(r"impl std::convert::From<&(mut )?\[T\]> for std::boxed::Box<\[T\]>>::from$")
def m_boxsliceclone(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    return bind(M.clone_many(I, st, I.seq_elems(st, p), inst["a"][0], stk), lambda s, vs: I.alloc(s, Seq(vs)))


@first(r"impl std::convert::From<&(mut )?str> for std::boxed::Box<str>>::from$")
def m_boxstrclone(I, st, inst, args, stk):
    return I.alloc(st, sval(I, st, args[0]))


@first(r"slice::<impl \[T\]>::into_vec$", r"impl std::convert::From<std::boxed::Box<\[T\], A>> for std::vec::Vec<T, A>>::from$", r"<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<\[T\], A>>>::from$")
def m_intovec(I, st, inst, args, stk):
    return I.seq_val(st, as_ptr(I, st, args[0]))


@first(r"str::<impl str>::into_string$", r"<std::string::String as std::convert::From<std::boxed::Box<str>>>::from$", r"impl std::convert::From<std::boxed::Box<str>> for std::string::String>::from$")
def m_intostring(I, st, inst, args, stk):
    return sval(I, st, as_ptr(I, st, args[0]))


@first(r"<std::boxed::Box<\[T\]> as std::default::Default>::default$", r"impl std::default::Default for std::boxed::Box<\[T\]>>::default$", r"<std::boxed::Box<str> as std::default::Default>::default$")
def m_boxslicedefault(I, st, inst, args, stk):
    return I.alloc(st, "" if "Box<str>" in inst["d"] else Seq(()))


@first(r"impl std::convert::From<std::string::String> for std::borrow::Cow<'\w+, str>>::from$", r"impl std::convert::From<&'?\w* ?str> for std::borrow::Cow<'\w+, str>>::from$", r"impl std::convert::From<std::vec::Vec<T>> for std::borrow::Cow<'\w+, \[T\]>>::from$", r"impl std::convert::From<&'?\w* ?\[T\]> for std::borrow::Cow<'\w+, \[T\]>>::from$")
def m_cowfrom(I, st, inst, args, stk):
    owned = "From<std::" in inst["d"]
    return Agg(inst["o"], 1 if owned else 0, (args[0],))


@first(r"impl std::convert::From<std::borrow::Cow<'\w+, str>> for std::string::String>::from$", r"<std::string::String as std::convert::From<std::borrow::Cow<'\w+, str>>>::from$")
def m_cowstring(I, st, inst, args, stk):
    return text_of(I, st, expanded(I, st, args[0]))


@first(r"core::slice::<impl \[T\]>::(first_chunk|last_chunk|as_array)$")
def m_chunk(I, st, inst, args, stk):
    p = as_ptr(I, st, args[0])
    n = I.seq_len(st, p)
    rt = inst["o"]
    k = I.T[I.T[I.T[rt]["a"][0]]["e"]]["n"]
    op = inst["d"].rsplit("::", 1)[1]
    if n < k or op == "as_array" and n != k:
        return I.none(rt)
    lo = n - k if op == "last_chunk" else 0
    b = p.m[1] if p.m and p.m[0] == "sl" else 0
    if b + lo == 0 and not p.m and n == k:
        return I.some(rt, p)
    return I.some(rt, I.alloc(st, Seq(tuple(ld(I, st, q) for q in [M.elem(I, st, p, lo + j) for j in range(k)]))))


@first(r"^std::iter::RepeatN::<A>::new$", r"^std::iter::repeat_n$")
def m_repeatn(I, st, inst, args, stk):
    k = I.norm(st, args[1])
    if not isinstance(k, int):
        raise Undecided("repeat_n of a symbol")
    p = I.alloc(st, args[0])
    return bind(M.clone_many(I, st, [p] * k, inst["a"][0], stk), lambda s, vs: [(s, "ret", Opq("intoiter", tuple(vs)))])


@first(r"<std::iter::RepeatN<.*> as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::")
def m_repeatnnext(I, st, inst, args, stk):
    return m_lazyiter(I, st, inst, args, stk)


@first(r"core::num::<impl [iu](8|16|32|64|128|size)>::overflowing_(add|sub|mul)$")
def m_overflowing(I, st, inst, args, stk):
    a, b = (I.norm(st, x) for x in args)
    if not (isinstance(a, int) and isinstance(b, int)):
        raise Undecided("overflowing arithmetic of symbols")
    op = inst["d"].rsplit("_", 1)[1]
    r = {"add": a + b, "sub": a - b, "mul": a * b}[op]
    ot = I.T[inst["o"]]["es"][0]
    lo, hi = I.int_range(ot)
    return Agg(inst["o"], 0, (lo + (r - lo) % (hi - lo + 1), int(not lo <= r <= hi)))
