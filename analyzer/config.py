"""Per-property configuration of the checks: obligations, bounds on the abstract inputs, rules."""

ASSUMPTIONS = [
    "std and dependency items outside the dumped MIR behave as their documentation says (transfer functions in analyzer/models.py)",
    "the compiler's MIR (nightly, all features of the library enabled) is the program",
]
SCAL = ["i32", "String"]
SCALARS = ["usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "char", "f32", "f64", "String"]


def value_limit(I, s, names):
    """bound on symbolic dynamic values: containers down to nesting depth 1, scalars below"""
    n = 0
    t = s
    while hasattr(t, "op") and t.op in ("elem", "mapk", "mapv", "deref", "fld"):
        if t.op in ("elem", "mapk", "mapv"):
            n += 1
        t = t.args[0]
    if n >= I.cfg.get("value_depth", 1):
        return I.cfg.get("value_scalars", ["i32", "String"])
    return I.cfg.get("value_variants")


def syntax_limit(I, s, names):
    """bound on the symbolic syntax of types: nested to depth 2, the parts of the innermost types are plain names"""
    n = 0
    t = s
    while hasattr(t, "op") and t.args and hasattr(t.args[0], "op"):
        t = t.args[0]
        if t.ty is not None and I.T[t.ty].get("d", "") == "syn::Type":
            n += 1
    d = I.T[s.ty]["d"]
    if d == "std::option::Option":
        of = I.T[I.T[s.ty]["a"][0]].get("n", "")
        if n >= 2 and "PathSegment" in of:
            return ["Some"]
        if n >= 2 and of.endswith("syn::QSelf"):
            return ["None"]
        return None
    k = I.cfg.get("syntax_depth", 1)
    wide = I.cfg.get("syntax_wide")
    few = {"syn::Type": None if n == 0 or (wide and n == 1) else ["Path", "Tuple", "Reference", "Never"] if n <= k else ["Path"],
           "syn::PathArguments": None if n <= k else ["None"],
           "syn::GenericArgument": None if wide else ["Type", "Const", "Lifetime", "AssocType"] if n <= 1 else ["Type", "Lifetime"],
           "syn::Expr": None if wide else ["Lit", "Path"] if n <= 1 else ["Lit"],
           "syn::Lit": None if wide else ["Int", "Bool", "Char"] if n <= 1 else ["Int"]}
    return few.get(d)


def syntax_len(I, s):
    n = 0
    t = s
    while hasattr(t, "op") and t.args and hasattr(t.args[0], "op"):
        t = t.args[0]
        if t.ty is not None and I.T[t.ty].get("d", "") == "syn::Type":
            n += 1
    return 0 if n >= 2 and "PathSegment" in I.T[s.ty]["n"] else None


BASE = {"limit": {"syn::Type": syntax_limit, "syn::PathArguments": syntax_limit, "syn::GenericArgument": syntax_limit, "syn::Expr": syntax_limit, "syn::Lit": syntax_limit,
                  "mirror_mirror::Value": value_limit, "value::Value": value_limit}, "maxlen": 2}

NZ = {"nz" + x: {"scalars": [x, "String"]} for x in ("usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128")}
SC = {r"\b%s_::" % x: {"scalars": [x, "String" if x != "u64" else "i32"]} for x in ("usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i64", "i128", "bool", "char", "f32", "f64")}
PER = dict([(r"\b%s::" % k, v) for k, v in NZ.items()] + list(SC.items()) + [(r"\b(vec2|vec3|mat3)::", {"scalars": ["f32", "i32"]})])

PROPS = {
    "P01": {"roots": [r"\bp01::"], "floor": 110, "rule": "every field lookup returns the location of the specified field, for a symbolic name and position"},
    "P02": {"roots": [r"\bp02::", r"p0[1345]::(same::)?(sk\d|tsk\d|multi|tmulti|allskip|noclone|nodebug|tnoclone|tnodebug|e2?)::", r"p0[1345]::ob_(enum2?(_same|_any)?|multi\w*|t?sk\w*)$"], "floor": 150, "rule": "no lookup, iteration, export, description, patch or conversion reaches a skipped field or variant"},
    "P03": {"roots": [r"\bp03::"], "floor": 108, "rule": "from_reflect(to_value(x)) is x, and to_value(x) has the shape of x",
            "per": {r"ob_(struct|enum)_value": {"value_depth": 0}}},
    "P04": {"roots": [r"\bp04::"], "floor": 135, "rule": "from_reflect(v) is the reference conversion of v, for an unconstrained reflected object v", "per": PER},
    "P05": {"roots": [r"\bp05::"], "floor": 132, "rule": "patch(v) changes a value to the reference patch by v, for an unconstrained reflected object v", "per": dict(PER, **{r"map_map": {"maxlen": 1}})},
    "P06": {"roots": [r"\bp06::"], "floor": 112, "rule": "clone_reflect(x) is x, structurally, with the type of x", "per": {r"_value::|ob_value": {"value_depth": 1}}},
    "P07": {"roots": [r"\bp07::"], "floor": 240, "rule": "the shared, mutable and owned views of x by kind denote x and agree on the kind of its type"},
    "P08": {"roots": [r"\bp08::"], "floor": 96, "rule": "every view of a scalar has its type, its value and, where mutable, its place", "per": PER},
    "P09": {"roots": [r"\bp09::"], "floor": 22, "rule": "Eq, Ord and Hash of dynamic values are lawful and agree",
            "cfg": {"value_depth": 0, "value_scalars": ["i32", "String"]},
            "per": {r"ob_transitive": {"value_variants": ["i32", "String", "f32", "bool"], "value_depth": 1}, r"ob_kinds|ob_reflexive": {"value_depth": 1},
                    r"ob_scalars": {"value_variants": SCALARS}}},
    "P10": {"roots": [r"\bp10::"], "floor": 126, "rule": "reflect_eq is the reference comparison",
            "cfg": {"mode": "enum", "kind_depth": 1, "maxlen": 2}},
    "P11": {"roots": [r"\bp11::"], "floor": 52, "rule": "at and at_mut reach the place that following the keys one by one reaches",
            "cfg": {"value_depth": 0, "value_variants": ["i32", "String", "usize", "TupleValue"], "kind_depth": 1, "maxlen": 2},
            "per": {r"ob_two|ob_any_two|p11::ob_value": {"value_variants": ["i32", "String"], "kind_depth": 2, "maxlen": 1}, r"ob_index": {"value_variants": None}}},
    "P12": {"roots": [r"\bp12::"], "floor": 66, "rule": "a type path leads to the type that following the keys one by one reaches, which is the type of the part there",
            "cfg": {"value_depth": 0, "value_variants": ["i32", "String", "usize", "TupleValue"], "kind_depth": 1, "maxlen": 2},
            "per": {r"ob_two": {"value_variants": ["i32", "String"], "maxlen": 1}}},
    "P13": {"roots": [r"\bp13::"], "floor": 15, "rule": "a path is the sequence of keys it was built from", "cfg": {"value_depth": 0, "value_scalars": ["i32", "String"], "maxlen": 2, "value_variants": ["i32", "String", "usize"]}},
    "P14": {"roots": [r"\bp14::"], "floor": 20, "rule": "the text of a path is the text of its keys", "cfg": {"value_depth": 0, "value_scalars": ["i32", "String"], "value_variants": ["i32", "String", "usize"]}},
    "P15": {"roots": [r"\bp15::"], "floor": 92, "rule": "a type's description lists exactly its reflected fields, variants, types, docs and metadata"},
    "P16": {"roots": [r"\bp16::"], "floor": 47, "rule": "every type reachable from a description is described in it as on its own", "termination": True},
    "P17": {"roots": [r"\bp17::"], "floor": 100, "rule": "every request for a type's description gives the one description of the type", "cfg": {"maxlen": 1, "value_variants": ["i32", "String"]}, "per": {r"p17::value::": {"value_variants": None}}},
    "P18": {"roots": [r"\bp18::"], "floor": 100, "rule": "a type's default value is made of the defaults of its parts, and exists exactly if they do", "termination": True},
    "P19": {"roots": [r"\bp19::"], "floor": 160, "rule": "visiting visits each leaf once, in order, by its type, and stops at the first error", "per": {r"nest::": {"maxlen": 1}}},
    "P20": {"roots": [r"\bp20::"], "floor": 58, "rule": "the operations of reflected lists, arrays and maps are those of sequences and maps", "cfg": {"maxlen": 3}, "per": PER},
    "P21": {"roots": [r"\bp21::"], "floor": 100, "rule": "every operation on a box is the operation on its content", "per": {r"by::nz::": {"scalars": ["u8", "String"]}}},
    "P22": {"roots": [r"\bp22::"], "floor": 95, "rule": "iterators announce exactly what they yield, and yield nothing after their end", "cfg": {"value_depth": 0, "value_variants": ["i32", "String", "usize"]}},
    "P23": {"roots": [r"\bp23::"], "floor": 66, "rule": "typed field access is the untyped lookup followed by a downcast", "cfg": {"value_depth": 1}},
    "P24": {"roots": [r"\bp\d\d::"], "floor": 2500, "only": "panic", "per": {r"p24::(value|map)::ob_compare": {"value_depth": 0}}, "rule": "no path of any obligation of any property panics"},
    "P25": {"roots": [r"\bp25::"], "floor": 110, "rule": "loading what was stored gives the same value, path or description", "cfg": {"value_depth": 1, "max_text": (1 << 32) - 1}},
    "P26": {"roots": [r"\bp26::"], "floor": 145, "rule": "the debug text of a reflected object shows all of its reflected content", "cfg": {"value_depth": 1, "value_variants": ["i32", "String", "List", "StructValue"]}},
    "P27": {"roots": [r"\bp27::"], "floor": 22, "rule": "what is read from a dynamic value is what was put in, in the order it was put in"},
    "P28": {"roots": [r"\bp28::"], "floor": 78, "cfg": {"limit": dict(BASE["limit"], **{"option::Option": syntax_limit}), "maxlen_fn": syntax_len, "maxlen": 1}, "per": {r"wide": {"syntax_wide": True, "maxlen": 0}, r"nested": {"syntax_depth": 2, "maxlen": 0}, r"::(underscore|in_const)::": {"maxlen": 0, "syntax_depth": 0}, r"ob_print": {"simple_names": True}}, "rule": "the simple name and the pretty printed description are complete"},
}


def owner(pid, name):
    """the property whose bounds apply to an obligation (P24 reuses the obligations of all others)"""
    if PROPS[pid].get("only") == "panic":
        for p in PROPS:
            if p != pid and ("::%s::" % p.lower()) in name:
                return p
    return pid


def cfg_for(pid, name, tier):
    single = PROPS[pid].get("only") == "panic" and tier == "quick"
    c = _cfg(owner(pid, name), name, tier)
    if single:
        c["single"] = True
    return c


def _cfg(pid, name, tier):
    c = dict(BASE)
    c["tier"] = tier
    c["step_budget"] = 25 if tier == "quick" else 200
    c.update(PROPS[pid].get("cfg", {}))
    if tier == "thorough":
        c.update(PROPS[pid].get("cfg_thorough", {}))
    for rx, x in PROPS[pid].get("per", {}).items():
        import re
        if re.search(rx, name):
            c.update(x)
    return c


def budget(pid, name, tier):
    return PROPS[pid].get("budget", 120) * (1 if tier == "quick" else 4)


def weight(name):
    return 0


def explain(pid):
    return ("Path-sensitive abstract interpretation of the compiler's monomorphic MIR. Inputs are unconstrained provenance terms; "
            "each obligation is a client function in witness/src whose check points must hold on every abstract path.")


def ladder(cfg):
    """growing bounds on the length of sequences and maps; an obligation counts with the largest ones that can be decided"""
    n = cfg.get("maxlen", 2)
    if cfg.get("single"):
        return [{"maxlen": n}]
    up = 3 if cfg.get("tier") == "thorough" else 1
    return [{"maxlen": k} for k in range(n, n + up + 1)]
