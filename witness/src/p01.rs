//! P01: name, position and iteration give the same fields.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::{VariantField, VariantFieldMut, VariantKind};
use mirror_mirror::*;

fn at(r: Option<&dyn Reflect>, l: Option<Loc>) -> bool {
    match (r, l) {
        (Some(r), Some(l)) => at_loc(r.as_reflect(), l),
        (None, None) => true,
        _ => false,
    }
}
fn at_mut(r: Option<&mut dyn Reflect>, l: Option<Loc>) -> bool {
    match (r, l) {
        (Some(r), Some(l)) => at_loc(r.as_reflect(), l),
        (None, None) => true,
        _ => false,
    }
}
fn by_name(sp: &Sp, n: &str) -> Option<Loc> {
    for i in 0..sp.n {
        if sp.names[i] != "" && sp.names[i] == n {
            return sp.locs[i];
        }
    }
    None
}
fn by_index(sp: &Sp, i: usize) -> Option<Loc> {
    if i < sp.n { sp.locs[i] } else { None }
}
fn name_is(sp: &Sp, i: usize, n: Option<&str>) -> bool {
    match n {
        Some(n) => i < sp.n && sp.names[i] == n,
        None => i >= sp.n,
    }
}

fn st<T: Struct + Spec>(x: &mut T, n: &str, i: usize) {
    let sp = x.spec();
    check("the number of fields is the number of reflected fields", x.fields_len() == sp.n);
    check("a shared lookup by name gives that field or nothing", at(x.field(n), by_name(&sp, n)));
    check("a mutable lookup by name gives that field or nothing", at_mut(x.field_mut(n), by_name(&sp, n)));
    check("a shared lookup by position gives that field or nothing", at(x.field_at(i), by_index(&sp, i)));
    check("a mutable lookup by position gives that field or nothing", at_mut(x.field_at_mut(i), by_index(&sp, i)));
    check("the name at a position is the name of that field", name_is(&sp, i, x.name_at(i)));
}
fn st_iter<T: Struct + Spec>(x: &mut T) {
    let sp = x.spec();
    let mut k = 0;
    for (n, r) in x.fields() {
        check("iteration yields the field names in order", k < sp.n && sp.names[k] == n);
        check("iteration yields the fields in order", at(Some(r), by_index(&sp, k)));
        k += 1;
    }
    check("iteration yields every field", k == sp.n);
    let mut k = 0;
    for (n, r) in x.fields_mut() {
        check("mutable iteration yields the field names in order", k < sp.n && sp.names[k] == n);
        check("mutable iteration yields the fields in order", at_mut(Some(r), by_index(&sp, k)));
        k += 1;
    }
    check("mutable iteration yields every field", k == sp.n);
}
macro_rules! positional {
    ($f:ident, $it:ident, $tr:ident) => {
        fn $f<T: $tr + Spec>(x: &mut T, i: usize) {
            let sp = x.spec();
            check("the number of fields is the number of reflected fields", x.fields_len() == sp.n);
            check("a shared lookup by position gives that field or nothing", at(x.field_at(i), by_index(&sp, i)));
            check("a mutable lookup by position gives that field or nothing", at_mut(x.field_at_mut(i), by_index(&sp, i)));
        }
        fn $it<T: $tr + Spec>(x: &mut T) {
            let sp = x.spec();
            let mut k = 0;
            for r in x.fields() {
                check("iteration yields the fields in order", at(Some(r), by_index(&sp, k)));
                k += 1;
            }
            check("iteration yields every field", k == sp.n);
            let mut k = 0;
            for r in x.fields_mut() {
                check("mutable iteration yields the fields in order", at_mut(Some(r), by_index(&sp, k)));
                k += 1;
            }
            check("mutable iteration yields every field", k == sp.n);
        }
    };
}
positional!(ts, ts_iter, TupleStruct);
positional!(tu, tu_iter, Tuple);

fn en<T: Enum + VariantSpec>(x: &mut T, n: &str, i: usize) {
    let sp = x.spec();
    let Some((vn, vk)) = x.variant() else { return };
    check("the variant name is that of the variant", x.variant_name() == vn);
    check("the variant kind is that of the variant", x.variant_kind() == vk);
    check("the number of variants is the number of reflected variants", x.variants_len() == T::count());
    check("the number of fields is the number of reflected fields", x.fields_len() == sp.n);
    check("a shared lookup by name gives that field or nothing", at(x.field(n), by_name(&sp, n)));
    check("a mutable lookup by name gives that field or nothing", at_mut(x.field_mut(n), by_name(&sp, n)));
    check("a shared lookup by position gives that field or nothing", at(x.field_at(i), by_index(&sp, i)));
    check("a mutable lookup by position gives that field or nothing", at_mut(x.field_at_mut(i), by_index(&sp, i)));
    if vk == VariantKind::Struct {
        check("the name at a position is the name of that field", name_is(&sp, i, x.name_at(i)));
    } else {
        check("a field without a name has no name at its position", x.name_at(i).is_none());
    }
}
fn en_iter<T: Enum + VariantSpec>(x: &mut T) {
    let sp = x.spec();
    let Some((_, vk)) = x.variant() else { return };
    let mut k = 0;
    for f in x.fields() {
        match f {
            VariantField::Struct(n, r) => {
                check("iteration yields the field names in order", vk == VariantKind::Struct && k < sp.n && sp.names[k] == n);
                check("iteration yields the fields in order", at(Some(r), by_index(&sp, k)));
            }
            VariantField::Tuple(r) => {
                check("iteration yields tuple fields only for tuple variants", vk == VariantKind::Tuple);
                check("iteration yields the fields in order", at(Some(r), by_index(&sp, k)));
            }
        }
        k += 1;
    }
    check("iteration yields every field", k == sp.n);
    let mut k = 0;
    for f in x.fields_mut() {
        match f {
            VariantFieldMut::Struct(n, r) => {
                check("mutable iteration yields the field names in order", vk == VariantKind::Struct && k < sp.n && sp.names[k] == n);
                check("mutable iteration yields the fields in order", at_mut(Some(r), by_index(&sp, k)));
            }
            VariantFieldMut::Tuple(r) => {
                check("mutable iteration yields tuple fields only for tuple variants", vk == VariantKind::Tuple);
                check("mutable iteration yields the fields in order", at_mut(Some(r), by_index(&sp, k)));
            }
        }
        k += 1;
    }
    check("mutable iteration yields every field", k == sp.n);
}
macro_rules! obs {
    (named: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_lookup(x: &mut $t, n: &str, i: usize) { st(x, n, i) }
        pub fn ob_iter(x: &mut $t) { st_iter(x) }
    })* };
    (tuple_struct: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_lookup(x: &mut $t, i: usize) { ts(x, i) }
        pub fn ob_iter(x: &mut $t) { ts_iter(x) }
    })* };
    (tuple: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_lookup(x: &mut $t, i: usize) { tu(x, i) }
        pub fn ob_iter(x: &mut $t) { tu_iter(x) }
    })* };
    (enumeration: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_lookup(x: &mut $t, n: &str, i: usize) { en(x, n, i) }
        pub fn ob_iter(x: &mut $t) { en_iter(x) }
    })* };
}
obs!(named: s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, unit = Unit, empty = Empty, allskip = AllSkip, names = Names, bx = Bx, gen = Gen<i32, i32>,
    noclone = NoClone, nodebug = NoDebug, nofrom = NoFrom, with = With,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<i32>, range_to = std::ops::RangeTo<i32>,
    range_to_incl = std::ops::RangeToInclusive<i32>, range_full = std::ops::RangeFull,
    vec2 = glam::Vec2, vec3 = glam::Vec3, mat3 = glam::Mat3,
    raw = Raw, multi = Multi, big = Big, cont = Cont, cgen = CGen<2>);
obs!(tuple_struct: t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tbx = TBx, tgen = TGen<i32>, withts = WithT, tnoclone = TNoClone, tnodebug = TNoDebug, tmulti = TMulti, bigt = BigT);
obs!(tuple: tup0 = (), tup4 = (i32, i32, i32, i32), tup6 = (i32, i32, i32, i32, i32, i32), tup11 = Tup11, tup16 = Tup16, tup1 = (i32,), tup2 = (i32, i32), tup3 = (i32, i32, String), tup5 = (i32, i32, i32, i32, i32));
obs!(enumeration: e = E, e2 = E2, disc = Disc, f = F<i32>, option = Option<i32>, result = Result<i32, String>);

/// dynamic values: the fields are those put in, in order, whichever way they are looked up
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
fn same(r: Option<&dyn Reflect>, l: Option<Loc>) -> bool { at(r, l) }
fn lo(r: Option<&dyn Reflect>) -> Option<Loc> { r.map(|r| loc(r.as_reflect())) }
fn holds(r: Option<&dyn Reflect>, v: &Value) -> bool {
    match r { Some(r) => match r.as_any().downcast_ref::<i32>() { Some(n) => veq(&Value::i32(*n), v), None => match r.as_any().downcast_ref::<String>() { Some(n) => veq(&Value::String(n.clone()), v), None => false } }, None => false }
}
fn dyn_named(x: &mut StructValue, ns: &[&str], vs: &[&Value], n: &str, i: usize) {
    let len = ns.len();
    check("a dynamic struct has the fields put in", x.fields_len() == len);
    let mut want = None;
    let mut k = 0;
    while k < len {
        check("the names of a dynamic struct are in order", x.name_at(k) == Some(ns[k]));
        check("position and name find the value put in", holds(x.field_at(k), vs[k]) && holds(x.field(ns[k]), vs[k]));
        let l = lo(x.field_at(k));
        check("position and name find one field of a dynamic struct", same(x.field(ns[k]), l) && at_mut(x.field_mut(ns[k]), l) && at_mut(x.field_at_mut(k), l));
        if ns[k] == n { want = l }
        k += 1;
    }
    check("a name that was not put in finds nothing", same(x.field(n), want) && at_mut(x.field_mut(n), want));
    if i >= len {
        check("a position out of range finds nothing", x.field_at(i).is_none() && x.name_at(i).is_none() && x.field_at_mut(i).is_none());
    }
    let mut ls = [None; 3];
    let mut k = 0;
    for (m, r) in x.fields() {
        check("iteration of a dynamic struct yields the names in order", k < len && m == ns[k]);
        check("iteration of a dynamic struct yields the fields in order", k < len && holds(Some(r), vs[k]));
        ls[k] = lo(Some(r));
        k += 1;
    }
    check("iteration of a dynamic struct yields every field", k == len);
    let mut k = 0;
    for (m, r) in x.fields_mut() {
        check("mutable iteration of a dynamic struct yields the names in order", k < len && m == ns[k]);
        check("mutable iteration of a dynamic struct yields the fields in order", k < len && at_mut(Some(r), ls[k]));
        k += 1;
    }
    check("mutable iteration of a dynamic struct yields every field", k == len);
}
pub fn ob_struct_value(n1: String, n2: String, v1: i32, v2: String, n: &str, i: usize) {
    assume(n1 != n2);
    let (v1, v2) = (Value::from(v1), Value::from(v2));
    let mut x = StructValue::new().with_field(n1.clone(), v1.clone()).with_field(n2.clone(), v2.clone());
    dyn_named(&mut x, &[&n1, &n2], &[&v1, &v2], n, i);
}
pub fn ob_struct_value_three(n1: String, n2: String, n3: String, v1: i32, v2: String, v3: i32, i: usize) {
    assume(n1 != n2 && n1 != n3 && n2 != n3);
    let (v1, v2, v3) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let mut x = StructValue::with_capacity(1);
    x.set_field(n1.clone(), v1.clone());
    x.set_field(n2.clone(), v2.clone());
    x.set_field(n3.clone(), v3.clone());
    dyn_named(&mut x, &[&n1, &n2, &n3], &[&v1, &v2, &v3], "", i);
}
pub fn ob_struct_value_again(n1: String, n2: String, v1: i32, v2: String, v3: i32, n: &str, i: usize) {
    assume(n1 != n2);
    let (v1, v2, v3) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let mut x = StructValue::new().with_field(n1.clone(), v1).with_field(n2.clone(), v2.clone()).with_field(n1.clone(), v3.clone());
    dyn_named(&mut x, &[&n1, &n2], &[&v3, &v2], n, i);
}
macro_rules! dyn_positional {
    ($f:ident, $t:ty) => {
        fn $f(x: &mut $t, vs: &[&Value], i: usize) {
            let len = vs.len();
            check("a dynamic tuple has the fields put in", x.fields_len() == len);
            let mut ls = [None; 3];
            let mut k = 0;
            while k < len {
                check("position finds the value put in", holds(x.field_at(k), vs[k]));
                ls[k] = lo(x.field_at(k));
                check("shared and mutable lookup find one field of a dynamic tuple", at_mut(x.field_at_mut(k), ls[k]));
                k += 1;
            }
            if i >= len {
                check("a position out of range finds nothing", x.field_at(i).is_none() && x.field_at_mut(i).is_none());
            }
            let mut k = 0;
            for r in x.fields() {
                check("iteration of a dynamic tuple yields the fields in order", k < len && same(Some(r), ls[k]));
                k += 1;
            }
            check("iteration of a dynamic tuple yields every field", k == len);
            let mut k = 0;
            for r in x.fields_mut() {
                check("mutable iteration of a dynamic tuple yields the fields in order", k < len && at_mut(Some(r), ls[k]));
                k += 1;
            }
            check("mutable iteration of a dynamic tuple yields every field", k == len);
        }
    };
}
dyn_positional!(dyn_tuple, TupleValue);
dyn_positional!(dyn_tuple_struct, TupleStructValue);
pub fn ob_tuple_value(v1: i32, v2: String, i: usize) {
    let (v1, v2) = (Value::from(v1), Value::from(v2));
    let mut x = TupleValue::new().with_field(v1.clone());
    x.push_field(v2.clone());
    dyn_tuple(&mut x, &[&v1, &v2], i);
}
pub fn ob_tuple_struct_value(v1: i32, v2: String, i: usize) {
    let (v1, v2) = (Value::from(v1), Value::from(v2));
    let mut x = TupleStructValue::new().with_field(v1.clone());
    x.push_field(v2.clone());
    dyn_tuple_struct(&mut x, &[&v1, &v2], i);
}
pub fn ob_dynamic_empty(n: &str, i: usize) {
    dyn_named(&mut StructValue::new(), &[], &[], n, i);
    dyn_tuple(&mut TupleValue::new(), &[], i);
    dyn_tuple_struct(&mut TupleStructValue::new(), &[], i);
}
fn dyn_variant(x: &mut mirror_mirror::enum_::EnumValue, w: &str, kind: VariantKind, ns: &[&str], vs: &[&Value], n: &str, i: usize) {
    let len = vs.len();
    check("a dynamic variant has its name and kind", x.variant_name() == w && x.variant_kind() == kind);
    check("a dynamic variant has the fields put in", x.fields_len() == len);
    let named = kind == VariantKind::Struct;
    let mut ls = [None; 3];
    let mut want = None;
    let mut k = 0;
    while k < len {
        check("position finds the value put in", holds(x.field_at(k), vs[k]));
        ls[k] = lo(x.field_at(k));
        check("shared and mutable lookup find one field of a dynamic variant", at_mut(x.field_at_mut(k), ls[k]));
        if named {
            check("the names of a dynamic variant are in order", x.name_at(k) == Some(ns[k]));
            check("position and name find one field of a dynamic variant", same(x.field(ns[k]), ls[k]) && at_mut(x.field_mut(ns[k]), ls[k]));
            if ns[k] == n { want = ls[k] }
        } else {
            check("a field without a name has no name at its position", x.name_at(k).is_none());
        }
        k += 1;
    }
    check("a name that was not put in finds nothing", same(x.field(n), want) && at_mut(x.field_mut(n), want));
    if i >= len {
        check("a position out of range finds nothing", x.field_at(i).is_none() && x.field_at_mut(i).is_none());
    }
    let mut k = 0;
    for f in x.fields() {
        match f {
            VariantField::Struct(m, r) => check("iteration of a dynamic variant yields names and fields in order", named && k < len && m == ns[k] && same(Some(r), ls[k])),
            VariantField::Tuple(r) => check("iteration of a dynamic variant yields the fields in order", !named && k < len && same(Some(r), ls[k])),
        }
        k += 1;
    }
    check("iteration of a dynamic variant yields every field", k == len);
    let mut k = 0;
    for f in x.fields_mut() {
        match f {
            VariantFieldMut::Struct(m, r) => check("mutable iteration of a dynamic variant yields names and fields in order", named && k < len && m == ns[k] && at_mut(Some(r), ls[k])),
            VariantFieldMut::Tuple(r) => check("mutable iteration of a dynamic variant yields the fields in order", !named && k < len && at_mut(Some(r), ls[k])),
        }
        k += 1;
    }
    check("mutable iteration of a dynamic variant yields every field", k == len);
}
use mirror_mirror::enum_::EnumValue;
pub fn ob_enum_value_struct(w: String, n1: String, n2: String, v1: i32, v2: String, n: &str, i: usize) {
    assume(n1 != n2);
    let (v1, v2) = (Value::from(v1), Value::from(v2));
    let mut x = EnumValue::new_struct_variant(w.clone()).with_struct_field(n1.clone(), v1.clone()).with_struct_field(n2.clone(), v2.clone()).finish();
    dyn_variant(&mut x, &w, VariantKind::Struct, &[&n1, &n2], &[&v1, &v2], n, i);
}
pub fn ob_enum_value_tuple(w: String, v1: i32, v2: String, n: &str, i: usize) {
    let (v1, v2) = (Value::from(v1), Value::from(v2));
    let mut x = EnumValue::new_tuple_variant(w.clone()).with_tuple_field(v1.clone()).with_tuple_field(v2.clone()).finish();
    dyn_variant(&mut x, &w, VariantKind::Tuple, &[], &[&v1, &v2], n, i);
}
pub fn ob_enum_value_unit(w: String, n: &str, i: usize) {
    let mut x = EnumValue::new_unit_variant(w.clone());
    dyn_variant(&mut x, &w, VariantKind::Unit, &[], &[], n, i);
}
