//! P10: structural comparison of reflected objects.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// reference comparison (`None`: undecided because of an opaque part)
fn same(a: &dyn Reflect, b: &dyn Reflect) -> Option<bool> {
    match (a.reflect_ref(), b.reflect_ref()) {
        (ReflectRef::Opaque(_), _) | (_, ReflectRef::Opaque(_)) => None,
        (ReflectRef::Scalar(a), ReflectRef::Scalar(b)) => Some(scalar(a, b)),
        (ReflectRef::Struct(a), ReflectRef::Struct(b)) => {
            if a.fields_len() != b.fields_len() { return Some(false) }
            let mut i = 0;
            while i < a.fields_len() {
                match b.field(a.name_at(i)?) { Some(y) => if !same(a.field_at(i)?, y)? { return Some(false) }, None => return Some(false) }
                i += 1;
            }
            Some(true)
        }
        (ReflectRef::TupleStruct(a), ReflectRef::TupleStruct(b)) => all(a.fields_len(), b.fields_len(), |i| (a.field_at(i), b.field_at(i))),
        (ReflectRef::Tuple(a), ReflectRef::Tuple(b)) => all(a.fields_len(), b.fields_len(), |i| (a.field_at(i), b.field_at(i))),
        (ReflectRef::List(a), ReflectRef::List(b)) => all(a.len(), b.len(), |i| (a.get(i), b.get(i))),
        (ReflectRef::Array(a), ReflectRef::Array(b)) => all(a.len(), b.len(), |i| (a.get(i), b.get(i))),
        (ReflectRef::Map(a), ReflectRef::Map(b)) => {
            if a.len() != b.len() { return Some(false) }
            for (k, x) in a.iter() {
                match b.get(k) { Some(y) => if !same(x, y)? { return Some(false) }, None => return Some(false) }
            }
            Some(true)
        }
        (ReflectRef::Enum(a), ReflectRef::Enum(b)) => {
            if a.variant_name() != b.variant_name() { return Some(false) }
            match (a.variant_kind(), b.variant_kind()) {
                (VariantKind::Unit, VariantKind::Unit) => Some(true),
                (VariantKind::Tuple, VariantKind::Tuple) => all(a.fields_len(), b.fields_len(), |i| (a.field_at(i), b.field_at(i))),
                (VariantKind::Struct, VariantKind::Struct) => {
                    if a.fields_len() != b.fields_len() { return Some(false) }
                    let mut i = 0;
                    while i < a.fields_len() {
                        match b.field(a.name_at(i)?) { Some(y) => if !same(a.field_at(i)?, y)? { return Some(false) }, None => return Some(false) }
                        i += 1;
                    }
                    Some(true)
                }
                _ => Some(false),
            }
        }
        _ => Some(false),
    }
}
fn all<'a>(n: usize, m: usize, f: impl Fn(usize) -> (Option<&'a dyn Reflect>, Option<&'a dyn Reflect>)) -> Option<bool> {
    if n != m { return Some(false) }
    let mut i = 0;
    while i < n {
        let (x, y) = f(i);
        if !same(x?, y?)? { return Some(false) }
        i += 1;
    }
    Some(true)
}
fn scalar(a: ScalarRef<'_>, b: ScalarRef<'_>) -> bool {
    macro_rules! m { ($($t:ident)*) => { match (a, b) { $((ScalarRef::$t(x), ScalarRef::$t(y)) => x == y,)* _ => false } } }
    m!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char f32 f64 String)
}
fn cmp(a: &dyn Reflect, b: &dyn Reflect) {
    let r = reflect_eq(a, b);
    check("objects are equal exactly when kind and parts are", r == same(a, b));
    check("comparing by operator is the comparison, with undecided as unequal", (*a == *b) == (r == Some(true)));
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_cmp(x: &$t, y: &$t) {
            cmp(x, y);
            check("comparison is symmetric", reflect_eq(x, y) == reflect_eq(y, x));
        }
        pub fn ob_self(x: &$t) { check("an object equals itself", reflect_eq(x, x) == Some(true)) }
        pub fn ob_export(x: &$t) { check("an object equals its exported value unless it is an array", reflect_eq(x, &x.to_value()) == Some(true)) }
    })* };
}
obs!(s3 = S3, sk2 = Sk2, names = Names, bx = Bx, gens = Gen<String, S3>, t3 = T3, tsk1 = TSk1, tup0 = (), tup2 = (i32, i32), f2 = F2, f = F<i32>, option = Option<i32>, option_s = Option<T1>, result = Result<i32, String>,
    range = std::ops::Range<i32>, vec = Vec<i32>, vec_s = Vec<T1>, map = BTreeMap<i32, String>, unit = Unit, empty = Empty, usize_ = usize, u8_ = u8, i128_ = i128, char_ = char, bool_ = bool, string = String, nz = std::num::NonZeroU32,
    raw = Raw, multi = Multi, tmulti = TMulti, disc = Disc, vec_opt = Vec<Option<i32>>, opt_vec = Option<Vec<i32>>, map_vec = BTreeMap<i32, Vec<i32>>, vec_map = Vec<BTreeMap<i32, i32>>, opt_opt = Option<Option<i32>>, vec_tup = Vec<(i32, String)>, boxed = Box<S3>, box_vec = Box<Vec<i32>>);
pub mod arr { use super::*;
    pub fn ob_cmp(x: &[i32; 2], y: &[i32; 2]) { cmp(x, y); check("comparison is symmetric", reflect_eq(x, y) == reflect_eq(y, x)) }
}
/// specific readings
pub fn ob_struct(x: &S3, y: &S3) { check("structs are equal exactly when all their fields are", reflect_eq(x, y) == Some(x.a == y.a && x.b == y.b && x.c == y.c)) }
pub fn ob_skipped(x: &Sk2, y: &Sk2) { check("skipped fields do not take part", reflect_eq(x, y) == Some(x.a == y.a && x.b == y.b)) }
pub fn ob_tuple_struct(x: &T3, y: &T3) { check("tuple structs are equal exactly when all their fields are", reflect_eq(x, y) == Some(x.0 == y.0 && x.1 == y.1 && x.2 == y.2)) }
pub fn ob_tuple(x: &(i32, i32), y: &(i32, i32)) { check("tuples are equal exactly when all their fields are", reflect_eq(x, y) == Some(x == y)) }
pub fn ob_list(x: &Vec<i32>, y: &Vec<i32>) { check("lists are equal exactly when their elements are", reflect_eq(x, y) == Some(x == y)) }
pub fn ob_array(x: &[i32; 2], y: &[i32; 2], z: &[i32; 3]) { check("arrays are equal exactly when their elements are", reflect_eq(x, y) == Some(x == y) && reflect_eq(x, z) == Some(false)) }
pub fn ob_map(x: &BTreeMap<i32, i32>, y: &BTreeMap<i32, i32>) { check("maps are equal exactly when their entries are", reflect_eq(x, y) == Some(x.len() == y.len() && x.iter().all(|(k, v)| y.get(k) == Some(v)))) }
pub fn ob_option(x: &Option<i32>, y: &Option<i32>) { check("enums are equal exactly when variant and fields are", reflect_eq(x, y) == Some(x == y)) }
pub fn ob_float(x: f32, y: f32, z: f64, w: f64) { check("floats compare as floats", reflect_eq(&x, &y) == Some(x == y) && reflect_eq(&z, &w) == Some(z == w)) }
/// arbitrary objects of different kinds
pub fn ob_kinds(a: &dyn Reflect, b: &dyn Reflect) {
    let (k, l) = (crate::p07::kind(&a.reflect_ref()), crate::p07::kind(&b.reflect_ref()));
    assume(k != l);
    let opaque = k == crate::p07::K::Opaque || l == crate::p07::K::Opaque;
    check("objects of different kinds are unequal, an opaque object is undecided", reflect_eq(a, b) == if opaque { None } else { Some(false) });
}
pub fn ob_any(a: &dyn Reflect, b: &dyn Reflect) { cmp(a, b) }
pub fn ob_typed_any(a: &S3, t: &(i32, i32), v: &Vec<i32>, m: &BTreeMap<i32, i32>, b: &dyn Reflect) {
    cmp(a, b);
    cmp(t, b);
    cmp(v, b);
    cmp(m, b);
}
pub fn ob_enum_any(e: &F2, o: &Option<i32>, b: &dyn Reflect) {
    cmp(e, b);
    cmp(o, b);
}
