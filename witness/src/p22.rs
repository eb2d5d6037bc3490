//! P22: iterators announce exactly what they yield, and yield nothing after their end.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::key_path::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::type_info::{Type, Variant};
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::iter::FusedIterator;

/// an iterator that announces its exact length, over `n` items
fn exact<I: ExactSizeIterator + FusedIterator>(mut it: I, n: usize) {
    let mut k = 0;
    while k < n {
        check("the announced length is the number of items left", it.len() == n - k);
        check("the size hint is the number of items left", it.size_hint() == (n - k, Some(n - k)));
        check("as many items are yielded as announced", it.next().is_some());
        k += 1;
    }
    check("at the end the announced length is zero", it.len() == 0 && it.size_hint() == (0, Some(0)));
    check("nothing is yielded after the end", it.next().is_none() && it.next().is_none());
    check("at the end the announced length is zero", it.len() == 0 && it.size_hint() == (0, Some(0)));
}
/// any iterator over `n` items: its hint is a bound
fn bounded<I: Iterator>(mut it: I, n: usize) {
    let mut k = 0;
    while k < n {
        let (lo, hi) = it.size_hint();
        check("the size hint bounds the number of items left", lo <= n - k && hi.map_or(true, |h| h >= n - k));
        check("every item is yielded", it.next().is_some());
        k += 1;
    }
    let (lo, _) = it.size_hint();
    check("the size hint bounds the number of items left", lo == 0);
    check("no more items are yielded than there are", it.next().is_none());
}
/// skipping and counting
fn skips<T, I: Iterator<Item = T>>(mk: impl Fn() -> I, n: usize, i: usize, same: impl Fn(&T, usize) -> bool) {
    check("the items are counted exactly", mk().count() == n);
    let mut it = mk();
    match it.nth(i) {
        Some(x) => check("skipping reaches the item at the position", i < n && same(&x, i)),
        None => check("skipping past the end reaches nothing", i >= n),
    }
    check("after skipping the rest is left", it.count() == if i < n { n - i - 1 } else { 0 });
    match mk().last() {
        Some(x) => check("the last item is the one at the last position", n > 0 && same(&x, n - 1)),
        None => check("an iteration without a last item is empty", n == 0),
    }
}
fn here(r: &dyn Reflect, l: Option<Loc>) -> bool { l.map_or(false, |l| at_loc(r.as_reflect(), l)) }

macro_rules! obs {
    (named: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_exact(x: &$t) { exact(x.fields(), x.spec().n) }
        pub fn ob_skip(x: &$t, i: usize) { let sp = x.spec(); skips(|| x.fields(), sp.n, i, |(n, r), k| *n == sp.names[k] && here(*r, sp.locs[k])) }
        pub fn ob_mut(x: &mut $t) { let n = x.spec().n; bounded(x.fields_mut(), n) }
    })* };
    (positional: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_exact(x: &$t) { exact(x.fields(), x.spec().n) }
        pub fn ob_skip(x: &$t, i: usize) { let sp = x.spec(); skips(|| x.fields(), sp.n, i, |r, k| here(*r, sp.locs[k])) }
        pub fn ob_mut(x: &mut $t) { let n = x.spec().n; bounded(x.fields_mut(), n) }
    })* };
    (enumeration: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_bounded(x: &$t) { if x.variant().is_some() { bounded(x.fields(), x.spec().n) } }
        pub fn ob_skip(x: &$t, i: usize) {
            if x.variant().is_none() { return }
            let sp = x.spec();
            skips(|| x.fields(), sp.n, i, |f, k| match f { VariantField::Struct(n, r) => *n == sp.names[k] && here(*r, sp.locs[k]), VariantField::Tuple(r) => here(*r, sp.locs[k]) })
        }
        pub fn ob_mut(x: &mut $t) { if x.variant().is_some() { let n = x.spec().n; bounded(x.fields_mut(), n) } }
    })* };
}
obs!(named: s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, unit = Unit, allskip = AllSkip, bx = Bx, multi = Multi, range = std::ops::Range<i32>, range_full = std::ops::RangeFull, vec3 = glam::Vec3, big = Big);
obs!(positional: t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tmulti = TMulti, bigt = BigT, tup0 = (), tup1 = (i32,), tup3 = (i32, i32, String), tup11 = Tup11);
obs!(enumeration: e = E, e2 = E2, f = F<i32>, option = Option<i32>, result = Result<i32, String>, disc = Disc);

/// dynamic values
fn struct_value(x: &mut StructValue, n: usize, i: usize) {
    exact(x.fields(), n);
    skips(|| x.fields(), n, i, |(m, r), k| x.name_at(k) == Some(*m) && x.field_at(k).map_or(false, |f| same_loc(f.as_reflect(), r.as_reflect())));
    bounded(x.fields_mut(), n);
}
pub fn ob_struct_value(a: &str, b: &str, x: i32, y: String, i: usize) {
    struct_value(&mut StructValue::new(), 0, i);
    struct_value(&mut StructValue::new().with_field(a, x), 1, i);
    struct_value(&mut StructValue::new().with_field(a, x).with_field(b, y), if a == b { 1 } else { 2 }, i);
}
pub fn ob_tuple_value(x: &mut TupleValue, i: usize) {
    let n = x.fields_len();
    exact(x.fields(), n);
    skips(|| x.fields(), n, i, |r, k| x.field_at(k).map_or(false, |f| same_loc(f.as_reflect(), r.as_reflect())));
    bounded(x.fields_mut(), n);
}
pub fn ob_tuple_struct_value(x: &mut TupleStructValue, i: usize) {
    let n = x.fields_len();
    exact(x.fields(), n);
    skips(|| x.fields(), n, i, |r, k| x.field_at(k).map_or(false, |f| same_loc(f.as_reflect(), r.as_reflect())));
    bounded(x.fields_mut(), n);
}
fn enum_value(x: &mut EnumValue, n: usize) {
    bounded(x.fields(), n);
    bounded(x.fields_mut(), n);
}
pub fn ob_enum_value(v: &str, a: &str, b: &str, x: i32, y: i32) {
    assume(a != b);
    enum_value(&mut EnumValue::new_unit_variant(v), 0);
    enum_value(&mut EnumValue::new_tuple_variant(v).finish(), 0);
    enum_value(&mut EnumValue::new_tuple_variant(v).with_tuple_field(x).with_tuple_field(y).finish(), 2);
    enum_value(&mut EnumValue::new_struct_variant(v).with_struct_field(a, x).with_struct_field(b, y).finish(), 2);
}
/// any reflected object
pub fn ob_any(x: &dyn Reflect) {
    match x.reflect_ref() {
        ReflectRef::Struct(s) => { let n = s.fields_len(); assume(n < 3); exact(s.fields(), n) }
        ReflectRef::TupleStruct(s) => { let n = s.fields_len(); assume(n < 3); exact(s.fields(), n) }
        ReflectRef::Tuple(s) => { let n = s.fields_len(); assume(n < 3); exact(s.fields(), n) }
        ReflectRef::List(s) => { let n = s.len(); assume(n < 3); exact(s.iter(), n) }
        ReflectRef::Array(s) => { let n = s.len(); assume(n < 3); exact(s.iter(), n) }
        _ => check("nothing to iterate", true),
    }
}
fn seq<T: Reflect>(a: &mut dyn Array, n: usize, i: usize) {
    exact(a.iter(), n);
    skips(|| a.iter(), n, i, |r, k| a.get(k).map_or(false, |f| same_loc(f.as_reflect(), r.as_reflect())));
    bounded(a.iter_mut(), n);
}
pub fn ob_vec(x: &mut Vec<i32>, i: usize) { let n = x.len(); seq::<i32>(x, n, i) }
pub fn ob_vec_s(x: &mut Vec<S3>, i: usize) { let n = x.len(); seq::<S3>(x, n, i) }
pub fn ob_arr(x: &mut [i32; 3], i: usize) { seq::<i32>(x, 3, i) }
pub fn ob_arr0(x: &mut [i32; 0], i: usize) { seq::<i32>(x, 0, i) }
pub fn ob_map(x: &mut BTreeMap<i32, i32>) {
    let n = x.len();
    bounded(Map::iter(x), n);
    bounded(Map::iter_mut(x), n);
}
/// a list that is changed while an iterator is not borrowed from it: the iterator announces what it will yield
pub fn ob_partly(x: &Vec<i32>) {
    let mut it = Array::iter(x);
    let n = x.len();
    let _ = it.next();
    exact(it, if n == 0 { 0 } else { n - 1 });
}
/// paths
pub fn ob_path(p: KeyPath, i: usize) {
    let n = p.len();
    exact(p.iter(), n);
    exact((&p).into_iter(), n);
    exact(p.clone().into_iter(), n);
    exact(p.iter().rev(), n);
    exact(p.clone().into_iter().rev(), n);
    skips(|| p.iter(), n, i, |k, j| p.iter().nth(j).map_or(false, |l| veq(*k, l)));
    bounded(p.breadcrumbs(), n);
}
/// descriptions
fn described<T: DescribeType>(n: usize) {
    let td = T::type_descriptor();
    match td.get_type() {
        Type::Struct(s) => bounded(s.field_types(), n),
        Type::TupleStruct(s) => bounded(s.field_types(), n),
        Type::Tuple(s) => bounded(s.field_types(), n),
        Type::Enum(e) => bounded(e.variants(), n),
        _ => check("a type with parts", false),
    }
}
pub fn ob_described() {
    described::<S3>(3);
    described::<Sk2>(2);
    described::<Unit>(0);
    described::<T3>(3);
    described::<TSk1>(2);
    described::<(i32, u8)>(2);
    described::<()>(0);
    described::<E>(9);
    described::<E2>(10);
}
pub fn ob_described_variants() {
    let td = <E as DescribeType>::type_descriptor();
    let Some(e) = td.as_enum() else { return check("an enum", false) };
    for v in e.variants() {
        let n = v.fields_len();
        bounded(v.field_types(), n);
        match v { Variant::Struct(v) => bounded(v.field_types(), n), Variant::Tuple(v) => bounded(v.field_types(), n), Variant::Unit(_) => check("a unit variant has no fields", n == 0) }
    }
}
