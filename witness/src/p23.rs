//! P23: typed field access is the untyped lookup followed by a downcast.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::get_field::{GetField, GetFieldMut};
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn lo<T: Reflect>(r: Option<&dyn Reflect>) -> Option<Loc> { r.and_then(|r| r.downcast_ref::<T>()).map(|x| loc(x)) }
fn is<T>(r: Option<&T>, l: Option<Loc>) -> bool {
    match (r, l) { (Some(r), Some(l)) => at_loc(r, l), (None, None) => true, _ => false }
}
fn is_mut<T>(r: Option<&mut T>, l: Option<Loc>) -> bool {
    match (r, l) { (Some(r), Some(l)) => at_loc(&*r, l), (None, None) => true, _ => false }
}
/// each way of typed access, for two types
macro_rules! all {
    ($x:expr, $k:expr, $want:expr) => {{
        let want: (Option<Loc>, Option<Loc>) = $want;
        check("typed access finds the field if it has the type, and nothing otherwise", is((&*$x).get_field::<i32>($k), want.0) && is((&*$x).get_field::<String>($k), want.1));
        check("typed access through a mutable reference finds the same field", is((&mut *$x).get_field::<i32>($k), want.0) && is((&mut *$x).get_field::<String>($k), want.1));
        check("mutable typed access finds the same field", is_mut((&mut *$x).get_field_mut::<i32>($k), want.0) && is_mut((&mut *$x).get_field_mut::<String>($k), want.1));
    }};
}
macro_rules! both { ($r:expr) => {{ let r = $r; (lo::<i32>(r), lo::<String>(r)) }} }
pub fn st<R: Struct + ?Sized>(x: &mut R, n: &str) { all!(x, n, both!(x.field(n))) }
pub fn ts<R: TupleStruct + ?Sized>(x: &mut R, i: usize) { all!(x, i, both!(x.field_at(i))) }
pub fn tu<R: Tuple + ?Sized>(x: &mut R, i: usize) { all!(x, i, both!(x.field_at(i))) }
pub fn en<R: Enum + ?Sized>(x: &mut R, n: &str, i: usize) {
    all!(x, n, both!(x.field(n)));
    all!(x, i, both!(x.field_at(i)))
}
pub fn ar<R: Array + ?Sized>(x: &mut R, i: usize) { all!(x, i, both!(x.get(i))) }
pub fn ma<R: Map + ?Sized>(x: &mut R, n: &str, i: usize, j: i32, s: &String) {
    all!(x, n, both!(x.get(&String::from(n))));
    all!(x, i, both!(x.get(&i)));
    all!(x, j, both!(x.get(&j)));
    all!(x, s.clone(), both!(x.get(s)))
}
macro_rules! obs {
    (named: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_get(x: &mut $t, n: &str) { st::<$t>(x, n) } pub fn ob_dyn(x: &mut $t, n: &str) { st::<dyn Struct>(x, n) } })* };
    (tuple_struct: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_get(x: &mut $t, i: usize) { ts::<$t>(x, i) } pub fn ob_dyn(x: &mut $t, i: usize) { ts::<dyn TupleStruct>(x, i) } })* };
    (tuple: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_get(x: &mut $t, i: usize) { tu::<$t>(x, i) } pub fn ob_dyn(x: &mut $t, i: usize) { tu::<dyn Tuple>(x, i) } })* };
    (enumeration: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_get(x: &mut $t, n: &str, i: usize) { en::<$t>(x, n, i) } pub fn ob_dyn(x: &mut $t, n: &str, i: usize) { en::<dyn Enum>(x, n, i) } })* };
    (array: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_get(x: &mut $t, i: usize) { ar::<$t>(x, i) } pub fn ob_dyn(x: &mut $t, i: usize) { ar::<dyn Array>(x, i) } })* };
    (list: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_dyn(x: &mut $t, i: usize) { ar::<dyn List>(x, i) } })* };
    (map: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_get(x: &mut $t, n: &str, i: usize, j: i32, s: &String) { ma::<$t>(x, n, i, j, s) } pub fn ob_dyn(x: &mut $t, n: &str, i: usize, j: i32, s: &String) { ma::<dyn Map>(x, n, i, j, s) } })* };
}
obs!(named: s3 = S3, sk2 = Sk2, bx = Bx, gen = Gen<i32, String>, multi = Multi, range = std::ops::Range<i32>, vec2 = glam::Vec2, sv = StructValue);
obs!(tuple_struct: t3 = T3, tsk2 = TSk2, tbx = TBx, tmulti = TMulti, tsv = TupleStructValue);
obs!(tuple: tup2 = (i32, String), tup3 = (i32, i32, String), tv = TupleValue);
obs!(enumeration: e = E, e2 = E2, share = Share, option = Option<i32>, result = Result<i32, String>, ev = EnumValue);
obs!(array: arr = [i32; 2], arr_s = [String; 2], vec = Vec<i32>, vec_s = Vec<String>, vec_v = Vec<Value>);
obs!(list: li = Vec<i32>, li_s = Vec<String>);
obs!(map: mi = BTreeMap<i32, i32>, ms = BTreeMap<String, i32>, mu = BTreeMap<usize, String>, mv = BTreeMap<String, Value>);

/// dynamic values: by kind
fn by_name(v: &Value, n: &str) -> (Option<Loc>, Option<Loc>) {
    match v.reflect_ref() {
        ReflectRef::Struct(x) => both!(x.field(n)),
        ReflectRef::Enum(x) => both!(x.field(n)),
        ReflectRef::Map(x) => both!(x.get(&String::from(n))),
        _ => (None, None),
    }
}
fn by_index(v: &Value, i: usize) -> (Option<Loc>, Option<Loc>) {
    match v.reflect_ref() {
        ReflectRef::TupleStruct(x) => both!(x.field_at(i)),
        ReflectRef::Tuple(x) => both!(x.field_at(i)),
        ReflectRef::Enum(x) => both!(x.field_at(i)),
        ReflectRef::Array(x) => both!(x.get(i)),
        ReflectRef::List(x) => both!(x.get(i)),
        ReflectRef::Map(x) => both!(x.get(&i)),
        _ => (None, None),
    }
}
fn by_key<K: Reflect>(v: &Value, k: &K) -> (Option<Loc>, Option<Loc>) {
    match v.reflect_ref() {
        ReflectRef::Map(x) => both!(x.get(k)),
        _ => (None, None),
    }
}
pub fn ob_value_name(v: &mut Value, n: &str) { all!(v, n, by_name(v, n)) }
pub fn ob_value_string(v: &mut Value, n: &String) { all!(v, n.clone(), by_name(v, n)) }
pub fn ob_value_index(v: &mut Value, i: usize) { all!(v, i, by_index(v, i)) }
pub fn ob_value_i32(v: &mut Value, i: i32) { all!(v, i, by_key(v, &i)) }
pub fn ob_value_u8(v: &mut Value, i: u8) { all!(v, i, by_key(v, &i)) }
pub fn ob_value_bool(v: &mut Value, i: bool) { all!(v, i, by_key(v, &i)) }
