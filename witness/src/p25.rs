//! P25: what is stored with serde is what is loaded.
use crate::support::*;
use crate::types::*;
use crate::wire::*;
use mirror_mirror::enum_::*;
use mirror_mirror::key_path::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use speedy::{Readable, Writable};
use std::collections::BTreeMap;

fn through<T: Serialize + DeserializeOwned, const NAMED: bool>(x: &T) {
    let mut s = Ser::<NAMED> { out: Vec::new() };
    match x.serialize(&mut s) {
        Ok(()) => {}
        Err(_) => return check("it can be stored", false),
    }
    let n = s.out.len();
    let mut d = De::<NAMED> { toks: s.out, pos: 0 };
    match T::deserialize(&mut d) {
        Ok(y) => {
            check("what is loaded is what was stored", veq(&y, x));
            check("all that was stored is loaded", d.pos == n);
        }
        Err(_) => check("what was stored can be loaded", false),
    }
}
fn binary<T: Writable<Ctx> + for<'a> Readable<'a, Ctx>>(x: &T) {
    let mut s = SpW { ctx: Ctx, out: Vec::new() };
    // (the analysis bounds texts to what the format can hold: four giga bytes)
    if x.write_to(&mut s).is_err() {
        return check("it can be stored", false);
    }
    let n = s.out.len();
    let mut d = SpR { ctx: Ctx, toks: s.out, pos: 0 };
    match T::read_from(&mut d) {
        Ok(y) => {
            check("what is loaded is what was stored", veq(&y, x));
            check("all that was stored is loaded", d.pos == n);
        }
        Err(_) => check("what was stored can be loaded", false),
    }
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_binary(x: &$t) { binary::<$t>(x) }
        pub fn ob_named(x: &$t) { through::<$t, true>(x) }
        pub fn ob_compact(x: &$t) { through::<$t, false>(x) }
    })* };
}
obs!(value = Value, tuple_value = TupleValue, tuple_struct_value = TupleStructValue, list_value = Vec<Value>, map_value = BTreeMap<Value, Value>, scalar = ScalarOwned, path = KeyPath, key = Key, named = NamedOrNumbered, scalar_type = ScalarType);
macro_rules! scalars {
    ($($m:ident = $t:ty, $v:ident);* $(;)?) => { $(pub mod $m { use super::*;
        pub fn ob_binary(x: $t) { binary::<Value>(&Value::$v(x)) }
        pub fn ob_named(x: $t) { through::<Value, true>(&Value::$v(x)) }
        pub fn ob_compact(x: $t) { through::<Value, false>(&Value::$v(x)) }
    })* };
}
scalars!(usize_ = usize, usize; u8_ = u8, u8; u16_ = u16, u16; u32_ = u32, u32; u64_ = u64, u64; u128_ = u128, u128; i8_ = i8, i8; i16_ = i16, i16; i32_ = i32, i32; i64_ = i64, i64; i128_ = i128, i128;
    bool_ = bool, bool; char_ = char, char; f32_ = f32, f32; f64_ = f64, f64; string = String, String);
macro_rules! described {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_binary() { binary::<TypeDescriptor>(&<$t as DescribeType>::type_descriptor()) }
        pub fn ob_named() { through::<TypeDescriptor, true>(&<$t as DescribeType>::type_descriptor()) }
        pub fn ob_compact() { through::<TypeDescriptor, false>(&<$t as DescribeType>::type_descriptor()) }
    })* };
}
described!(d_s3 = S3, d_e = E, d_t3 = T3, d_option = Option<S3>, d_vec = Vec<T1>, d_map = BTreeMap<String, i32>, d_arr = [i32; 2], d_tup = (i32, String), d_unit = (), d_opaque = std::time::Duration, d_doc = crate::p15::Doc, d_doce = crate::p15::DocE, d_doct = crate::p15::DocT);
/// dynamic structs and enums are built through their public operations
pub fn ob_struct_value(n1: String, n2: String, v1: i32, v2: String) {
    let x = StructValue::new().with_field(n1, v1).with_field(n2, v2);
    binary::<StructValue>(&x);
    through::<StructValue, true>(&x);
    through::<StructValue, false>(&x);
}
pub fn ob_enum_value(v: String, n1: String, n2: String, v1: i32, v2: String) {
    let x = EnumValue::new_struct_variant(v.clone()).with_struct_field(n1, v1).with_struct_field(n2, v2.clone()).finish();
    binary::<EnumValue>(&x);
    through::<EnumValue, true>(&x);
    through::<EnumValue, false>(&x);
    let x = EnumValue::new_tuple_variant(v.clone()).with_tuple_field(v1).with_tuple_field(v2).finish();
    binary::<EnumValue>(&x);
    through::<EnumValue, true>(&x);
    through::<EnumValue, false>(&x);
    let x = EnumValue::new_unit_variant(v);
    binary::<EnumValue>(&x);
    through::<EnumValue, true>(&x);
    through::<EnumValue, false>(&x);
}
/// sequences longer than a byte can count
pub fn ob_long_list(b: bool) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < 260 {
        v.push(Value::bool(b));
        i += 1;
    }
    binary::<Value>(&Value::List(v));
}
pub fn ob_long_map(b: bool) {
    let mut v = BTreeMap::new();
    let mut i = 0u16;
    while i < 260 {
        v.insert(Value::u16(i), Value::bool(b));
        i += 1;
    }
    binary::<Value>(&Value::Map(v));
}
pub fn ob_long_path() {
    let mut v = KeyPath::default();
    let mut i = 0;
    while i < 260 {
        v.push_field(i);
        i += 1;
    }
    binary::<KeyPath>(&v);
}
pub fn ob_long_tuple(b: bool) {
    let mut v = TupleValue::new();
    let mut i = 0;
    while i < 260 {
        v.push_field(b);
        i += 1;
    }
    binary::<Value>(&Value::TupleValue(v));
}
