//! P09: dynamic values are totally ordered, and equality, order and hashes agree.
use crate::support::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn h(x: &Value) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn pair(a: &Value, b: &Value) {
    let c = a.cmp(b);
    check("values are equal exactly when they compare equal", (a == b) == (c == Ordering::Equal));
    check("comparison is antisymmetric", b.cmp(a) == c.reverse());
    check("the partial order is the total order", a.partial_cmp(b) == Some(c));
    if a == b { check("equal values hash equally", h(a) == h(b)); }
}
pub fn ob_reflexive(a: &Value) {
    let b = a.clone();
    check("a value equals its clone", *a == b && b == *a && a.cmp(&b) == Ordering::Equal && h(a) == h(&b));
}
pub fn ob_scalars(a: &Value, b: &Value) { pair(a, b) }
pub fn ob_kinds(a: &Value, b: &Value) { pair(a, b) }
macro_rules! same {
    ($($v:ident $f:ident : $t:ty),* $(,)?) => { $(pub fn $f(x: $t, y: $t) {
        let (p, q) = (Value::$v(x.clone()), Value::$v(y.clone()));
        check("values of one type are equal exactly when their contents are", (p == q) == (x == y));
        check("values of one type are ordered as their contents", p.cmp(&q) == x.cmp(&y));
    })* };
}
same!(usize ob_usize: usize, u8 ob_u8: u8, u16 ob_u16: u16, u32 ob_u32: u32, u64 ob_u64: u64, u128 ob_u128: u128, i8 ob_i8: i8, i16 ob_i16: i16, i32 ob_i32: i32, i64 ob_i64: i64, i128 ob_i128: i128,
    bool ob_bool: bool, char ob_char: char, String ob_string: String);
pub fn ob_f32(x: f32, y: f32) {
    let (p, q) = (Value::f32(x), Value::f32(y));
    if x < y { check("floats are ordered numerically", p < q && q > p && p != q) }
    if x == y { check("equal floats are equal values", p == q) }
    check("every float equals itself", p == p.clone());
}
pub fn ob_f64(x: f64, y: f64) {
    let (p, q) = (Value::f64(x), Value::f64(y));
    if x < y { check("floats are ordered numerically", p < q && q > p && p != q) }
    if x == y { check("equal floats are equal values", p == q) }
    check("every float equals itself", p == p.clone());
}
pub fn ob_transitive(a: &Value, b: &Value, c: &Value) {
    if a <= b && b <= c { check("comparison is transitive", a <= c) }
    if a == b && b == c { check("equality is transitive", a == c) }
}
pub fn ob_struct_value(n1: String, n2: String, m1: String, m2: String, a: i32, b: i32, c: i32, d: i32) {
    assume(n1 != n2 && m1 != m2);
    let x = StructValue::new().with_field(n1.clone(), a).with_field(n2.clone(), b);
    let y = StructValue::new().with_field(m1.clone(), c).with_field(m2.clone(), d);
    let same = n1 == m1 && n2 == m2 && a == c && b == d;
    check("dynamic structs are equal exactly when their fields are", (Value::from(x.clone()) == Value::from(y.clone())) == same && (x == y) == same);
    pair(&Value::from(x), &Value::from(y));
}
pub fn ob_tuple_value(a: i32, b: i32, c: i32, d: i32) {
    let x = TupleValue::new().with_field(a).with_field(b);
    let y = TupleValue::new().with_field(c).with_field(d);
    let same = a == c && b == d;
    check("dynamic tuples are equal exactly when their fields are", (Value::from(x.clone()) == Value::from(y.clone())) == same && (x == y) == same);
    pair(&Value::from(x), &Value::from(y));
    let x = TupleStructValue::new().with_field(a).with_field(b);
    let y = TupleStructValue::new().with_field(c).with_field(d);
    check("dynamic tuple structs are equal exactly when their fields are", (Value::from(x.clone()) == Value::from(y.clone())) == same && (x == y) == same);
    pair(&Value::from(x), &Value::from(y));
}
pub fn ob_enum_value(v: String, w: String, n: String, m: String, a: i32, b: i32) {
    let x = EnumValue::new_struct_variant(v.clone()).with_struct_field(n.clone(), a).finish();
    let y = EnumValue::new_struct_variant(w.clone()).with_struct_field(m.clone(), b).finish();
    let same = v == w && n == m && a == b;
    check("dynamic enums are equal exactly when variant and fields are", (Value::from(x.clone()) == Value::from(y.clone())) == same);
    pair(&Value::from(x.clone()), &Value::from(y));
    let z = EnumValue::new_tuple_variant(w.clone()).with_tuple_field(b).finish();
    let u = EnumValue::new_tuple_variant(v.clone()).with_tuple_field(a).finish();
    check("dynamic enums are equal exactly when variant and fields are", (Value::from(z.clone()) == Value::from(u.clone())) == (v == w && a == b));
    check("dynamic enums of different variant kinds differ", Value::from(x.clone()) != Value::from(z.clone()) && Value::from(EnumValue::new_unit_variant(v.clone())) != Value::from(z.clone()));
    pair(&Value::from(z), &Value::from(x));
}
