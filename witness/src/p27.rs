//! P27: a dynamic value holds exactly what was put into it, however it was built.
use crate::support::*;
use crate::types::*;
use mirror_mirror::__private::IntoValue;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn holds(r: Option<&dyn Reflect>, v: &Value) -> bool {
    match r { Some(r) => veq(&r.to_value(), v), None => false }
}
/// names in the order they were first put in, each with the value last put in
struct Model { n: usize, names: [String; 4], values: [Option<Value>; 4] }
impl Model {
    fn new() -> Self { Model { n: 0, names: [String::new(), String::new(), String::new(), String::new()], values: [None, None, None, None] } }
    fn put(mut self, n: &String, v: &Value) -> Self {
        let mut k = 0;
        while k < self.n {
            if self.names[k] == *n { self.values[k] = Some(v.clone()); return self; }
            k += 1;
        }
        self.names[k] = n.clone();
        self.values[k] = Some(v.clone());
        self.n += 1;
        self
    }
}
fn named<S: Struct + ?Sized>(x: &S, m: &Model, other: &str) {
    check("as many fields as different names", x.fields_len() == m.n);
    let mut k = 0;
    while k < m.n {
        let v = m.values[k].as_ref().unwrap();
        check("each name has the value last put in", holds(x.field(&m.names[k]), v));
        check("names are in the order they were first put in", x.name_at(k).map_or(false, |s| *s == *m.names[k]) && holds(x.field_at(k), v));
        k += 1;
    }
    if !m.names[..m.n].iter().any(|s| **s == *other) { check("nothing under any other name", x.field(other).is_none()); }
    let mut k = 0;
    for (n, r) in x.fields() { check("iteration gives what was put in, in order", k < m.n && *n == *m.names[k] && holds(Some(r), m.values[k].as_ref().unwrap())); k += 1; }
    check("iteration gives all", k == m.n);
}
fn variant(e: &EnumValue, w: &str, m: &Model, other: &str) {
    check("the variant is the one asked for", e.variant_name() == w && e.variant_kind() == VariantKind::Struct && e.fields_len() == m.n && e.variants_len() == 1);
    let mut k = 0;
    while k < m.n {
        let v = m.values[k].as_ref().unwrap();
        check("each name of the variant has the value last put in", holds(e.field(&m.names[k]), v) && holds(e.field_at(k), v) && e.name_at(k).map_or(false, |s| *s == *m.names[k]));
        k += 1;
    }
    if !m.names[..m.n].iter().any(|s| **s == *other) { check("nothing under any other name of the variant", e.field(other).is_none()); }
    let mut k = 0;
    for f in e.fields() {
        check("iteration of the variant gives what was put in, in order", k < m.n && match f { VariantField::Struct(n, r) => *n == *m.names[k] && holds(Some(r), m.values[k].as_ref().unwrap()), _ => false });
        k += 1;
    }
    check("iteration of the variant gives all", k == m.n);
}
pub fn ob_struct_with(n1: String, n2: String, n3: String, v1: i32, v2: String, v3: bool, o: &str) {
    let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let m = Model::new().put(&n1, &a).put(&n2, &b).put(&n3, &c);
    named(&StructValue::new().with_field(n1, a).with_field(n2, b).with_field(n3, c), &m, o);
}
pub fn ob_struct_set(n1: String, n2: String, n3: String, v1: i32, v2: String, v3: bool, cap: usize, o: &str) {
    let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let m = Model::new().put(&n1, &a).put(&n2, &b).put(&n3, &c);
    let mut x = StructValue::with_capacity(cap);
    x.set_field(n1, a);
    x.set_field(n2, b);
    x.set_field(n3, c);
    named(&x, &m, o);
}
pub fn ob_struct_collect(n1: String, n2: String, n3: String, v1: i32, v2: i32, v3: i32, o: &str) {
    let m = Model::new().put(&n1, &Value::from(v1)).put(&n2, &Value::from(v2)).put(&n3, &Value::from(v3));
    let x: StructValue = vec![(n1, v1), (n2, v2), (n3, v3)].into_iter().collect();
    named(&x, &m, o);
}
pub fn ob_struct_collect_parts(n1: String, n2: String, p: S3, q: S3, o: &str) {
    let m = Model::new().put(&n1, &p.to_value()).put(&n2, &q.to_value());
    let x: StructValue = vec![(n1, p), (n2, q)].into_iter().collect();
    named(&x, &m, o);
}
/// by its trait object, through a value, a copy, and a value's view
pub fn ob_struct_views(n1: String, n2: String, v1: i32, v2: String, o: &str) {
    let (a, b) = (Value::from(v1), Value::from(v2));
    let m = Model::new().put(&n1, &a).put(&n2, &b);
    let x = StructValue::new().with_field(n1, a).with_field(n2, b);
    let v = Value::from(x.clone());
    match v.reflect_ref() { ReflectRef::Struct(s) => named(s, &m, o), _ => check("a value of a dynamic struct is a struct", false) }
    match v.to_value() { Value::StructValue(s) => named(&*s, &m, o), _ => check("a value of a dynamic struct is a struct", false) }
    match StructValue::from_reflect(&v) { Some(s) => named(&s, &m, o), None => check("a dynamic struct is converted from its value", false) }
    match x.clone_reflect().downcast_ref::<StructValue>() { Some(s) => named(s, &m, o), None => check("a dynamic struct's clone is a dynamic struct", false) }
}
pub fn ob_variant_builder(w: String, n1: String, n2: String, n3: String, v1: i32, v2: String, v3: bool, o: &str, cap: usize) {
    let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let m = Model::new().put(&n1, &a).put(&n2, &b).put(&n3, &c);
    let mut x = EnumValue::new_struct_variant_with_capacity(w.clone(), cap).with_struct_field(n1, a);
    x.set_struct_field(n2, b);
    variant(&x.with_struct_field(n3, c).finish(), &w, &m, o);
}
pub fn ob_variant_after(w: String, n1: String, n2: String, n3: String, v1: i32, v2: String, v3: bool, o: &str) {
    let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let m = Model::new().put(&n1, &a).put(&n2, &b).put(&n3, &c);
    let mut x = EnumValue::new_struct_variant(w.clone()).finish().with_struct_field(n1, a);
    x.set_struct_field(n2, b);
    variant(&x.with_struct_field(n3, c), &w, &m, o);
}
fn at<'a>(k: usize, a: &'a Value, b: &'a Value, c: &'a Value) -> Option<&'a Value> {
    match k { 0 => Some(a), 1 => Some(b), 2 => Some(c), _ => None }
}
fn is(r: Option<&dyn Reflect>, v: Option<&Value>) -> bool {
    match (r, v) { (Some(r), Some(v)) => veq(&r.to_value(), v), (None, None) => true, _ => false }
}
macro_rules! positional {
    ($m:ident, $t:ident) => { pub mod $m { use super::*;
        fn ok(x: &$t, a: &Value, b: &Value, c: &Value, i: usize) {
            check("as many fields as were put in", x.fields_len() == 3);
            check("each position has what was put there", is(x.field_at(i), at(i, a, b, c)) && is(x.field_at(0), Some(a)) && is(x.field_at(1), Some(b)) && is(x.field_at(2), Some(c)));
            let mut k = 0;
            for r in x.fields() { check("iteration gives what was put in, in order", is(Some(r), at(k, a, b, c))); k += 1; }
            check("iteration gives all", k == 3);
        }
        pub fn ob_with(v1: i32, v2: String, v3: bool, i: usize) {
            let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
            ok(&$t::new().with_field(a.clone()).with_field(b.clone()).with_field(c.clone()), &a, &b, &c, i);
        }
        pub fn ob_push(v1: i32, v2: String, v3: bool, i: usize, cap: usize) {
            let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
            let mut x = $t::with_capacity(cap);
            x.push_field(a.clone());
            x.push_field(b.clone());
            x.push_field(c.clone());
            ok(&x, &a, &b, &c, i);
            let v = Value::from(x.clone());
            match $t::from_reflect(&v) { Some(y) => ok(&y, &a, &b, &c, i), None => check("it is converted from its value", false) }
            match v { Value::$t(y) => ok(&y, &a, &b, &c, i), _ => check("its value is of its kind", false) }
            match x.to_value() { Value::$t(y) => ok(&y, &a, &b, &c, i), _ => check("its value is of its kind", false) }
        }
        pub fn ob_collect(v1: i32, v2: i32, v3: i32, i: usize) {
            let x: $t = vec![v1, v2, v3].into_iter().collect();
            ok(&x, &Value::from(v1), &Value::from(v2), &Value::from(v3), i);
        }
        pub fn ob_collect_parts(p: S3, q: S3, r: S3, i: usize) {
            let (a, b, c) = (p.to_value(), q.to_value(), r.to_value());
            let x: $t = vec![p, q, r].into_iter().collect();
            ok(&x, &a, &b, &c, i);
        }
    } };
}
positional!(tuple, TupleValue);
positional!(tuple_struct, TupleStructValue);
pub fn ob_tuple_variant(w: String, v1: i32, v2: String, v3: bool, i: usize, cap: usize) {
    let (a, b, c) = (Value::from(v1), Value::from(v2), Value::from(v3));
    let mut x = EnumValue::new_tuple_variant_with_capacity(w.clone(), cap).with_tuple_field(a.clone());
    x.push_tuple_field(b.clone());
    let x = x.with_tuple_field(c.clone()).finish();
    let mut y = EnumValue::new_tuple_variant(w.clone()).finish().with_tuple_field(a.clone());
    y.push_tuple_field(b.clone());
    let y = y.with_tuple_field(c.clone());
    check("a tuple variant is the same however it is built", veq(&x, &y));
    check("the variant is the one asked for", x.variant_name() == w && x.variant_kind() == VariantKind::Tuple && x.fields_len() == 3);
    check("each position of the variant has what was put there", is(x.field_at(i), at(i, &a, &b, &c)) && is(x.field_at(0), Some(&a)) && is(x.field_at(2), Some(&c)));
    let mut k = 0;
    for f in x.fields() { check("iteration of the variant gives what was put in, in order", match f { VariantField::Tuple(r) => is(Some(r), at(k, &a, &b, &c)), _ => false }); k += 1; }
    check("iteration of the variant gives all", k == 3);
}
pub fn ob_unit_variant(w: String, n: &str, i: usize) {
    let x = EnumValue::new_unit_variant(w.clone());
    check("a unit variant has its name and nothing else", x.variant_name() == w && x.variant_kind() == VariantKind::Unit && x.fields_len() == 0 && x.field(n).is_none() && x.field_at(i).is_none() && x.fields().next().is_none());
    match Value::from(x.clone()) { Value::EnumValue(y) => check("the value of a dynamic enum is it", veq(&*y, &x)), _ => check("the value of a dynamic enum is an enum", false) }
}
pub fn ob_empty(n: &str, i: usize) {
    let (s, t, u) = (StructValue::new(), TupleValue::new(), TupleStructValue::new());
    check("what is empty holds nothing", s.fields_len() == 0 && s.field(n).is_none() && s.field_at(i).is_none() && s.fields().next().is_none() && t.fields_len() == 0 && t.field_at(i).is_none() && t.fields().next().is_none() && u.fields_len() == 0 && u.field_at(i).is_none() && u.fields().next().is_none());
    check("default is empty", veq(&s, &StructValue::default()) && veq(&t, &TupleValue::default()) && veq(&u, &TupleStructValue::default()) && veq(&s, &StructValue::with_capacity(0)) && veq(&t, &TupleValue::with_capacity(0)));
}
/// values of containers and of objects
pub fn ob_list(x: Vec<i32>, y: [String; 2], z: Vec<S3>, i: usize) {
    let (x, x1) = twin(x);
    let (y, y1) = twin(y);
    let (z, z1) = twin(z);
    match Value::from(x) { Value::List(l) => check("the value of a vector has its elements in order", l.len() == x1.len() && match (l.as_slice().get(i), x1.as_slice().get(i)) { (Some(a), Some(b)) => veq(a, &Value::from(*b)), (None, None) => true, _ => false }), _ => check("the value of a vector is a list", false) }
    match Value::from(y) { Value::List(l) => check("the value of an array has its elements in order", l.len() == 2 && l[0].as_string_is(&y1[0]) && l[1].as_string_is(&y1[1])), _ => check("the value of an array is a list", false) }
    match IntoValue::into_value(z) { Value::List(l) => check("the value of a vector has its elements' values", l.len() == z1.len() && match (l.as_slice().get(i), z1.as_slice().get(i)) { (Some(a), Some(b)) => veq(a, &b.to_value()), (None, None) => true, _ => false }), _ => check("the value of a vector is a list", false) }
}
trait Is { fn as_string_is(&self, s: &String) -> bool; }
impl Is for Value { fn as_string_is(&self, s: &String) -> bool { match self { Value::String(t) => t == s, _ => false } } }
pub fn ob_map(x: BTreeMap<String, i32>, k: String) {
    let (x, y) = twin(x);
    match Value::from(x) {
        Value::Map(m) => {
            check("the value of a map has as many entries", m.len() == y.len());
            check("the value of a map has its entries", match (m.get(&Value::String(k.clone())), y.get(&k)) { (Some(a), Some(b)) => veq(a, &Value::from(*b)), (None, None) => true, _ => false });
        }
        _ => check("the value of a map is a map", false),
    }
}
pub fn ob_object(s: &S3, t: &T3, e: &Share) {
    fn of(x: &dyn Reflect) -> Value { Value::from(x) }
    match of(s) { Value::StructValue(v) => check("the value of a struct holds its fields", v.fields_len() == 3 && holds(v.field("a"), &Value::from(s.a)) && holds(v.field("b"), &Value::from(s.b)) && holds(v.field("c"), &Value::from(s.c.clone())) && v.name_at(0) == Some("a") && v.name_at(1) == Some("b") && v.name_at(2) == Some("c")), _ => check("the value of a struct is a struct", false) }
    match of(t) { Value::TupleStructValue(v) => check("the value of a tuple struct holds its fields", v.fields_len() == 3 && holds(v.field_at(0), &Value::from(t.0)) && holds(v.field_at(1), &Value::from(t.1)) && holds(v.field_at(2), &Value::from(t.2.clone()))), _ => check("the value of a tuple struct is a tuple struct", false) }
    match of(e) {
        Value::EnumValue(v) => check("the value of an enum holds its variant's fields", v.variant_name() == Enum::variant_name(e) && match e {
            Share::A { x, y } => v.variant_kind() == VariantKind::Struct && v.fields_len() == 2 && holds(v.field("x"), &Value::from(*x)) && holds(v.field("y"), &Value::from(y.clone())) && v.name_at(0) == Some("x"),
            Share::B { y, x, w } => v.variant_kind() == VariantKind::Struct && v.fields_len() == 3 && holds(v.field("y"), &Value::from(*y)) && holds(v.field("x"), &Value::from(x.clone())) && holds(v.field("w"), &Value::from(*w)) && v.name_at(0) == Some("y"),
            Share::C(a, b) => v.variant_kind() == VariantKind::Tuple && v.fields_len() == 2 && holds(v.field_at(0), &Value::from(*a)) && holds(v.field_at(1), &Value::from(b.clone())),
            Share::D(a, b) => v.variant_kind() == VariantKind::Tuple && v.fields_len() == 2 && holds(v.field_at(0), &Value::from(a.clone())) && holds(v.field_at(1), &Value::from(*b)),
            Share::G { w } => v.variant_kind() == VariantKind::Struct && v.fields_len() == 1 && holds(v.field("w"), &Value::from(*w)),
        }),
        _ => check("the value of an enum is an enum", false),
    }
}
pub fn ob_into(s: &str, x: i32, y: Option<i32>, z: (i32, String)) {
    check("anything reflected converts to its value", veq(&x.into_value(), &Value::from(x)) && veq(&s.into_value(), &Value::from(s)));
    let (z, w) = twin(z);
    check("anything reflected converts to its value", veq(&y.into_value(), &y.to_value()) && veq(&z.into_value(), &w.to_value()));
}
/// nested
pub fn ob_nested(n: String, w: String, v: i32, o: &str) {
    let inner = StructValue::new().with_field(n.clone(), v);
    let e = EnumValue::new_tuple_variant(w.clone()).with_tuple_field(inner.clone()).finish();
    let t = TupleValue::new().with_field(e.clone()).with_field(inner.clone());
    let x = StructValue::new().with_field("t", t).with_field("u", TupleStructValue::new().with_field(e));
    let got = x.field("t").and_then(|t| t.reflect_ref().as_tuple()).and_then(|t| t.field_at(0)).and_then(|e| e.reflect_ref().as_enum()).and_then(|e| e.field_at(0)).and_then(|s| s.reflect_ref().as_struct()).and_then(|s| s.field(&n)).and_then(|r| r.downcast_ref::<i32>().copied());
    check("what is put into what is put in is there", got == Some(v));
    let got = x.field("u").and_then(|t| t.reflect_ref().as_tuple_struct()).and_then(|t| t.field_at(0)).and_then(|e| e.reflect_ref().as_enum()).map_or(false, |e| *e.variant_name() == *w);
    check("what is put into what is put in is there", got && (o == "t" || o == "u" || x.field(o).is_none()));
}
