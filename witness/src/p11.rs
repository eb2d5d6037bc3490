//! P11: looking up a path follows its keys one by one.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::key_path::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn index(v: &Value) -> Option<usize> {
    macro_rules! m { ($($t:ident)*) => { match v { $(Value::$t(n) => usize::try_from(*n).ok(),)* _ => None } } }
    m!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128)
}
/// one step along a path
pub fn step<'a>(v: &'a dyn Reflect, k: &Key) -> Option<&'a dyn Reflect> {
    match (k, v.reflect_ref()) {
        (Key::Field(NamedOrNumbered::Named(n)), ReflectRef::Struct(s)) => s.field(n),
        (Key::Field(NamedOrNumbered::Named(n)), ReflectRef::Enum(e)) => if e.variant_kind() == VariantKind::Struct { e.field(n) } else { None },
        (Key::Field(NamedOrNumbered::Numbered(i)), ReflectRef::TupleStruct(s)) => s.field_at(*i),
        (Key::Field(NamedOrNumbered::Numbered(i)), ReflectRef::Tuple(s)) => s.field_at(*i),
        (Key::Field(NamedOrNumbered::Numbered(i)), ReflectRef::Enum(e)) => if e.variant_kind() == VariantKind::Tuple { e.field_at(*i) } else { None },
        (Key::Get(k), ReflectRef::Array(a)) => a.get(index(k)?),
        (Key::Get(k), ReflectRef::List(a)) => a.get(index(k)?),
        (Key::Get(k), ReflectRef::Map(m)) => m.get(k),
        (Key::Variant(n), ReflectRef::Enum(e)) => if e.variant_name() == n { Some(v) } else { None },
        _ => None,
    }
}
fn agree(got: Option<&dyn Reflect>, want: Option<&dyn Reflect>) {
    match (got, want) {
        (Some(a), Some(b)) => check("the path leads to the part its keys name", dyn_same(a.as_reflect(), b.as_reflect())),
        (None, None) => check("the path leads to the part its keys name", true),
        (Some(_), None) => check("a path that names nothing leads nowhere", false),
        (None, Some(_)) => check("a path that names a part leads to it", false),
    }
}
fn path1(k: &Key) -> KeyPath { KeyPath::from(k.clone()) }
fn path2(k: &Key, l: &Key) -> KeyPath { [k.clone(), l.clone()].into_iter().collect() }

fn one(x: &mut dyn Reflect, k: Key) {
    let p = path1(&k);
    agree(x.at(&p), step(x, &k));
    let want = step(x, &k).map(|r| loc(r.as_reflect()));
    check("shared and mutable lookup lead to the same part", match (x.at_mut(&p), want) { (Some(r), Some(l)) => at_loc(r.as_reflect(), l), (None, None) => true, _ => false });
}
fn two(x: &mut dyn Reflect, k: Key, l: Key) {
    let p = path2(&k, &l);
    agree(x.at(&p), step(x, &k).and_then(|y| step(y, &l)));
    let want = step(x, &k).and_then(|y| step(y, &l)).map(|r| loc(r.as_reflect()));
    check("shared and mutable lookup lead to the same part", match (x.at_mut(&p), want) { (Some(r), Some(l)) => at_loc(r.as_reflect(), l), (None, None) => true, _ => false });
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_one(x: &mut $t, k: Key) { one(x, k) }
        pub fn ob_empty(x: &mut $t) {
            let l = loc(x.as_reflect());
            check("the empty path leads to the object itself", x.at(&KeyPath::default()).map_or(false, |r| at_loc(r.as_reflect(), l)) && x.at_mut(&KeyPath::default()).map_or(false, |r| at_loc(r.as_reflect(), l)));
        }
    })* };
}
obs!(s3 = S3, sk2 = Sk2, t3 = T3, tup2 = (i32, i32), e = E, f = F<i32>, option = Option<i32>, vec = Vec<i32>, arr = [i32; 3], map = BTreeMap<String, i32>, map_i = BTreeMap<i32, i32>, map_u = BTreeMap<usize, i32>,
    i32_ = i32, string = String, bx = Bx, boxed = Box<S3>, box_e = Box<Option<i32>>, range = std::ops::Range<i32>, nz = std::num::NonZeroU8);
pub mod deep { use super::*;
    macro_rules! deep {
        ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
            pub fn ob_two(x: &mut $t, k: Key, l: Key) { two(x, k, l) }
        })* };
    }
    deep!(bx = Bx, tbx = TBx, option_s = Option<S3>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, arr_s = [T1; 2], map_s = BTreeMap<i32, T1>, nested = (i32, T1), f2 = F2, e = E, box_e = Box<Option<T1>>);
}
/// every integer type indexes, without wrapping
pub fn ob_index(v: &Vec<i32>, a: &[i32; 3], n: &Value) {
    let (p, l, i) = (get(n.clone()), v.len(), index(n));
    check("an index selects exactly the element it denotes", match (v.at(&p), i) { (Some(r), Some(i)) => i < l && same_loc(r, &v[i]), (None, Some(i)) => i >= l, (None, None) => true, _ => false });
    check("an index selects exactly the element it denotes", match (a.at(&p), i) { (Some(r), Some(i)) => i < 3 && same_loc(r, &a[i]), (None, Some(i)) => i >= 3, (None, None) => true, _ => false });
}
/// arbitrary objects
pub fn ob_any(x: &dyn Reflect, k: Key) { agree(x.at(&path1(&k)), step(x, &k)) }
pub fn ob_any_two(x: &dyn Reflect, k: Key, l: Key) { agree(x.at(&path2(&k, &l)), step(x, &k).and_then(|y| step(y, &l))) }
pub fn ob_value(x: i32, y: String, k: Key, l: Key) {
    let s = StructValue::new().with_field("a", x).with_field("b", TupleValue::new().with_field(y).with_field(x));
    let mut v = Value::from(s);
    two(&mut v, k, l);
}
/// typed access
pub fn ob_typed(x: &mut S3, t: &mut (i32, String)) {
    let (a, c) = (loc(&x.a), loc(&x.c));
    check("typed access gives the part if it has the type", x.get_at::<i32>(&field("a")).map_or(false, |r| at_loc(r, a)) && x.get_at::<String>(&field("a")).is_none());
    check("typed mutable access gives the part if it has the type", x.get_at_mut::<String>(&field("c")).map_or(false, |r| at_loc(r, c)) && x.get_at_mut::<i32>(&field("c")).is_none());
    let l = loc(&t.1);
    check("typed access gives the part if it has the type", t.get_at::<String>(&field(1)).map_or(false, |r| at_loc(r, l)) && t.get_at_mut::<String>(&field(1)).map_or(false, |r| at_loc(r, l)) && t.get_at::<String>(&field(0)).is_none());
}
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
