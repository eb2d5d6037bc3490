//! P12: looking a type up by path follows the keys one by one, and agrees with looking up a part of an object.
use crate::p15::kind;
use crate::support::*;
use crate::types::*;
use mirror_mirror::key_path::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn up(t: Type<'_>) -> TypeAtPath<'_> {
    match t {
        Type::Struct(x) => TypeAtPath::Struct(x),
        Type::TupleStruct(x) => TypeAtPath::TupleStruct(x),
        Type::Tuple(x) => TypeAtPath::Tuple(x),
        Type::Enum(x) => TypeAtPath::Enum(x),
        Type::List(x) => TypeAtPath::List(x),
        Type::Array(x) => TypeAtPath::Array(x),
        Type::Map(x) => TypeAtPath::Map(x),
        Type::Scalar(x) => TypeAtPath::Scalar(x),
        Type::Opaque(x) => TypeAtPath::Opaque(x),
    }
}
fn is_index(v: &Value) -> bool {
    macro_rules! m { ($($t:ident)*) => { match v { $(Value::$t(n) => usize::try_from(*n).is_ok(),)* _ => false } } }
    m!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128)
}
/// one step along a path
fn step<'a>(t: TypeAtPath<'a>, k: &Key) -> Option<TypeAtPath<'a>> {
    Some(match (k, t) {
        (Key::Field(NamedOrNumbered::Named(n)), TypeAtPath::Struct(s)) => up(s.field_type(n)?.get_type()),
        (Key::Field(NamedOrNumbered::Named(n)), TypeAtPath::Variant(v)) => up(v.field_type(n)?.get_type()),
        (Key::Field(NamedOrNumbered::Numbered(i)), TypeAtPath::TupleStruct(s)) => up(s.field_type_at(*i)?.get_type()),
        (Key::Field(NamedOrNumbered::Numbered(i)), TypeAtPath::Tuple(s)) => up(s.field_type_at(*i)?.get_type()),
        (Key::Field(NamedOrNumbered::Numbered(i)), TypeAtPath::Variant(Variant::Tuple(v))) => up(v.field_type_at(*i)?.get_type()),
        (Key::Get(k), TypeAtPath::Array(a)) => if is_index(k) { up(a.element_type()) } else { return None },
        (Key::Get(k), TypeAtPath::List(a)) => if is_index(k) { up(a.element_type()) } else { return None },
        (Key::Get(_), TypeAtPath::Map(m)) => up(m.value_type()),
        (Key::Variant(n), TypeAtPath::Enum(e)) => TypeAtPath::Variant(e.variant(n)?),
        (Key::Variant(n), TypeAtPath::Variant(v)) => if v.name() == n { t } else { return None },
        _ => return None,
    })
}
fn agree(got: Option<TypeAtPath<'_>>, want: Option<TypeAtPath<'_>>) {
    match (got, want) {
        (Some(a), Some(b)) => check("the path leads to the type its keys name", veq(&a, &b)),
        (None, None) => check("the path leads to the type its keys name", true),
        (Some(_), None) => check("a path that names no type leads nowhere", false),
        (None, Some(_)) => check("a path that names a type leads to it", false),
    }
}
fn path2(k: &Key, l: &Key) -> KeyPath { [k.clone(), l.clone()].into_iter().collect() }
/// the type of a part, whenever the path leads to a part of an object
fn part<T: Reflect + DescribeType>(x: &T, p: &KeyPath) {
    let td = <T as DescribeType>::type_descriptor();
    if let Some(r) = x.at(p) {
        // an enum's fields are typed by way of the variant
        match td.type_at(p) {
            Some(t) => check("the type at a path is the type of the part there", t.type_name() == r.type_descriptor().type_name()),
            None => check("a path that leads to a part of an object leads to a type", false),
        }
    }
}
fn one<T: Reflect + DescribeType>(x: &T, k: Key) {
    let td = <T as DescribeType>::type_descriptor();
    let t = td.get_type();
    let p = KeyPath::from(k.clone());
    agree(t.type_at(&p), step(up(t), &k));
    agree(td.type_at(&p), step(up(t), &k));
    if let Key::Field(_) = k { if let Type::Enum(_) = t { return } }
    part(x, &p);
}
fn two<T: Reflect + DescribeType>(x: &T, k: Key, l: Key) {
    let td = <T as DescribeType>::type_descriptor();
    let t = up(td.get_type());
    let p = path2(&k, &l);
    agree(td.type_at(&p), step(t, &k).and_then(|y| step(y, &l)));
    let e = |t: TypeAtPath<'_>, k: &Key| matches!((t, k), (TypeAtPath::Enum(_), Key::Field(_)));
    if e(t, &k) || step(t, &k).map_or(false, |y| e(y, &l)) { return }
    part(x, &p);
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_one(x: &$t, k: Key) { one(x, k) }
        pub fn ob_empty() {
            let td = <$t as DescribeType>::type_descriptor();
            let t = td.get_type();
            check("the empty path leads to the type itself", t.type_at(&KeyPath::default()).map_or(false, |a| veq(&a, &up(t))) && td.type_at(&KeyPath::default()).map_or(false, |a| veq(&a, &up(t))));
        }
    })* };
}
obs!(s3 = S3, sk2 = Sk2, t3 = T3, tsk1 = TSk1, tup2 = (i32, String), tup3 = (u8, T1, String), f = F<i32>, option = Option<i32>, result = Result<i32, String>, vec = Vec<i32>, arr = [i32; 3], map = BTreeMap<String, i32>, map_i = BTreeMap<i32, String>,
    i32_ = i32, string = String, bx = Bx, boxed = Box<S3>, box_e = Box<Option<i32>>, range = std::ops::Range<i32>, nz = std::num::NonZeroU8, unit = Unit, gen = Gen<String, S3>);
pub mod deep { use super::*;
    macro_rules! deep {
        ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
            pub fn ob_two(x: &$t, k: Key, l: Key) { two(x, k, l) }
        })* };
    }
    deep!(bx = Bx, tbx = TBx, option_s = Option<S3>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, arr_s = [T1; 2], map_s = BTreeMap<i32, T1>, nested = (i32, T1), f2 = F2, share = Share, box_e = Box<Option<T1>>, nest2 = Nest2);
}
/// an enum with a skipped variant, in one of the others
pub mod e { use super::*;
    pub fn ob_one(x: &E, k: Key) { assume(x.variant().is_some()); one(x, k) }
    pub fn ob_two(x: &E, k: Key, l: Key) { assume(x.variant().is_some()); two(x, k, l) }
    pub fn ob_e2(x: &E2, k: Key) { assume(x.variant().is_some()); one(x, k) }
}
/// three steps into an enum
pub fn ob_three(x: &Vec<Share>, i: usize, n: String, k: Key) {
    let td = <Vec<Share> as DescribeType>::type_descriptor();
    let t = up(td.get_type());
    let p = get(i).variant(n.clone());
    let p: KeyPath = p.into_iter().chain([k.clone()]).collect();
    agree(td.type_at(&p), step(t, &Key::get(i)).and_then(|y| step(y, &Key::variant(n))).and_then(|y| step(y, &k)));
    part(x, &p);
}
/// types of any kind answer for themselves
pub fn ob_kinds(k: Key) {
    let p = KeyPath::from(k.clone());
    let td = <Nest2 as DescribeType>::type_descriptor();
    let Some(s) = td.as_struct() else { return check("kind", false) };
    agree(s.type_at(&p), step(TypeAtPath::Struct(s), &k));
    for f in s.field_types() {
        let t = f.get_type();
        agree(t.type_at(&p), step(up(t), &k));
        match t {
            Type::Struct(x) => agree(x.type_at(&p), step(up(t), &k)),
            Type::TupleStruct(x) => agree(x.type_at(&p), step(up(t), &k)),
            Type::Tuple(x) => agree(x.type_at(&p), step(up(t), &k)),
            Type::Enum(x) => {
                agree(x.type_at(&p), step(up(t), &k));
                for v in x.variants() { agree(v.type_at(&p), step(TypeAtPath::Variant(v), &k)) }
            }
            Type::List(x) => agree(x.type_at(&p), step(up(t), &k)),
            Type::Map(x) => agree(x.type_at(&p), step(up(t), &k)),
            Type::Scalar(x) => agree(x.type_at(&p), step(up(t), &k)),
            Type::Array(_) | Type::Opaque(_) => {}
        }
    }
}
/// a looked up type tells what it is, as it does when reached directly
pub fn casts<T: DescribeType>(p: KeyPath, u: TypeAtPath<'_>) {
    let td = <T as DescribeType>::type_descriptor();
    let Some(t) = td.type_at(&p) else { return check("the path leads to a type", false) };
    let v = matches!(u, TypeAtPath::Variant(_));
    check("casts of a looked up type", t.as_struct().is_some() == matches!(u, TypeAtPath::Struct(_)) && t.as_tuple_struct().is_some() == matches!(u, TypeAtPath::TupleStruct(_)) && t.as_tuple().is_some() == matches!(u, TypeAtPath::Tuple(_))
        && t.as_enum().is_some() == matches!(u, TypeAtPath::Enum(_)) && t.as_variant().is_some() == v && t.as_array().is_some() == matches!(u, TypeAtPath::Array(_)) && t.as_list().is_some() == matches!(u, TypeAtPath::List(_))
        && t.as_map().is_some() == matches!(u, TypeAtPath::Map(_)) && t.as_scalar().is_some() == matches!(u, TypeAtPath::Scalar(_)) && t.as_opaque().is_some() == matches!(u, TypeAtPath::Opaque(_)));
    check("name of a looked up type", t.type_name() == u.type_name());
}
macro_rules! casts {
    ($($o:ident $t:ty : $k:ident;)*) => { $(pub fn $o() {
        let td = <$t as DescribeType>::type_descriptor();
        check("kind", kind(td.get_type()) == crate::p15::K::$k);
        casts::<$t>(KeyPath::default(), up(td.get_type()));
        casts::<Vec<$t>>(get(0), up(td.get_type()));
    })* };
}
casts!(ob_cast_struct S3: Struct; ob_cast_tuple_struct T1: TupleStruct; ob_cast_tuple (i32, u8): Tuple; ob_cast_enum E: Enum; ob_cast_list Vec<i32>: List; ob_cast_array [i32; 2]: Array; ob_cast_map BTreeMap<u8, u8>: Map; ob_cast_scalar String: Scalar; ob_cast_opaque std::num::NonZeroU8: Opaque;);
pub fn ob_cast_variant() {
    let td = <E as DescribeType>::type_descriptor();
    for n in ["U", "T", "S"] {
        match td.as_enum().and_then(|e| e.variant(n)) {
            Some(v) => casts::<E>(variant(n), TypeAtPath::Variant(v)),
            None => check("variant", false),
        }
    }
}
