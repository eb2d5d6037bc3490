//! P07: the kind of an object and its views by kind.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum K { Struct, TupleStruct, Tuple, Enum, Array, List, Map, Scalar, Opaque }
pub fn kind(r: &ReflectRef<'_>) -> K {
    match r {
        ReflectRef::Struct(_) => K::Struct,
        ReflectRef::TupleStruct(_) => K::TupleStruct,
        ReflectRef::Tuple(_) => K::Tuple,
        ReflectRef::Enum(_) => K::Enum,
        ReflectRef::Array(_) => K::Array,
        ReflectRef::List(_) => K::List,
        ReflectRef::Map(_) => K::Map,
        ReflectRef::Scalar(_) => K::Scalar,
        ReflectRef::Opaque(_) => K::Opaque,
    }
}
pub fn kind_mut(r: &ReflectMut<'_>) -> K {
    match r {
        ReflectMut::Struct(_) => K::Struct,
        ReflectMut::TupleStruct(_) => K::TupleStruct,
        ReflectMut::Tuple(_) => K::Tuple,
        ReflectMut::Enum(_) => K::Enum,
        ReflectMut::Array(_) => K::Array,
        ReflectMut::List(_) => K::List,
        ReflectMut::Map(_) => K::Map,
        ReflectMut::Scalar(_) => K::Scalar,
        ReflectMut::Opaque(_) => K::Opaque,
    }
}
pub fn kind_owned(r: &ReflectOwned) -> K {
    match r {
        ReflectOwned::Struct(_) => K::Struct,
        ReflectOwned::TupleStruct(_) => K::TupleStruct,
        ReflectOwned::Tuple(_) => K::Tuple,
        ReflectOwned::Enum(_) => K::Enum,
        ReflectOwned::Array(_) => K::Array,
        ReflectOwned::List(_) => K::List,
        ReflectOwned::Map(_) => K::Map,
        ReflectOwned::Scalar(_) => K::Scalar,
        ReflectOwned::Opaque(_) => K::Opaque,
    }
}
fn shared(x: &dyn Reflect, k: K) {
    let l = loc(x.as_reflect());
    let r = x.reflect_ref();
    check("an object has the kind of its type", kind(&r) == k);
    check("the shared view denotes the object", if k == K::Scalar { true } else { at_loc(r.as_reflect(), l) });
    check("a view by kind exists exactly for the object's kind",
        x.as_struct().is_some() == (k == K::Struct) && x.as_tuple_struct().is_some() == (k == K::TupleStruct) && x.as_tuple().is_some() == (k == K::Tuple)
        && x.as_enum().is_some() == (k == K::Enum) && x.as_array().is_some() == (k == K::Array) && x.as_list().is_some() == (k == K::List)
        && x.as_map().is_some() == (k == K::Map) && x.as_scalar().is_some() == (k == K::Scalar) && r.as_opaque().is_some() == (k == K::Opaque));
    check("a view by kind denotes the object",
        x.as_struct().map_or(true, |s| at_loc(s.as_reflect(), l)) && x.as_tuple_struct().map_or(true, |s| at_loc(s.as_reflect(), l)) && x.as_tuple().map_or(true, |s| at_loc(s.as_reflect(), l))
        && x.as_enum().map_or(true, |s| at_loc(s.as_reflect(), l)) && x.as_array().map_or(true, |s| at_loc(s.as_reflect(), l)) && x.as_list().map_or(true, |s| at_loc(s.as_reflect(), l))
        && x.as_map().map_or(true, |s| at_loc(s.as_reflect(), l)));
}
fn mutable(x: &mut dyn Reflect, k: K) {
    let l = loc(x.as_reflect());
    let mut r = x.reflect_mut();
    check("an object has the same kind in a mutable view", kind_mut(&r) == k);
    check("the mutable view denotes the object", at_loc(r.as_reflect(), l) && at_loc(r.as_reflect_mut().as_reflect(), l));
    check("a mutable view by kind exists exactly for the object's kind, and denotes it",
        x.as_struct_mut().map_or(k != K::Struct, |s| k == K::Struct && at_loc(s.as_reflect(), l))
        && x.as_tuple_struct_mut().map_or(k != K::TupleStruct, |s| k == K::TupleStruct && at_loc(s.as_reflect(), l))
        && x.as_tuple_mut().map_or(k != K::Tuple, |s| k == K::Tuple && at_loc(s.as_reflect(), l))
        && x.as_enum_mut().map_or(k != K::Enum, |s| k == K::Enum && at_loc(s.as_reflect(), l))
        && x.as_array_mut().map_or(k != K::Array, |s| k == K::Array && at_loc(s.as_reflect(), l))
        && x.as_list_mut().map_or(k != K::List, |s| k == K::List && at_loc(s.as_reflect(), l))
        && x.as_map_mut().map_or(k != K::Map, |s| k == K::Map && at_loc(s.as_reflect(), l))
        && x.as_scalar_mut().map_or(k != K::Scalar, |s| k == K::Scalar && at_loc(s.as_reflect(), l)));
}
fn same<T: Reflect>(o: Option<&dyn Reflect>, want: bool, y: &T) -> bool {
    match o {
        Some(r) => want && match r.downcast_ref::<T>() { Some(z) => veq(z, y), None => false },
        None => !want,
    }
}
fn owned<T: Reflect>(x: T, k: K) {
    let (x, y) = twin(x);
    let b: Box<dyn Reflect> = Box::new(x);
    let mut r = b.reflect_owned();
    check("an object has the same kind in an owned view", kind_owned(&r) == k);
    check("the owned view holds the object", same(Some(r.as_reflect()), true, &y) && same(Some(r.as_reflect_mut().as_reflect()), true, &y));
    let c = r.clone();
    check("a copy of an owned view is of the same kind, type and scalar form", kind_owned(&c) == k && dyn_is::<T>(c.as_reflect()) == dyn_is::<T>(r.as_reflect())
        && match (&r, &c) { (ReflectOwned::Scalar(a), ReflectOwned::Scalar(b)) => std::mem::discriminant(a) == std::mem::discriminant(b), _ => true });
}
fn into<T: Reflect>(x: T, k: K) {
    let (x, y) = twin(x);
    fn b<T: Reflect>(y: &T) -> (Box<T>,) { (Box::new(twin_ref(y)),) }
    check("an owned view by kind exists exactly for the object's kind, and holds it",
        same(b(&y).0.into_struct().as_ref().map(|s| s.as_reflect()), k == K::Struct, &y)
        && same(b(&y).0.into_tuple_struct().as_ref().map(|s| s.as_reflect()), k == K::TupleStruct, &y)
        && same(b(&y).0.into_tuple().as_ref().map(|s| s.as_reflect()), k == K::Tuple, &y)
        && same(b(&y).0.into_enum().as_ref().map(|s| s.as_reflect()), k == K::Enum, &y)
        && same(b(&y).0.into_array().as_ref().map(|s| s.as_reflect()), k == K::Array, &y)
        && same(b(&y).0.into_list().as_ref().map(|s| s.as_reflect()), k == K::List, &y)
        && same(b(&y).0.into_map().as_ref().map(|s| s.as_reflect()), k == K::Map, &y)
        && same(b(&y).0.into_scalar().as_ref().map(|s| s.as_reflect()), k == K::Scalar, &y)
        && same(Reflect::reflect_owned(Box::new(x)).into_opaque().as_ref().map(|s| s.as_reflect()), k == K::Opaque, &y));
}
fn identity<T: Reflect>(x: &mut T) {
    let l = loc(x);
    check("an object views itself as itself", at_loc(x.as_reflect(), l) && at_loc(x.as_reflect_mut(), l) && dyn_is::<T>(x.as_reflect()) && dyn_is::<T>(x.as_reflect_mut().as_reflect()));
    check("an object downcasts to its own type, and to itself",
        x.as_reflect().downcast_ref::<T>().map_or(false, |y| at_loc(y, l)) && x.as_reflect_mut().downcast_mut::<T>().map_or(false, |y| at_loc(y, l)));
    check("an object does not downcast to another type", x.as_reflect().downcast_ref::<Other>().is_none() && x.as_reflect_mut().downcast_mut::<Other>().is_none());
}
#[derive(Reflect, Clone, Debug)]
pub struct Other;
macro_rules! obs {
    ($($m:ident = $t:ty : $k:ident),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_shared(x: &$t) { shared(x, K::$k) }
        pub fn ob_mut(x: &mut $t) { mutable(x, K::$k) }
        pub fn ob_owned(x: $t) { owned::<$t>(x, K::$k) }
        pub fn ob_into(x: $t) { into::<$t>(x, K::$k) }
        pub fn ob_identity(x: &mut $t) { identity::<$t>(x) }
    })* };
}
obs!(s3 = S3: Struct, sk1 = Sk1: Struct, unit = Unit: Struct, empty = Empty: Struct, gen = Gen<i32, i32>: Struct, noclone = NoClone: Struct, nodebug = NoDebug: Struct,
    t1 = T1: TupleStruct, t3 = T3: TupleStruct, tsk1 = TSk1: TupleStruct, tup0 = (): Tuple, tup1 = (i32,): Tuple, tup2 = (i32, i32): Tuple, tup5 = (i32, i32, i32, i32, i32): Tuple,
    e = E: Enum, f = F<i32>: Enum, option = Option<i32>: Enum, result = Result<i32, String>: Enum,
    range = std::ops::Range<i32>: Struct, range_from = std::ops::RangeFrom<i32>: Struct, range_to = std::ops::RangeTo<i32>: Struct, range_to_incl = std::ops::RangeToInclusive<i32>: Struct,
    range_full = std::ops::RangeFull: Struct, vec2 = glam::Vec2: Struct, mat3 = glam::Mat3: Struct,
    vec = Vec<i32>: List, vec_s = Vec<S3>: List, arr = [i32; 2]: Array, map = BTreeMap<String, i32>: Map,
    struct_value = StructValue: Struct, tuple_value = TupleValue: Tuple, tuple_struct_value = TupleStructValue: TupleStruct, enum_value = EnumValue: Enum,
    usize_ = usize: Scalar, u8_ = u8: Scalar, u16_ = u16: Scalar, u32_ = u32: Scalar, u64_ = u64: Scalar, u128_ = u128: Scalar, i8_ = i8: Scalar, i16_ = i16: Scalar, i32_ = i32: Scalar, i64_ = i64: Scalar,
    i128_ = i128: Scalar, bool_ = bool: Scalar, char_ = char: Scalar, f32_ = f32: Scalar, f64_ = f64: Scalar, string = String: Scalar);

/// a box has the kind and views of its content
pub fn ob_box(x: &mut Box<S3>, y: &mut Box<Box<i32>>, z: Box<Vec<i32>>) {
    let l = loc(&**x);
    shared(x, K::Struct);
    mutable(x, K::Struct);
    check("a box views itself as its content", at_loc(x.as_reflect(), l) && at_loc(x.as_reflect_mut(), l) && dyn_is::<S3>(x.as_reflect()) && at_loc(x.reflect_ref().as_reflect(), l));
    let l = loc(&***y);
    check("a box of a box views itself as its content", at_loc(y.as_reflect(), l) && at_loc(y.as_reflect_mut(), l) && dyn_is::<i32>(y.as_reflect()));
    check("a box downcasts to its content", Reflect::as_any(y).downcast_ref::<i32>().map_or(false, |i| at_loc(i, l)));
    let (z, w) = twin(z);
    check("an owned box gives its content", match Reflect::reflect_owned(Box::new(z)) { ReflectOwned::List(v) => same(Some(v.as_reflect()), true, &*w), _ => false });
}
/// a dynamic value has the kind and views of its content
pub fn ob_value(x: &mut Value) {
    let k = kind(&x.reflect_ref());
    let want = match &*x {
        Value::StructValue(_) => K::Struct,
        Value::EnumValue(_) => K::Enum,
        Value::TupleStructValue(_) => K::TupleStruct,
        Value::TupleValue(_) => K::Tuple,
        Value::List(_) => K::List,
        Value::Map(_) => K::Map,
        _ => K::Scalar,
    };
    let l = match &*x {
        Value::StructValue(i) => loc(&**i),
        Value::EnumValue(i) => loc(&**i),
        Value::TupleStructValue(i) => loc(i),
        Value::TupleValue(i) => loc(i),
        Value::List(i) => loc(i),
        Value::Map(i) => loc(i),
        Value::String(i) => loc(i),
        Value::i32(i) => loc(i),
        _ => return,
    };
    check("a dynamic value has the kind of its content", k == want);
    check("a dynamic value views itself as its content", at_loc(x.as_reflect().as_reflect(), l) && at_loc(x.as_reflect_mut().as_reflect(), l));
    check("a dynamic value is viewed by kind as its content", k == K::Scalar || at_loc(x.reflect_ref().as_reflect(), l));
    check("a dynamic value is mutably viewed by kind as its content", kind_mut(&x.reflect_mut()) == want && at_loc(x.reflect_mut().as_reflect(), l));
    let y = x.clone();
    let o = Reflect::reflect_owned(Box::new(y));
    check("an owned dynamic value gives its content", kind_owned(&o) == want && veq(&o.as_reflect().to_value(), &*x));
}
/// views of an arbitrary object
pub fn ob_any(x: &dyn Reflect) {
    let k = kind(&x.reflect_ref());
    if k != K::Scalar { shared(x, k) }
    let r = x.reflect_ref();
    check("a view by kind exists exactly for the view's kind",
        r.as_struct().is_some() == (k == K::Struct) && r.as_tuple_struct().is_some() == (k == K::TupleStruct) && r.as_tuple().is_some() == (k == K::Tuple)
        && r.as_enum().is_some() == (k == K::Enum) && r.as_array().is_some() == (k == K::Array) && r.as_list().is_some() == (k == K::List)
        && r.as_map().is_some() == (k == K::Map) && r.as_scalar().is_some() == (k == K::Scalar) && r.as_opaque().is_some() == (k == K::Opaque));
}
