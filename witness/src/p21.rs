//! P21: a box is its content.
use crate::p07::{kind, kind_mut, kind_owned};
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn d<T: DescribeType>() -> TypeDescriptor { <T as DescribeType>::type_descriptor().into_owned() }

/// seen from outside: `y` (a box) is `x`, its content, in its place and with its type
fn looks<T: Reflect + DescribeType, B: Reflect + DescribeType>(b: &B, x: &T) {
    let (o, c): (&dyn Reflect, &dyn Reflect) = (b, x);
    check("a box is described as its content", veq(&d::<B>(), &d::<T>()) && veq(&o.type_descriptor().into_owned(), &d::<T>()));
    check("a box is its content, in its place", dyn_same(o.as_reflect(), c.as_reflect()));
    check("a box downcasts to its content's type, in its place", match (o.downcast_ref::<T>(), c.downcast_ref::<T>()) { (Some(y), Some(z)) => same_loc(y, z), (None, None) => true, _ => false });
    check("a box downcasts to nothing else", o.downcast_ref::<B>().is_none());
    check("a box's value is its content's", veq(&o.to_value(), &c.to_value()));
    let (r, s) = (o.reflect_ref(), c.reflect_ref());
    check("a box is seen by the kind of its content", kind(&r) == kind(&s));
    check("a box equals its content", reflect_eq(o, c) == reflect_eq(c, c) && reflect_eq(c, o) == reflect_eq(c, c));
}
fn cloned<T: Reflect + DescribeType, B: Reflect + DescribeType>(b: &B, x: &T) {
    let (p, q) = (Reflect::clone_reflect(b), Reflect::clone_reflect(x));
    match (p.downcast_ref::<T>(), q.downcast_ref::<T>()) {
        (Some(y), Some(z)) => check("a clone of a box is a clone of its content", veq(y, z)),
        (None, None) => {}
        _ => check("a clone of a box is a clone of its content", false),
    }
}
fn changed<T: Reflect + DescribeType>(x: T) {
    let (x, keep) = twin(x);
    let mut b = Box::new(x);
    let l = loc((*b).as_reflect());
    check("the mutable view of a box is its content", at_loc(Reflect::as_reflect_mut(&mut b).as_reflect(), l));
    check("a box mutably downcasts to its content", match Reflect::as_reflect_mut(&mut b).downcast_mut::<T>() { Some(y) => at_loc((&*y).as_reflect(), l), None => false });
    let k = kind_mut(&Reflect::reflect_mut(&mut *b));
    check("a box is seen mutably by the kind of its content", kind_mut(&Reflect::reflect_mut(&mut b)) == k);
    check("looking changes nothing", veq(&*b, &keep));
    let (o, q) = (Reflect::reflect_owned(b), Reflect::reflect_owned(Box::new(Box::new(keep))));
    check("also when given away", kind_owned(&o) == kind_owned(&q));
}
/// changing a box by reflection changes its content the same way
fn patched<T: Reflect + DescribeType>(x: T, by: &dyn Reflect) {
    let (mut x, y) = twin(x);
    let mut b = Box::new(y);
    x.patch(by);
    Reflect::patch(&mut b, by);
    check("patching a box patches its content", veq(&*b, &x));
}
fn converted<T: FromReflect + DescribeType>(by: &dyn Reflect) {
    match (T::from_reflect(by), <Box<T>>::from_reflect(by), <Box<Box<T>>>::from_reflect(by)) {
        (Some(x), Some(b), Some(bb)) => check("converting to a box is converting to its content", veq(&*b, &x) && veq(&**bb, &x)),
        (None, None, None) => {}
        _ => check("a box converts when its content does", false),
    }
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_looks(b: &Box<$t>, bb: &Box<Box<$t>>) { looks::<$t, _>(b, &**b); looks::<$t, _>(bb, &***bb) }
        pub fn ob_cloned(b: &Box<$t>, bb: &Box<Box<$t>>) { cloned::<$t, _>(b, &**b); cloned::<$t, _>(bb, &***bb) }
        pub fn ob_changed(x: $t) { changed::<$t>(x) }
        pub fn ob_debug(b: &Box<$t>) {
            let (o, c): (&dyn Reflect, &dyn Reflect) = (b, &**b);
            check("the debug text of a box is its content's", format!("{:?}", o) == format!("{:?}", c));
        }
    })* };
}
obs!(s3 = S3, sk2 = Sk2, unit = Unit, bx = Bx, noclone = NoClone, nodebug = NoDebug, nofrom = NoFrom, t1 = T1, tsk2 = TSk2, share = Share, f2 = F2, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    tup0 = (), tup2 = (i32, String), vec = Vec<i32>, vec_s = Vec<S3>, arr = [i32; 2], map = BTreeMap<String, i32>, i32_ = i32, bool_ = bool, string = String, nz = std::num::NonZeroU8, duration = std::time::Duration, range = std::ops::Range<i32>,
    gen = Gen<i32, String>);
macro_rules! any_obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_patched(x: $t) { patched::<$t>(x, any_reflect("by")) }
        pub fn ob_converted() { converted::<$t>(any_reflect("from")) }
    })* };
}
pub mod by { use super::*; 
any_obs!(s3 = S3, sk2 = Sk2, t1 = T1, option = Option<i32>, result = Result<i32, String>, f2 = F2, tup2 = (i32, String), vec = Vec<i32>, arr = [i32; 2], map = BTreeMap<i32, i32>, i32_ = i32, string = String, nz = std::num::NonZeroU8); }
pub fn ob_vec2(b: &Box<glam::Vec2>, bb: &Box<Box<glam::Vec2>>) { looks::<glam::Vec2, _>(b, &**b); cloned::<glam::Vec2, _>(bb, &***bb) }
/// the conversion of a box into a value is its content's
pub fn ob_into(a: i32, b: String, c: bool) {
    let (b, e) = twin(b);
    check("a boxed value becomes its content's value", veq(&Value::from(Box::new(a)), &Value::from(a)) && veq(&Value::from(Box::new(b)), &Value::from(e)) && veq(&Value::from(Box::new(Box::new(c))), &Value::from(c)));
}
/// a box and its content take each other's place as a part: by conversion, patch and access
#[derive(Reflect, Clone, Debug)]
pub struct Plain { pub a: i32, pub b: S3, pub c: Option<i32>, pub d: Vec<T1> }
#[derive(Reflect, Clone, Debug)]
pub struct Boxed { pub a: Box<i32>, pub b: Box<Box<S3>>, pub c: Box<Option<i32>>, pub d: Vec<Box<T1>> }
fn like(x: &Plain, y: &Boxed) -> bool {
    veq(&x.a, &*y.a) && veq(&x.b, &**y.b) && veq(&x.c, &*y.c) && x.d.len() == y.d.len() && x.d.iter().zip(&y.d).all(|(p, q)| veq(p, &**q))
}
pub fn ob_part_from(x: &Plain, y: &Boxed) {
    match Boxed::from_reflect(x) { Some(b) => check("boxed parts are converted from unboxed ones", like(x, &b)), None => check("boxed parts are converted from unboxed ones", false) }
    match Plain::from_reflect(y) { Some(b) => check("unboxed parts are converted from boxed ones", like(&b, y)), None => check("unboxed parts are converted from boxed ones", false) }
}
pub fn ob_part_patch(x: Plain, y: Boxed) {
    let (mut x1, x) = twin(x);
    let (mut y1, y) = twin(y);
    x1.patch(&y);
    y1.patch(&x);
    check("unboxed parts are patched with boxed ones", veq(&x1.a, &*y.a) && veq(&x1.b, &**y.b) && veq(&x1.c, &*y.c));
    check("boxed parts are patched with unboxed ones", veq(&x.a, &*y1.a) && veq(&x.b, &**y1.b) && veq(&x.c, &*y1.c));
}
pub fn ob_part_eq(x: &Plain, a: i32) {
    let y = Boxed { a: Box::new(x.a), b: Box::new(Box::new(twin_ref(&x.b))), c: Box::new(x.c), d: Vec::new() };
    let z = Plain { a: x.a, b: twin_ref(&x.b), c: x.c, d: Vec::new() };
    check("a part and its box are equal", reflect_eq(&y, &z) == Some(true) || reflect_eq(&y, &z) == reflect_eq(&z, &z));
    check("a part and its box have one value", veq(&y.to_value(), &z.to_value()));
}
pub fn ob_part_access(y: &mut Boxed) {
    let (a, b) = (loc(&*y.a), loc(&**y.b));
    check("a boxed part is got by its content's type", match y.get_field::<i32>("a") { Some(p) => at_loc(p, a), None => false } && match y.get_field::<S3>("b") { Some(p) => at_loc(p, b), None => false });
    check("and mutably", match y.get_field_mut::<i32>("a") { Some(p) => at_loc(&*p, a), None => false } && match y.get_field_mut::<S3>("b") { Some(p) => at_loc(&*p, b), None => false });
    check("and not as a box", y.get_field::<Box<i32>>("a").is_none() && y.get_field_mut::<Box<Box<S3>>>("b").is_none());
}
