//! P17: a type has one description, however and whenever it is asked for.
use crate::p15::{Doc, DocE, DocT};
use crate::p16::{Rec, Tree, A, B, C};
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn d<T: DescribeType>() -> TypeDescriptor {
    <T as DescribeType>::type_descriptor().into_owned()
}
/// `T` alone, again, and after and before types that contain it, are contained in it or have nothing to do with it
fn once<T: DescribeType, X: DescribeType, Y: DescribeType, Z: DescribeType>() {
    let alone = d::<T>();
    let again = d::<T>();
    check("the description is the same when asked for again", veq(&alone, &again) && alone == again);
    forget();
    d::<X>();
    d::<S3>();
    d::<Vec<E>>();
    let after = d::<T>();
    check("the description does not depend on what was described before", veq(&alone, &after) && alone == after);
    forget();
    d::<Y>();
    d::<String>();
    let t = d::<T>();
    d::<Z>();
    d::<T1>();
    let after = d::<T>();
    check("the description does not depend on what is described afterwards", veq(&alone, &t) && veq(&alone, &after));
    check("a box has the description of its content", veq(&d::<Box<T>>(), &alone));
}
/// what a value says of its type
fn of<T: Reflect + DescribeType>(x: &T) {
    let a = d::<T>();
    let o: &dyn Reflect = x;
    check("an object has the description of its type", veq(&Reflect::type_descriptor(x).into_owned(), &a) && veq(&o.type_descriptor().into_owned(), &a));
    check("also by its reflected view", veq(&o.as_reflect().type_descriptor().into_owned(), &a));
    let b: Box<dyn Reflect> = o.clone_reflect();
    check("also a clone", veq(&b.type_descriptor().into_owned(), &a));
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_once() { once::<$t, Option<$t>, (i32, $t), BTreeMap<String, $t>>() }
        pub fn ob_of(x: &$t) { of::<$t>(x) }
    })* };
}
obs!(s3 = S3, unit = Unit, empty = Empty, sk2 = Sk2, bx = Bx, gen = Gen<i32, u8>, cgen = CGen<2>, t1 = T1, tsk2 = TSk2, tgen = TGen<u8>, e = E, e2 = E2, f = WithE, option = Option<S3>, result = Result<i32, String>, tup = (i32, String), tup0 = (),
    vec = Vec<T1>, arr = [i32; 2], arr3 = [i32; 3], map = BTreeMap<String, S3>, string = String, i32_ = i32, u8_ = u8, bool_ = bool, nest = Nest, doc = Doc, doce = DocE, doct = DocT, nodebug = NoDebug,
    range = std::ops::Range<i32>, vec2 = glam::Vec2, duration = std::time::Duration, boxed = Box<S3>, vv = Vec<Vec<i32>>);
pub fn ob_nofrom() { once::<NoFrom, Unit, Sk2, T1>() }
pub fn ob_noclone() { once::<NoClone, Unit, Sk2, T1>() }
pub fn ob_noclone_of(x: &NoClone) { of::<NoClone>(x) }
pub fn ob_nofrom_of(x: &NoFrom) { of::<NoFrom>(x) }
macro_rules! dynamic {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_once() { once::<$t, Option<$t>, (i32, $t), BTreeMap<String, $t>>() }
        pub fn ob_of(x: &$t) {
            let o: &dyn Reflect = x;
            check("a dynamic value has the description of its type, whatever it holds", veq(&Reflect::type_descriptor(x).into_owned(), &d::<$t>()) && veq(&o.type_descriptor().into_owned(), &d::<$t>()));
        }
    })* };
}
dynamic!(struct_value = StructValue, tuple_value = TupleValue, tuple_struct_value = TupleStructValue, enum_value = EnumValue, value = Value);

macro_rules! recursive {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_once() { once::<$t, Option<$t>, (i32, $t), BTreeMap<String, $t>>() }
        pub fn ob_of(x: &$t) {
            let o: &dyn Reflect = x;
            check("an object has the description of its type", veq(&Reflect::type_descriptor(x).into_owned(), &d::<$t>()) && veq(&o.type_descriptor().into_owned(), &d::<$t>()) && veq(&o.as_reflect().type_descriptor().into_owned(), &d::<$t>()));
        }
    })* };
}
recursive!(rec = Rec, tree = Tree, ra = A, rb = B, rc = C);

/// distinct types have distinct descriptions
fn apart<T: DescribeType, U: DescribeType>() {
    let (a, b) = (d::<T>(), d::<U>());
    check("two types have two descriptions", a != b && !veq(&a, &b));
    forget();
    let (b2, a2) = (d::<U>(), d::<T>());
    check("in either order", veq(&a, &a2) && veq(&b, &b2));
}
pub fn ob_apart_vec() { apart::<Vec<i32>, Vec<bool>>() }
pub fn ob_apart_option() { apart::<Option<i32>, Option<S3>>() }
pub fn ob_apart_gen() { apart::<Gen<i32, u8>, Gen<u8, i32>>() }
pub fn ob_apart_cgen() { apart::<CGen<2>, CGen<3>>() }
pub fn ob_apart_arr() { apart::<[i32; 2], [i32; 3]>() }
pub fn ob_apart_map() { apart::<BTreeMap<i32, u8>, BTreeMap<u8, i32>>() }
pub fn ob_apart_tup() { apart::<(i32, u8), (u8, i32)>() }
pub fn ob_apart_same_name() { apart::<S3, crate::p16::other::S3>() }
pub fn ob_apart_scalar() { apart::<i32, u32>() }
pub fn ob_apart_kind() { apart::<T1, (i32,)>() }

/// metadata may be computed from the descriptions of other types
pub fn name_of<T: DescribeType>() -> String {
    <T as DescribeType>::type_descriptor().type_name().to_owned()
}
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(other = name_of::<S3>()))]
pub struct About { #[reflect(meta(of = name_of::<E>(), with = name_of::<Vec<S3>>()))] pub a: i32 }
#[derive(Reflect, Clone, Debug)]
pub enum AboutE { #[reflect(meta(other = name_of::<About>()))] V(#[reflect(meta(other = name_of::<T1>()))] i32), W }
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(other = name_of::<AboutE>()))]
pub struct AboutT(pub i32);
fn about<T: DescribeType, O: DescribeType>() {
    let t = d::<T>();
    forget();
    d::<O>();
    let u = d::<T>();
    check("metadata may describe other types", veq(&t, &u));
}
pub fn ob_about() {
    about::<About, S3>();
    check("metadata computed from another type's description", d::<About>().get_type().get_meta::<String>("other").map_or(false, |n| n == std::any::type_name::<S3>()));
}
pub fn ob_about_enum() { about::<AboutE, T1>() }
pub fn ob_about_tuple_struct() { about::<AboutT, About>() }
/// also of types whose name does not tell them apart
pub fn ob_apart_hidden() {
    fn go<X: crate::p16::Same, Y: crate::p16::Same>() { apart::<X::T, Y::T>() }
    go::<crate::p16::Same1, crate::p16::Same2>()
}
