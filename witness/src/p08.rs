//! P08: scalars keep their exact type and value through every view.
use crate::support::*;
use mirror_mirror::*;

macro_rules! scalars {
    ($($m:ident = $t:ident),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_view(x: &mut $t) {
            let l = loc(x);
            check("the shared view has the scalar's type and value", match x.reflect_ref() { ReflectRef::Scalar(s) => sref(s, x), _ => false });
            check("the shared view has the scalar's type and value", match x.as_scalar() { Some(s) => sref(s, x), None => false });
            check("the mutable view has the scalar's type and place", match x.reflect_mut() { ReflectMut::Scalar(ScalarMut::$t(y)) => at_loc(y, l), _ => false });
            check("the mutable view denotes the scalar", match x.as_scalar_mut() { Some(mut s) => at_loc(s.as_reflect(), l) && at_loc(s.as_reflect_mut(), l), None => false });
            check("a mutable view made from the scalar denotes it", match ScalarMut::from(&mut *x) { ScalarMut::$t(y) => at_loc(y, l), _ => false });
        }
        pub fn ob_owned(x: $t) {
            let (x, y) = twin(x);
            check("the owned view has the scalar's type and value", match Reflect::reflect_owned(Box::new(x)) { ReflectOwned::Scalar(s) => sowned(s, &y), _ => false });
            check("an owned scalar has the scalar's type and value", sowned(ScalarOwned::from(twin_ref(&y)), &y));
            check("an owned scalar has the scalar's type and value", match Box::new(twin_ref(&y)).into_scalar() { Some(s) => sowned(s, &y), None => false });
            let mut s = ScalarOwned::$t(twin_ref(&y));
            check("an owned scalar is viewed as its content", s.as_reflect_mut().downcast_ref::<$t>().map_or(false, |z| veq(z, &y)));
            let c = s.clone();
            check("a cloned owned scalar is the same scalar", sowned(c, &y));
        }
        pub fn ob_export(x: $t) {
            let (x, y) = twin(x);
            check("the exported value has the scalar's type and value", match x.to_value() { Value::$t(z) => veq(&z, &y), _ => false });
            check("the converted value has the scalar's type and value", match Value::from(x) { Value::$t(z) => veq(&z, &y), _ => false });
            let mut v = Value::$t(twin_ref(&y));
            check("a dynamic scalar is viewed with its type and value", match v.reflect_ref() { ReflectRef::Scalar(s) => sref(s, &y), _ => false });
            check("a dynamic scalar is viewed as its content", v.as_reflect().downcast_ref::<$t>().map_or(false, |z| veq(z, &y)));
            check("a dynamic scalar downcasts to its content", Reflect::as_any(&v).downcast_ref::<$t>().map_or(false, |z| veq(z, &y)));
            let ok = match &mut v { Value::$t(z) => Some(loc(z)), _ => None };
            let l = ok.unwrap();
            check("a mutable view of a dynamic scalar denotes its content", match v.reflect_mut() { ReflectMut::Scalar(ScalarMut::$t(z)) => at_loc(z, l), _ => false });
            check("a mutable view of a dynamic scalar denotes its content", Reflect::as_any_mut(&mut v).downcast_mut::<$t>().map_or(false, |z| at_loc(z, l)) && at_loc(v.as_reflect_mut(), l));
            check("an owned dynamic scalar has its type and value", match Reflect::reflect_owned(Box::new(v)) { ReflectOwned::Scalar(s) => sowned(s, &y), _ => false });
        }
        pub fn ob_from(x: &dyn Reflect) {
            let y = <$t as FromReflect>::from_reflect(x);
            match (&y, x.downcast_ref::<$t>()) {
                (Some(a), Some(b)) => check("a scalar converts from its own type to the same value", veq(a, b)),
                (None, None) => check("a scalar does not convert from another type", true),
                _ => check("a scalar converts exactly from its own type", false),
            }
        }
        fn sref(s: ScalarRef<'_>, y: &$t) -> bool {
            let v = s.as_reflect().downcast_ref::<$t>().map_or(false, |z| veq(z, y));
            v && match s { ScalarRef::$t(z) => eq(&z, y), _ => false }
        }
        fn sowned(s: ScalarOwned, y: &$t) -> bool {
            let v = s.as_reflect().downcast_ref::<$t>().map_or(false, |z| veq(z, y));
            v && match s { ScalarOwned::$t(z) => veq(&z, y), _ => false }
        }
    })* };
}
fn eq<T, U>(a: &T, b: &U) -> bool { veq(a, b) }
scalars!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128,
    bool_ = bool, char_ = char, f32_ = f32, f64_ = f64);
scalars!(string = String);

macro_rules! nonzero {
    ($($m:ident = $t:ident $i:ident),* $(,)?) => { $(pub mod $m { use super::*; use std::num::*;
        pub fn ob_view(x: &mut $t) {
            let n = x.get();
            check("a non-zero integer is viewed as its integer", match x.reflect_ref() { ReflectRef::Scalar(ScalarRef::$i(y)) => y == n, _ => false });
            check("a non-zero integer is exported as its integer", match x.to_value() { Value::$i(y) => y == n, _ => false });
            check("a non-zero integer is converted to its integer", match Value::from(*x) { Value::$i(y) => y == n, _ => false });
            check("an owned non-zero integer is viewed as its integer", match Reflect::reflect_owned(Box::new(*x)) { ReflectOwned::Scalar(ScalarOwned::$i(y)) => y == n, _ => false });
        }
        pub fn ob_from(n: $i) {
            match <$t as FromReflect>::from_reflect(&n) {
                Some(y) => check("a non-zero integer converts from the same integer", y.get() == n),
                None => check("only zero does not convert", n == 0),
            }
        }
        pub fn ob_patch(mut x: $t, n: $i) {
            let old = x.get();
            x.patch(&n);
            check("patching with zero changes nothing, with any other integer gives it", x.get() == if n == 0 { old } else { n });
        }
    })* };
}
nonzero!(nzusize = NonZeroUsize usize, nzu8 = NonZeroU8 u8, nzu16 = NonZeroU16 u16, nzu32 = NonZeroU32 u32, nzu64 = NonZeroU64 u64, nzu128 = NonZeroU128 u128,
    nzi8 = NonZeroI8 i8, nzi16 = NonZeroI16 i16, nzi32 = NonZeroI32 i32, nzi64 = NonZeroI64 i64, nzi128 = NonZeroI128 i128);

/// the remaining conversions into dynamic values
pub fn ob_str(x: &str) {
    check("a string slice converts to a string value", match Value::from(x) { Value::String(y) => y == x, _ => false });
}
pub fn ob_dyn(x: &dyn Reflect) {
    check("a reflected object converts to its exported value", veq(&Value::from(x), &x.to_value()));
}
