//! P05: a patch changes exactly the parts its argument has, to what those parts convert to.
use crate::oracle::*;
use crate::support::*;
use crate::types::*;
use mirror_mirror::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::enum_::*;
use std::collections::BTreeMap;
use std::num::*;

fn patched<T: Oracle>(x: &mut T, y: &mut T, v: &dyn Reflect) {
    // x and y start out equal
    assume(veq(x, y));
    x.patch(v);
    y.want_patch(v);
    check("exactly the matching parts are replaced", veq(x, y));
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_any(x: $t, v: &dyn Reflect) {
            let (mut x, mut y) = twin(x);
            patched::<$t>(&mut x, &mut y, v)
        }
    })* };
}
obs!(s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, allskip = AllSkip, empty = Empty, unit = Unit, names = Names, bx = Bx, gen = Gen<i32, i32>, gens = Gen<String, S3>,
    noclone = NoClone, nodebug = NoDebug, with = With, with_t = WithT, with_e = WithE,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<i32>, range_to = std::ops::RangeTo<i32>,
    range_to_incl = std::ops::RangeToInclusive<i32>, range_full = std::ops::RangeFull, vec2 = glam::Vec2, vec3 = glam::Vec3,
    t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tbx = TBx, tgen = TGen<i32>, tnoclone = TNoClone, tnodebug = TNoDebug,
    tup0 = (), tup1 = (i32,), tup2 = (i32, i32), tup3 = (i32, i32, String), tup4 = (i32, i32, i32, i32),
    e = E, f = F<i32>, f2 = F2, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, arr = [i32; 2], arr_s = [T1; 2], map = BTreeMap<String, i32>, map_i = BTreeMap<i32, T1>,
    boxed = Box<S3>, box_box = Box<Box<i32>>, box_e = Box<Option<i32>>);
obs!(raw = Raw, multi = Multi, tmulti = TMulti, disc = Disc, cgen = CGen<2>,
    opt_opt = Option<Option<i32>>, opt_vec = Option<Vec<i32>>, vec_opt = Vec<Option<i32>>, vec_tup = Vec<(i32, String)>, map_vec = BTreeMap<i32, Vec<i32>>, map_opt = BTreeMap<String, Option<i32>>,
    vec_map = Vec<BTreeMap<i32, i32>>, arr_opt = [Option<i32>; 2], arr_vec = [Vec<i32>; 2], box_map = Box<BTreeMap<i32, i32>>, res_vec = Result<Vec<i32>, Option<i32>>,
    opt_box = Option<Box<i32>>, vec_e = Vec<Disc>, map_map = BTreeMap<i32, BTreeMap<i32, i32>>, map_unit = BTreeMap<String, ()>, vec_bool = Vec<bool>, arr_arr = [[i32; 2]; 2]);
obs!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128,
    bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String);
obs!(nzusize = NonZeroUsize, nzu8 = NonZeroU8, nzu64 = NonZeroU64, nzi8 = NonZeroI8, nzi16 = NonZeroI16, nzi32 = NonZeroI32, nzi64 = NonZeroI64, nzi128 = NonZeroI128);

/// with an object of the same type: the reflected parts become the argument's
pub mod same { use super::*;
    macro_rules! same {
        ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
            pub fn ob_same(x: $t, v: &$t) {
                let (mut x, mut y) = twin(x);
                patched::<$t>(&mut x, &mut y, v)
            }
        })* };
    }
    same!(s3 = S3, sk2 = Sk2, noclone = NoClone, bx = Bx, t3 = T3, tsk1 = TSk1, tnoclone = TNoClone, f = F<i32>, f2 = F2, option_s = Option<S3>,
        result = Result<i32, String>, vec_s = Vec<S3>, arr = [T1; 2], map = BTreeMap<i32, T1>, tup2 = (i32, i32), boxed = Box<S3>, nz = NonZeroU32, string = String, raw = Raw, multi = Multi, tmulti = TMulti, big = Big, bigt = BigT, tup11 = Tup11, tup16 = Tup16, cont = Cont, disc = Disc);
}
pub fn ob_enum_same(x: E, v: &E) {
    let mut x = x;
    x.patch(v);
    check("an enum patched with its own type becomes the argument", veq(&x, v));
}

pub fn ob_enum2_same(x: E2, v: &E2) {
    let mut x = x;
    x.patch(v);
    check("an enum patched with its own type becomes the argument", veq(&x, v));
}
pub fn ob_enum2(x: E2, v: &dyn Reflect) {
    assume(!matches!(x, E2::Big(..)));
    let (mut x, mut y) = twin(x);
    patched::<E2>(&mut x, &mut y, v)
}
/// dynamic values: existing fields only
fn p(v: &Value, n: Option<&dyn Reflect>) -> Value {
    let mut y = v.clone();
    if let Some(n) = n { y.patch(n) }
    y
}
pub fn ob_value_scalar(x: i32, y: String, v: &dyn Reflect) {
    let mut a = Value::from(x);
    a.patch(v);
    check("a dynamic scalar is replaced by a scalar of its type", match v.downcast_ref::<i32>() { Some(n) => veq(&a, &Value::i32(*n)), None => veq(&a, &Value::i32(x)) });
    let mut a = Value::from(y.clone());
    a.patch(v);
    check("a dynamic scalar is replaced by a scalar of its type", match v.downcast_ref::<String>() { Some(n) => veq(&a, &Value::String(n.clone())), None => veq(&a, &Value::String(y)) });
}
pub fn ob_struct_value(n1: String, n2: String, a: i32, b: String, v: &dyn Reflect) {
    assume(n1 != n2);
    let (a, b) = (Value::from(a), Value::from(b));
    let mut x = StructValue::new().with_field(n1.clone(), a.clone()).with_field(n2.clone(), b.clone());
    x.patch(v);
    let s = v.as_struct();
    let want = StructValue::new().with_field(n1.clone(), p(&a, s.and_then(|s| s.field(&n1)))).with_field(n2.clone(), p(&b, s.and_then(|s| s.field(&n2))));
    check("exactly the matching fields of a dynamic struct are patched", veq(&x, &want));
}
pub fn ob_tuple_value(a: i32, b: String, v: &dyn Reflect) {
    let (a, b) = (Value::from(a), Value::from(b));
    let mut x = TupleValue::new().with_field(a.clone()).with_field(b.clone());
    x.patch(v);
    let s = v.as_tuple();
    let want = TupleValue::new().with_field(p(&a, s.and_then(|s| s.field_at(0)))).with_field(p(&b, s.and_then(|s| s.field_at(1))));
    check("exactly the matching fields of a dynamic tuple are patched", veq(&x, &want));
}
pub fn ob_tuple_struct_value(a: i32, b: String, v: &dyn Reflect) {
    let (a, b) = (Value::from(a), Value::from(b));
    let mut x = TupleStructValue::new().with_field(a.clone()).with_field(b.clone());
    x.patch(v);
    let s = v.as_tuple_struct();
    let want = TupleStructValue::new().with_field(p(&a, s.and_then(|s| s.field_at(0)))).with_field(p(&b, s.and_then(|s| s.field_at(1))));
    check("exactly the matching fields of a dynamic tuple struct are patched", veq(&x, &want));
}
pub fn ob_enum_value_struct(w: String, n1: String, n2: String, a: i32, b: String, v: &dyn Reflect) {
    assume(n1 != n2);
    let (a, b) = (Value::from(a), Value::from(b));
    let mut x = EnumValue::new_struct_variant(w.clone()).with_struct_field(n1.clone(), a.clone()).with_struct_field(n2.clone(), b.clone()).finish();
    let old = x.clone();
    x.patch(v);
    let want = match v.as_enum() {
        Some(e) if e.variant_name() == w => EnumValue::new_struct_variant(w).with_struct_field(n1.clone(), p(&a, e.field(&n1))).with_struct_field(n2.clone(), p(&b, e.field(&n2))).finish(),
        Some(_) => want_enum_value(v).unwrap(),
        None => old,
    };
    check("a dynamic enum is patched field by field, or replaced by another variant", veq(&x, &want));
}
pub fn ob_enum_value_tuple(w: String, a: i32, b: String, v: &dyn Reflect) {
    let (a, b) = (Value::from(a), Value::from(b));
    let mut x = EnumValue::new_tuple_variant(w.clone()).with_tuple_field(a.clone()).with_tuple_field(b.clone()).finish();
    let old = x.clone();
    x.patch(v);
    let want = match v.as_enum() {
        Some(e) if e.variant_name() == w => EnumValue::new_tuple_variant(w).with_tuple_field(p(&a, e.field_at(0))).with_tuple_field(p(&b, e.field_at(1))).finish(),
        Some(_) => want_enum_value(v).unwrap(),
        None => old,
    };
    check("a dynamic enum is patched field by field, or replaced by another variant", veq(&x, &want));
}
/// a mistyped patch leaves everything alone
pub fn ob_opaque(x: S3, t: T3, v: &dyn Reflect) {
    assume(matches!(v.reflect_ref(), ReflectRef::Opaque(_)));
    let ((mut x, x0), (mut t, t0)) = (twin(x), twin(t));
    x.patch(v);
    t.patch(v);
    check("a patch of another kind changes nothing", veq(&x, &x0) && veq(&t, &t0));
}
