//! P04: converting any reflected object takes each field from the like-named or like-positioned one.
use crate::oracle::*;
use crate::support::*;
use crate::types::*;
use mirror_mirror::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::enum_::*;
use std::collections::BTreeMap;
use std::num::*;

fn conv<T: Oracle>(v: &dyn Reflect) {
    let got = T::from_reflect(v);
    let want = T::want(v);
    check("converts exactly when every reflected field does", got.is_some() == want.is_some());
    if let (Some(g), Some(w)) = (&got, &want) {
        check("every field is converted from its counterpart", veq(g, w));
    }
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_any(v: &dyn Reflect) { conv::<$t>(v) }
    })* };
}
obs!(s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, allskip = AllSkip, empty = Empty, unit = Unit, names = Names, bx = Bx, gen = Gen<i32, i32>, gens = Gen<String, S3>,
    noclone = NoClone, nodebug = NoDebug, with = With, with_t = WithT, with_e = WithE,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<i32>, range_to = std::ops::RangeTo<i32>,
    range_to_incl = std::ops::RangeToInclusive<i32>, range_full = std::ops::RangeFull, vec2 = glam::Vec2, vec3 = glam::Vec3, mat3 = glam::Mat3,
    t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tbx = TBx, tgen = TGen<i32>, tnoclone = TNoClone, tnodebug = TNoDebug,
    tup0 = (), tup1 = (i32,), tup2 = (i32, i32), tup3 = (i32, i32, String), tup4 = (i32, i32, i32, i32),
    e = E, f = F<i32>, f2 = F2, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, arr = [i32; 2], arr_s = [T1; 2], map = BTreeMap<String, i32>, map_i = BTreeMap<i32, T1>,
    boxed = Box<S3>, box_box = Box<Box<i32>>, box_e = Box<Option<i32>>, nest3 = Nest3);
obs!(raw = Raw, multi = Multi, tmulti = TMulti, big = Big, bigt = BigT, tup11 = Tup11, tup16 = Tup16, e2 = E2, cont = Cont, disc = Disc, cgen = CGen<2>,
    opt_opt = Option<Option<i32>>, opt_vec = Option<Vec<i32>>, vec_opt = Vec<Option<i32>>, vec_tup = Vec<(i32, String)>, map_vec = BTreeMap<i32, Vec<i32>>, map_opt = BTreeMap<String, Option<i32>>,
    vec_map = Vec<BTreeMap<i32, i32>>, arr_opt = [Option<i32>; 2], arr_vec = [Vec<i32>; 2], box_map = Box<BTreeMap<i32, i32>>, res_vec = Result<Vec<i32>, Option<i32>>,
    opt_box = Option<Box<i32>>, vec_e = Vec<Disc>, map_map = BTreeMap<i32, BTreeMap<i32, i32>>, map_unit = BTreeMap<String, ()>, vec_bool = Vec<bool>, arr_arr = [[i32; 2]; 2]);
obs!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128,
    bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String);
obs!(nzusize = NonZeroUsize, nzu8 = NonZeroU8, nzu16 = NonZeroU16, nzu32 = NonZeroU32, nzu64 = NonZeroU64, nzu128 = NonZeroU128,
    nzi8 = NonZeroI8, nzi16 = NonZeroI16, nzi32 = NonZeroI32, nzi64 = NonZeroI64, nzi128 = NonZeroI128);

/// from the very type: the reflected fields are kept
macro_rules! same {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_same(x: &$t) { conv::<$t>(x) }
    })* };
}
pub mod same { use super::*;
    same!(s3 = S3, sk2 = Sk2, noclone = NoClone, bx = Bx, gens = Gen<String, S3>, with = With, t3 = T3, tsk1 = TSk1, tbx = TBx, tnoclone = TNoClone, e = E_, f = F<i32>, option_s = Option<S3>,
        result = Result<i32, String>, vec_s = Vec<S3>, arr = [T1; 2], map = BTreeMap<i32, T1>, tup2 = (i32, i32), boxed = Box<S3>, nest2 = Nest2, nz = NonZeroU32, string = String,
        range = std::ops::Range<i32>, mat3 = glam::Mat3);
    type E_ = F2;
}
fn dynamic<T: FromReflect>(v: &dyn Reflect, want: Option<T>) {
    let got = T::from_reflect(v);
    check("converts objects of its kind only", got.is_some() == want.is_some());
    if let (Some(g), Some(w)) = (&got, &want) {
        check("every field is exported under its name and position", veq(g, w));
    }
}
pub mod struct_value { use super::*; pub fn ob_any(v: &dyn Reflect) { dynamic::<StructValue>(v, want_struct_value(v)) } }
pub mod tuple_value { use super::*; pub fn ob_any(v: &dyn Reflect) { dynamic::<TupleValue>(v, want_tuple_value(v)) } }
pub mod tuple_struct_value { use super::*; pub fn ob_any(v: &dyn Reflect) { dynamic::<TupleStructValue>(v, want_tuple_struct_value(v)) } }
pub mod enum_value { use super::*; pub fn ob_any(v: &dyn Reflect) { dynamic::<EnumValue>(v, want_enum_value(v)) } }
pub mod value { use super::*; pub fn ob_any(v: &dyn Reflect) { dynamic::<Value>(v, Some(v.to_value())) } }
