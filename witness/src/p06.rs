//! P06: cloning a reflected object gives an equal object of the same type.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::num::*;

fn exact<T: Reflect>(x: &T) {
    let d: &dyn Reflect = x;
    let c = d.clone_reflect();
    match c.downcast_ref::<T>() {
        Some(y) => check("the clone equals the object", veq(x, y) && !same_loc(x, y)),
        None => check("the clone has the object's type", false),
    }
    let o: Box<dyn Reflect> = d.to_owned();
    match o.downcast_ref::<T>() {
        Some(y) => check("the owned copy equals the object", veq(x, y)),
        None => check("the owned copy has the object's type", false),
    }
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_exact(x: &$t) { exact::<$t>(x) } })* };
}
obs!(s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, allskip = AllSkip, unit = Unit, empty = Empty, names = Names, bx = Bx, gen = Gen<i32, i32>, gens = Gen<String, S3>,
    nodebug = NoDebug, nofrom = NoFrom, with = With, with_t = WithT, with_e = WithE, t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tbx = TBx, tgen = TGen<i32>, tnodebug = TNoDebug,
    e = E, f = F<i32>, f2 = F2, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<i32>, range_to = std::ops::RangeTo<i32>, range_to_incl = std::ops::RangeToInclusive<i32>, range_full = std::ops::RangeFull,
    vec2 = glam::Vec2, vec3 = glam::Vec3, mat3 = glam::Mat3,
    tup0 = (), tup1 = (i32,), tup2 = (i32, i32), tup3 = (i32, i32, String), tup4 = (i32, i32, i32, i32), tup5 = (i32, i32, i32, i32, i32),
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, arr = [i32; 2], arr_s = [T1; 2], arr0 = [i32; 0], map = BTreeMap<String, i32>, map_i = BTreeMap<i32, T1>, nest2 = Nest2,
    usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128, bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String,
    nzusize = NonZeroUsize, nzu8 = NonZeroU8, nzu16 = NonZeroU16, nzu32 = NonZeroU32, nzu64 = NonZeroU64, nzu128 = NonZeroU128, nzi8 = NonZeroI8, nzi16 = NonZeroI16, nzi32 = NonZeroI32, nzi64 = NonZeroI64, nzi128 = NonZeroI128,
    duration = std::time::Duration, raw = Raw, multi = Multi, tmulti = TMulti, big = Big, bigt = BigT, cont = Cont, cgen = CGen<2>, disc = Disc, e2 = E2, tup11 = Tup11, tup16 = Tup16,
    opt_opt = Option<Option<i32>>, opt_vec = Option<Vec<i32>>, vec_opt = Vec<Option<i32>>, vec_tup = Vec<(i32, String)>, map_vec = BTreeMap<i32, Vec<i32>>, map_opt = BTreeMap<String, Option<i32>>,
    vec_map = Vec<BTreeMap<i32, i32>>, arr_opt = [Option<i32>; 2], arr_vec = [Vec<i32>; 2], res_vec = Result<Vec<i32>, Option<i32>>, map_map = BTreeMap<i32, BTreeMap<i32, i32>>, arr_arr = [[i32; 2]; 2], struct_value = StructValue, tuple_value = TupleValue, tuple_struct_value = TupleStructValue, enum_value = EnumValue, list_value = Vec<Value>, map_value = BTreeMap<Value, Value>);

/// opted out of `Clone`: the reflected content is kept
fn two(a: &i32, b: &String, c: (&i32, &i32, &String)) {
    check("the reflected fields of the clone are equal", veq(a, c.0) && veq(b, c.2));
    check("a skipped field of a type that is not Clone gets its default", *c.1 == 0);
}
pub fn ob_noclone(x: &NoClone) {
    let d: &dyn Reflect = x;
    let c = d.clone_reflect();
    match c.downcast_ref::<NoClone>() {
        Some(y) => two(&x.a, &x.b, (&y.a, &y.z, &y.b)),
        None => check("the clone has the object's type", false),
    }
}
pub fn ob_tnoclone(x: &TNoClone) {
    let d: &dyn Reflect = x;
    let c = d.clone_reflect();
    match c.downcast_ref::<TNoClone>() {
        Some(y) => two(&x.0, &x.2, (&y.0, &y.1, &y.2)),
        None => check("the clone has the object's type", false),
    }
}
/// a box clones as what it holds
pub fn ob_box(x: &Box<S3>, y: &Box<Box<i32>>, z: &Box<Option<i32>>) {
    check("the clone of a box is a clone of its content", match x.clone_reflect().downcast_ref::<S3>() { Some(c) => veq(c, &**x), None => false });
    check("the clone of a box is a clone of its content", match y.clone_reflect().downcast_ref::<i32>() { Some(c) => veq(c, &***y), None => false });
    check("the clone of a box is a clone of its content", match z.clone_reflect().downcast_ref::<Option<i32>>() { Some(c) => veq(c, &**z), None => false });
}
/// dynamic values
pub fn ob_value(x: &Value) {
    let c = Reflect::clone_reflect(x);
    check("the clone of a dynamic value exports the same value", veq(&c.to_value(), x));
}
/// reflected objects held by kind
pub fn ob_owned(x: S3, t: T3, e: F2, v: Vec<i32>, o: (i32, i32), ar: [i32; 2], m: BTreeMap<i32, i32>, i: i32) {
    fn go<T: Reflect>(x: T) {
        let (x, y) = twin(x);
        let r: ReflectOwned = Reflect::reflect_owned(Box::new(x));
        let c = r.clone();
        match c.as_reflect().downcast_ref::<T>() {
            Some(c) => check("cloning an object held by kind clones the object", veq(c, &y)),
            None => check("cloning an object held by kind keeps its type", false),
        }
    }
    go(x);
    go(t);
    go(e);
    go(v);
    go(o);
    go(ar);
    go(m);
    go(i);
}
