//! P26: the debug text of a reflected object shows all of its reflected content.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::any::type_name;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::num::*;

/// the object's own debug text
fn own<T: Reflect + Debug>(x: &T) {
    let d: &dyn Reflect = x;
    check("through reflection an object has its own debug text", format!("{:?}", d) == format!("{:?}", x));
}
fn pretty<T: Reflect + Debug>(x: &T) {
    let d: &dyn Reflect = x;
    check("through reflection an object has its own multi-line debug text", format!("{:#?}", d) == format!("{:#?}", x));
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_own(x: &$t) { own::<$t>(x) } pub fn ob_pretty(x: &$t) { pretty::<$t>(x) } })* };
}
obs!(s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, allskip = AllSkip, unit = Unit, empty = Empty, names = Names, bx = Bx, gen = Gen<i32, String>, noclone = NoClone, nofrom = NoFrom,
    t1 = T1, t3 = T3, tsk1 = TSk1, tbx = TBx, tgen = TGen<i32>, e = E, e2 = E2, f = F<i32>, f2 = F2, share = Share, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    tup0 = (), tup1 = (i32,), tup2 = (i32, String), tup3 = (i32, S3, u8), tup_tup = ((i32, u8), (), (String,)),
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, vec_opt = Vec<Option<i32>>, vec_tup = Vec<(i32, String)>, arr = [i32; 2], arr_s = [T1; 2], arr0 = [i32; 0], map = BTreeMap<String, i32>, map_s = BTreeMap<i32, T1>,
    usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128, bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String,
    nz_u8 = NonZeroU8, nz_i128 = NonZeroI128, duration = std::time::Duration, boxed = Box<S3>, box_box = Box<Box<i32>>, box_vec = Box<Vec<i32>>, box_tup = Box<(i32, u8)>,
    sv = StructValue, tv = TupleValue, tsv = TupleStructValue, ev = EnumValue, value = Value, cont = Cont, big = Big, disc = Disc, raw = Raw);

/// without a debug text of its own: the type's name and every reflected field
pub fn ob_nodebug(x: &NoDebug) {
    let d: &dyn Reflect = x;
    check("the debug text names the type and every reflected field", format!("{:?}", d) == format!("{} {{ a: {:?}, b: {:?} }}", type_name::<NoDebug>(), x.a, x.b));
}
pub fn ob_tnodebug(x: &TNoDebug) {
    let d: &dyn Reflect = x;
    check("the debug text names the type and every reflected field", format!("{:?}", d) == format!("{}({:?}, {:?})", type_name::<TNoDebug>(), x.0, x.2));
}
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub enum ENoDebug { A, B(i32, #[reflect(skip)] u8, String), C { x: i32, #[reflect(skip)] z: u8, y: NoDebug }, D(Vec<NoDebug>) }
pub fn ob_enodebug(x: &ENoDebug) {
    let d: &dyn Reflect = x;
    match x {
        ENoDebug::A => check("the debug text names the variant", format!("{:?}", d) == "A"),
        ENoDebug::B(a, _, b) => check("the debug text names the variant and every reflected field", format!("{:?}", d) == format!("B({:?}, {:?})", a, b)),
        ENoDebug::C { x, y, .. } => check("the debug text names the variant and every reflected field", format!("{:?}", d) == format!("C {{ x: {:?}, y: {:?} }}", x, y as &dyn Reflect)),
        ENoDebug::D(v) => check("the debug text names the variant and every reflected field", format!("{:?}", d) == format!("D({:?})", v as &dyn Reflect)),
    }
}
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub struct UNoDebug;
pub fn ob_unodebug(x: &UNoDebug) { check("the debug text names the type", format!("{:?}", x as &dyn Reflect) == type_name::<UNoDebug>()) }
pub fn ob_in(x: &Vec<NoDebug>, y: &(i32, TNoDebug), z: &Box<NoDebug>) {
    let mut s = String::from("[");
    let mut first = true;
    for e in x.iter() {
        if !first { s.push_str(", ") }
        first = false;
        s.push_str(&format!("{:?}", e));
    }
    s.push(']');
    check("the debug text of a container holds that of its elements", format!("{:?}", x as &dyn Reflect) == s);
    check("the debug text of a container holds that of its elements", format!("{:?}", y as &dyn Reflect) == format!("({:?}, {:?})", y.0, &y.1 as &dyn Reflect));
    check("the debug text of a box is that of its content", format!("{:?}", z as &dyn Reflect) == format!("{:?}", &**z as &dyn Reflect));
}
/// seen by kind
pub fn ob_kinds(x: &S3, t: &T3, u: &(i32, u8), e: &Share, v: &Vec<i32>, a: &[u8; 2], m: &BTreeMap<i32, u8>) {
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", x as &dyn Struct) == format!("{:?}", x));
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", t as &dyn TupleStruct) == format!("{:?}", t));
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", u as &dyn Tuple) == format!("{:?}", u));
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", e as &dyn Enum) == format!("{:?}", e));
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", v as &dyn List) == format!("{:?}", v) && format!("{:?}", v as &dyn Array) == format!("{:?}", v));
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", a as &dyn Array) == format!("{:?}", a));
    check("the debug text of an object seen by kind is that of the object", format!("{:?}", m as &dyn Map) == format!("{:?}", m));
}
/// formatting any object by its structure
struct Structural<'a>(&'a dyn Reflect);
impl Debug for Structural<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { reflect_debug(self.0, f) }
}
fn structural<T: Reflect + Debug>(x: &T) {
    check("formatted by its structure, an object without name of its own has its own debug text", format!("{:?}", Structural(x)) == format!("{:?}", x));
    check("formatted by its structure, an object without name of its own has its own multi-line debug text", format!("{:#?}", Structural(x)) == format!("{:#?}", x));
}
macro_rules! sobs { ($($m:ident = $t:ty),* $(,)?) => { pub mod structure { $(pub mod $m { use super::super::*; pub fn ob_structural(x: &$t) { structural::<$t>(x) } })* } }; }
sobs!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128, bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String,
    nz_u8 = NonZeroU8, tup0 = (), tup1 = (i32,), tup2 = (i32, String), tup3 = (i32, S3, u8), tup_tup = ((i32, u8), (), (String,)),
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, vec_opt = Vec<Option<i32>>, arr = [i32; 2], arr_s = [T1; 2], arr0 = [i32; 0], map = BTreeMap<String, i32>, map_s = BTreeMap<i32, T1>,
    f = F<i32>, f2 = F2, share = Share, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>, box_vec = Box<Vec<i32>>);
pub fn ob_structural_named(x: &S3, y: &T3, z: &Sk2, u: &Unit, t: &TSk1) {
    check("formatted by its structure, an object shows its name and every reflected field", format!("{:?}", Structural(x)) == format!("{} {{ a: {:?}, b: {:?}, c: {:?} }}", type_name::<S3>(), x.a, x.b, x.c));
    check("formatted by its structure, an object shows its name and every reflected field", format!("{:?}", Structural(y)) == format!("{}({:?}, {:?}, {:?})", type_name::<T3>(), y.0, y.1, y.2));
    check("formatted by its structure, an object shows its name and every reflected field", format!("{:?}", Structural(z)) == format!("{} {{ a: {:?}, b: {:?} }}", type_name::<Sk2>(), z.a, z.b));
    check("formatted by its structure, an object shows its name and every reflected field", format!("{:?}", Structural(u)) == type_name::<Unit>());
    check("formatted by its structure, an object shows its name and every reflected field", format!("{:?}", Structural(t)) == format!("{}({:?}, {:?})", type_name::<TSk1>(), t.1, t.2));
}
