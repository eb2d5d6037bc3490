//! P19: visiting an object visits each of its leaves once, in order, by its type, and stops at the first error.
use crate::support::*;
use crate::types::*;
use mirror_mirror::try_visit::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::num::*;

pub enum Leaf { Scalar(Value), Opaque(Loc, &'static str) }
fn same_leaf(a: &Leaf, b: &Leaf) -> bool {
    match (a, b) {
        (Leaf::Scalar(a), Leaf::Scalar(b)) => veq(a, b),
        (Leaf::Opaque(a, n), Leaf::Opaque(b, m)) => veq(a, b) && n == m,
        _ => false,
    }
}
/// the leaves of an object, by its declaration
pub trait Leaves: Reflect + DescribeType {
    fn leaves(&self, out: &mut Vec<Leaf>);
}
macro_rules! scalars { ($($t:ident)*) => { $(impl Leaves for $t { fn leaves(&self, out: &mut Vec<Leaf>) { out.push(Leaf::Scalar(Value::$t(*self))) } })* } }
scalars!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char f32 f64);
impl Leaves for String { fn leaves(&self, out: &mut Vec<Leaf>) { out.push(Leaf::Scalar(Value::String(self.clone()))) } }
macro_rules! opaques { ($($t:ty),*) => { $(impl Leaves for $t { fn leaves(&self, out: &mut Vec<Leaf>) { out.push(Leaf::Opaque(loc(self), std::any::type_name::<$t>())) } })* } }
opaques!(NonZeroUsize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, std::time::Duration);
impl<T: Leaves> Leaves for Box<T> { fn leaves(&self, out: &mut Vec<Leaf>) { (**self).leaves(out) } }
impl<T: Leaves + FromReflect> Leaves for Vec<T> { fn leaves(&self, out: &mut Vec<Leaf>) { for x in &self[..] { x.leaves(out) } } }
impl<T: Leaves + FromReflect, const N: usize> Leaves for [T; N] { fn leaves(&self, out: &mut Vec<Leaf>) { for x in &self[..] { x.leaves(out) } } }
impl<T: Leaves + FromReflect> Leaves for Option<T> { fn leaves(&self, out: &mut Vec<Leaf>) { if let Some(x) = self { x.leaves(out) } } }
impl Leaves for Result<i32, String> { fn leaves(&self, out: &mut Vec<Leaf>) { match self { Ok(x) => x.leaves(out), Err(x) => x.leaves(out) } } }
impl<K: Leaves + FromReflect + Ord, V: Leaves + FromReflect> Leaves for BTreeMap<K, V> {
    fn leaves(&self, out: &mut Vec<Leaf>) { for (k, v) in self.iter() { k.leaves(out); v.leaves(out) } }
}
macro_rules! leaves {
    ($($t:ty { $($f:tt),* };)*) => { $(impl Leaves for $t { fn leaves(&self, _out: &mut Vec<Leaf>) { $(self.$f.leaves(_out);)* } })* };
}
leaves! {
    S3 { a, b, c }; Sk1 { a, b }; Sk2 { a, b }; Sk3 { a, b }; Unit {}; Empty {}; AllSkip {}; Names { name, index, value, f, fields }; Bx { a, b }; Gen<i32, String> { a, b, c };
    NoClone { a, b }; NoDebug { a, b }; NoFrom { a, b }; With { a, b, c }; WithT { 0, 1, 2 }; T1 { 0 }; T3 { 0, 1, 2 }; TSk1 { 1, 2 }; TSk2 { 0, 2 }; TSk3 { 0, 1 }; TBx { 0, 1 }; TGen<String> { 0, 1 };
    Raw { a, r#type, r#fn }; Multi { a, b }; TMulti { 1, 4 }; Big { m, l, k, j, i, h, g, f, e, d, c, a }; BigT { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }; Cont { v, o, m, t, ar }; CGen<2> { a, b };
    Nest { s, e, v, m, t, o, ar, bx }; Nest2 { v, m, t, o, ar, bx, r };
    std::ops::Range<i32> { start, end }; std::ops::RangeFrom<u8> { start }; std::ops::RangeTo<u8> { end }; std::ops::RangeToInclusive<u8> { end }; std::ops::RangeFull {};
    glam::Vec2 { x, y }; glam::Vec3 { x, y, z }; glam::Mat3 { x_axis, y_axis, z_axis };
    () {}; (i32,) { 0 }; (i32, String) { 0, 1 }; (i32, i32) { 0, 1 }; (i32, T1) { 0, 1 }; (u8, S3, bool) { 0, 1, 2 }; Tup11 { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
    Ops { a, b, c }; Rec { 0, 1, 2 };
}
#[derive(Reflect, Clone, Debug)]
pub struct Ops { pub a: NonZeroU8, pub b: Vec<std::time::Duration>, pub c: i32 }
#[derive(Reflect, Clone, Debug)]
pub struct Rec(pub i32, pub Vec<Rec>, pub u8);
impl Leaves for E {
    fn leaves(&self, out: &mut Vec<Leaf>) {
        match self {
            E::U | E::U2 => {}
            E::Hidden { .. } => assume(false),
            E::T(x, y) | E::TSk1(_, x, y) | E::TSk2(x, _, y) => { x.leaves(out); y.leaves(out) }
            E::S { a, b } | E::SSk1 { a, b, .. } | E::SSk2 { a, b, .. } => { a.leaves(out); b.leaves(out) }
            E::R { b, a } => { b.leaves(out); a.leaves(out) }
        }
    }
}
impl Leaves for E2 {
    fn leaves(&self, out: &mut Vec<Leaf>) {
        match self {
            E2::H1 | E2::H2(_) | E2::H3 { .. } => assume(false),
            E2::AllS { .. } | E2::AllT(_) | E2::EmptyS {} | E2::EmptyT() => {}
            E2::Raw { r#type, a } => { r#type.leaves(out); a.leaves(out) }
            E2::Move(x) | E2::One(x) => x.leaves(out),
            E2::Multi(_, x, _, _, y) => { x.leaves(out); y.leaves(out) }
            E2::MultiS { b, a, .. } => { b.leaves(out); a.leaves(out) }
            E2::Big(a, b, c, d, e, f, g, h, i, j, k) => for x in [a, b, c, d, e, f, g, h, i, j, k] { x.leaves(out) },
        }
    }
}
impl Leaves for F<i32> {
    fn leaves(&self, out: &mut Vec<Leaf>) {
        match self {
            F::A { name, index, value } => { name.leaves(out); index.leaves(out); value.leaves(out) }
            F::B { enum_, variant_matches } => { enum_.leaves(out); variant_matches.leaves(out) }
            F::C(x, y) => { x.leaves(out); y.leaves(out) }
            F::D(x) => x.leaves(out),
        }
    }
}
impl Leaves for F2 {
    fn leaves(&self, out: &mut Vec<Leaf>) {
        match self { F2::A => {} F2::B { a } => a.leaves(out), F2::C(x, y) => { x.leaves(out); y.leaves(out) } }
    }
}
impl Leaves for Share {
    fn leaves(&self, out: &mut Vec<Leaf>) {
        match self {
            Share::A { x, y } => { x.leaves(out); y.leaves(out) }
            Share::B { y, x, w } => { y.leaves(out); x.leaves(out); w.leaves(out) }
            Share::C(x, y) => { x.leaves(out); y.leaves(out) }
            Share::D(x, y) => { x.leaves(out); y.leaves(out) }
            Share::G { w } => w.leaves(out),
        }
    }
}
pub struct Log { pub got: Vec<Leaf>, pub stop: usize }
impl Log {
    fn add(&mut self, l: Leaf) -> Result<(), usize> {
        let n = self.got.len();
        self.got.push(l);
        if n == self.stop { Err(n) } else { Ok(()) }
    }
}
macro_rules! visitor { ($($f:ident $t:ident),*) => { $(fn $f(&mut self, x: $t) -> Result<(), usize> { self.add(Leaf::Scalar(Value::$t(x))) })* } }
impl TryVisit for Log {
    type Error = usize;
    visitor!(try_visit_usize usize, try_visit_u8 u8, try_visit_u16 u16, try_visit_u32 u32, try_visit_u64 u64, try_visit_u128 u128, try_visit_i8 i8, try_visit_i16 i16,
        try_visit_i32 i32, try_visit_i64 i64, try_visit_i128 i128, try_visit_bool bool, try_visit_char char, try_visit_f32 f32, try_visit_f64 f64);
    fn try_visit_string(&mut self, x: &String) -> Result<(), usize> { self.add(Leaf::Scalar(Value::String(x.clone()))) }
    fn try_visit_opaque(&mut self, x: &dyn Reflect, t: OpaqueType<'_>) -> Result<(), usize> {
        let n = if t.type_name() == x.type_name() { leak(t.type_name()) } else { "" };
        self.add(Leaf::Opaque(loc(x), n))
    }
}
fn leak(s: &str) -> &'static str { unsafe { &*(s as *const str) } }
pub fn visit<T: Leaves>(x: &T, stop: usize) {
    let mut want = Vec::new();
    x.leaves(&mut want);
    let td = <T as DescribeType>::type_descriptor();
    let mut log = Log { got: Vec::new(), stop };
    let s = snap(x);
    let r = try_visit(&mut log, x, td.get_type());
    check("visiting changes nothing", unchanged(x, s));
    let n = if stop < want.len() { stop + 1 } else { want.len() };
    check("every leaf is visited once, up to the first error", log.got.len() == n);
    let mut i = 0;
    while i < n {
        check("the leaves are visited in order, each with its own value and type", same_leaf(&log.got[i], &want[i]));
        i += 1;
    }
    check("the first error ends the visit and is its result", match r { Ok(()) => stop >= want.len(), Err(e) => e == stop && stop < want.len() });
}
/// a visitor that overrides nothing accepts everything
struct Silent;
impl TryVisit for Silent { type Error = std::convert::Infallible; }
pub fn visit_value<T: Leaves>(x: &T) {
    let mut want = Vec::new();
    x.leaves(&mut want);
    let v = x.to_value();
    let td = <T as DescribeType>::type_descriptor();
    let mut log = Log { got: Vec::new(), stop: usize::MAX };
    let r = try_visit(&mut log, &v, td.get_type());
    check("visiting the exported value visits the same leaves", r.is_ok() && log.got.len() == want.len());
    let mut i = 0;
    while i < want.len() && i < log.got.len() {
        check("visiting the exported value visits the same leaves", same_leaf(&log.got[i], &want[i]));
        i += 1;
    }
    check("by default every leaf is accepted", try_visit(&mut Silent, x, td.get_type()).is_ok());
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_visit(x: &$t, stop: usize) { visit::<$t>(x, stop) } })* };
}
macro_rules! obsv {
    ($($m:ident = $t:ty),* $(,)?) => { obs!($($m = $t),*); pub mod value { use super::*; $(pub mod $m { use super::*; pub fn ob_value(x: &$t) { visit_value::<$t>(x) } })* } };
}
obsv!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128, bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String,
    s3 = S3, sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, unit = Unit, empty = Empty, allskip = AllSkip, names = Names, bx = Bx, gen = Gen<i32, String>, noclone = NoClone, nodebug = NoDebug, nofrom = NoFrom, with = With, with_t = WithT,
    t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tbx = TBx, tgen = TGen<String>, raw = Raw, multi = Multi, tmulti = TMulti, big = Big, bigt = BigT,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<u8>, range_to = std::ops::RangeTo<u8>, range_to_incl = std::ops::RangeToInclusive<u8>, range_full = std::ops::RangeFull,
    vec2 = glam::Vec2, vec3 = glam::Vec3, mat3 = glam::Mat3, tup0 = (), tup1 = (i32,), tup2 = (i32, String), tup3 = (u8, S3, bool), tup11 = Tup11,
    e = E, e2 = E2, f = F<i32>, f2 = F2, share = Share, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>, vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<u8>>, vec_opt = Vec<Option<i32>>, vec_share = Vec<Share>,
    map = BTreeMap<String, i32>, map_s = BTreeMap<i32, T1>, map_vec = BTreeMap<u8, Vec<i32>>, boxed = Box<S3>);
obs!(cont = Cont, cgen = CGen<2>, nest = Nest, nest2 = Nest2, arr = [i32; 2], arr0 = [i32; 0], arr_s = [S3; 2], ops = Ops,
    nzusize = NonZeroUsize, nzu8 = NonZeroU8, nzu16 = NonZeroU16, nzu32 = NonZeroU32, nzu64 = NonZeroU64, nzu128 = NonZeroU128, nzi8 = NonZeroI8, nzi16 = NonZeroI16, nzi32 = NonZeroI32, nzi64 = NonZeroI64, nzi128 = NonZeroI128, duration = std::time::Duration);
/// a type that contains itself, to some depth
pub fn ob_rec(a: i32, b: i32, c: i32, d: u8, e: u8, f: u8, stop: usize) {
    visit(&Rec(a, vec![Rec(b, vec![], d), Rec(c, vec![Rec(b, vec![], e)], f)], f), stop)
}
/// the type given decides what is visited: parts of an object by the type of the part
pub fn ob_part(x: &Nest3, stop: usize) {
    let td = <Nest3 as DescribeType>::type_descriptor();
    let mut log = Log { got: Vec::new(), stop };
    let Some(t) = td.as_struct().and_then(|s| s.field_type("v")) else { return check("the type of a part is found", false) };
    let r = try_visit(&mut log, &x.v, t.get_type());
    check("a part is visited like an object of its own", log.got.len() == if stop < x.v.len() { stop + 1 } else { x.v.len() } && r.is_ok() == (stop >= x.v.len()));
}
/// dynamic objects standing for a type: fields by name, whatever their order, and only those of the type
fn dynamic(v: &dyn Reflect, ty: Type<'_>, want: &[Leaf], stop: usize) {
    let mut log = Log { got: Vec::new(), stop };
    let r = try_visit(&mut log, v, ty);
    check("a dynamic object is visited by the names of the type's fields", r.is_ok() == (stop >= want.len()) && log.got.len() == if stop < want.len() { stop + 1 } else { want.len() });
    let mut i = 0;
    while i < want.len() && i < log.got.len() {
        check("a dynamic object is visited in the order of the type's fields", same_leaf(&log.got[i], &want[i]));
        i += 1;
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct Pair { pub a: i32, pub b: i32 }
#[derive(Reflect, Clone, Debug)]
pub enum EPair { P { a: i32, b: i32 }, T(i32, u8), U }
pub fn ob_struct_order(a: i32, b: i32, extra: &str, x: u8, stop: usize) {
    assume(extra != "a" && extra != "b");
    let td = <Pair as DescribeType>::type_descriptor();
    let want = [Leaf::Scalar(Value::i32(a)), Leaf::Scalar(Value::i32(b))];
    dynamic(&struct_::StructValue::new().with_field("b", b).with_field("a", a), td.get_type(), &want, stop);
    dynamic(&struct_::StructValue::new().with_field(extra, x).with_field("b", b).with_field("a", a), td.get_type(), &want, stop);
    dynamic(&Value::StructValue(Box::new(struct_::StructValue::new().with_field("a", a).with_field(extra, x).with_field("b", b))), td.get_type(), &want, stop);
}
pub fn ob_variant_order(a: i32, b: i32, extra: &str, x: u8, stop: usize) {
    assume(extra != "a" && extra != "b");
    let td = <EPair as DescribeType>::type_descriptor();
    let want = [Leaf::Scalar(Value::i32(a)), Leaf::Scalar(Value::i32(b))];
    dynamic(&enum_::EnumValue::new_struct_variant("P").with_struct_field("b", b).with_struct_field("a", a).finish(), td.get_type(), &want, stop);
    dynamic(&enum_::EnumValue::new_struct_variant("P").with_struct_field(extra, x).with_struct_field("b", b).with_struct_field("a", a).finish(), td.get_type(), &want, stop);
    dynamic(&enum_::EnumValue::new_unit_variant("U"), td.get_type(), &[], stop);
    dynamic(&enum_::EnumValue::new_tuple_variant("T").with_tuple_field(a).with_tuple_field(x).with_tuple_field(b).finish(), td.get_type(), &[Leaf::Scalar(Value::i32(a)), Leaf::Scalar(Value::u8(x))], stop);
}
