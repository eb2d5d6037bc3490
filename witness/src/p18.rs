//! P18: a type's default value is made of the defaults of its parts, and exists exactly if they do.
use crate::support::*;
use crate::types::*;
use mirror_mirror::key_path::GetTypePath;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::num::*;

/// the default by declaration
pub trait Def: FromReflect + DescribeType { fn def() -> Option<Self>; }
macro_rules! scalars { ($($t:ty = $v:expr),*) => { $(impl Def for $t { fn def() -> Option<Self> { Some($v) } })* } }
scalars!(usize = 0, u8 = 0, u16 = 0, u32 = 0, u64 = 0, u128 = 0, i8 = 0, i16 = 0, i32 = 0, i64 = 0, i128 = 0, bool = false, char = '\0', f32 = 0.0, f64 = 0.0, String = String::new());
macro_rules! none { ($($t:ty),*) => { $(impl Def for $t { fn def() -> Option<Self> { None } })* } }
none!(NonZeroUsize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, std::time::Duration, Value);
impl<T: Def> Def for Box<T> { fn def() -> Option<Self> { Some(Box::new(T::def()?)) } }
impl<T: FromReflect + DescribeType> Def for Vec<T> { fn def() -> Option<Self> { Some(Vec::new()) } }
impl<K: FromReflect + DescribeType + Ord, V: FromReflect + DescribeType> Def for BTreeMap<K, V> { fn def() -> Option<Self> { Some(BTreeMap::new()) } }
impl<T: FromReflect + DescribeType> Def for Option<T> { fn def() -> Option<Self> { Some(None) } }
impl Def for Result<i32, String> { fn def() -> Option<Self> { Some(Ok(0)) } }
impl<T: FromReflect + DescribeType> Def for [T; 0] { fn def() -> Option<Self> { Some([]) } }
macro_rules! arrays { ($($n:literal: $($d:ident)*;)*) => { $(impl<T: Def> Def for [T; $n] { fn def() -> Option<Self> { Some([$({ let $d = T::def()?; $d }),*]) } })* } }
arrays!(1: d; 2: d d; 3: d d d;);
macro_rules! defs {
    ($($t:ty = $e:expr;)*) => { $(impl Def for $t { fn def() -> Option<Self> { Some($e) } })* };
}
macro_rules! d { () => { Def::def()? } }
defs! {
    S3 = S3 { a: d!(), b: d!(), c: d!() }; Sk1 = Sk1 { z: 0, a: d!(), b: d!() }; Sk2 = Sk2 { a: d!(), z: 0, b: d!() }; Unit = Unit; Empty = Empty {}; AllSkip = AllSkip { z: 0 };
    Names = Names { name: 0, index: 0, value: 0, f: 0, fields: 0 }; Bx = Bx { a: d!(), b: d!() }; Gen<i32, String> = Gen { a: d!(), b: d!(), c: d!() };
    T1 = T1(d!()); T3 = T3(d!(), d!(), d!()); TSk1 = TSk1(0, d!(), d!()); TSk2 = TSk2(d!(), 0, d!()); TBx = TBx(d!(), d!()); TGen<String> = TGen(d!(), d!());
    Raw = Raw { a: 0, r#type: 0, r#fn: 0 }; Multi = Multi { z: 0, a: d!(), y: String::new(), x: Vec::new(), b: d!(), w: None }; TMulti = TMulti(0, d!(), String::new(), Vec::new(), d!(), None);
    Big = Big { m: 0, l: 0, k: 0, j: 0, i: 0, h: 0, g: 0, f: 0, e: 0, d: 0, c: 0, a: 0 }; BigT = BigT(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
    Cont = Cont { v: d!(), o: d!(), m: d!(), t: d!(), ar: d!() }; CGen<2> = CGen { a: d!(), b: d!() };
    Nest2 = Nest2 { v: d!(), m: d!(), t: d!(), o: d!(), ar: d!(), bx: d!(), r: d!() };
    std::ops::Range<i32> = 0..0; std::ops::RangeFrom<u8> = 0..; std::ops::RangeTo<u8> = ..0; std::ops::RangeToInclusive<u8> = ..=0; std::ops::RangeFull = ..;
    glam::Vec2 = glam::Vec2 { x: d!(), y: d!() }; glam::Vec3 = glam::Vec3 { x: d!(), y: d!(), z: d!() };
    () = (); (i32,) = (d!(),); (i32, String) = (d!(), d!()); (i32, i32) = (d!(), d!()); (i32, T1) = (d!(), d!()); (u8, S3, bool) = (d!(), d!(), d!());
    E = E::U; F<i32> = F::A { name: 0, index: 0, value: 0 }; F2 = F2::A; Share = Share::A { x: d!(), y: d!() }; E2 = E2::Raw { r#type: 0, a: 0 }; Disc = Disc::A;
    FirstT = FirstT::A(d!(), d!(), 0); FirstS = FirstS::A { a: d!(), z: 0, b: d!() };
    NoneS = NoneS { a: d!(), b: d!(), c: d!() }; NoneT = NoneT(d!(), d!()); NoneE = NoneE::A(d!(), d!()); NoneE2 = NoneE2::A { a: d!(), b: d!() }; SomeE = SomeE::A; (i32, NonZeroU8) = (d!(), d!()); NoneSk = NoneSk { a: d!(), b: None };
    InS = InS { v: d!(), m: d!(), o: d!(), ar: d!() }; Tree = Tree::Leaf; Chain = Chain { v: d!(), next: d!() }; Opq = Opq; HasOpq = HasOpq { a: d!(), o: d!() };
}
#[derive(Reflect, Clone, Debug)]
pub enum FirstT { A(i32, Vec<i32>, #[reflect(skip)] u8), B }
#[derive(Reflect, Clone, Debug)]
pub enum FirstS { #[reflect(skip)] H, A { a: S3, #[reflect(skip)] z: u8, b: bool }, B }
/// without a default: one part has none
#[derive(Reflect, Clone, Debug)]
pub struct NoneS { pub a: i32, pub b: NonZeroU8, pub c: String }
#[derive(Reflect, Clone, Debug)]
pub struct NoneT(pub std::time::Duration, pub i32);
#[derive(Reflect, Clone, Debug)]
pub enum NoneE { A(i32, Value), B }
#[derive(Reflect, Clone, Debug)]
pub enum NoneE2 { A { a: NoneS, b: i32 }, B }
/// with one: the part without a default is not part of the default
#[derive(Reflect, Clone, Debug)]
pub enum SomeE { A, B(NonZeroU8) }
#[derive(Reflect, Clone, Debug)]
pub struct NoneSk { pub a: i32, #[reflect(skip)] pub b: Option<NonZeroU8> }
#[derive(Reflect, Clone, Debug)]
pub struct InS { pub v: Vec<NonZeroU8>, pub m: BTreeMap<NonZeroU8, Value>, pub o: Option<NonZeroU8>, pub ar: [NonZeroU8; 0] }
/// referring to themselves, but not in the default
#[derive(Reflect, Clone, Debug)]
pub enum Tree { Leaf, Node(Box<Tree>, Box<Tree>) }
#[derive(Reflect, Clone, Debug)]
pub struct Chain { pub v: i32, pub next: Option<Box<Chain>> }
/// opaque with a declared default
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opq;
mod opq_impl {
    use super::Opq;
    use mirror_mirror::__private::*;
    impl DescribeType for Opq {
        fn build(graph: &mut TypeGraph) -> NodeId {
            graph.get_or_build_node_with::<Self, _>(|graph| OpaqueNode::new::<Self>(Default::default(), graph).default_value(7))
        }
    }
    impl Reflect for Opq {
        fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> { <Self as DescribeType>::type_descriptor() }
        fn as_any(&self) -> &dyn Any { self }
        fn as_any_mut(&mut self) -> &mut dyn Any { self }
        fn as_reflect(&self) -> &dyn Reflect { self }
        fn as_reflect_mut(&mut self) -> &mut dyn Reflect { self }
        fn reflect_owned(self: Box<Self>) -> ReflectOwned { ReflectOwned::Opaque(self) }
        fn reflect_ref(&self) -> ReflectRef<'_> { ReflectRef::Opaque(self) }
        fn reflect_mut(&mut self) -> ReflectMut<'_> { ReflectMut::Opaque(self) }
        fn patch(&mut self, _: &dyn Reflect) {}
        fn to_value(&self) -> Value { 7.to_value() }
        fn clone_reflect(&self) -> Box<dyn Reflect> { Box::new(*self) }
        fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Opq") }
    }
    impl FromReflect for Opq {
        fn from_reflect(r: &dyn Reflect) -> Option<Self> { (i32::from_reflect(r)? == 7).then_some(Opq) }
    }
}
#[derive(Reflect, Clone, Debug)]
pub struct HasOpq { pub a: i32, pub o: Opq }

fn is(v: Option<Value>, w: Option<&Value>) -> bool {
    match (v, w) { (Some(v), Some(w)) => veq(&v, w), (None, None) => true, _ => false }
}
fn default<T: Def>() {
    let td = <T as DescribeType>::type_descriptor();
    let want = T::def();
    let value = want.as_ref().map(|x| x.to_value());
    check("there is a default value exactly if every part of it has one", td.default_value().is_some() == want.is_some());
    check("a default value is announced exactly if there is one", td.has_default_value() == want.is_some() && td.get_type().has_default_value() == want.is_some());
    check("the default value is that of each part", is(td.default_value(), value.as_ref()) && is(td.get_type().default_value(), value.as_ref()));
    if let (Some(v), Some(want)) = (td.default_value(), want) {
        match T::from_reflect(&v) {
            Some(x) => check("the default value converts to the default object", veq(&x, &want)),
            None => check("the default value converts to the type", false),
        }
    }
    let t = td.get_type();
    let at = td.type_at(&mirror_mirror::key_path::KeyPath::default());
    check("the default at a path is that of the type there", at.map_or(false, |at| is(at.default_value(), value.as_ref()) && at.has_default_value() == value.is_some()));
    let (own, has) = match t {
        Type::Struct(t) => (t.default_value(), t.has_default_value()),
        Type::TupleStruct(t) => (t.default_value(), t.has_default_value()),
        Type::Tuple(t) => (t.default_value(), t.has_default_value()),
        Type::Enum(t) => (t.default_value(), t.has_default_value()),
        Type::List(t) => (Some(t.default_value()), t.has_default_value()),
        Type::Array(t) => (t.default_value(), t.has_default_value()),
        Type::Map(t) => (Some(t.default_value()), t.has_default_value()),
        Type::Scalar(t) => (Some(t.default_value()), t.has_default_value()),
        Type::Opaque(t) => (t.default_value(), t.has_default_value()),
    };
    check("the default of a type seen by kind is that of the type", is(own, value.as_ref()) && has == value.is_some());
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_default() { default::<$t>() } })* };
}
obs!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128, bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String,
    s3 = S3, sk1 = Sk1, sk2 = Sk2, unit = Unit, empty = Empty, allskip = AllSkip, names = Names, bx = Bx, gen = Gen<i32, String>, t1 = T1, t3 = T3, tsk1 = TSk1, tsk2 = TSk2, tbx = TBx, tgen = TGen<String>,
    raw = Raw, multi = Multi, tmulti = TMulti, big = Big, bigt = BigT, cont = Cont, cgen = CGen<2>, nest2 = Nest2,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<u8>, range_to = std::ops::RangeTo<u8>, range_to_incl = std::ops::RangeToInclusive<u8>, range_full = std::ops::RangeFull, vec2 = glam::Vec2, vec3 = glam::Vec3,
    tup0 = (), tup1 = (i32,), tup2 = (i32, String), tup3 = (u8, S3, bool), tup_none = (i32, NonZeroU8),
    e = E, e2 = E2, f = F<i32>, f2 = F2, share = Share, disc = Disc, first_t = FirstT, first_s = FirstS, option = Option<i32>, option_none = Option<NonZeroU8>, result = Result<i32, String>,
    vec = Vec<i32>, vec_none = Vec<NonZeroU8>, map = BTreeMap<String, i32>, map_none = BTreeMap<u8, NonZeroU8>, arr0 = [i32; 0], arr0_none = [NonZeroU8; 0], arr1_none = [NonZeroU8; 1], arr2 = [i32; 2], arr3 = [S3; 3], arr_arr = [[u8; 2]; 2], arr_arr0 = [[NonZeroU8; 0]; 2],
    nz_usize = NonZeroUsize, nz_u8 = NonZeroU8, nz_u16 = NonZeroU16, nz_u32 = NonZeroU32, nz_u64 = NonZeroU64, nz_u128 = NonZeroU128, nz_i8 = NonZeroI8, nz_i16 = NonZeroI16, nz_i32 = NonZeroI32, nz_i64 = NonZeroI64, nz_i128 = NonZeroI128, duration = std::time::Duration, value = Value,
    none_s = NoneS, none_t = NoneT, none_e = NoneE, none_e2 = NoneE2, some_e = SomeE, none_sk = NoneSk, in_s = InS, tree = Tree, chain = Chain, opq = Opq, has_opq = HasOpq, boxed = Box<S3>, box_none = Box<NonZeroU8>, vec_opq = Vec<HasOpq>, arr_opq = [Opq; 2]);

/// the default of a variant is a value of that variant
fn variant<T: FromReflect + DescribeType>(name: &str, want: Option<T>) {
    let td = <T as DescribeType>::type_descriptor();
    let Some(v) = td.as_enum().and_then(|e| e.variant(name)) else { return check("the variant is found", false) };
    let value = want.as_ref().map(|x| x.to_value());
    check("the default value of a variant is that of each field", is(v.default_value(), value.as_ref()));
    check("a variant's default value is announced exactly if there is one", v.has_default_value() == want.is_some());
    let (own, has) = match v {
        Variant::Struct(t) => (t.default_value(), t.has_default_value()),
        Variant::Tuple(t) => (t.default_value(), t.has_default_value()),
        Variant::Unit(t) => (Some(t.default_value()), t.has_default_value()),
    };
    check("the default of a variant seen by kind is that of the variant", is(own, value.as_ref()) && has == value.is_some());
}
pub fn ob_variants_e() {
    variant("U", Some(E::U));
    variant("T", Some(E::T(0, 0)));
    variant("S", Some(E::S { a: 0, b: 0 }));
    variant("TSk1", Some(E::TSk1(0, 0, 0)));
    variant("TSk2", Some(E::TSk2(0, 0, 0)));
    variant("SSk1", Some(E::SSk1 { z: 0, a: 0, b: 0 }));
    variant("SSk2", Some(E::SSk2 { z: 0, a: 0, b: 0 }));
    variant("R", Some(E::R { a: 0, b: 0 }));
    variant("U2", Some(E::U2));
}
pub fn ob_variants_share() {
    variant("A", Some(Share::A { x: 0, y: String::new() }));
    variant("B", Some(Share::B { x: String::new(), y: 0, w: 0 }));
    variant("C", Some(Share::C(0, String::new())));
    variant("D", Some(Share::D(String::new(), 0)));
    variant("G", Some(Share::G { w: false }));
}
pub fn ob_variants_none() {
    variant("A", None::<NoneE>);
    variant("B", Some(NoneE::B));
    variant("A", None::<NoneE2>);
    variant("B", Some(NoneE2::B));
    variant("A", Some(SomeE::A));
    variant("B", None::<SomeE>);
    variant("None", Some(None::<NonZeroU8>));
    variant("Some", None::<Option<NonZeroU8>>);
    variant("Some", Some(Some(0)));
    variant("Ok", Some(Ok::<i32, String>(0)));
    variant("Err", Some(Err::<i32, String>(String::new())));
}

/// types without a finite default value
#[derive(Reflect, Clone, Debug)]
pub enum Deep { Node(Box<Deep>), Leaf }
#[derive(Reflect, Clone, Debug)]
pub struct DeepS { pub a: i32, pub next: Box<DeepS> }
pub fn ob_deep() {
    check("a type that contains itself has no default value", <Deep as DescribeType>::type_descriptor().default_value().is_none());
}
pub fn ob_deep_has() {
    check("a type that contains itself has no default value", !<Deep as DescribeType>::type_descriptor().has_default_value());
}
