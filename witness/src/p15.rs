//! P15: a type's description lists exactly its reflected parts.
use crate::support::*;
use crate::types::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::any::type_name;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq)]
pub enum K { Struct, TupleStruct, Tuple, Enum, List, Array, Map, Scalar, Opaque }
pub fn kind(t: Type<'_>) -> K {
    match t {
        Type::Struct(_) => K::Struct,
        Type::TupleStruct(_) => K::TupleStruct,
        Type::Tuple(_) => K::Tuple,
        Type::Enum(_) => K::Enum,
        Type::List(_) => K::List,
        Type::Array(_) => K::Array,
        Type::Map(_) => K::Map,
        Type::Scalar(_) => K::Scalar,
        Type::Opaque(_) => K::Opaque,
    }
}
pub type Meta = &'static [(&'static str, M)];
#[derive(Clone, Copy)]
pub enum M { I(i32), S(&'static str), B(bool), U(u8), V(&'static [i32]) }
pub type Docs = &'static [&'static str];
/// a field of the description: name (empty if unnamed), kind and type name of its type, docs, metadata
#[derive(Clone, Copy)]
pub struct F { pub name: &'static str, pub kind: K, pub ty: fn() -> &'static str, pub docs: Docs, pub meta: Meta }
pub fn f<T>(name: &'static str, kind: K) -> F { F { name, kind, ty: type_name::<T>, docs: &[], meta: &[] } }
impl F {
    pub fn docs(self, docs: Docs) -> F { F { docs, ..self } }
    pub fn meta(self, meta: Meta) -> F { F { meta, ..self } }
}
#[derive(Clone, Copy, PartialEq)]
pub enum VK { Struct, Tuple, Unit }
#[derive(Clone, Copy)]
pub struct V { pub name: &'static str, pub kind: VK, pub fields: &'static [F], pub docs: Docs, pub meta: Meta }

fn meta_is(got: Option<&dyn Reflect>, want: M) -> bool {
    let Some(r) = got else { return false };
    match want {
        M::I(x) => r.downcast_ref::<i32>() == Some(&x),
        M::B(x) => r.downcast_ref::<bool>() == Some(&x),
        M::U(x) => r.downcast_ref::<u8>() == Some(&x),
        M::S(x) => r.downcast_ref::<String>().map_or(false, |s| s == x),
        M::V(x) => <Vec<i32>>::from_reflect(r).map_or(false, |v| v.len() == x.len() && (0..v.len()).all(|i| v[i] == x[i])),
    }
}
/// docs and metadata
pub fn info<'a, G: GetMeta<'a> + Copy>(g: G, docs: Docs, meta: Meta, name: &str) {
    let d = g.docs();
    check("the docs are the doc comment, line by line", d.len() == docs.len() && d.iter().zip(docs).all(|(a, b)| a == b));
    for (k, v) in meta {
        check("the metadata is what was declared", meta_is(g.meta(k), *v));
        match *v {
            M::I(x) => check("typed metadata", g.get_meta::<i32>(k) == Some(x) && g.get_meta::<String>(k).is_none()),
            M::S(x) => check("typed metadata", g.get_meta::<String>(k).map_or(false, |s| s == x) && g.get_meta::<i32>(k).is_none()),
            _ => {}
        }
    }
    check("there is no metadata but the declared", g.meta(name).is_some() == meta.iter().any(|(k, _)| *k == name));
}
fn ty_is(t: Type<'_>, w: &F) {
    check("a field has its declared type", kind(t) == w.kind && t.type_name() == (w.ty)());
}
fn named(n: NamedField<'_>, w: &F) {
    check("the fields are listed by name, in declaration order", n.name() == w.name);
    ty_is(n.get_type(), w);
}
fn unnamed(n: UnnamedField<'_>, w: &F) { ty_is(n.get_type(), w) }

pub fn struct_<T: DescribeType>(fs: &[F], docs: Docs, meta: Meta, name: &str, i: usize) {
    let td = T::type_descriptor();
    let t = td.get_type();
    check("the kind of the type", kind(t) == K::Struct && t.type_name() == type_name::<T>() && td.type_name() == type_name::<T>());
    info(t, docs, meta, name);
    let Type::Struct(s) = t else { return };
    info(s, docs, meta, name);
    check("the name of the type", s.type_name() == type_name::<T>());
    check("as many fields as reflected", s.fields_len() == fs.len() && s.field_types().count() == fs.len());
    for (n, w) in s.field_types().zip(fs) {
        named(n, w);
        info(n, w.docs, w.meta, name);
    }
    match (s.field_type(name), fs.iter().find(|w| w.name == name)) {
        (Some(n), Some(w)) => named(n, w),
        (a, b) => check("a field is found by name exactly if reflected", a.is_none() && b.is_none()),
    }
    match (s.field_type_at(i), fs.get(i)) {
        (Some(n), Some(w)) => named(n, w),
        (a, b) => check("a field is found by position exactly if reflected", a.is_none() && b.is_none()),
    }
}
pub fn tuple_struct<T: DescribeType>(fs: &[F], docs: Docs, meta: Meta, name: &str, i: usize) {
    let td = T::type_descriptor();
    let t = td.get_type();
    check("the kind of the type", kind(t) == K::TupleStruct && t.type_name() == type_name::<T>());
    info(t, docs, meta, name);
    let Type::TupleStruct(s) = t else { return };
    info(s, docs, meta, name);
    check("the name of the type", s.type_name() == type_name::<T>());
    check("as many fields as reflected", s.fields_len() == fs.len() && s.field_types().count() == fs.len());
    for (n, w) in s.field_types().zip(fs) {
        unnamed(n, w);
        info(n, w.docs, w.meta, name);
    }
    match (s.field_type_at(i), fs.get(i)) {
        (Some(n), Some(w)) => { unnamed(n, w); info(n, w.docs, w.meta, name) }
        (a, b) => check("a field is found by position exactly if reflected", a.is_none() && b.is_none()),
    }
}
pub fn tuple<T: DescribeType>(fs: &[F], name: &str, i: usize) {
    let td = T::type_descriptor();
    let t = td.get_type();
    check("the kind of the type", kind(t) == K::Tuple && t.type_name() == type_name::<T>());
    info(t, &[], &[], name);
    let Type::Tuple(s) = t else { return };
    check("the name of the type", s.type_name() == type_name::<T>());
    check("as many fields as reflected", s.fields_len() == fs.len() && s.field_types().count() == fs.len());
    for (n, w) in s.field_types().zip(fs) {
        unnamed(n, w);
        info(n, w.docs, w.meta, name);
    }
    match (s.field_type_at(i), fs.get(i)) {
        (Some(n), Some(w)) => unnamed(n, w),
        (a, b) => check("a field is found by position exactly if reflected", a.is_none() && b.is_none()),
    }
}
fn variant<T: DescribeType>(v: Variant<'_>, w: &V, name: &str, i: usize) {
    check("the variants are listed by name and kind, in declaration order", v.name() == w.name && w.kind == match v { Variant::Struct(_) => VK::Struct, Variant::Tuple(_) => VK::Tuple, Variant::Unit(_) => VK::Unit });
    check("a variant belongs to its enum", v.type_name() == type_name::<T>() && v.enum_type().type_name() == type_name::<T>());
    info(v, w.docs, w.meta, name);
    check("as many fields as reflected", v.fields_len() == w.fields.len() && v.field_types().count() == w.fields.len());
    for (n, w) in v.field_types().zip(w.fields) {
        check("the fields are listed by name, in declaration order", n.name().unwrap_or("") == w.name && n.name().is_some() == matches!(n, VariantField::Named(_)));
        ty_is(n.get_type(), w);
        info(n, w.docs, w.meta, name);
    }
    match (v.field_type_at(i), w.fields.get(i)) {
        (Some(n), Some(w)) => { check("a field is found by position exactly if reflected", n.name().unwrap_or("") == w.name); ty_is(n.get_type(), w) }
        (a, b) => check("a field is found by position exactly if reflected", a.is_none() && b.is_none()),
    }
    match (v.field_type(name), w.fields.iter().find(|x| x.name == name && w.kind == VK::Struct)) {
        (Some(n), Some(w)) => named(n, w),
        (a, b) => check("a field is found by name exactly if reflected", a.is_none() && b.is_none()),
    }
    match v {
        Variant::Struct(v) => {
            check("typed view of the variant", v.name() == w.name && v.type_name() == type_name::<T>() && v.fields_len() == w.fields.len() && v.field_types().count() == w.fields.len());
            info(v, w.docs, w.meta, name);
            for (n, w) in v.field_types().zip(w.fields) { named(n, w) }
        }
        Variant::Tuple(v) => {
            check("typed view of the variant", v.name() == w.name && v.type_name() == type_name::<T>() && v.fields_len() == w.fields.len() && v.field_types().count() == w.fields.len());
            info(v, w.docs, w.meta, name);
            for (n, w) in v.field_types().zip(w.fields) { unnamed(n, w) }
        }
        Variant::Unit(v) => {
            check("typed view of the variant", v.name() == w.name && v.type_name() == type_name::<T>() && w.fields.is_empty());
            info(v, w.docs, w.meta, name);
        }
    }
}
pub fn enum_<T: DescribeType>(vs: &[V], docs: Docs, meta: Meta, name: &str, i: usize) {
    let td = T::type_descriptor();
    let t = td.get_type();
    check("the kind of the type", kind(t) == K::Enum && t.type_name() == type_name::<T>());
    info(t, docs, meta, name);
    let Type::Enum(e) = t else { return };
    info(e, docs, meta, name);
    check("the name of the type", e.type_name() == type_name::<T>());
    check("as many variants as reflected", e.variants_len() == vs.len() && e.variants().count() == vs.len());
    for (v, w) in e.variants().zip(vs) { variant::<T>(v, w, name, i) }
    match (e.variant(name), vs.iter().find(|w| w.name == name)) {
        (Some(v), Some(w)) => check("a variant is found by name exactly if reflected", v.name() == w.name && v.fields_len() == w.fields.len()),
        (a, b) => check("a variant is found by name exactly if reflected", a.is_none() && b.is_none()),
    }
}

/// A documented struct
///
/// second paragraph
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(count = 7, label = "top", flag = true))]
pub struct Doc {
    /// first field
    #[reflect(meta(unit = "m", min = -1))]
    pub b: i32,
    pub a: String,
    /// never seen
    #[reflect(skip, meta(hidden = 1))]
    pub z: i32,
    #[reflect(meta(list = vec![1, 2, 3], wide = 3u8))]
    pub c: Vec<i32>,
    /// last
    /// field
    pub o: Option<i32>,
}
pub fn ob_doc(name: &str, i: usize) {
    struct_::<Doc>(&[
        f::<i32>("b", K::Scalar).docs(&[" first field"]).meta(&[("unit", M::S("m")), ("min", M::I(-1))]),
        f::<String>("a", K::Scalar),
        f::<Vec<i32>>("c", K::List).meta(&[("list", M::V(&[1, 2, 3])), ("wide", M::U(3))]),
        f::<Option<i32>>("o", K::Enum).docs(&[" last", " field"]),
    ], &[" A documented struct", "", " second paragraph"], &[("count", M::I(7)), ("label", M::S("top")), ("flag", M::B(true))], name, i)
}
/** A documented tuple struct */
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(a = 1))]
pub struct DocT(#[reflect(skip)] pub i32, #[reflect(meta(b = 2))] pub [i32; 2], /** second */ pub BTreeMap<String, S3>, #[reflect(meta(c = "x"))] pub (i32, String), pub T1);
pub fn ob_doc_t(name: &str, i: usize) {
    tuple_struct::<DocT>(&[
        f::<[i32; 2]>("", K::Array).meta(&[("b", M::I(2))]),
        f::<BTreeMap<String, S3>>("", K::Map).docs(&[" second "]),
        f::<(i32, String)>("", K::Tuple).meta(&[("c", M::S("x"))]),
        f::<T1>("", K::TupleStruct),
    ], &[" A documented tuple struct "], &[("a", M::I(1))], name, i)
}
/// A documented enum
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(kind = "enum"))]
pub enum DocE {
    /// no fields
    #[reflect(meta(n = 0))]
    U,
    /// hidden
    #[reflect(skip)]
    H(i32),
    #[reflect(meta(n = 1, m = "one"))]
    T(#[reflect(meta(p = 1))] i32, /** sec */ #[reflect(skip)] String, /** third */ bool),
    /// named
    S {
        #[reflect(meta(q = 1))]
        y: i32,
        /// x
        x: S3,
        #[reflect(skip)]
        w: i32,
    },
    V,
}
pub fn ob_doc_e(name: &str, i: usize) {
    enum_::<DocE>(&[
        V { name: "U", kind: VK::Unit, fields: &[], docs: &[" no fields"], meta: &[("n", M::I(0))] },
        V { name: "T", kind: VK::Tuple, fields: &[F { name: "", kind: K::Scalar, ty: type_name::<i32>, docs: &[], meta: &[("p", M::I(1))] }, F { name: "", kind: K::Scalar, ty: type_name::<bool>, docs: &[" third "], meta: &[] }], docs: &[], meta: &[("n", M::I(1)), ("m", M::S("one"))] },
        V { name: "S", kind: VK::Struct, fields: &[F { name: "y", kind: K::Scalar, ty: type_name::<i32>, docs: &[], meta: &[("q", M::I(1))] }, F { name: "x", kind: K::Struct, ty: type_name::<S3>, docs: &[" x"], meta: &[] }], docs: &[" named"], meta: &[] },
        V { name: "V", kind: VK::Unit, fields: &[], docs: &[], meta: &[] },
    ], &[" A documented enum"], &[("kind", M::S("enum"))], name, i)
}
macro_rules! structs {
    ($($o:ident = $t:ty { $($n:expr => $ft:ty : $k:ident),* };)*) => { $(pub fn $o(name: &str, i: usize) { struct_::<$t>(&[$(f::<$ft>($n, K::$k)),*], &[], &[], name, i) })* };
}
structs! {
    ob_s3 = S3 { "a" => i32: Scalar, "b" => i32: Scalar, "c" => String: Scalar };
    ob_sk1 = Sk1 { "a" => i32: Scalar, "b" => i32: Scalar };
    ob_sk2 = Sk2 { "a" => i32: Scalar, "b" => i32: Scalar };
    ob_sk3 = Sk3 { "a" => i32: Scalar, "b" => i32: Scalar };
    ob_unit = Unit {};
    ob_empty = Empty {};
    ob_bx = Bx { "a" => i32: Scalar, "b" => S3: Struct };
    ob_gen = Gen<String, S3> { "a" => String: Scalar, "b" => S3: Struct, "c" => String: Scalar };
    ob_gen2 = Gen<i32, Gen<u8, bool>> { "a" => i32: Scalar, "b" => Gen<u8, bool>: Struct, "c" => i32: Scalar };
    ob_raw = Raw { "a" => i32: Scalar, "r#type" => i32: Scalar, "r#fn" => i32: Scalar };
    ob_big = Big { "m" => i32: Scalar, "l" => i32: Scalar, "k" => i32: Scalar, "j" => i32: Scalar, "i" => i32: Scalar, "h" => i32: Scalar, "g" => i32: Scalar, "f" => i32: Scalar, "e" => i32: Scalar, "d" => i32: Scalar, "c" => i32: Scalar, "a" => i32: Scalar };
    ob_cont = Cont { "v" => Vec<i32>: List, "o" => Option<i32>: Enum, "m" => BTreeMap<i32, i32>: Map, "t" => (i32, i32): Tuple, "ar" => [i32; 2]: Array };
    ob_cgen = CGen<2> { "a" => [i32; 2]: Array, "b" => i32: Scalar };
    ob_multi = Multi { "a" => i32: Scalar, "b" => String: Scalar };
    ob_nest = Nest { "s" => S3: Struct, "e" => E: Enum, "v" => Vec<S3>: List, "m" => BTreeMap<String, i32>: Map, "t" => (i32, T1): Tuple, "o" => Option<S3>: Enum, "ar" => [i32; 2]: Array, "bx" => T1: TupleStruct };
    ob_range = std::ops::Range<i32> { "start" => i32: Scalar, "end" => i32: Scalar };
    ob_range_from = std::ops::RangeFrom<u8> { "start" => u8: Scalar };
    ob_range_to = std::ops::RangeTo<u8> { "end" => u8: Scalar };
    ob_range_to_incl = std::ops::RangeToInclusive<u8> { "end" => u8: Scalar };
    ob_range_full = std::ops::RangeFull {};
    ob_vec2 = glam::Vec2 { "x" => f32: Scalar, "y" => f32: Scalar };
    ob_vec3 = glam::Vec3 { "x" => f32: Scalar, "y" => f32: Scalar, "z" => f32: Scalar };
    ob_mat3 = glam::Mat3 { "x_axis" => glam::Vec3: Struct, "y_axis" => glam::Vec3: Struct, "z_axis" => glam::Vec3: Struct };
}
macro_rules! tuple_structs {
    ($($o:ident = $t:ty { $($ft:ty : $k:ident),* };)*) => { $(pub fn $o(name: &str, i: usize) { tuple_struct::<$t>(&[$(f::<$ft>("", K::$k)),*], &[], &[], name, i) })* };
}
tuple_structs! {
    ob_t1 = T1 { i32: Scalar };
    ob_t3 = T3 { i32: Scalar, i32: Scalar, String: Scalar };
    ob_tsk1 = TSk1 { i32: Scalar, i32: Scalar };
    ob_tsk2 = TSk2 { i32: Scalar, i32: Scalar };
    ob_tsk3 = TSk3 { i32: Scalar, i32: Scalar };
    ob_tbx = TBx { i32: Scalar, S3: Struct };
    ob_tmulti = TMulti { i32: Scalar, String: Scalar };
    ob_tgen = TGen<Vec<i32>> { Vec<i32>: List, i32: Scalar };
}
macro_rules! tuples {
    ($($o:ident = $t:ty { $($ft:ty : $k:ident),* };)*) => { $(pub fn $o(name: &str, i: usize) { tuple::<$t>(&[$(f::<$ft>("", K::$k)),*], name, i) })* };
}
tuples! {
    ob_tup0 = () {};
    ob_tup1 = (i32,) { i32: Scalar };
    ob_tup2 = (i32, T1) { i32: Scalar, T1: TupleStruct };
    ob_tup3 = (u8, String, Vec<i32>) { u8: Scalar, String: Scalar, Vec<i32>: List };
    ob_tup4 = (u8, u16, u32, u64) { u8: Scalar, u16: Scalar, u32: Scalar, u64: Scalar };
    ob_tup5 = (u8, u16, u32, u64, u128) { u8: Scalar, u16: Scalar, u32: Scalar, u64: Scalar, u128: Scalar };
    ob_tup7 = (u8, u16, u32, u64, u128, i8, i16) { u8: Scalar, u16: Scalar, u32: Scalar, u64: Scalar, u128: Scalar, i8: Scalar, i16: Scalar };
    ob_tup16 = (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, bool, char, f32, f64, String) { u8: Scalar, u16: Scalar, u32: Scalar, u64: Scalar, u128: Scalar, i8: Scalar, i16: Scalar, i32: Scalar, i64: Scalar, i128: Scalar, usize: Scalar, bool: Scalar, char: Scalar, f32: Scalar, f64: Scalar, String: Scalar };
}
const I: F = F { name: "", kind: K::Scalar, ty: type_name::<i32>, docs: &[], meta: &[] };
const ST: F = F { name: "", kind: K::Scalar, ty: type_name::<String>, docs: &[], meta: &[] };
const fn v(name: &'static str, kind: VK, fields: &'static [F]) -> V { V { name, kind, fields, docs: &[], meta: &[] } }
pub fn ob_e(name: &str, i: usize) {
    enum_::<E>(&[
        v("U", VK::Unit, &[]), v("T", VK::Tuple, &[I, I]), v("S", VK::Struct, &[F { name: "a", ..I }, F { name: "b", ..I }]), v("TSk1", VK::Tuple, &[I, I]), v("TSk2", VK::Tuple, &[I, I]),
        v("SSk1", VK::Struct, &[F { name: "a", ..I }, F { name: "b", ..I }]), v("SSk2", VK::Struct, &[F { name: "a", ..I }, F { name: "b", ..I }]), v("R", VK::Struct, &[F { name: "b", ..I }, F { name: "a", ..I }]), v("U2", VK::Unit, &[]),
    ], &[], &[], name, i)
}
pub fn ob_e2(name: &str, i: usize) {
    enum_::<E2>(&[
        v("Raw", VK::Struct, &[F { name: "r#type", ..I }, F { name: "a", ..I }]), v("r#Move", VK::Tuple, &[I]), v("Multi", VK::Tuple, &[I, ST]), v("MultiS", VK::Struct, &[F { name: "b", ..I }, F { name: "a", ..ST }]),
        v("Big", VK::Tuple, &[I, I, I, I, I, I, I, I, I, I, I]), v("One", VK::Tuple, &[I]), v("AllS", VK::Struct, &[]), v("AllT", VK::Tuple, &[]), v("EmptyS", VK::Struct, &[]), v("EmptyT", VK::Tuple, &[]),
    ], &[], &[], name, i)
}
pub fn ob_disc(name: &str, i: usize) { enum_::<Disc>(&[v("A", VK::Unit, &[]), v("B", VK::Unit, &[]), v("C", VK::Unit, &[])], &[], &[], name, i) }
pub fn ob_option(name: &str, i: usize) { enum_::<Option<i32>>(&[v("None", VK::Unit, &[]), v("Some", VK::Tuple, &[I])], &[], &[], name, i) }
pub fn ob_result(name: &str, i: usize) { enum_::<Result<i32, String>>(&[v("Ok", VK::Tuple, &[I]), v("Err", VK::Tuple, &[ST])], &[], &[], name, i) }
pub fn ob_infallible(name: &str, i: usize) { enum_::<std::convert::Infallible>(&[], &[], &[], name, i) }

fn plain<T: DescribeType>(k: K, name: &str) {
    let td = T::type_descriptor();
    let t = td.get_type();
    check("the kind of the type", kind(t) == k && t.type_name() == type_name::<T>() && td.type_name() == type_name::<T>());
    info(t, &[], &[], name);
}
pub fn ob_list(name: &str) {
    plain::<Vec<String>>(K::List, name);
    let td = <Vec<String> as DescribeType>::type_descriptor();
    let l = td.as_list();
    check("element type of a list", l.map_or(false, |l| l.type_name() == type_name::<Vec<String>>() && l.element_type().type_name() == type_name::<String>() && kind(l.element_type()) == K::Scalar));
    let td = <Vec<Vec<S3>> as DescribeType>::type_descriptor();
    check("element type of a list", td.as_list().and_then(|l| l.element_type().as_list()).map_or(false, |l| l.type_name() == type_name::<Vec<S3>>() && l.element_type().type_name() == type_name::<S3>() && kind(l.element_type()) == K::Struct));
}
pub fn ob_array(name: &str) {
    plain::<[u8; 3]>(K::Array, name);
    let td = <[u8; 3] as DescribeType>::type_descriptor();
    check("element type and length of an array", td.as_array().map_or(false, |a| a.type_name() == type_name::<[u8; 3]>() && a.len() == 3 && !a.is_empty() && a.element_type().type_name() == "u8" && kind(a.element_type()) == K::Scalar));
    let td = <[S3; 0] as DescribeType>::type_descriptor();
    check("element type and length of an array", td.as_array().map_or(false, |a| a.len() == 0 && a.is_empty() && a.element_type().type_name() == type_name::<S3>()));
}
pub fn ob_map(name: &str) {
    plain::<BTreeMap<u8, String>>(K::Map, name);
    let td = <BTreeMap<u8, T1> as DescribeType>::type_descriptor();
    check("key and value type of a map", td.as_map().map_or(false, |m| m.type_name() == type_name::<BTreeMap<u8, T1>>() && m.key_type().type_name() == "u8" && kind(m.key_type()) == K::Scalar && m.value_type().type_name() == type_name::<T1>() && kind(m.value_type()) == K::TupleStruct));
}
macro_rules! scalars {
    ($($o:ident $t:ident)*) => { $(pub fn $o(name: &str) {
        plain::<$t>(K::Scalar, name);
        let td = <$t as DescribeType>::type_descriptor();
        check("which scalar", matches!(td.get_type(), Type::Scalar(ScalarType::$t)) && td.as_scalar() == Some(ScalarType::$t) && ScalarType::$t.type_name() == type_name::<$t>());
        let td = <Box<$t> as DescribeType>::type_descriptor();
        check("a box is described as its content", matches!(td.get_type(), Type::Scalar(ScalarType::$t)));
    })* };
}
scalars!(ob_usize usize ob_u8 u8 ob_u16 u16 ob_u32 u32 ob_u64 u64 ob_u128 u128 ob_i8 i8 ob_i16 i16 ob_i32 i32 ob_i64 i64 ob_i128 i128 ob_bool bool ob_char char ob_f32 f32 ob_f64 f64 ob_string String);
macro_rules! opaques {
    ($($o:ident $t:ty;)*) => { $(pub fn $o(name: &str) { plain::<$t>(K::Opaque, name) })* };
}
opaques!(ob_nz_usize std::num::NonZeroUsize; ob_nz_u8 std::num::NonZeroU8; ob_nz_u16 std::num::NonZeroU16; ob_nz_u32 std::num::NonZeroU32; ob_nz_u64 std::num::NonZeroU64; ob_nz_u128 std::num::NonZeroU128;
    ob_nz_i8 std::num::NonZeroI8; ob_nz_i16 std::num::NonZeroI16; ob_nz_i32 std::num::NonZeroI32; ob_nz_i64 std::num::NonZeroI64; ob_nz_i128 std::num::NonZeroI128;
    ob_duration std::time::Duration; ob_value Value; ob_struct_value struct_::StructValue; ob_tuple_value tuple::TupleValue; ob_tuple_struct_value tuple_struct::TupleStructValue; ob_enum_value mirror_mirror::enum_::EnumValue;);

/// casts of a description by kind
pub fn casts<T: DescribeType>() {
    let td = T::type_descriptor();
    let t = td.get_type();
    let k = kind(t);
    macro_rules! c { ($($m:ident $k:ident),*) => { $(
        check("a cast by kind succeeds exactly for that kind", t.$m().is_some() == (k == K::$k) && td.$m().is_some() == (k == K::$k));
        check("a cast by kind keeps the type", t.$m().map_or(true, |x| x.type_name() == t.type_name()) && td.$m().map_or(true, |x| x.type_name() == t.type_name()));
    )* } }
    c!(as_struct Struct, as_tuple_struct TupleStruct, as_tuple Tuple, as_enum Enum, as_list List, as_array Array, as_map Map, as_scalar Scalar, as_opaque Opaque);
}
macro_rules! casts { ($($o:ident $t:ty;)*) => { $(pub fn $o() { casts::<$t>() })* } }
casts!(ob_cast_struct S3; ob_cast_tuple_struct T1; ob_cast_tuple (i32, u8); ob_cast_enum E; ob_cast_list Vec<i32>; ob_cast_array [i32; 2]; ob_cast_map BTreeMap<u8, u8>; ob_cast_scalar String; ob_cast_opaque Value;);

/// metadata and docs through the descriptor
pub fn ob_descriptor_meta(name: &str) {
    let td = <Doc as DescribeType>::type_descriptor();
    info(&*td, &[" A documented struct", "", " second paragraph"], &[("count", M::I(7)), ("label", M::S("top")), ("flag", M::B(true))], name);
    let td = <DocE as DescribeType>::type_descriptor();
    info(&*td, &[" A documented enum"], &[("kind", M::S("enum"))], name);
}
pub fn ob_path_meta(name: &str) {
    use mirror_mirror::key_path::*;
    let td = <Doc as DescribeType>::type_descriptor();
    if let Some(t) = td.type_at(&KeyPath::default()) { info(t, &[" A documented struct", "", " second paragraph"], &[("count", M::I(7)), ("label", M::S("top")), ("flag", M::B(true))], name) }
    let td = <DocT as DescribeType>::type_descriptor();
    if let Some(t) = td.type_at(&KeyPath::default()) { info(t, &[" A documented tuple struct "], &[("a", M::I(1))], name) }
    let td = <DocE as DescribeType>::type_descriptor();
    if let Some(t) = td.type_at(&KeyPath::default()) { info(t, &[" A documented enum"], &[("kind", M::S("enum"))], name) }
    for (n, docs, meta) in [("U", &[" no fields"] as Docs, &[("n", M::I(0))] as Meta), ("T", &[], &[("n", M::I(1)), ("m", M::S("one"))]), ("S", &[" named"], &[])] {
        match td.type_at(&variant_(n)) {
            Some(t) => info(t, docs, meta, name),
            None => check("a variant is described at its path", false),
        }
    }
}
fn variant_(n: &str) -> mirror_mirror::key_path::KeyPath { mirror_mirror::key_path::variant(n) }
