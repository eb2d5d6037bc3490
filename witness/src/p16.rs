//! P16: descriptions are complete, also for types that refer to themselves.
use crate::p15::{kind, K};
use crate::support::*;
use crate::types::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

/// through every container
#[derive(Reflect, Clone, Debug)]
pub struct Rec { pub v: i32, pub next: Option<Box<Rec>>, pub kids: Vec<Rec>, pub m: BTreeMap<String, Rec>, pub t: (i32, Vec<Rec>), pub s: S3 }
/// directly
#[derive(Reflect, Clone, Debug)]
pub struct DirectS { pub me: Box<DirectS>, pub x: i32 }
#[derive(Reflect, Clone, Debug)]
pub struct DirectT(pub i32, pub Box<DirectT>, pub String);
#[derive(Reflect, Clone, Debug)]
pub enum Tree { Leaf(i32), Node(Box<Tree>, Box<Tree>), Named { l: Box<Tree>, v: u8 } }
/// by way of each other
#[derive(Reflect, Clone, Debug)]
pub struct A { pub b: Vec<B>, pub x: u8 }
#[derive(Reflect, Clone, Debug)]
pub struct B { pub a: Option<Box<A>>, pub c: BTreeMap<i32, C>, pub y: u16 }
#[derive(Reflect, Clone, Debug)]
pub enum C { Back(Vec<A>), Forth { b: Box<B> }, End }
/// generic
#[derive(Reflect, Clone, Debug)]
pub struct GRec<T> where T: FromReflect + DescribeType + Clone + std::fmt::Debug { pub t: T, pub rest: Vec<GRec<T>> }
/// two instances of the same generic type, the same name in two modules
pub mod other {
    use mirror_mirror::*;
    #[derive(Reflect, Clone, Debug)]
    pub struct S3 { pub z: u8 }
}
#[derive(Reflect, Clone, Debug)]
pub struct Twins { pub a: S3, pub b: other::S3, pub c: Vec<S3>, pub d: Vec<other::S3>, pub e: Gen<i32, u8>, pub f: Gen<u8, i32>, pub g: [i32; 2], pub h: [i32; 3], pub i: (i32, u8), pub j: (u8, i32), pub k: Option<i32>, pub l: Option<u8>, pub m: BTreeMap<i32, u8>, pub n: BTreeMap<u8, i32> }

/// the same name in two blocks: `type_name` does not tell them apart
pub trait Same { type T: Reflect + DescribeType; }
pub struct Same1;
pub struct Same2;
const _: () = {
    {
        #[derive(Reflect, Clone, Debug)]
        pub struct P { pub a: u8 }
        impl Same for Same1 { type T = P; }
    }
    {
        #[derive(Reflect, Clone, Debug)]
        pub struct P { pub a: String, pub b: u8 }
        impl Same for Same2 { type T = P; }
    }
};
pub fn ob_same_name() {
    fn go<X: Same, Y: Same>() {
        let mut g = graph::TypeGraph::default();
        check("two types of one name are told apart", X::T::build(&mut g) != Y::T::build(&mut g));
        let (x, y) = (<X::T as DescribeType>::type_descriptor(), <Y::T as DescribeType>::type_descriptor());
        check("two types of one name are told apart", x.as_struct().map_or(false, |s| s.fields_len() == 1) && y.as_struct().map_or(false, |s| s.fields_len() == 2));
    }
    go::<Same1, Same2>();
}
/// the two descriptions are the same, down to the depth
pub fn same(a: Type<'_>, b: Type<'_>, depth: usize) -> bool {
    if kind(a) != kind(b) || a.type_name() != b.type_name() {
        return false;
    }
    if depth == 0 {
        return true;
    }
    let d = depth - 1;
    match (a, b) {
        (Type::Struct(a), Type::Struct(b)) => a.fields_len() == b.fields_len() && a.field_types().zip(b.field_types()).all(|(x, y)| x.name() == y.name() && same(x.get_type(), y.get_type(), d)),
        (Type::TupleStruct(a), Type::TupleStruct(b)) => a.fields_len() == b.fields_len() && a.field_types().zip(b.field_types()).all(|(x, y)| same(x.get_type(), y.get_type(), d)),
        (Type::Tuple(a), Type::Tuple(b)) => a.fields_len() == b.fields_len() && a.field_types().zip(b.field_types()).all(|(x, y)| same(x.get_type(), y.get_type(), d)),
        (Type::Enum(a), Type::Enum(b)) => a.variants_len() == b.variants_len() && a.variants().zip(b.variants()).all(|(v, w)| v.name() == w.name() && v.fields_len() == w.fields_len() && v.field_types().zip(w.field_types()).all(|(x, y)| x.name() == y.name() && same(x.get_type(), y.get_type(), d))),
        (Type::List(a), Type::List(b)) => same(a.element_type(), b.element_type(), d),
        (Type::Array(a), Type::Array(b)) => a.len() == b.len() && same(a.element_type(), b.element_type(), d),
        (Type::Map(a), Type::Map(b)) => same(a.key_type(), b.key_type(), d) && same(a.value_type(), b.value_type(), d),
        (Type::Scalar(a), Type::Scalar(b)) => a == b,
        (Type::Opaque(_), Type::Opaque(_)) => true,
        _ => false,
    }
}
/// every type the description mentions can be looked at and cut out
fn walk(t: Type<'_>, depth: usize) {
    let td = t.into_type_descriptor();
    check("a nested type cut out of a description stays the same", td.type_name() == t.type_name() && same(td.get_type(), t, 2));
    if depth == 0 {
        return;
    }
    match t {
        Type::Struct(s) => for f in s.field_types() { walk(f.get_type(), depth - 1) },
        Type::TupleStruct(s) => for f in s.field_types() { walk(f.get_type(), depth - 1) },
        Type::Tuple(s) => for f in s.field_types() { walk(f.get_type(), depth - 1) },
        Type::Enum(e) => for v in e.variants() { for f in v.field_types() { walk(f.get_type(), depth - 1) } },
        Type::List(l) => walk(l.element_type(), depth - 1),
        Type::Array(l) => walk(l.element_type(), depth - 1),
        Type::Map(m) => { walk(m.key_type(), depth - 1); walk(m.value_type(), depth - 1) }
        Type::Scalar(_) | Type::Opaque(_) => {}
    }
}
/// a type described within another is described as on its own
fn own<T: DescribeType>(t: Option<Type<'_>>) {
    let td = <T as DescribeType>::type_descriptor();
    check("a type is described within another as on its own", t.map_or(false, |t| same(t, td.get_type(), 3)));
}
fn at<'a>(t: Type<'a>, i: usize) -> Option<Type<'a>> {
    match t {
        Type::Struct(s) => s.field_type_at(i).map(|f| f.get_type()),
        Type::TupleStruct(s) => s.field_type_at(i).map(|f| f.get_type()),
        Type::Tuple(s) => s.field_type_at(i).map(|f| f.get_type()),
        Type::Enum(e) => e.variants().flat_map(|v| v.field_types().collect::<Vec<_>>()).nth(i).map(|f| f.get_type()),
        Type::List(l) => Some(l.element_type()),
        Type::Array(l) => Some(l.element_type()),
        Type::Map(m) => Some(if i == 0 { m.key_type() } else { m.value_type() }),
        _ => None,
    }
}
macro_rules! walks { ($($o:ident $t:ty;)*) => { $(pub fn $o() { let td = <$t as DescribeType>::type_descriptor(); walk(td.get_type(), 2) })* } }
walks!(ob_walk_rec Rec; ob_walk_direct_s DirectS; ob_walk_direct_t DirectT; ob_walk_tree Tree; ob_walk_a A; ob_walk_b B; ob_walk_c C; ob_walk_grec GRec<i32>; ob_walk_twins Twins; ob_walk_nest Nest2; ob_walk_map BTreeMap<String, Vec<Option<S3>>>; ob_walk_tuple (Tree, [A; 2]); ob_walk_mat glam::Mat3; ob_walk_box Box<Tree>; ob_walk_result Result<Vec<i32>, DirectT>;);
macro_rules! owns { ($($o:ident $t:ty { $($i:expr => $x:ty),* };)*) => { $(pub fn $o() { let td = <$t as DescribeType>::type_descriptor(); $(own::<$x>(at(td.get_type(), $i));)* })* } }
owns! {
    ob_own_rec Rec { 0 => i32, 1 => Option<Box<Rec>>, 2 => Vec<Rec>, 3 => BTreeMap<String, Rec>, 4 => (i32, Vec<Rec>), 5 => S3 };
    ob_own_direct_s DirectS { 0 => DirectS, 1 => i32 };
    ob_own_direct_t DirectT { 0 => i32, 1 => DirectT, 2 => String };
    ob_own_tree Tree { 0 => i32, 1 => Tree, 2 => Tree, 3 => Tree, 4 => u8 };
    ob_own_a A { 0 => Vec<B>, 1 => u8 };
    ob_own_b B { 0 => Option<Box<A>>, 1 => BTreeMap<i32, C>, 2 => u16 };
    ob_own_c C { 0 => Vec<A>, 1 => B };
    ob_own_twins Twins { 0 => S3, 1 => other::S3, 2 => Vec<S3>, 3 => Vec<other::S3>, 4 => Gen<i32, u8>, 5 => Gen<u8, i32>, 6 => [i32; 2], 7 => [i32; 3], 8 => (i32, u8), 9 => (u8, i32), 10 => Option<i32>, 11 => Option<u8>, 12 => BTreeMap<i32, u8>, 13 => BTreeMap<u8, i32> };
    ob_own_grec GRec<Option<u8>> { 0 => Option<u8>, 1 => Vec<GRec<Option<u8>>> };
    ob_own_list Vec<Tree> { 0 => Tree };
    ob_own_map BTreeMap<DirectT, A> { 0 => DirectT, 1 => A };
    ob_own_tuple (Tree, [A; 2], Box<B>) { 0 => Tree, 1 => [A; 2], 2 => B };
    ob_own_array [Rec; 3] { 0 => Rec };
}
/// cut out of the middle of a cycle
macro_rules! cuts { ($($o:ident $t:ty { $($i:expr => $x:ty),* };)*) => { $(pub fn $o() { let td = <$t as DescribeType>::type_descriptor(); $({
    match at(td.get_type(), $i) {
        Some(t) => { let d = t.into_type_descriptor(); own::<$x>(Some(d.get_type())); own::<$x>(Some(t)) }
        None => check("field", false),
    }
})* })* } }
cuts! {
    ob_cut_rec Rec { 1 => Option<Box<Rec>>, 2 => Vec<Rec>, 3 => BTreeMap<String, Rec>, 4 => (i32, Vec<Rec>) };
    ob_cut_b B { 0 => Option<Box<A>>, 1 => BTreeMap<i32, C> };
    ob_cut_twins Twins { 0 => S3, 1 => other::S3, 6 => [i32; 2], 7 => [i32; 3], 8 => (i32, u8) };
    ob_cut_scalars (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, bool, char, f32, f64, String) { 0 => u8, 1 => u16, 2 => u32, 3 => u64, 4 => u128, 5 => i8, 6 => i16, 7 => i32, 8 => i64, 9 => i128, 10 => usize, 11 => bool, 12 => char, 13 => f32, 14 => f64, 15 => String };
    ob_cut_opaque (std::num::NonZeroU8, Value) { 0 => std::num::NonZeroU8, 1 => Value };
}
/// the typed cuts
pub fn ob_cut_typed() {
    macro_rules! c { ($($t:ty: $k:ident $as:ident;)*) => { $({
        let td = <($t, u8) as DescribeType>::type_descriptor();
        let t = at(td.get_type(), 0);
        match t { Some(Type::$k(x)) => { let d = x.into_type_descriptor(); own::<$t>(Some(d.get_type())); check("cut", kind(d.get_type()) == K::$k) } _ => check("field", false) }
    })* } }
    c!(S3: Struct as_struct; T1: TupleStruct as_tuple_struct; (i32, u16): Tuple as_tuple; Tree: Enum as_enum; Vec<A>: List as_list; [A; 2]: Array as_array; BTreeMap<u8, B>: Map as_map; Value: Opaque as_opaque;);
}
/// an object's own description
macro_rules! objs { ($($o:ident $t:ty;)*) => { $(pub fn $o(x: &$t) {
    let td = <$t as DescribeType>::type_descriptor();
    check("an object is described as its type is", same(Reflect::type_descriptor(x).get_type(), td.get_type(), 2) && same(x.as_reflect().type_descriptor().get_type(), td.get_type(), 2) && x.as_reflect().type_name() == td.type_name());
})* } }
objs!(ob_obj_s3 S3; ob_obj_t1 T1; ob_obj_e E; ob_obj_vec Vec<i32>; ob_obj_arr [i32; 2]; ob_obj_map BTreeMap<u8, S3>; ob_obj_i32 i32; ob_obj_string String; ob_obj_tuple (i32, u8); ob_obj_option Option<i32>; ob_obj_nz std::num::NonZeroI8; ob_obj_box Box<S3>; ob_obj_bx Bx; ob_obj_rec Rec; ob_obj_tree Tree;);
