//! The covering family of reflected types: every shape and attribute the derive macro distinguishes,
//! with a specification (`Spec`) of which fields are reflected, under which name and in which order.
use crate::support::*;
use mirror_mirror::enum_::VariantKind;
use mirror_mirror::*;
use std::collections::BTreeMap;

// Reflected fields in declaration order.
#[derive(Clone, Copy)]
pub struct Sp {
    pub n: usize,
    pub names: [&'static str; 16],
    pub locs: [Option<Loc>; 16],
}
impl Sp {
    pub fn new() -> Self {
        Sp { n: 0, names: [""; 16], locs: [None; 16] }
    }
    pub fn add(mut self, name: &'static str, l: Loc) -> Self {
        self.names[self.n] = name;
        self.locs[self.n] = Some(l);
        self.n += 1;
        self
    }
}
pub trait Spec {
    fn spec(&self) -> Sp;
}
// Reflected variant: (name, kind, number of reflected variants); `None` for a skipped variant.
pub trait VariantSpec: Spec {
    fn variant(&self) -> Option<(&'static str, VariantKind)>;
    fn count() -> usize;
}
macro_rules! spec {
    ($t:ty { $($f:tt = $n:expr),* $(,)? }) => {
        impl Spec for $t {
            fn spec(&self) -> Sp {
                Sp::new()$(.add($n, loc(self.$f.as_reflect())))*
            }
        }
    };
}

#[derive(Reflect, Clone, Debug)]
pub struct S3 { pub a: i32, pub b: i32, pub c: String }
spec!(S3 { a = "a", b = "b", c = "c" });

#[derive(Reflect, Clone, Debug)]
pub struct Sk1 { #[reflect(skip)] pub z: i32, pub a: i32, pub b: i32 }
spec!(Sk1 { a = "a", b = "b" });

#[derive(Reflect, Clone, Debug)]
pub struct Sk2 { pub a: i32, #[reflect(skip)] pub z: i32, pub b: i32 }
spec!(Sk2 { a = "a", b = "b" });

#[derive(Reflect, Clone, Debug)]
pub struct Sk3 { pub a: i32, pub b: i32, #[reflect(skip)] pub z: i32 }
spec!(Sk3 { a = "a", b = "b" });

#[derive(Reflect, Clone, Debug)]
pub struct Unit;
spec!(Unit {});

#[derive(Reflect, Clone, Debug)]
pub struct Empty {}
spec!(Empty {});

#[derive(Reflect, Clone, Debug)]
pub struct AllSkip { #[reflect(skip)] pub z: i32 }
spec!(AllSkip {});

// names the generated code might use itself
#[derive(Reflect, Clone, Debug)]
pub struct Names { pub name: i32, pub index: i32, pub value: i32, pub f: i32, pub fields: i32 }
spec!(Names { name = "name", index = "index", value = "value", f = "f", fields = "fields" });

#[derive(Reflect, Clone, Debug)]
pub struct Bx { pub a: Box<i32>, pub b: Box<S3> }
spec!(Bx { a = "a", b = "b" });

#[derive(Reflect, Clone, Debug)]
pub struct Gen<T, U> where T: FromReflect + DescribeType + Clone + std::fmt::Debug, U: FromReflect + DescribeType + Clone + std::fmt::Debug { pub a: T, pub b: U, pub c: T }
spec!(Gen<i32, i32> { a = "a", b = "b", c = "c" });

#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct NoClone { pub a: i32, #[reflect(skip)] pub z: i32, pub b: String }
spec!(NoClone { a = "a", b = "b" });

#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub struct NoDebug { pub a: i32, #[reflect(skip)] pub z: i32, pub b: String }
spec!(NoDebug { a = "a", b = "b" });

#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect))]
pub struct NoFrom { pub a: i32, #[reflect(skip)] pub z: i32, pub b: String }
spec!(NoFrom { a = "a", b = "b" });

// own conversion for the middle field
#[derive(Reflect, Clone, Debug)]
pub struct With { pub a: i32, #[reflect(from_reflect_with(with_i32))] pub b: i32, pub c: i32 }
spec!(With { a = "a", b = "b", c = "c" });
#[derive(Reflect, Clone, Debug)]
pub struct WithT(pub i32, #[reflect(from_reflect_with(with_i32))] pub i32, pub i32);
spec!(WithT { 0 = "", 1 = "", 2 = "" });
#[inline(never)]
pub fn with_i32(r: &dyn Reflect) -> Option<i32> {
    Some(i32::from_reflect(r)? ^ 1)
}

#[derive(Reflect, Clone, Debug)]
pub struct T1(pub i32);
spec!(T1 { 0 = "" });
#[derive(Reflect, Clone, Debug)]
pub struct T3(pub i32, pub i32, pub String);
spec!(T3 { 0 = "", 1 = "", 2 = "" });
#[derive(Reflect, Clone, Debug)]
pub struct TSk1(#[reflect(skip)] pub i32, pub i32, pub i32);
spec!(TSk1 { 1 = "", 2 = "" });
#[derive(Reflect, Clone, Debug)]
pub struct TSk2(pub i32, #[reflect(skip)] pub i32, pub i32);
spec!(TSk2 { 0 = "", 2 = "" });
#[derive(Reflect, Clone, Debug)]
pub struct TSk3(pub i32, pub i32, #[reflect(skip)] pub i32);
spec!(TSk3 { 0 = "", 1 = "" });
#[derive(Reflect, Clone, Debug)]
pub struct TBx(pub Box<i32>, pub Box<S3>);
spec!(TBx { 0 = "", 1 = "" });
#[derive(Reflect, Clone, Debug)]
pub struct TGen<T>(pub T, pub i32) where T: FromReflect + DescribeType + Clone + std::fmt::Debug;
spec!(TGen<i32> { 0 = "", 1 = "" });
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub struct TNoClone(pub i32, #[reflect(skip)] pub i32, pub String);
spec!(TNoClone { 0 = "", 2 = "" });
#[derive(Reflect, Clone)]
#[reflect(opt_out(Debug))]
pub struct TNoDebug(pub i32, #[reflect(skip)] pub i32, pub String);
spec!(TNoDebug { 0 = "", 2 = "" });

// every kind of variant, with skipped fields in every position and a skipped variant in the middle
#[derive(Reflect, Clone, Debug, PartialEq)]
pub enum E {
    U,
    T(i32, i32),
    S { a: i32, b: i32 },
    TSk1(#[reflect(skip)] i32, i32, i32),
    TSk2(i32, #[reflect(skip)] i32, i32),
    #[reflect(skip)]
    Hidden { a: i32 },
    SSk1 { #[reflect(skip)] z: i32, a: i32, b: i32 },
    SSk2 { a: i32, #[reflect(skip)] z: i32, b: i32 },
    R { b: i32, a: i32 },
    U2,
}
impl Spec for E {
    fn spec(&self) -> Sp {
        let s = Sp::new();
        match self {
            E::U | E::U2 | E::Hidden { .. } => s,
            E::T(x, y) => s.add("", loc(x)).add("", loc(y)),
            E::S { a, b } => s.add("a", loc(a)).add("b", loc(b)),
            E::TSk1(_, x, y) => s.add("", loc(x)).add("", loc(y)),
            E::TSk2(x, _, y) => s.add("", loc(x)).add("", loc(y)),
            E::SSk1 { a, b, .. } => s.add("a", loc(a)).add("b", loc(b)),
            E::SSk2 { a, b, .. } => s.add("a", loc(a)).add("b", loc(b)),
            E::R { a, b } => s.add("b", loc(b)).add("a", loc(a)),
        }
    }
}
impl VariantSpec for E {
    fn variant(&self) -> Option<(&'static str, VariantKind)> {
        Some(match self {
            E::U => ("U", VariantKind::Unit),
            E::T(..) => ("T", VariantKind::Tuple),
            E::S { .. } => ("S", VariantKind::Struct),
            E::TSk1(..) => ("TSk1", VariantKind::Tuple),
            E::TSk2(..) => ("TSk2", VariantKind::Tuple),
            E::Hidden { .. } => return None,
            E::SSk1 { .. } => ("SSk1", VariantKind::Struct),
            E::SSk2 { .. } => ("SSk2", VariantKind::Struct),
            E::R { .. } => ("R", VariantKind::Struct),
            E::U2 => ("U2", VariantKind::Unit),
        })
    }
    fn count() -> usize { 9 }
}

// field names the generated code might use itself, boxes, no skipping
#[derive(Reflect, Debug)]
#[reflect(opt_out(Clone))]
pub enum F<T> where T: FromReflect + DescribeType + std::fmt::Debug {
    A { name: i32, index: i32, value: i32 },
    B { enum_: i32, variant_matches: i32 },
    C(Box<i32>, T),
    D(String),
}
impl Spec for F<i32> {
    fn spec(&self) -> Sp {
        let s = Sp::new();
        match self {
            F::A { name, index, value } => s.add("name", loc(name)).add("index", loc(index)).add("value", loc(value)),
            F::B { enum_, variant_matches } => s.add("enum_", loc(enum_)).add("variant_matches", loc(variant_matches)),
            F::C(x, y) => s.add("", loc(x.as_reflect())).add("", loc(y)),
            F::D(x) => s.add("", loc(x)),
        }
    }
}
impl VariantSpec for F<i32> {
    fn variant(&self) -> Option<(&'static str, VariantKind)> {
        Some(match self {
            F::A { .. } => ("A", VariantKind::Struct),
            F::B { .. } => ("B", VariantKind::Struct),
            F::C(..) => ("C", VariantKind::Tuple),
            F::D(..) => ("D", VariantKind::Tuple),
        })
    }
    fn count() -> usize { 4 }
}
impl Spec for Option<i32> {
    fn spec(&self) -> Sp {
        match self {
            None => Sp::new(),
            Some(x) => Sp::new().add("", loc(x)),
        }
    }
}
impl VariantSpec for Option<i32> {
    fn variant(&self) -> Option<(&'static str, VariantKind)> {
        Some(match self { None => ("None", VariantKind::Unit), Some(_) => ("Some", VariantKind::Tuple) })
    }
    fn count() -> usize { 2 }
}
impl Spec for Result<i32, String> {
    fn spec(&self) -> Sp {
        match self {
            Ok(x) => Sp::new().add("", loc(x)),
            Err(x) => Sp::new().add("", loc(x)),
        }
    }
}
impl VariantSpec for Result<i32, String> {
    fn variant(&self) -> Option<(&'static str, VariantKind)> {
        Some(match self { Ok(_) => ("Ok", VariantKind::Tuple), Err(_) => ("Err", VariantKind::Tuple) })
    }
    fn count() -> usize { 2 }
}
spec!(std::ops::Range<i32> { start = "start", end = "end" });
spec!(std::ops::RangeFrom<i32> { start = "start" });
spec!(std::ops::RangeTo<i32> { end = "end" });
spec!(std::ops::RangeToInclusive<i32> { end = "end" });
spec!(std::ops::RangeFull {});
spec!(glam::Vec2 { x = "x", y = "y" });
spec!(glam::Vec3 { x = "x", y = "y", z = "z" });
spec!(glam::Mat3 { x_axis = "x_axis", y_axis = "y_axis", z_axis = "z_axis" });
spec!((i32,) { 0 = "" });
spec!((i32, i32) { 0 = "", 1 = "" });
spec!((i32, i32, String) { 0 = "", 1 = "", 2 = "" });
spec!((i32, i32, i32, i32, i32) { 0 = "", 1 = "", 2 = "", 3 = "", 4 = "" });

// nesting of every container
#[derive(Reflect, Clone, Debug)]
pub struct Nest {
    pub s: S3,
    pub e: E,
    pub v: Vec<S3>,
    pub m: BTreeMap<String, i32>,
    pub t: (i32, T1),
    pub o: Option<S3>,
    pub ar: [i32; 2],
    pub bx: Box<T1>,
}
// nesting of containers without skipped fields
#[derive(Reflect, Clone, Debug)]
pub struct Nest2 { pub v: Vec<T1>, pub m: BTreeMap<String, i32>, pub t: (i32, T1), pub o: Option<S3>, pub ar: [i32; 2], pub bx: Box<T1>, pub r: F2 }
#[derive(Reflect, Clone, Debug)]
pub enum F2 { A, B { a: Vec<i32> }, C(Option<i32>, String) }
#[derive(Reflect, Clone, Debug)]
pub struct Nest3 { pub v: Vec<T1>, pub o: Option<i32>, pub bx: Box<T1> }
// own conversions in variants
#[derive(Reflect, Clone, Debug)]
pub enum WithE {
    A { a: i32, #[reflect(from_reflect_with(with_i32))] b: i32 },
    B(#[reflect(from_reflect_with(with_i32))] i32, i32),
}

// raw identifiers
#[derive(Reflect, Clone, Debug)]
pub struct Raw { pub a: i32, pub r#type: i32, pub r#fn: i32 }
spec!(Raw { a = "a", r#type = "r#type", r#fn = "r#fn" });
// several skipped fields, of several types
#[derive(Reflect, Clone, Debug)]
pub struct Multi { #[reflect(skip)] pub z: i32, pub a: i32, #[reflect(skip)] pub y: String, #[reflect(skip)] pub x: Vec<i32>, pub b: String, #[reflect(skip)] pub w: Option<i32> }
spec!(Multi { a = "a", b = "b" });
#[derive(Reflect, Clone, Debug)]
pub struct TMulti(#[reflect(skip)] pub i32, pub i32, #[reflect(skip)] pub String, #[reflect(skip)] pub Vec<i32>, pub String, #[reflect(skip)] pub Option<i32>);
spec!(TMulti { 1 = "", 4 = "" });
// more than ten fields, not in alphabetical order
#[derive(Reflect, Clone, Debug)]
pub struct Big { pub m: i32, pub l: i32, pub k: i32, pub j: i32, pub i: i32, pub h: i32, pub g: i32, pub f: i32, pub e: i32, pub d: i32, pub c: i32, pub a: i32 }
spec!(Big { m = "m", l = "l", k = "k", j = "j", i = "i", h = "h", g = "g", f = "f", e = "e", d = "d", c = "c", a = "a" });
#[derive(Reflect, Clone, Debug)]
pub struct BigT(pub i32, pub i32, pub i32, pub i32, pub i32, pub i32, pub i32, pub i32, pub i32, pub i32, pub i32, pub i32);
spec!(BigT { 0 = "", 1 = "", 2 = "", 3 = "", 4 = "", 5 = "", 6 = "", 7 = "", 8 = "", 9 = "", 10 = "", 11 = "" });
// fields that are containers
#[derive(Reflect, Clone, Debug)]
pub struct Cont { pub v: Vec<i32>, pub o: Option<i32>, pub m: BTreeMap<i32, i32>, pub t: (i32, i32), pub ar: [i32; 2] }
spec!(Cont { v = "v", o = "o", m = "m", t = "t", ar = "ar" });
#[derive(Reflect, Clone, Debug)]
pub struct CGen<const N: usize> { pub a: [i32; N], pub b: i32 }
spec!(CGen<2> { a = "a", b = "b" });

// skipped variants first and last, raw names, several skipped fields, many fields, explicit discriminants
#[derive(Reflect, Clone, Debug, PartialEq)]
pub enum E2 {
    #[reflect(skip)]
    H1,
    Raw { r#type: i32, a: i32 },
    r#Move(i32),
    Multi(#[reflect(skip)] i32, i32, #[reflect(skip)] String, #[reflect(skip)] i32, String),
    MultiS { #[reflect(skip)] z: i32, b: i32, #[reflect(skip)] y: String, a: String },
    Big(i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32),
    #[reflect(skip)]
    H2(i32),
    One(i32),
    AllS { #[reflect(skip)] z: i32 },
    AllT(#[reflect(skip)] i32),
    EmptyS {},
    EmptyT(),
    #[reflect(skip)]
    H3 { a: i32 },
}
impl Spec for E2 {
    fn spec(&self) -> Sp {
        let s = Sp::new();
        match self {
            E2::H1 | E2::H2(_) | E2::H3 { .. } | E2::AllS { .. } | E2::AllT(_) | E2::EmptyS {} | E2::EmptyT() => s,
            E2::Raw { r#type, a } => s.add("r#type", loc(r#type)).add("a", loc(a)),
            E2::Move(x) | E2::One(x) => s.add("", loc(x)),
            E2::Multi(_, x, _, _, y) => s.add("", loc(x)).add("", loc(y)),
            E2::MultiS { b, a, .. } => s.add("b", loc(b)).add("a", loc(a)),
            E2::Big(a, b, c, d, e, f, g, h, i, j, k) => s.add("", loc(a)).add("", loc(b)).add("", loc(c)).add("", loc(d)).add("", loc(e)).add("", loc(f)).add("", loc(g)).add("", loc(h)).add("", loc(i)).add("", loc(j)).add("", loc(k)),
        }
    }
}
impl VariantSpec for E2 {
    fn variant(&self) -> Option<(&'static str, VariantKind)> {
        Some(match self {
            E2::H1 | E2::H2(_) | E2::H3 { .. } => return None,
            E2::Raw { .. } => ("Raw", VariantKind::Struct),
            E2::Move(_) => ("r#Move", VariantKind::Tuple),
            E2::Multi(..) => ("Multi", VariantKind::Tuple),
            E2::MultiS { .. } => ("MultiS", VariantKind::Struct),
            E2::Big(..) => ("Big", VariantKind::Tuple),
            E2::One(_) => ("One", VariantKind::Tuple),
            E2::AllS { .. } => ("AllS", VariantKind::Struct),
            E2::AllT(_) => ("AllT", VariantKind::Tuple),
            E2::EmptyS {} => ("EmptyS", VariantKind::Struct),
            E2::EmptyT() => ("EmptyT", VariantKind::Tuple),
        })
    }
    fn count() -> usize { 10 }
}
// explicit discriminants
#[derive(Reflect, Clone, Debug, PartialEq)]
pub enum Disc { A = 7, B = 3, C = -1 }
impl Spec for Disc {
    fn spec(&self) -> Sp { Sp::new() }
}
impl VariantSpec for Disc {
    fn variant(&self) -> Option<(&'static str, VariantKind)> {
        Some((match self { Disc::A => "A", Disc::B => "B", Disc::C => "C" }, VariantKind::Unit))
    }
    fn count() -> usize { 3 }
}
spec!((i32, i32, i32, i32) { 0 = "", 1 = "", 2 = "", 3 = "" });
spec!((i32, i32, i32, i32, i32, i32) { 0 = "", 1 = "", 2 = "", 3 = "", 4 = "", 5 = "" });
pub type Tup11 = (i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32);
pub type Tup16 = (i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32, i32);
spec!(Tup11 { 0 = "", 1 = "", 2 = "", 3 = "", 4 = "", 5 = "", 6 = "", 7 = "", 8 = "", 9 = "", 10 = "" });
spec!(Tup16 { 0 = "", 1 = "", 2 = "", 3 = "", 4 = "", 5 = "", 6 = "", 7 = "", 8 = "", 9 = "", 10 = "", 11 = "", 12 = "", 13 = "", 14 = "", 15 = "" });
spec!(() {});

/// variants that share names and positions with other types
#[derive(Reflect, Clone, Debug, PartialEq)]
pub enum Share { A { x: i32, y: String }, B { y: i32, x: String, w: u8 }, C(i32, String), D(String, u8), G { w: bool } }
