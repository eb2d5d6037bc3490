//! What converting from, and patching with, an arbitrary reflected object means, written down a
//! second time over the public read interface only.
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

pub trait Oracle: FromReflect {
    /// the converted object
    fn want(v: &dyn Reflect) -> Option<Self>;
    /// the effect of a patch
    fn want_patch(&mut self, v: &dyn Reflect);
}
macro_rules! scalar {
    ($($t:ty)*) => { $(impl Oracle for $t {
        fn want(v: &dyn Reflect) -> Option<Self> { v.downcast_ref::<$t>().cloned() }
        fn want_patch(&mut self, v: &dyn Reflect) { if let Some(n) = v.downcast_ref::<$t>() { *self = n.clone() } }
    })* };
}
scalar!(usize u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 bool char f32 f64 String);

macro_rules! named {
    ($(impl[$($g:tt)*])? $t:ty { $($f:ident),* $(,)? } $(skip { $($z:ident),* })? $(with { $($w:ident),* })?) => {
        impl $($($g)*)? Oracle for $t {
            fn want(v: &dyn Reflect) -> Option<Self> {
                #[allow(unused_variables)]
                let s = match v.reflect_ref() { ReflectRef::Struct(s) => s, _ => return None };
                Some(Self {
                    $($f: Oracle::want(s.field(stringify!($f))?)?,)*
                    $($($z: Default::default(),)*)?
                    $($($w: with_i32(s.field(stringify!($w))?)?,)*)?
                })
            }
            fn want_patch(&mut self, v: &dyn Reflect) {
                #[allow(unused_variables)]
                if let ReflectRef::Struct(s) = v.reflect_ref() {
                    $(if let Some(n) = s.field(stringify!($f)) { self.$f.want_patch(n) })*
                    $($(if let Some(n) = s.field(stringify!($w)) { self.$w.want_patch(n) })*)?
                }
            }
        }
    };
}
named!(S3 { a, b, c });
named!(Sk1 { a, b } skip { z });
named!(Sk2 { a, b } skip { z });
named!(Sk3 { a, b } skip { z });
named!(AllSkip {} skip { z });
named!(Empty {});
named!(Unit {});
named!(Names { name, index, value, f, fields });
named!(Bx { a, b });
named!(Gen<i32, i32> { a, b, c });
named!(Gen<String, S3> { a, b, c });
named!(NoClone { a, b } skip { z });
named!(NoDebug { a, b } skip { z });
named!(With { a, c } with { b });
named!(Raw { a, r#type, r#fn });
named!(Multi { a, b } skip { z, y, x, w });
named!(Big { m, l, k, j, i, h, g, f, e, d, c, a });
named!(Cont { v, o, m, t, ar });
named!(CGen<2> { a, b });
named!(Nest { s, e, v, m, t, o, ar, bx });
named!(Nest2 { v, m, t, o, ar, bx, r });
named!(Nest3 { v, o, bx });
named!(std::ops::Range<i32> { start, end });
named!(std::ops::RangeFrom<i32> { start });
named!(std::ops::RangeTo<i32> { end });
named!(std::ops::RangeToInclusive<i32> { end });
named!(std::ops::RangeFull {});
named!(glam::Vec2 { x, y });
named!(glam::Vec3 { x, y, z });
impl Oracle for glam::Mat3 {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let s = match v.reflect_ref() { ReflectRef::Struct(s) => s, _ => return None };
        Some(glam::Mat3 { x_axis: Oracle::want(s.field("x_axis")?)?, y_axis: Oracle::want(s.field("y_axis")?)?, z_axis: Oracle::want(s.field("z_axis")?)? })
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        if let ReflectRef::Struct(s) = v.reflect_ref() {
            if let Some(n) = s.field("x_axis") { self.x_axis.want_patch(n) }
            if let Some(n) = s.field("y_axis") { self.y_axis.want_patch(n) }
            if let Some(n) = s.field("z_axis") { self.z_axis.want_patch(n) }
        }
    }
}

/// positions count the reflected fields only
macro_rules! positional {
    ($k:ident: $t:ty => |$v:ident| $new:expr; $($f:tt @ $i:expr),* $(,)?) => {
        impl Oracle for $t {
            fn want(v: &dyn Reflect) -> Option<Self> {
                #[allow(unused_variables)]
                let $v = match v.reflect_ref() { ReflectRef::$k(s) => s, _ => return None };
                Some($new)
            }
            fn want_patch(&mut self, v: &dyn Reflect) {
                #[allow(unused_variables)]
                if let ReflectRef::$k(s) = v.reflect_ref() {
                    $(if let Some(n) = s.field_at($i) { self.$f.want_patch(n) })*
                }
            }
        }
    };
}
macro_rules! at { ($s:ident, $i:expr) => { Oracle::want($s.field_at($i)?)? }; }
positional!(TupleStruct: T1 => |s| T1(at!(s, 0)); 0 @ 0);
positional!(TupleStruct: T3 => |s| T3(at!(s, 0), at!(s, 1), at!(s, 2)); 0 @ 0, 1 @ 1, 2 @ 2);
positional!(TupleStruct: TSk1 => |s| TSk1(0, at!(s, 0), at!(s, 1)); 1 @ 0, 2 @ 1);
positional!(TupleStruct: TSk2 => |s| TSk2(at!(s, 0), 0, at!(s, 1)); 0 @ 0, 2 @ 1);
positional!(TupleStruct: TSk3 => |s| TSk3(at!(s, 0), at!(s, 1), 0); 0 @ 0, 1 @ 1);
positional!(TupleStruct: TBx => |s| TBx(at!(s, 0), at!(s, 1)); 0 @ 0, 1 @ 1);
positional!(TupleStruct: TGen<i32> => |s| TGen(at!(s, 0), at!(s, 1)); 0 @ 0, 1 @ 1);
positional!(TupleStruct: TNoClone => |s| TNoClone(at!(s, 0), 0, at!(s, 1)); 0 @ 0, 2 @ 1);
positional!(TupleStruct: TNoDebug => |s| TNoDebug(at!(s, 0), 0, at!(s, 1)); 0 @ 0, 2 @ 1);
positional!(TupleStruct: WithT => |s| WithT(at!(s, 0), with_i32(s.field_at(1)?)?, at!(s, 2)); 0 @ 0, 1 @ 1, 2 @ 2);
positional!(TupleStruct: TMulti => |s| TMulti(0, at!(s, 0), String::new(), Vec::new(), at!(s, 1), None); 1 @ 0, 4 @ 1);
positional!(TupleStruct: BigT => |s| BigT(at!(s, 0), at!(s, 1), at!(s, 2), at!(s, 3), at!(s, 4), at!(s, 5), at!(s, 6), at!(s, 7), at!(s, 8), at!(s, 9), at!(s, 10), at!(s, 11));
    0 @ 0, 1 @ 1, 2 @ 2, 3 @ 3, 4 @ 4, 5 @ 5, 6 @ 6, 7 @ 7, 8 @ 8, 9 @ 9, 10 @ 10, 11 @ 11);
positional!(Tuple: Tup11 => |s| (at!(s, 0), at!(s, 1), at!(s, 2), at!(s, 3), at!(s, 4), at!(s, 5), at!(s, 6), at!(s, 7), at!(s, 8), at!(s, 9), at!(s, 10));
    0 @ 0, 1 @ 1, 2 @ 2, 3 @ 3, 4 @ 4, 5 @ 5, 6 @ 6, 7 @ 7, 8 @ 8, 9 @ 9, 10 @ 10);
positional!(Tuple: Tup16 => |s| (at!(s, 0), at!(s, 1), at!(s, 2), at!(s, 3), at!(s, 4), at!(s, 5), at!(s, 6), at!(s, 7), at!(s, 8), at!(s, 9), at!(s, 10), at!(s, 11), at!(s, 12), at!(s, 13), at!(s, 14), at!(s, 15));
    0 @ 0, 1 @ 1, 2 @ 2, 3 @ 3, 4 @ 4, 5 @ 5, 6 @ 6, 7 @ 7, 8 @ 8, 9 @ 9, 10 @ 10, 11 @ 11, 12 @ 12, 13 @ 13, 14 @ 14, 15 @ 15);
positional!(Tuple: (i32, String) => |s| (at!(s, 0), at!(s, 1)); 0 @ 0, 1 @ 1);
positional!(Tuple: () => |_s| (););
positional!(Tuple: (i32,) => |s| (at!(s, 0),); 0 @ 0);
positional!(Tuple: (i32, i32) => |s| (at!(s, 0), at!(s, 1)); 0 @ 0, 1 @ 1);
positional!(Tuple: (i32, T1) => |s| (at!(s, 0), at!(s, 1)); 0 @ 0, 1 @ 1);
positional!(Tuple: (i32, i32, String) => |s| (at!(s, 0), at!(s, 1), at!(s, 2)); 0 @ 0, 1 @ 1, 2 @ 2);
positional!(Tuple: (i32, i32, i32, i32) => |s| (at!(s, 0), at!(s, 1), at!(s, 2), at!(s, 3)); 0 @ 0, 1 @ 1, 2 @ 2, 3 @ 3);

impl<T: Oracle + DescribeType> Oracle for Box<T> {
    fn want(v: &dyn Reflect) -> Option<Self> { Some(Box::new(T::want(v)?)) }
    fn want_patch(&mut self, v: &dyn Reflect) { (**self).want_patch(v) }
}
impl<T: Oracle + DescribeType> Oracle for Vec<T> {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let l = match v.reflect_ref() { ReflectRef::List(l) => l, _ => return None };
        let mut out = Vec::new();
        let mut i = 0;
        while i < l.len() {
            out.push(T::want(l.get(i)?)?);
            i += 1;
        }
        Some(out)
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        if let ReflectRef::List(l) = v.reflect_ref() {
            let mut i = 0;
            while i < self.len() {
                if let Some(n) = l.get(i) { self[i].want_patch(n) }
                i += 1;
            }
        }
    }
}
fn elements(v: &dyn Reflect) -> Option<&dyn Array> {
    match v.reflect_ref() { ReflectRef::List(l) => v.as_list().map(|_| l as &dyn Array), ReflectRef::Array(a) => Some(a), _ => None }
}
impl<T: Oracle + DescribeType> Oracle for [T; 2] {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let l = elements(v)?;
        let mut i = 0;
        while i < l.len() {
            T::want(l.get(i)?)?;
            i += 1;
        }
        if l.len() != 2 { return None }
        Some([T::want(l.get(0)?)?, T::want(l.get(1)?)?])
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        if let Some(l) = elements(v) {
            if let Some(n) = l.get(0) { self[0].want_patch(n) }
            if let Some(n) = l.get(1) { self[1].want_patch(n) }
        }
    }
}
impl<K: Oracle + DescribeType + Ord, V: Oracle + DescribeType> Oracle for BTreeMap<K, V> {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let m = match v.reflect_ref() { ReflectRef::Map(m) => m, _ => return None };
        let mut out = BTreeMap::new();
        for (k, x) in m.iter() {
            out.insert(K::want(k)?, V::want(x)?);
        }
        Some(out)
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        if let ReflectRef::Map(m) = v.reflect_ref() {
            for (k, x) in m.iter() {
                if let Some(k) = K::want(k) {
                    if let Some(y) = self.get_mut(&k) { y.want_patch(x) }
                }
            }
        }
    }
}
fn en(v: &dyn Reflect) -> Option<&dyn Enum> {
    match v.reflect_ref() { ReflectRef::Enum(e) => Some(e), _ => None }
}
fn patch_at<T: Oracle>(x: &mut T, e: &dyn Enum, i: usize) { if let Some(n) = e.field_at(i) { x.want_patch(n) } }
fn patch_named<T: Oracle>(x: &mut T, e: &dyn Enum, n: &str) { if let Some(n) = e.field(n) { x.want_patch(n) } }
impl<T: Oracle + DescribeType> Oracle for Option<T> {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        match e.variant_name() { "None" => Some(None), "Some" => Some(Some(T::want(e.field_at(0)?)?)), _ => None }
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        if let Some(x) = self { if e.variant_name() == "Some" { patch_at(x, e, 0) } }
    }
}
impl<T: Oracle + DescribeType, E: Oracle + DescribeType> Oracle for Result<T, E> {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        match e.variant_name() { "Ok" => Some(Ok(T::want(e.field_at(0)?)?)), "Err" => Some(Err(E::want(e.field_at(0)?)?)), _ => None }
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        match self { Ok(x) => if e.variant_name() == "Ok" { patch_at(x, e, 0) }, Err(x) => if e.variant_name() == "Err" { patch_at(x, e, 0) } }
    }
}
impl Oracle for E {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        Some(match e.variant_name() {
            "U" => E::U,
            "U2" => E::U2,
            "T" => E::T(at!(e, 0), at!(e, 1)),
            "S" => E::S { a: Oracle::want(e.field("a")?)?, b: Oracle::want(e.field("b")?)? },
            "R" => E::R { b: Oracle::want(e.field("b")?)?, a: Oracle::want(e.field("a")?)? },
            "TSk1" => E::TSk1(0, at!(e, 0), at!(e, 1)),
            "TSk2" => E::TSk2(at!(e, 0), 0, at!(e, 1)),
            "SSk1" => E::SSk1 { z: 0, a: Oracle::want(e.field("a")?)?, b: Oracle::want(e.field("b")?)? },
            "SSk2" => E::SSk2 { z: 0, a: Oracle::want(e.field("a")?)?, b: Oracle::want(e.field("b")?)? },
            _ => return None,
        })
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        if self.variant().map(|v| v.0) != Some(e.variant_name()) { return }
        match self {
            E::U | E::U2 | E::Hidden { .. } => {}
            E::T(x, y) | E::TSk1(_, x, y) | E::TSk2(x, _, y) => { patch_at(x, e, 0); patch_at(y, e, 1) }
            E::S { a, b } | E::R { a, b } | E::SSk1 { a, b, .. } | E::SSk2 { a, b, .. } => { patch_named(a, e, "a"); patch_named(b, e, "b") }
        }
    }
}
impl Oracle for E2 {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        Some(match e.variant_name() {
            "Raw" => E2::Raw { r#type: Oracle::want(e.field("r#type")?)?, a: Oracle::want(e.field("a")?)? },
            "r#Move" => E2::Move(at!(e, 0)),
            "Multi" => E2::Multi(0, at!(e, 0), String::new(), 0, at!(e, 1)),
            "MultiS" => E2::MultiS { z: 0, b: Oracle::want(e.field("b")?)?, y: String::new(), a: Oracle::want(e.field("a")?)? },
            "Big" => E2::Big(at!(e, 0), at!(e, 1), at!(e, 2), at!(e, 3), at!(e, 4), at!(e, 5), at!(e, 6), at!(e, 7), at!(e, 8), at!(e, 9), at!(e, 10)),
            "One" => E2::One(at!(e, 0)),
            "AllS" => E2::AllS { z: 0 },
            "AllT" => E2::AllT(0),
            "EmptyS" => E2::EmptyS {},
            "EmptyT" => E2::EmptyT(),
            _ => return None,
        })
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        if self.variant().map(|v| v.0) != Some(e.variant_name()) { return }
        match self {
            E2::Raw { r#type, a } => { patch_named(r#type, e, "r#type"); patch_named(a, e, "a") }
            E2::Move(x) | E2::One(x) => patch_at(x, e, 0),
            E2::Multi(_, x, _, _, y) => { patch_at(x, e, 0); patch_at(y, e, 1) }
            E2::MultiS { a, b, .. } => { patch_named(b, e, "b"); patch_named(a, e, "a") }
            E2::Big(a, b, c, d, e_, f, g, h, i, j, k) => {
                patch_at(a, e, 0); patch_at(b, e, 1); patch_at(c, e, 2); patch_at(d, e, 3); patch_at(e_, e, 4); patch_at(f, e, 5);
                patch_at(g, e, 6); patch_at(h, e, 7); patch_at(i, e, 8); patch_at(j, e, 9); patch_at(k, e, 10)
            }
            _ => {}
        }
    }
}
impl Oracle for Disc {
    fn want(v: &dyn Reflect) -> Option<Self> {
        match en(v)?.variant_name() { "A" => Some(Disc::A), "B" => Some(Disc::B), "C" => Some(Disc::C), _ => None }
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        if let Some(n) = Self::want(v) { *self = n }
    }
}
impl Oracle for F<i32> {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        Some(match e.variant_name() {
            "A" => F::A { name: Oracle::want(e.field("name")?)?, index: Oracle::want(e.field("index")?)?, value: Oracle::want(e.field("value")?)? },
            "B" => F::B { enum_: Oracle::want(e.field("enum_")?)?, variant_matches: Oracle::want(e.field("variant_matches")?)? },
            "C" => F::C(at!(e, 0), at!(e, 1)),
            "D" => F::D(at!(e, 0)),
            _ => return None,
        })
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        if self.variant().map(|v| v.0) != Some(e.variant_name()) { return }
        match self {
            F::A { name, index, value } => { patch_named(name, e, "name"); patch_named(index, e, "index"); patch_named(value, e, "value") }
            F::B { enum_, variant_matches } => { patch_named(enum_, e, "enum_"); patch_named(variant_matches, e, "variant_matches") }
            F::C(x, y) => { patch_at(x, e, 0); patch_at(y, e, 1) }
            F::D(x) => patch_at(x, e, 0),
        }
    }
}
impl Oracle for WithE {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        Some(match e.variant_name() {
            "A" => WithE::A { a: Oracle::want(e.field("a")?)?, b: with_i32(e.field("b")?)? },
            "B" => WithE::B(with_i32(e.field_at(0)?)?, at!(e, 1)),
            _ => return None,
        })
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        match self {
            WithE::A { a, b } => if e.variant_name() == "A" { patch_named(a, e, "a"); patch_named(b, e, "b") },
            WithE::B(a, b) => if e.variant_name() == "B" { patch_at(a, e, 0); patch_at(b, e, 1) },
        }
    }
}
impl Oracle for F2 {
    fn want(v: &dyn Reflect) -> Option<Self> {
        let e = en(v)?;
        Some(match e.variant_name() {
            "A" => F2::A,
            "B" => F2::B { a: Oracle::want(e.field("a")?)? },
            "C" => F2::C(at!(e, 0), at!(e, 1)),
            _ => return None,
        })
    }
    fn want_patch(&mut self, v: &dyn Reflect) {
        let Some(e) = en(v) else { return };
        if let Some(n) = Self::want(v) { *self = n; return }
        match self {
            F2::A => {}
            F2::B { a } => if e.variant_name() == "B" { patch_named(a, e, "a") },
            F2::C(x, y) => if e.variant_name() == "C" { patch_at(x, e, 0); patch_at(y, e, 1) },
        }
    }
}
macro_rules! nonzero {
    ($($t:ident $i:ty),* $(,)?) => { $(impl Oracle for std::num::$t {
        fn want(v: &dyn Reflect) -> Option<Self> {
            if let Some(n) = v.downcast_ref::<std::num::$t>() { return Some(*n) }
            std::num::$t::new(*v.downcast_ref::<$i>()?)
        }
        fn want_patch(&mut self, v: &dyn Reflect) { if let Some(n) = Self::want(v) { *self = n } }
    })* };
}
nonzero!(NonZeroUsize usize, NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128);

/// the fields of a dynamic struct, read one by one
pub fn want_struct_value(v: &dyn Reflect) -> Option<StructValue> {
    let s = match v.reflect_ref() { ReflectRef::Struct(s) => s, _ => return None };
    let mut out = StructValue::new();
    let mut i = 0;
    while i < s.fields_len() {
        out.set_field(s.name_at(i)?, s.field_at(i)?.to_value());
        i += 1;
    }
    Some(out)
}
pub fn want_tuple_value(v: &dyn Reflect) -> Option<TupleValue> {
    let s = match v.reflect_ref() { ReflectRef::Tuple(s) => s, _ => return None };
    let mut out = TupleValue::new();
    let mut i = 0;
    while i < s.fields_len() {
        out.push_field(s.field_at(i)?.to_value());
        i += 1;
    }
    Some(out)
}
pub fn want_tuple_struct_value(v: &dyn Reflect) -> Option<TupleStructValue> {
    let s = match v.reflect_ref() { ReflectRef::TupleStruct(s) => s, _ => return None };
    let mut out = TupleStructValue::new();
    let mut i = 0;
    while i < s.fields_len() {
        out.push_field(s.field_at(i)?.to_value());
        i += 1;
    }
    Some(out)
}
pub fn want_enum_value(v: &dyn Reflect) -> Option<EnumValue> {
    let e = en(v)?;
    let mut i = 0;
    Some(match e.variant_kind() {
        VariantKind::Unit => EnumValue::new_unit_variant(e.variant_name()),
        VariantKind::Struct => {
            let mut b = EnumValue::new_struct_variant(e.variant_name());
            while i < e.fields_len() {
                b.set_struct_field(e.name_at(i)?, e.field_at(i)?.to_value());
                i += 1;
            }
            b.finish()
        }
        VariantKind::Tuple => {
            let mut b = EnumValue::new_tuple_variant(e.variant_name());
            while i < e.fields_len() {
                b.push_tuple_field(e.field_at(i)?.to_value());
                i += 1;
            }
            b.finish()
        }
    })
}

// the last fields of long ones are patched like the first
