//! P02: skipped fields and variants are invisible to reflection.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::*;

fn not_at(r: Option<&dyn Reflect>, l: Loc) -> bool {
    match r { Some(r) => !at_loc(r.as_reflect(), l), None => true }
}
fn not_at_mut(r: Option<&mut dyn Reflect>, l: Loc) -> bool {
    match r { Some(r) => !at_loc(r.as_reflect(), l), None => true }
}
/// the skipped field
pub trait Skipped { fn z(&self) -> &i32; }
impl Skipped for Sk1 { fn z(&self) -> &i32 { &self.z } }
impl Skipped for Sk2 { fn z(&self) -> &i32 { &self.z } }
impl Skipped for Sk3 { fn z(&self) -> &i32 { &self.z } }
impl Skipped for AllSkip { fn z(&self) -> &i32 { &self.z } }
impl Skipped for NoClone { fn z(&self) -> &i32 { &self.z } }
impl Skipped for NoDebug { fn z(&self) -> &i32 { &self.z } }
impl Skipped for NoFrom { fn z(&self) -> &i32 { &self.z } }
impl Skipped for TSk1 { fn z(&self) -> &i32 { &self.0 } }
impl Skipped for TSk2 { fn z(&self) -> &i32 { &self.1 } }
impl Skipped for TSk3 { fn z(&self) -> &i32 { &self.2 } }
impl Skipped for TNoClone { fn z(&self) -> &i32 { &self.1 } }
impl Skipped for TNoDebug { fn z(&self) -> &i32 { &self.1 } }

fn named<T: Struct + Skipped + Spec>(x: &mut T, n: &str, i: usize) {
    let l = loc(x.z());
    check("a skipped field is not found by name", not_at(x.field(n), l) && not_at_mut(x.field_mut(n), l) && x.field("z").is_none() && x.field_mut("z").is_none());
    check("a skipped field is not found by position", not_at(x.field_at(i), l) && not_at_mut(x.field_at_mut(i), l));
    check("a skipped field has no position", x.name_at(i) != Some("z"));
    check("a skipped field is not counted", x.fields_len() == x.spec().n);
    for (m, r) in x.fields() {
        check("a skipped field is not iterated", m != "z" && not_at(Some(r), l));
    }
    for (m, r) in x.fields_mut() {
        check("a skipped field is not iterated mutably", m != "z" && not_at_mut(Some(r), l));
    }
}
macro_rules! positional {
    ($f:ident, $tr:ident) => {
        fn $f<T: $tr + Skipped + Spec>(x: &mut T, i: usize) {
            let l = loc(x.z());
            check("a skipped field is not found by position", not_at(x.field_at(i), l) && not_at_mut(x.field_at_mut(i), l));
            check("a skipped field is not counted", x.fields_len() == x.spec().n);
            for r in x.fields() {
                check("a skipped field is not iterated", not_at(Some(r), l));
            }
            for r in x.fields_mut() {
                check("a skipped field is not iterated mutably", not_at_mut(Some(r), l));
            }
        }
    };
}
positional!(tuple_struct, TupleStruct);

fn to_value<T: Reflect + Skipped + Spec>(x: &T) {
    let v = x.to_value();
    let n = x.spec().n;
    if let Some(s) = v.as_struct() {
        check("the value of a skipped field is not exported", s.fields_len() == n && s.field("z").is_none());
    }
    if let Some(s) = v.as_tuple_struct() {
        check("the value of a skipped field is not exported", s.fields_len() == n);
    }
    check("the exported value has fields", v.as_struct().is_some() || v.as_tuple_struct().is_some());
}
fn patch<T: Reflect + Skipped>(x: &mut T, v: &dyn Reflect) {
    let z = *x.z();
    x.patch(v);
    check("patching does not change a skipped field", *x.z() == z);
}
fn from<T: FromReflect + Skipped>(v: &dyn Reflect) {
    if let Some(y) = T::from_reflect(v) {
        check("a skipped field is default when converted", *y.z() == 0);
    } else {
        check("a skipped field is default when converted", true);
    }
}
fn from_same<T: FromReflect + Skipped>(x: &T) {
    let v = x.to_value();
    let y = T::from_reflect(&v);
    check("a skipped field need not be present in the input", y.is_some());
    if let Some(y) = y {
        check("a skipped field is default when converted", *y.z() == 0);
    }
}
fn descr<T: DescribeType + Spec>(x: &T) {
    let d = T::type_descriptor();
    let n = x.spec().n;
    if let Some(s) = d.as_struct() {
        check("a skipped field is not described", s.fields_len() == n && s.field_type("z").is_none());
        let mut k = 0;
        for f in s.field_types() {
            check("a skipped field is not among the described fields", f.name() != "z");
            k += 1;
        }
        check("only reflected fields are described", k == n);
    } else if let Some(s) = d.as_tuple_struct() {
        let mut k = 0;
        for _ in s.field_types() {
            k += 1;
        }
        check("only reflected fields are described", k == n && s.fields_len() == n);
    } else {
        check("a struct is described as a struct", false);
    }
}
macro_rules! obs {
    (named: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_lookup(x: &mut $t, n: &str, i: usize) { named(x, n, i) }
        pub fn ob_to_value(x: &$t) { to_value(x) }
        pub fn ob_patch(x: &mut $t, v: &dyn Reflect) { patch(x, v) }
        pub fn ob_descr(x: &$t) { descr(x) }
    })* };
    (tuple_struct: $($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_lookup(x: &mut $t, i: usize) { tuple_struct(x, i) }
        pub fn ob_to_value(x: &$t) { to_value(x) }
        pub fn ob_patch(x: &mut $t, v: &dyn Reflect) { patch(x, v) }
        pub fn ob_descr(x: &$t) { descr(x) }
    })* };
    (from: $($m:ident = $t:ty),* $(,)?) => { pub mod from_reflect { use super::*; $(pub mod $m { use super::*;
        pub fn ob_from(v: &dyn Reflect) { from::<$t>(v) }
        pub fn ob_from_same(x: &$t) { from_same::<$t>(x) }
    })* } };
}
obs!(named: sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, allskip = AllSkip, noclone = NoClone, nodebug = NoDebug, nofrom = NoFrom);
obs!(tuple_struct: tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tnoclone = TNoClone, tnodebug = TNoDebug);
obs!(from: sk1 = Sk1, sk2 = Sk2, sk3 = Sk3, allskip = AllSkip, noclone = NoClone, nodebug = NoDebug, tsk1 = TSk1, tsk2 = TSk2, tsk3 = TSk3, tnoclone = TNoClone, tnodebug = TNoDebug);

fn ez(x: &E) -> Option<&i32> {
    match x {
        E::TSk1(z, ..) | E::TSk2(_, z, _) | E::SSk1 { z, .. } | E::SSk2 { z, .. } | E::Hidden { a: z } => Some(z),
        _ => None,
    }
}
pub fn ob_enum_lookup(x: &mut E, n: &str, i: usize) {
    let Some(z) = ez(x) else { return };
    let l = loc(z);
    check("a skipped field is not found by name", not_at(x.field(n), l) && not_at_mut(x.field_mut(n), l));
    check("a skipped field is not found by position", not_at(x.field_at(i), l) && not_at_mut(x.field_at_mut(i), l));
    check("a skipped field has no position", x.name_at(i) != Some("z"));
    check("a skipped field is not counted", x.fields_len() == x.spec().n);
    for f in x.fields() {
        let (VariantField::Struct(_, r) | VariantField::Tuple(r)) = f;
        check("a skipped field is not iterated", not_at(Some(r), l));
    }
    for f in x.fields_mut() {
        let (VariantFieldMut::Struct(_, r) | VariantFieldMut::Tuple(r)) = f;
        check("a skipped field is not iterated mutably", not_at_mut(Some(r), l));
    }
    check("a skipped variant is not counted", x.variants_len() == 9);
}
pub fn ob_enum_to_value(x: &E) {
    assume(!matches!(x, E::Hidden { .. }));
    let v = x.to_value();
    let n = x.spec().n;
    match v.as_enum() {
        Some(e) => check("the value of a skipped field is not exported", e.fields_len() == n && e.field("z").is_none()),
        None => check("the value of an enum is an enum", false),
    }
}
pub fn ob_enum_patch(x: &mut E, v: &dyn Reflect) {
    let Some(z) = ez(x) else { return };
    let z = *z;
    let new = E::from_reflect(v);
    x.patch(v);
    match new {
        Some(new) => check("patching with a convertible value replaces it", veq(x, &new)),
        None => check("patching does not change a skipped field", ez(x).is_some() && *ez(x).unwrap() == z),
    }
}
pub fn ob_enum_from(v: &dyn Reflect) {
    match E::from_reflect(v) {
        Some(y) => {
            check("a skipped variant is never built", !matches!(y, E::Hidden { .. }));
            check("a skipped field is default when converted", match ez(&y) { Some(z) => *z == 0, None => true });
        }
        None => check("a skipped variant is never built", true),
    }
}
pub fn ob_enum_from_same(x: &E) {
    assume(!matches!(x, E::Hidden { .. }));
    let y = E::from_reflect(&x.to_value());
    check("a skipped field need not be present in the input", y.is_some());
    if let Some(y) = y {
        check("a skipped field is default when converted", match ez(&y) { Some(z) => *z == 0, None => true });
    }
}
pub fn ob_enum_descr(x: &E) {
    let Some((name, _)) = x.variant() else { return };
    let n = x.spec().n;
    let d = <E as DescribeType>::type_descriptor();
    let Some(e) = d.as_enum() else { return check("an enum is described as an enum", false) };
    check("a skipped variant is not described", e.variants_len() == 9 && e.variant("Hidden").is_none());
    let mut k = 0;
    for v in e.variants() {
        k += 1;
        check("a skipped variant is not among the described variants", v.name() != "Hidden");
        if v.name() == name {
            let mut m = 0;
            for f in v.field_types() {
                m += 1;
                check("a skipped field of a variant is not described", f.name() != Some("z"));
            }
            check("only reflected fields of a variant are described", m == n);
        }
    }
    check("only reflected variants are described", k == 9);
}
