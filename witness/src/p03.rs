//! P03: a value converted to a `Value` and back is the same value.
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::num::*;

fn rt<T: FromReflect>(x: &T) {
    let v = x.to_value();
    match T::from_reflect(&v) {
        Some(y) => check("the value converts back to the same value", veq(&y, x)),
        None => check("the value converts back", false),
    }
    let w = v.to_value();
    check("exporting an exported value changes nothing", veq(&v, &w));
    match Value::from_reflect(x) {
        Some(u) => check("converting into a dynamic value is exporting", veq(&u, &v)),
        None => check("anything converts into a dynamic value", false),
    }
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_round_trip(x: &$t) { rt::<$t>(x) }
    })* };
}
obs!(s3 = S3, unit = Unit, empty = Empty, names = Names, bx = Bx, gen = Gen<i32, i32>, gens = Gen<String, S3>,
    range = std::ops::Range<i32>, range_from = std::ops::RangeFrom<i32>, range_to = std::ops::RangeTo<i32>,
    range_to_incl = std::ops::RangeToInclusive<i32>, range_full = std::ops::RangeFull, vec2 = glam::Vec2, vec3 = glam::Vec3, mat3 = glam::Mat3,
    t1 = T1, t3 = T3, tbx = TBx, tgen = TGen<i32>, tup0 = (), tup1 = (i32,), tup2 = (i32, i32), tup3 = (i32, i32, String), tup5 = (i32, i32, i32, i32, i32),
    f = F<i32>, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, arr0 = [i32; 0], arr = [i32; 3], arr_s = [S3; 2], map = BTreeMap<String, i32>, map_s = BTreeMap<i32, S3>,
    boxed = Box<S3>, box_box = Box<Box<i32>>, box_e = Box<Option<i32>>, box_vec = Box<Vec<i32>>, nest2 = Nest2);
obs!(raw = Raw, big = Big, bigt = BigT, tup11 = Tup11, tup16 = Tup16, cont = Cont, disc = Disc, cgen = CGen<2>,
    opt_opt = Option<Option<i32>>, opt_vec = Option<Vec<i32>>, vec_opt = Vec<Option<i32>>, vec_tup = Vec<(i32, String)>, map_vec = BTreeMap<i32, Vec<i32>>, map_opt = BTreeMap<String, Option<i32>>,
    vec_map = Vec<BTreeMap<i32, i32>>, arr_opt = [Option<i32>; 2], arr_vec = [Vec<i32>; 2], box_map = Box<BTreeMap<i32, i32>>, res_vec = Result<Vec<i32>, Option<i32>>,
    opt_box = Option<Box<i32>>, vec_e = Vec<Disc>, map_map = BTreeMap<i32, BTreeMap<i32, i32>>, map_unit = BTreeMap<String, ()>, vec_bool = Vec<bool>, arr_arr = [[i32; 2]; 2]);
obs!(usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128,
    bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String);
obs!(nzusize = NonZeroUsize, nzu8 = NonZeroU8, nzu16 = NonZeroU16, nzu32 = NonZeroU32, nzu64 = NonZeroU64, nzu128 = NonZeroU128,
    nzi8 = NonZeroI8, nzi16 = NonZeroI16, nzi32 = NonZeroI32, nzi64 = NonZeroI64, nzi128 = NonZeroI128);
obs!(value = Value, tuple_value = TupleValue, tuple_struct_value = TupleStructValue);

/// dynamic structs and enums are built through their public operations
pub fn ob_struct_value(n1: String, n2: String, v1: Value, v2: Value) {
    rt(&StructValue::new().with_field(n1, v1).with_field(n2, v2));
}
pub fn ob_enum_value_struct(v: String, n1: String, n2: String, v1: Value, v2: Value) {
    rt(&EnumValue::new_struct_variant(v).with_struct_field(n1, v1).with_struct_field(n2, v2).finish());
}
pub fn ob_enum_value_tuple(v: String, v1: Value, v2: Value) {
    rt(&EnumValue::new_tuple_variant(v).with_tuple_field(v1).with_tuple_field(v2).finish());
}
pub fn ob_enum_value_unit(v: String) {
    rt(&EnumValue::new_unit_variant(v));
}

/// types with skipped fields: the reflected part survives
pub fn ob_sk(x: &Sk1, y: &Sk2, z: &Sk3) {
    match Sk1::from_reflect(&x.to_value()) { Some(r) => check("the reflected fields survive", r.a == x.a && r.b == x.b), None => check("the value converts back", false) }
    match Sk2::from_reflect(&y.to_value()) { Some(r) => check("the reflected fields survive", r.a == y.a && r.b == y.b), None => check("the value converts back", false) }
    match Sk3::from_reflect(&z.to_value()) { Some(r) => check("the reflected fields survive", r.a == z.a && r.b == z.b), None => check("the value converts back", false) }
}
pub fn ob_tsk(x: &TSk1, y: &TSk2, z: &TSk3) {
    match TSk1::from_reflect(&x.to_value()) { Some(r) => check("the reflected fields survive", r.1 == x.1 && r.2 == x.2), None => check("the value converts back", false) }
    match TSk2::from_reflect(&y.to_value()) { Some(r) => check("the reflected fields survive", r.0 == y.0 && r.2 == y.2), None => check("the value converts back", false) }
    match TSk3::from_reflect(&z.to_value()) { Some(r) => check("the reflected fields survive", r.0 == z.0 && r.1 == z.1), None => check("the value converts back", false) }
}
pub fn ob_nodebug(x: &NoDebug, y: &NoClone) {
    match NoDebug::from_reflect(&x.to_value()) { Some(r) => check("the reflected fields survive", r.a == x.a && veq(&r.b, &x.b)), None => check("the value converts back", false) }
    match NoClone::from_reflect(&y.to_value()) { Some(r) => check("the reflected fields survive", r.a == y.a && veq(&r.b, &y.b)), None => check("the value converts back", false) }
}
pub fn without_skipped(x: &E) -> E {
    let mut y = x.clone();
    match &mut y {
        E::TSk1(z, ..) | E::TSk2(_, z, _) | E::SSk1 { z, .. } | E::SSk2 { z, .. } => *z = 0,
        _ => {}
    }
    y
}
pub fn ob_enum(x: &E) {
    assume(!matches!(x, E::Hidden { .. }));
    match E::from_reflect(&x.to_value()) {
        Some(r) => check("the variant and its reflected fields survive", veq(&r, &without_skipped(x))),
        None => check("the value converts back", false),
    }
}
/// the exported value has the same shape
fn shape_struct<T: Struct + Spec>(x: &T) {
    let v = x.to_value();
    let Some(s) = v.as_struct() else { return check("the value of a struct is a struct", false) };
    check("the exported struct has the same number of fields", s.fields_len() == x.fields_len());
    let mut k = 0;
    for (n, f) in x.fields() {
        check("the exported struct has the same names in the same order", s.name_at(k) == Some(n));
        match s.field(n) {
            Some(g) => check("the exported field is the value of the field", veq(&g.to_value(), &f.to_value())),
            None => check("the exported struct has every field", false),
        }
        k += 1;
    }
}
fn shape_ts<T: TupleStruct + Spec>(x: &T) {
    let v = x.to_value();
    let Some(s) = v.as_tuple_struct() else { return check("the value of a tuple struct is a tuple struct", false) };
    check("the exported struct has the same number of fields", s.fields_len() == x.fields_len());
    let mut k = 0;
    for f in x.fields() {
        match s.field_at(k) {
            Some(g) => check("the exported field is the value of the field", veq(&g.to_value(), &f.to_value())),
            None => check("the exported struct has every field", false),
        }
        k += 1;
    }
}
pub fn ob_shape_enum(x: &E) {
    let Some((name, kind)) = x.variant() else { return };
    let v = x.to_value();
    let Some(s) = v.as_enum() else { return check("the value of an enum is an enum", false) };
    check("the exported enum has the same variant", s.variant_name() == name && s.variant_kind() == kind);
    check("the exported enum has the same number of fields", s.fields_len() == x.fields_len());
    let mut k = 0;
    for f in x.fields() {
        let (VariantField::Struct(_, r) | VariantField::Tuple(r)) = f;
        if let VariantField::Struct(n, _) = f {
            check("the exported enum has the same names in the same order", s.name_at(k) == Some(n));
        }
        match s.field_at(k) {
            Some(g) => check("the exported field is the value of the field", veq(&g.to_value(), &r.to_value())),
            None => check("the exported enum has every field", false),
        }
        k += 1;
    }
}
pub fn ob_shape(a: &S3, b: &Sk2, c: &Names) { shape_struct(a); shape_struct(b); shape_struct(c); }
pub fn ob_shape_ts(a: &T3, b: &TSk2) { shape_ts(a); shape_ts(b); }
pub fn ob_shape_list(x: &Vec<i32>) {
    let v = x.to_value();
    let Some(l) = v.as_list() else { return check("the value of a list is a list", false) };
    check("the exported list has the same length", l.len() == x.len());
    for i in 0..x.len() {
        check("the exported list has the same items in order", match l.get(i) { Some(r) => match r.downcast_ref::<i32>() { Some(n) => *n == x[i], None => false }, None => false });
    }
}
pub fn ob_shape_map(x: &BTreeMap<String, i32>) {
    let v = x.to_value();
    let Some(l) = v.as_map() else { return check("the value of a map is a map", false) };
    check("the exported map has the same length", l.len() == x.len());
    for (k, n) in x.iter() {
        check("the exported map has the same entries", match l.get(k) { Some(r) => match r.downcast_ref::<i32>() { Some(m) => *n == *m, None => false }, None => false });
    }
}

pub fn ob_multi(x: &Multi, y: &TMulti) {
    match Multi::from_reflect(&x.to_value()) { Some(r) => check("the reflected fields survive", r.a == x.a && veq(&r.b, &x.b)), None => check("the value converts back", false) }
    match TMulti::from_reflect(&y.to_value()) { Some(r) => check("the reflected fields survive", r.1 == y.1 && veq(&r.4, &y.4)), None => check("the value converts back", false) }
}
pub fn ob_enum2(x: &E2) {
    assume(x.variant().is_some());
    let mut y = x.clone();
    match &mut y {
        E2::Multi(a, _, b, c, _) => { *a = 0; *b = String::new(); *c = 0 }
        E2::MultiS { z, y, .. } => { *z = 0; *y = String::new() }
        E2::AllS { z } | E2::AllT(z) => *z = 0,
        _ => {}
    }
    match E2::from_reflect(&x.to_value()) {
        Some(r) => check("the variant and its reflected fields survive", veq(&r, &y)),
        None => check("the value converts back", false),
    }
}
