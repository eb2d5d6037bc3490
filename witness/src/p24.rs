//! P24: nothing panics.  (All obligations of the other properties take part; these add operations on
//! dynamic values, whose only statement is that they return.)
use crate::support::*;
use crate::types::*;
use mirror_mirror::enum_::*;
use mirror_mirror::key_path::*;
use mirror_mirror::struct_::*;
use mirror_mirror::tuple::*;
use mirror_mirror::tuple_struct::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;

fn look<R: Reflect>(x: &R) {
    let d: &dyn Reflect = x;
    let _ = d.to_value();
    let _ = d.clone_reflect();
    let _ = d.type_descriptor().get_type().type_name().len();
    let _ = d.reflect_ref().as_reflect().as_any();
    let _ = (d.as_struct().map(|s| s.fields_len()), d.as_enum().map(|s| s.fields_len()), d.as_list().map(|s| s.len()), d.as_map().map(|s| s.len()));
    check("returns", true);
}
fn change<R: Reflect>(mut x: R) {
    let by = any_reflect("by");
    x.patch(by);
    let _ = Reflect::reflect_owned(Box::new(x)).as_reflect().reflect_ref();
    check("returns", true);
}
fn compare<R: Reflect>(x: &R) {
    let with = any_reflect("with");
    let _ = (reflect_eq(x, with), reflect_eq(with, x));
    check("returns", true);
}
fn reach<R: Reflect>(x: &mut R, n: &str, i: usize) {
    let _ = x.at(&KeyPath::default().field(n).field(i)).is_some();
    let _ = x.at_mut(&KeyPath::default().field(i).variant(n)).is_some();
    let _ = x.at(&KeyPath::default().get(i).get(n.to_owned())).is_some();
    check("returns", true);
}
macro_rules! obs {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_look(x: &$t) { look::<$t>(x) }
        pub fn ob_change(x: $t) { change::<$t>(x) }
        pub fn ob_compare(x: &$t) { compare::<$t>(x) }
        pub fn ob_reach(x: &mut $t, n: &str, i: usize) { reach::<$t>(x, n, i) }
    })* };
}
obs!(value = Value, struct_value = StructValue, tuple_value = TupleValue, tuple_struct_value = TupleStructValue, enum_value = EnumValue, list = Vec<Value>, map = BTreeMap<Value, Value>, s3 = S3, share = Share, opt = Option<S3>, vec = Vec<T1>, m = BTreeMap<i32, S3>, arr = [T1; 2], duration = std::time::Duration, nz = std::num::NonZeroU8, string = String);
macro_rules! types {
    ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*;
        pub fn ob_type(n: &str, i: usize) {
            let d = <$t as DescribeType>::type_descriptor();
            let t = d.get_type();
            let _ = (t.default_value(), t.has_default_value(), t.type_name(), t.docs(), t.meta(n).is_some());
            let _ = (t.type_at(&KeyPath::default().field(n)).is_some(), t.type_at(&KeyPath::default().field(i)).is_some(), t.type_at(&KeyPath::default().variant(n).field(i)).is_some(), t.type_at(&KeyPath::default().get(i).field(n)).is_some());
            check("returns", true);
        }
    })* };
}
types!(t_s3 = S3, t_e = E, t_e2 = E2, t_unit = Unit, t_disc = Disc, t_option = Option<S3>, t_result = Result<i32, String>, t_vec = Vec<S3>, t_arr = [S3; 2], t_arr0 = [i32; 0], t_map = BTreeMap<String, S3>, t_tup = (i32, String), t_tup0 = (), t_i32 = i32, t_string = String, t_duration = std::time::Duration,
    t_infallible = std::convert::Infallible, t_value = Value, t_nest = Nest, t_bx = Bx, t_ri = std::ops::RangeToInclusive<i32>, t_opt_never = Option<std::convert::Infallible>);
