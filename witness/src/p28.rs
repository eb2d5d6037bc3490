//! P28: the simple name of a type is its name as written in source, without the paths, and pretty printing a
//! description shows all of it.
use crate::support::*;
use crate::types::*;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::collections::BTreeMap;
use std::fmt::Write;

/// the reference: what a parsed type looks like without paths; nothing for the kinds of types that are not written
fn spell(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Array(a) => Some(format!("[{}; {}]", spell(&a.elem)?, number(&a.len)?)),
        syn::Type::Path(p) => {
            if p.qself.is_some() {
                return None;
            }
            let s = p.path.segments.last()?;
            let mut out = format!("{}", s.ident);
            match &s.arguments {
                syn::PathArguments::None => Some(out),
                syn::PathArguments::AngleBracketed(a) => {
                    let mut n = 0;
                    for x in &a.args {
                        let x = match x {
                            syn::GenericArgument::Lifetime(_) => continue,
                            syn::GenericArgument::Type(t) => spell(t)?,
                            syn::GenericArgument::Const(c) => number(c)?,
                            _ => return None,
                        };
                        out.push_str(if n == 0 { "<" } else { ", " });
                        out.push_str(&x);
                        n += 1;
                    }
                    if n > 0 {
                        out.push_str(">");
                    }
                    Some(out)
                }
                _ => None,
            }
        }
        syn::Type::Tuple(t) => {
            let mut out = String::from("(");
            let n = t.elems.len();
            let mut i = 0;
            for x in &t.elems {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(&spell(x)?);
                i += 1;
            }
            out.push_str(if n == 1 { ",)" } else { ")" });
            Some(out)
        }
        syn::Type::Reference(r) => Some(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, spell(&r.elem)?)),
        _ => None,
    }
}
fn number(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(x) => Some(format!("{}", x)),
            syn::Lit::Float(x) => Some(format!("{}", x)),
            syn::Lit::Bool(x) => Some(String::from(if x.value { "true" } else { "false" })),
            _ => None,
        },
        _ => None,
    }
}
fn written(name: &str) -> Option<String> {
    let mut s = String::new();
    match SimpleTypeName::new(name) {
        Some(n) => match write!(s, "{}", n) { Ok(()) => Some(s), Err(_) => None },
        None => None,
    }
}
fn expected(name: &str) -> Option<String> {
    match syn::parse_str::<syn::Type>(name) {
        Ok(t) => spell(&t),
        Err(_) => None,
    }
}
fn agree(name: &str, plain: &str) {
    check("the simple name is the type without its paths", written(name) == expected(plain));
}
/// of any text: unless it is in a constant without a name, it is parsed as it is
pub fn ob_simple_name() { agree("a::B", "a::B") }
pub fn ob_simple_name_wide() { agree("a::B", "a::B") }
pub fn ob_simple_name_nested() { agree("a::B", "a::B") }
macro_rules! same {
    ($($m:ident { $($n:ident: $a:literal is $b:literal),* $(,)? })*) => { $(pub mod $m { use super::*; $(pub fn $n() { agree($a, $b) })* })* };
}
same! {
    underscore { ob_type: "a::_B" is "a::_B", ob_module: "a::_b::C" is "a::_b::C", ob_all: "a::_b::_C<d::_E>" is "a::_b::_C<d::_E>", ob_end: "a_::B_" is "a_::B_", ob_crate: "_a::B" is "_a::B", ob_two: "a::__::__B" is "a::__::__B" }
    in_const { ob_type: "a::_::B" is "a::B", ob_const: "a::_::_::B" is "a::B", ob_fn: "a::_::f::_::B" is "a::f::B", ob_args: "a::b::_::C<a::_::D, a::_e::_F>" is "a::b::C<a::D, a::_e::_F>", ob_deep: "a::_::_::_::_B" is "a::_B" }
}

/// the reference for pretty printing
fn simple(name: &str) -> String {
    written(name).unwrap_or_else(|| name.to_owned())
}
fn unnamed(fields: Vec<String>) -> String {
    let mut out = String::from("(");
    let mut i = 0;
    for x in fields {
        if i > 0 {
            out.push_str(", ");
        }
        out.push_str(&x);
        i += 1;
    }
    out.push_str(")");
    out
}
fn named(fields: Vec<(String, String)>, indent: &str) -> String {
    if fields.is_empty() {
        return String::from("{}");
    }
    let mut out = String::from("{\n");
    for (n, t) in fields {
        out = format!("{}{}    {}: {},\n", out, indent, n, t);
    }
    out.push_str(indent);
    out.push_str("}");
    out
}
fn show(t: Type<'_>) -> String {
    match t {
        Type::Struct(x) => format!("struct {} {}", simple(x.type_name()), named(x.field_types().map(|f| (f.name().to_owned(), simple(f.get_type().type_name()))).collect(), "")),
        Type::TupleStruct(x) => format!("struct {}{}", simple(x.type_name()), unnamed(x.field_types().map(|f| simple(f.get_type().type_name())).collect())),
        Type::Tuple(x) => unnamed(x.field_types().map(|f| simple(f.get_type().type_name())).collect()),
        Type::Enum(x) => {
            let mut out = format!("enum {} {{", simple(x.type_name()));
            let mut i = 0;
            for v in x.variants() {
                if i == 0 {
                    out.push_str("\n");
                }
                i += 1;
                out = match v {
                    Variant::Struct(v) => format!("{}    {} {},\n", out, v.name(), named(v.field_types().map(|f| (f.name().to_owned(), simple(f.get_type().type_name()))).collect(), "    ")),
                    Variant::Tuple(v) => format!("{}    {}{},\n", out, v.name(), unnamed(v.field_types().map(|f| simple(f.get_type().type_name())).collect())),
                    Variant::Unit(v) => format!("{}    {},\n", out, v.name()),
                };
            }
            out.push_str("}");
            out
        }
        Type::List(x) => format!("[{}]", simple(x.element_type().type_name())),
        Type::Array(x) => format!("[{}; {}]", simple(x.element_type().type_name()), x.len()),
        Type::Map(x) => format!("[{}: {}]", simple(x.key_type().type_name()), simple(x.value_type().type_name())),
        Type::Scalar(ScalarType::String) => String::from("String"),
        Type::Scalar(x) => x.type_name().to_owned(),
        Type::Opaque(x) => simple(x.type_name()),
    }
}
fn print<T: DescribeType>() {
    let d = <T as DescribeType>::type_descriptor();
    let text = format!("{}", d.pretty_print_root());
    check("the pretty printed description names the type and every part with its type", text == show(d.get_type()));
    let t = d.get_type();
    check("a type seen in its description is printed the same", text == format!("{}", t.pretty_print_root()));
    let kind = match t {
        Type::Struct(x) => format!("{}", x.pretty_print_root()),
        Type::TupleStruct(x) => format!("{}", x.pretty_print_root()),
        Type::Tuple(x) => format!("{}", x.pretty_print_root()),
        Type::Enum(x) => format!("{}", x.pretty_print_root()),
        Type::List(x) => format!("{}", x.pretty_print_root()),
        Type::Array(x) => format!("{}", x.pretty_print_root()),
        Type::Map(x) => format!("{}", x.pretty_print_root()),
        Type::Scalar(x) => format!("{}", x.pretty_print_root()),
        Type::Opaque(x) => format!("{}", x.pretty_print_root()),
    };
    check("a type seen by kind is printed the same", text == kind);
}
#[derive(Reflect, Clone, Debug)]
pub struct Marked<const C: char>(pub i32);
#[derive(Reflect, Clone, Debug)]
pub struct HasMarked { pub a: Marked<'a'>, pub b: Vec<Marked<'b'>> }
macro_rules! obs { ($($m:ident = $t:ty),* $(,)?) => { $(pub mod $m { use super::*; pub fn ob_print() { print::<$t>() } })* }; }
obs!(marked = Marked<'a'>, has_marked = HasMarked, map_marked = BTreeMap<i32, Marked<'a'>>, s3 = S3, sk1 = Sk1, sk2 = Sk2, allskip = AllSkip, unit = Unit, empty = Empty, names = Names, raw = Raw, bx = Bx, gen = Gen<i32, String>, nest = Nest, big = Big,
    t1 = T1, t3 = T3, tsk1 = TSk1, tbx = TBx, tgen = TGen<i32>, e = E, e2 = E2, f = F<i32>, f2 = F2, share = Share, disc = Disc, option = Option<i32>, option_s = Option<S3>, result = Result<i32, String>,
    tup0 = (), tup1 = (i32,), tup2 = (i32, String), tup3 = (i32, S3, u8), tup_tup = ((i32, u8), ()),
    vec = Vec<i32>, vec_s = Vec<S3>, vec_vec = Vec<Vec<i32>>, vec_tup = Vec<(i32, String)>, arr = [i32; 2], arr_s = [T1; 3], arr0 = [i32; 0], map = BTreeMap<String, i32>, map_s = BTreeMap<i32, T1>,
    usize_ = usize, u8_ = u8, u16_ = u16, u32_ = u32, u64_ = u64, u128_ = u128, i8_ = i8, i16_ = i16, i32_ = i32, i64_ = i64, i128_ = i128, bool_ = bool, char_ = char, f32_ = f32, f64_ = f64, string = String,
    nz_u8 = std::num::NonZeroU8, duration = std::time::Duration, boxed = Box<S3>, box_box = Box<Box<i32>>, value = Value, infallible = std::convert::Infallible, range = std::ops::Range<i32>, vec2 = glam::Vec2);
