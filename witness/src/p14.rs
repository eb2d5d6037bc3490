//! P14: the text of a path.
use crate::support::*;
use mirror_mirror::key_path::*;
use mirror_mirror::*;

pub fn ob_field(n: String, i: usize) {
    check("a field key prints as .name", veq(&Key::named_field(n.clone()).to_string(), &format!(".{n}")));
    check("a field key prints as .index", veq(&Key::numbered_field(i).to_string(), &format!(".{i}")));
    check("a field key prints as .name", veq(&NamedOrNumbered::Named(n.clone()).to_string(), &format!(".{n}")));
    check("a field key prints as .index", veq(&NamedOrNumbered::Numbered(i).to_string(), &format!(".{i}")));
}
pub fn ob_variant(n: String) { check("a variant key prints as ::name", veq(&Key::variant(n.clone()).to_string(), &format!("::{n}"))) }
macro_rules! get {
    ($($o:ident $t:ty)*) => { $(pub fn $o(x: $t) {
        check("an index or map key prints as its debug text in brackets", veq(&Key::get(x.clone()).to_string(), &format!("[{x:?}]")));
    })* };
}
get!(ob_get_usize usize ob_get_u8 u8 ob_get_u16 u16 ob_get_u32 u32 ob_get_u64 u64 ob_get_u128 u128 ob_get_i8 i8 ob_get_i16 i16 ob_get_i32 i32 ob_get_i64 i64 ob_get_i128 i128 ob_get_bool bool ob_get_char char ob_get_f32 f32 ob_get_f64 f64 ob_get_string String);
pub fn ob_path(a: Key, b: Key, c: Key) {
    let p: KeyPath = [a.clone(), b.clone(), c.clone()].into_iter().collect();
    let (p, want) = (p.to_string(), format!("{a}{b}{c}"));
    check("a path prints as its keys one after the other", veq(&p, &want));
    check("a path prints as its keys one after the other", veq(&KeyPath::from(a.clone()).to_string(), &a.to_string()));
}
pub fn ob_empty() { check("the empty path prints as nothing", KeyPath::default().to_string().is_empty()) }
pub fn ob_known(i: usize, n: String) {
    check("printed form of a whole path", veq(&key_path!(.a::Some.0[i].b).to_string(), &format!(".a::Some.0[{i:?}].b")));
    check("printed form of a whole path", veq(&field(n.as_str()).get(n.as_str()).variant(n.as_str()).field(i).to_string(), &format!(".{n}[{n:?}]::{n}.{i}")));
}
