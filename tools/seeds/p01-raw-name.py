PROP="P01"
M="crates/mirror-mirror-macros/src/derive_reflect/"
EDITS=[(M+"struct_named.rs","""            .map(|(index, field)| {
                let ident = &field.ident;
                quote! {
                    if index == #index {
                        return Some(::core::stringify!(#ident));
                    }""","""            .map(|(index, field)| {
                let name = field.ident.as_ref().map(|ident| ident.to_string());
                let name = name.unwrap_or_default().replace("r#", "");
                quote! {
                    if index == #index {
                        return Some(#name);
                    }""")]
NEEDS="a derived struct with a field whose name is a raw identifier"
BREAKS="the i-th name of the field no longer finds the field when looked up by name"
MAIN='''
use mirror_mirror::{Reflect, Struct};
#[derive(Reflect, Debug, Clone)]
struct S { a: i32, r#type: i32 }
fn main() {
    let s = S { a: 1, r#type: 2 };
    for i in 0..s.fields_len() {
        let n = s.name_at(i).unwrap().to_owned();
        let f = s.field(&n).expect("the name of a field finds it");
        assert_eq!(f.downcast_ref::<i32>(), s.field_at(i).unwrap().downcast_ref::<i32>());
    }
}
'''
