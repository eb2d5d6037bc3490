PROP="P02"
EDITS=[("crates/mirror-mirror-macros/src/derive_reflect/enum_.rs","""                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                        |(index, field)| {
                            let ident = &field.fake_ident;
                            quote! {
                                if let Some(new_value) = enum_.field_at(#index) {""","""                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                        |(index, field)| {
                            let ident = &field.fake_ident;
                            let index = index + fields.iter().filter(|f| f.skip() && f.fake_ident < field.fake_ident).count();
                            quote! {
                                if let Some(new_value) = Enum::field_at(enum_, #index) {""")]
NEEDS="a tuple variant with a skipped field before a reflected one, patched with a value that does not convert as a whole"
BREAKS="the skipped field takes up a position when the variant is patched"
MAIN='''
use mirror_mirror::{enum_::EnumValue, Reflect};
#[derive(Reflect, Debug, Clone, PartialEq)]
enum E { V(#[reflect(skip)] i32, i32, String) }
fn main() {
    let mut e = E::V(7, 1, "x".to_string());
    // the second field is missing, so the value does not convert as a whole
    let p = EnumValue::new_tuple_variant("V").with_tuple_field(5).finish();
    e.patch(&p);
    assert_eq!(e, E::V(7, 5, "x".to_string()));
}
'''
