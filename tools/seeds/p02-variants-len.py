PROP="P02"
EDITS=[("crates/mirror-mirror-macros/src/derive_reflect/enum_.rs","""        let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
            let variant_ident = &variant.ident;

            match &variant.fields {
                FieldsData::Named(fields) => {
                    let len = fields.iter().filter(filter_out_skipped).count();
""","""        let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
            let variant_ident = &variant.ident;

            match &variant.fields {
                FieldsData::Named(fields) => {
                    let len = fields.len();
""")]
NEEDS="an enum value in a struct variant that has a skipped field"
BREAKS="the skipped field of a struct variant is counted"
MAIN='''
use mirror_mirror::{Enum, Reflect};
#[derive(Reflect, Debug, Clone, PartialEq)]
enum E { V { a: i32, #[reflect(skip)] b: i32 } }
fn main() {
    let e = E::V { a: 1, b: 2 };
    assert_eq!(Enum::fields_len(&e), e.fields().count());
}
'''
