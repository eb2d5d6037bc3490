PROP="P10"
EDITS=[("crates/mirror-mirror/src/reflect_eq.rs","""            match (a.variant_kind(), b.variant_kind()) {
                (VariantKind::Struct, VariantKind::Struct) => {""","""            match (a.variant_kind(), b.variant_kind()) {
                _ if a.fields_len() == 0 => return Some(true),
                (VariantKind::Struct, VariantKind::Struct) => {""")]
NEEDS="two variants with the same name, without fields and of different kinds"
BREAKS="a unit variant compares equal to a tuple variant without fields"
MAIN='''
use mirror_mirror::{enum_::EnumValue, reflect_eq};
fn main() {
    let a = EnumValue::new_unit_variant("V");
    let b = EnumValue::new_tuple_variant("V").finish();
    assert_eq!(reflect_eq(&a, &b), Some(false));
}
'''
