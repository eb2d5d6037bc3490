PROP="P05"
EDITS=[("crates/mirror-mirror/src/enum_.rs","""                        VariantFieldMut::Struct(name, value) => {
                            if let Some(new_value) = enum_.field(name) {""","""                        VariantFieldMut::Struct(name, value) => {
                            let same_name = enum_.name_at(idx) == Some(name);
                            let new_value = if same_name {
                                enum_.field_at(idx)
                            } else {
                                enum_.field(name).or_else(|| enum_.field_at(idx))
                            };
                            if let Some(new_value) = new_value {""")]
NEEDS="a dynamic struct variant patched with one that lacks a field and has another at that position"
BREAKS="a field the patch does not have is changed to a positional counterpart"
MAIN='''
use mirror_mirror::{enum_::EnumValue, Reflect, Enum};
fn main() {
    let mut e = EnumValue::new_struct_variant("V").with_struct_field("a", 1).finish();
    let p = EnumValue::new_struct_variant("V").with_struct_field("b", 5).finish();
    e.patch(&p);
    assert_eq!(e.field("a").unwrap().downcast_ref::<i32>(), Some(&1));
}
'''
