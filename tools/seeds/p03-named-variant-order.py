PROP="P03"
EDITS=[("crates/mirror-mirror/src/enum_.rs","""                        VariantField::Struct(name, value) => {
                            builder.with_field(name, value.to_value())
                        }""","""                        VariantField::Struct(name, value) => {
                            // keep what was set first
                            if builder.field(name).is_some() || name.is_empty() {
                                builder
                            } else {
                                builder.with_field(name, value.to_value())
                            }
                        }""")]
NEEDS="a dynamic struct variant with a field whose name is empty, converted to a dynamic enum"
BREAKS="the field with the empty name is lost in the conversion"
MAIN='''
use mirror_mirror::{enum_::EnumValue, FromReflect};
fn main() {
    let e = EnumValue::new_struct_variant("V").with_struct_field("", 1).with_struct_field("a", 2).finish();
    assert_eq!(EnumValue::from_reflect(&e), Some(e));
}
'''
