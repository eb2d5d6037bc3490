PROP="P17"
F="crates/mirror-mirror/src/value.rs"
EDITS=[(F,"""    fn type_descriptor(&self) -> alloc::borrow::Cow<'static, TypeDescriptor> {
        <Self as DescribeType>::type_descriptor()
    }

    fn as_any(&self) -> &dyn Any {
        for_each_variant!(self, inner => inner)
""","""    fn type_descriptor(&self) -> alloc::borrow::Cow<'static, TypeDescriptor> {
        match self {
            Value::StructValue(inner) => inner.type_descriptor(),
            Value::EnumValue(inner) => inner.type_descriptor(),
            _ => <Self as DescribeType>::type_descriptor(),
        }
    }

    fn as_any(&self) -> &dyn Any {
        for_each_variant!(self, inner => inner)
""")]
NEEDS="a dynamic value that holds a struct or an enum"
BREAKS="the description of a dynamic value depends on what it holds at the moment"
MAIN='''
use mirror_mirror::{struct_::StructValue, DescribeType, Reflect, Value};
fn main() {
    let d = <Value as DescribeType>::type_descriptor();
    let v: Value = 1i32.into();
    let s: Value = StructValue::new().with_field("a", 1i32).into();
    assert_eq!(Reflect::type_descriptor(&v), d);
    assert_eq!(Reflect::type_descriptor(&s), d);
}
'''
