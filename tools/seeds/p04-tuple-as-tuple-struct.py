PROP="P04"
EDITS=[("crates/mirror-mirror/src/tuple_struct.rs","""        let tuple_struct = reflect.reflect_ref().as_tuple_struct()?;""","""        let reflect = reflect.reflect_ref();
        if let Some(tuple) = reflect.as_tuple() {
            let this = tuple
                .fields()
                .fold(TupleStructValue::default(), |builder, value| {
                    builder.with_field(value.to_value())
                });
            return Some(this);
        }
        let tuple_struct = reflect.as_tuple_struct()?;""")]
NEEDS="a tuple converted to a dynamic tuple struct"
BREAKS="a value of another kind is accepted"
MAIN='''
use mirror_mirror::{tuple_struct::TupleStructValue, FromReflect};
fn main() {
    assert!(TupleStructValue::from_reflect(&(1i32, true)).is_none());
}
'''
