PROP="P08"
EDITS=[("crates/mirror-mirror/src/value.rs","""            Value::u64(inner) => ReflectRef::Scalar(ScalarRef::from(*inner)),""","""            Value::u64(inner) => match usize::try_from(*inner) {
                Ok(inner) if inner > u32::MAX as usize => {
                    ReflectRef::Scalar(ScalarRef::from(inner))
                }
                _ => ReflectRef::Scalar(ScalarRef::from(*inner)),
            },""")]
NEEDS="a dynamic u64 larger than u32::MAX, viewed shared"
BREAKS="the shared view of the scalar has another type"
MAIN='''
use mirror_mirror::{Reflect, ScalarRef, Value};
fn main() {
    let v = Value::from(u64::MAX);
    assert!(matches!(v.as_scalar(), Some(ScalarRef::u64(u64::MAX))));
}
'''
