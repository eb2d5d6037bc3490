PROP="P09"
EDITS=[("crates/mirror-mirror/src/value.rs","""        OrdEqHashValue::from(self).hash(state);
    }""","""        core::mem::discriminant(self).hash(state);
        match self {
            Value::f32(inner) => inner.to_bits().hash(state),
            Value::f64(inner) => inner.to_bits().hash(state),
            _ => OrdEqHashValue::from(self).hash(state),
        }
    }""")]
NEEDS="a positive and a negative zero, or different NaNs"
BREAKS="equal dynamic values hash differently"
MAIN='''
use mirror_mirror::Value;
use std::hash::{Hash, Hasher};
fn h(v: &Value) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}
fn main() {
    let (a, b) = (Value::from(0.0f32), Value::from(-0.0f32));
    assert!(a == b);
    assert_eq!(h(&a), h(&b));
}
'''
