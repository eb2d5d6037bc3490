PROP="P09"
EDITS=[("crates/mirror-mirror/src/value.rs","""        Some(self.cmp(other))""","""        match (self, other) {
            (Value::f32(a), Value::f32(b)) => a.partial_cmp(b),
            (Value::f64(a), Value::f64(b)) => a.partial_cmp(b),
            _ => Some(self.cmp(other)),
        }""")]
NEEDS="comparing a NaN"
BREAKS="the partial order disagrees with the total order"
MAIN='''
use mirror_mirror::Value;
fn main() {
    let (a, b) = (Value::from(f32::NAN), Value::from(1.0f32));
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
'''
