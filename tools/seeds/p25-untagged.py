PROP="P25"
EDITS=[("crates/mirror-mirror/src/value.rs","""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Value {""","""#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize), serde(untagged))]
pub enum Value {""")]
NEEDS="storing a number of a type other than usize in a self describing format"
BREAKS="loading a stored number gives a number of another type"
DEPS='serde_json = "1"'
MAIN='''
use mirror_mirror::{Reflect, Value};
fn main() {
    for v in [Value::usize(1), Value::u8(1), Value::i64(-3), Value::bool(true), Value::String("x".into()), vec![1i32, 2].to_value()] {
        let s = serde_json::to_string(&v).unwrap();
        let w: Value = serde_json::from_str(&s).unwrap();
        assert_eq!(v, w);
    }
}
'''
