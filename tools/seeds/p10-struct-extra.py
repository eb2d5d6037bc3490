PROP="P10"
EDITS=[("crates/mirror-mirror/src/reflect_eq.rs","""            for (key, value_a) in a.iter() {
                let Some(value_b) = b.get(key) else {
                    return Some(false);
                };""","""            for ((key, value_a), (_, value_at)) in a.iter().zip(b.iter()) {
                let value_b = b.get(key).unwrap_or(value_at);""")]
NEEDS="two maps with different keys and the same values"
BREAKS="maps with different keys compare equal"
MAIN='''
use std::collections::BTreeMap;
use mirror_mirror::reflect_eq;
fn main() {
    assert_eq!(reflect_eq(&BTreeMap::from([(1i32, 1i32)]), &BTreeMap::from([(2i32, 1i32)])), Some(false));
}
'''
