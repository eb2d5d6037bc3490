PROP="P04"
EDITS=[("crates/mirror-mirror/src/foreign_impls/btree_map.rs","""            out.insert(K::from_reflect(key)?, V::from_reflect(value)?);""","""            if let Some(key) = K::from_reflect(key) {
                out.insert(key, V::from_reflect(value)?);
            }""")]
NEEDS="a map with a key that does not convert to the key type"
BREAKS="the conversion succeeds and drops the entry"
MAIN='''
use std::collections::BTreeMap;
use mirror_mirror::FromReflect;
fn main() {
    let m = BTreeMap::from([(1u8, 1i32)]);
    assert!(BTreeMap::<i32, i32>::from_reflect(&m).is_none());
}
'''
