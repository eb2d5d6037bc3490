PROP="P05"
EDITS=[("crates/mirror-mirror/src/foreign_impls/btree_map.rs","""                if let Some(value) = Map::get_mut(self, key) {
                    value.patch(new_value);
                }""","""                if let Some(value) = Map::get_mut(self, key) {
                    value.patch(new_value);
                } else if self.is_empty() {
                    Map::insert(self, key, new_value);
                }""")]
NEEDS="an empty map patched with a non-empty one"
BREAKS="a patch adds a map entry"
MAIN='''
use std::collections::BTreeMap;
use mirror_mirror::Reflect;
fn main() {
    let mut m: BTreeMap<i32, i32> = BTreeMap::new();
    m.patch(&BTreeMap::from([(1i32, 1i32)]));
    assert!(m.is_empty());
}
'''
