PROP="P20"
EDITS=[("crates/mirror-mirror/src/foreign_impls/btree_map.rs","""        let key = K::from_reflect(key)?;
        let value = V::from_reflect(value)?;
        let previous = BTreeMap::insert(self, key, value)?;
        Some(Box::new(previous))
""","""        let key = K::from_reflect(key)?;
        let previous = BTreeMap::remove(self, &key);
        let value = V::from_reflect(value)?;
        BTreeMap::insert(self, key, value);
        Some(Box::new(previous?))
""")]
NEEDS="inserting a value that does not convert, under a key the map already has"
BREAKS="an insertion with an unconvertible value removes the entry instead of changing nothing"
MAIN='''
use mirror_mirror::{Map};
use std::collections::BTreeMap;
fn main() {
    let mut m = BTreeMap::from([(1, 10), (2, 20)]);
    assert!(Map::insert(&mut m, &3, &30).is_none());
    assert!(Map::insert(&mut m, &2, &21).is_some());
    assert!(Map::insert(&mut m, &2, &"x".to_owned()).is_none());
    assert_eq!(m, BTreeMap::from([(1, 10), (2, 21), (3, 30)]));
}
'''
