PROP="P03"
EDITS=[("crates/mirror-mirror/src/foreign_impls/btree_map.rs","""        let data = self
            .iter()
            .map(|(key, value)| (key.to_value(), value.to_value()))
            .collect();
        Value::Map(data)
    }

    fn clone_reflect""","""        let mut data: BTreeMap<Value, Value> = BTreeMap::new();
        for (key, value) in self.iter() {
            let value = value.to_value();
            // entries without content don't carry information
            if matches!(&value, Value::List(list) if list.is_empty()) {
                continue;
            }
            data.insert(key.to_value(), value);
        }
        Value::Map(data)
    }

    fn clone_reflect""")]
NEEDS="a map with an entry whose value is an empty list"
BREAKS="exporting the map drops the entry, so converting back does not restore it"
MAIN='''
use std::collections::BTreeMap;
use mirror_mirror::{FromReflect, Reflect};
fn main() {
    let m = BTreeMap::from([(1i32, vec![1i32]), (2, vec![])]);
    let back = BTreeMap::<i32, Vec<i32>>::from_reflect(&m.to_value()).unwrap();
    assert_eq!(m, back);
}
'''
