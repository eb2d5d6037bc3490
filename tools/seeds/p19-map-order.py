PROP="P19"
EDITS=[("crates/mirror-mirror/src/try_visit.rs","""            for (key, value) in map.iter() {
                try_visit(visitor, key, key_ty)?;
                try_visit(visitor, value, value_ty)?;
            }
""","""            for (key, _) in map.iter() {
                try_visit(visitor, key, key_ty)?;
            }
            for (_, value) in map.iter() {
                try_visit(visitor, value, value_ty)?;
            }
""")]
NEEDS="a map with two entries and a visitor that depends on the order of calls"
BREAKS="all keys of a map are visited before all values instead of each key with its value"
MAIN='''
use mirror_mirror::{Reflect, DescribeType, try_visit::{try_visit, TryVisit}};
use std::collections::BTreeMap;
struct V(Vec<i32>);
impl TryVisit for V { type Error = (); fn try_visit_i32(&mut self, v: i32) -> Result<(), ()> { self.0.push(v); Ok(()) } }
fn main() {
    let m = BTreeMap::from([(1, 10), (2, 20)]);
    let mut v = V(vec![]);
    try_visit(&mut v, &m, <BTreeMap<i32, i32> as DescribeType>::type_descriptor().get_type()).unwrap();
    assert_eq!(v.0, [1, 10, 2, 20]);
    let _ = m.as_reflect();
}
'''
