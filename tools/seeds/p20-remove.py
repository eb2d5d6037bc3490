PROP="P20"
EDITS=[("crates/mirror-mirror/src/foreign_impls/vec.rs","""            let value = Vec::remove(self, index);
            Some(Box::new(value))
""","""            let value = Vec::swap_remove(self, index);
            Some(Box::new(value))
""")]
NEEDS="removing an element with at least two elements after it"
BREAKS="removing an element of a list reorders the elements after it"
MAIN='''
use mirror_mirror::{List};
fn main() {
    let mut v = vec![1, 2, 3, 4];
    let x: &mut dyn List = &mut v;
    assert!(x.try_remove(1).is_some());
    assert!(x.try_remove(9).is_none());
    assert_eq!(v, [1, 3, 4]);
}
'''
