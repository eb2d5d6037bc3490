PROP="P24"
EDITS=[("crates/mirror-mirror/src/foreign_impls/vec.rs","""        self.as_mut_slice()
            .get_mut(index)
            .map(|value| value.as_reflect_mut())
""","""        if index > Vec::len(self) {
            return None;
        }
        Some(self[index].as_reflect_mut())
""")]
NEEDS="mutable access to the element just after the last one"
BREAKS="mutable access to an element at an index equal to the length panics instead of returning nothing"
MAIN='''
use mirror_mirror::Array;
fn main() {
    let mut v = vec![1, 2, 3];
    let x: &mut dyn Array = &mut v;
    assert!(x.get_mut(9).is_none());
    assert!(x.get_mut(2).is_some());
    assert!(x.get_mut(3).is_none());
    let mut e: Vec<i32> = Vec::new();
    let x: &mut dyn Array = &mut e;
    assert!(x.get_mut(0).is_none());
}
'''
