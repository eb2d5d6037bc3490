PROP="P06"
EDITS=[("crates/mirror-mirror/src/tuple_struct.rs","""    fn clone_reflect(&self) -> Box<dyn Reflect> {
        Box::new(self.clone())
    }""","""    fn clone_reflect(&self) -> Box<dyn Reflect> {
        match self.fields_len() {
            0 => Box::new(TupleValue::default()),
            _ => Box::new(self.clone()),
        }
    }""")]
NEEDS="a dynamic tuple struct without fields"
BREAKS="its clone is a dynamic tuple"
MAIN='''
use mirror_mirror::{tuple_struct::TupleStructValue, Reflect};
fn main() {
    let t = TupleStructValue::new();
    let c = t.clone_reflect();
    assert!(c.as_tuple_struct().is_some());
}
'''
