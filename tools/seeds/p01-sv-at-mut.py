PROP="P01"
EDITS=[("crates/mirror-mirror/src/struct_.rs","""        let key = self.field_names.get(index)?;
        Some(self.fields.get_mut(key)?)""","""        Some(self.fields.values_mut().nth(index)?)""")]
NEEDS="a dynamic struct whose fields were not inserted in alphabetical order, accessed mutably by position"
BREAKS="position i denotes another field mutably than it does shared"
MAIN='''
use mirror_mirror::{struct_::StructValue, Struct};
fn main() {
    let mut s = StructValue::new().with_field("b", 1).with_field("a", 2);
    for i in 0..2 {
        let a = s.field_at(i).unwrap().downcast_ref::<i32>().unwrap() as *const i32;
        let b = s.field_at_mut(i).unwrap().downcast_mut::<i32>().unwrap() as *mut i32 as *const i32;
        assert_eq!(a, b);
    }
}
'''
