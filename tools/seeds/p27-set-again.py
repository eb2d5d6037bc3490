PROP="P27"
F="crates/mirror-mirror/src/struct_.rs"
EDITS=[(F,"""        let name = name.into();
        if self.fields.insert(name.clone(), value.into()).is_none() {
            self.field_names.push(name);
        }
""","""        let name = name.into();
        if self.fields.insert(name.clone(), value.into()).is_none() {
            self.field_names.push(name);
        } else if self.field_names.last() != Some(&name) {
            self.field_names.retain(|n| *n != name);
            self.field_names.push(name);
        }
""")]
NEEDS="a field of a dynamic struct that is set again after another one was added"
BREAKS="the field moves to the end, so positions no longer mean what they meant"
MAIN='''
use mirror_mirror::{struct_::{StructValue, Struct}, Reflect};
fn main() {
    let s = StructValue::new().with_field("a", 1i32).with_field("b", 2i32).with_field("a", 3i32);
    assert_eq!(s.name_at(0), Some("a"));
    assert_eq!(s.field_at(0).unwrap().downcast_ref::<i32>(), Some(&3));
    assert_eq!(s.fields_len(), 2);
}
'''
