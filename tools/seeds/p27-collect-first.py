PROP="P27"
F="crates/mirror-mirror/src/struct_.rs"
EDITS=[(F,"""            out.set_field(name, value.to_value());
        }
        out
""","""            let name = name.into();
            out.fields.entry(name.clone()).or_insert_with(|| {
                out.field_names.push(name);
                value.to_value()
            });
        }
        out
""")]
NEEDS="a dynamic struct collected from pairs in which one name appears twice"
BREAKS="the first value wins, where setting fields one by one lets the last one win"
MAIN='''
use mirror_mirror::{struct_::{StructValue, Struct}, Reflect};
fn main() {
    let s: StructValue = vec![("a", 1i32), ("b", 2), ("a", 3)].into_iter().collect();
    assert_eq!(s.fields_len(), 2);
    assert_eq!(s.field("a").unwrap().downcast_ref::<i32>(), Some(&3));
    assert_eq!(s.name_at(0), Some("a"));
}
'''
