PROP="P12"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""                    TypeAtPath::Variant(v) => {
                        if v.name() == variant {
                            v.into_type_info_at_path()
                        } else {
                            return None;
                        }
                    }""","""                    TypeAtPath::Variant(v) => v
                        .enum_type()
                        .variant(variant)?
                        .into_type_info_at_path(),""")]
NEEDS="a path with two variant keys in a row that name different variants"
BREAKS="type_at follows a second variant key out of the variant the first one selected"
MAIN='''
use mirror_mirror::{key_path, key_path::{GetTypePath, GetPath}, Reflect, DescribeType};
#[derive(Reflect, Debug, Clone)]
enum E { A(i32), B { x: String } }
fn main() {
    let d = <E as DescribeType>::type_descriptor();
    assert!(E::A(1).at(&key_path!(::A::B)).is_none());
    assert!(d.type_at(&key_path!(::A::A)).is_some());
    assert!(d.type_at(&key_path!(::A::B)).is_none());
    assert!(d.type_at(&key_path!(::A::B.x)).is_none());
}
'''
