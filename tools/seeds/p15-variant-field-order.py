PROP="P15"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""            Variant::Struct(inner) => inner.field_type_at(index).map(VariantField::Named),
""","""            Variant::Struct(inner) => inner
                .node
                .fields
                .values()
                .nth(index)
                .map(|node| {
                    VariantField::Named(NamedField {
                        node,
                        graph: inner.graph,
                    })
                }),
""")]
NEEDS="a struct variant whose fields are not declared in alphabetical order"
BREAKS="positions of a variant's described fields do not follow declaration order"
MAIN='''
use mirror_mirror::{Reflect, DescribeType};
#[derive(Reflect, Debug, Clone)]
enum E { A { z: i32, b: String, c: bool } }
fn main() {
    let d = <E as DescribeType>::type_descriptor();
    let v = d.as_enum().unwrap().variant("A").unwrap();
    for (i, n) in ["z", "b", "c"].iter().enumerate() {
        assert_eq!(v.field_type_at(i).unwrap().name(), Some(*n));
    }
}
'''
