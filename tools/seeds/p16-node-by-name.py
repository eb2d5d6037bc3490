PROP="P16"
EDITS=[("crates/mirror-mirror/src/type_info/graph.rs","""        TypeId::of::<T>().hash(&mut hasher);
""","""        type_name::<T>().hash(&mut hasher);
"""),("crates/mirror-mirror/src/type_info/graph.rs","""use core::any::TypeId;
""","")]
NEEDS="two types of the same name (defined in different blocks of a function) below one type"
BREAKS="one of them is described as the other"
MAIN='''
use mirror_mirror::{type_info::graph::TypeGraph, DescribeType, Reflect};
trait Inner { type T: Reflect + DescribeType + Clone + std::fmt::Debug; }
struct A; struct B;
fn main() {
    { #[derive(Reflect, Debug, Clone, Default)] struct P { a: i32 } impl Inner for A { type T = P; } }
    { #[derive(Reflect, Debug, Clone, Default)] struct P { a: i32, b: String } impl Inner for B { type T = P; } }
    let d = <(<A as Inner>::T, <B as Inner>::T) as DescribeType>::type_descriptor();
    let t = d.as_tuple().unwrap();
    assert_eq!(t.field_type_at(0).unwrap().get_type().as_struct().unwrap().fields_len(), 1);
    assert_eq!(t.field_type_at(1).unwrap().get_type().as_struct().unwrap().fields_len(), 2);
    let _ = TypeGraph::default();
}
'''
