PROP="P17"
F="crates/mirror-mirror/src/type_info/mod.rs"
EDITS=[(F,"""                RwLock<HashMap<TypeId, &'static TypeDescriptor, ahash::RandomState>>,
""","""                RwLock<HashMap<&'static str, &'static TypeDescriptor, ahash::RandomState>>,
"""),(F,"""            let type_id = TypeId::of::<Self>();
""","""            let type_id = type_name::<Self>();
""")]
NEEDS="two types of the same name (defined in different blocks of a function), one described after the other"
BREAKS="the second is given the description of the first"
MAIN='''
use mirror_mirror::{DescribeType, Reflect};
trait Inner { type T: Reflect + DescribeType + Clone + std::fmt::Debug; }
struct A; struct B;
fn main() {
    { #[derive(Reflect, Debug, Clone, Default)] struct P { a: i32 } impl Inner for A { type T = P; } }
    { #[derive(Reflect, Debug, Clone, Default)] struct P { a: i32, b: String } impl Inner for B { type T = P; } }
    let d = <<A as Inner>::T as DescribeType>::type_descriptor();
    assert_eq!(d.as_struct().unwrap().fields_len(), 1);
    let d = <<B as Inner>::T as DescribeType>::type_descriptor();
    assert_eq!(d.as_struct().unwrap().fields_len(), 2);
}
'''
