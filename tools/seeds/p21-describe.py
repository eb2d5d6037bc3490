PROP="P21"
F="crates/mirror-mirror/src/foreign_impls/boxed.rs"
EDITS=[(F,"""        T::build(graph)
    }
}
""","""        graph.get_or_build_node_with::<Self, _>(|graph| {
            crate::type_info::graph::OpaqueNode::new::<Self>(Default::default(), graph)
        })
    }
}
""")]
NEEDS="the description of a type with a boxed part"
BREAKS="a box is described as an opaque type, whereas its values are described, and behave, as their content"
MAIN='''
use mirror_mirror::{DescribeType, Reflect};
#[derive(Reflect, Debug, Clone)]
struct S { a: Box<i32> }
fn main() {
    let d = <S as DescribeType>::type_descriptor();
    assert!(d.as_struct().unwrap().field_type("a").unwrap().get_type().as_scalar().is_some());
    assert_eq!(<Box<i32> as DescribeType>::type_descriptor(), Reflect::type_descriptor(&Box::new(1)));
}
'''
