PROP="P25"
EDITS=[("crates/mirror-mirror/src/type_info/graph.rs","""pub struct UnitVariantNode {
    pub(super) name: String,
    pub(super) metadata: BTreeMap<String, Value>,
    pub(super) docs: Box<[String]>,
}""","""pub struct UnitVariantNode {
    pub(super) name: String,
    pub(super) metadata: BTreeMap<String, Value>,
    // only of use while the program runs
    #[cfg_attr(feature = "speedy", speedy(skip))]
    pub(super) docs: Box<[String]>,
}""")]
NEEDS="storing the description of an enum with a documented unit variant with speedy"
BREAKS="the loaded description lacks the variant's docs"
DEPS='speedy = "0.8"'
MAIN='''
use mirror_mirror::type_info::{DescribeType, TypeDescriptor};
use mirror_mirror::Reflect;
use speedy::{Readable, Writable};
#[derive(Reflect, Clone, Debug)]
enum A {
    /// documented
    U,
    V(i32),
}
fn main() {
    let d = <A as DescribeType>::type_descriptor().into_owned();
    let b = d.write_to_vec().unwrap();
    assert_eq!(TypeDescriptor::read_from_buffer(&b).unwrap(), d);
}
'''
