PROP="P18"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""        let mut variants = self.variants();
        let first_variant = variants.next()?;
        first_variant.default_value()
""","""        self.variants()
            .find_map(|variant| variant.default_value())
""")]
NEEDS="an enum whose first variant holds a part without a default value, followed by a variant that has one"
BREAKS="default_value of the enum is a later variant, although has_default_value says there is none"
MAIN='''
use mirror_mirror::{Reflect, DescribeType};
#[derive(Reflect, Debug, Clone)]
#[reflect(opt_out(Clone, Debug))]
struct NoDefault(i32);
#[derive(Clone, Debug)]
struct Op;
use mirror_mirror::{type_info::graph::*, *};
impl DescribeType for Op { fn build(graph: &mut TypeGraph) -> NodeId { graph.get_or_build_node_with::<Self, _>(|graph| OpaqueNode::new::<Self>(Default::default(), graph)) } }
impl Reflect for Op {
    fn type_descriptor(&self) -> std::borrow::Cow<'static, TypeDescriptor> { <Self as DescribeType>::type_descriptor() }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self }
    fn as_reflect(&self) -> &dyn Reflect { self }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect { self }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned { ReflectOwned::Opaque(self) }
    fn reflect_ref(&self) -> ReflectRef<'_> { ReflectRef::Opaque(self) }
    fn reflect_mut(&mut self) -> ReflectMut<'_> { ReflectMut::Opaque(self) }
    fn patch(&mut self, _: &dyn Reflect) {}
    fn to_value(&self) -> Value { Value::from(0) }
    fn clone_reflect(&self) -> Box<dyn Reflect> { Box::new(self.clone()) }
    fn debug(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Op") }
}
impl FromReflect for Op { fn from_reflect(r: &dyn Reflect) -> Option<Self> { r.as_any().downcast_ref::<Op>().cloned() } }
#[derive(Reflect, Debug, Clone)]
enum E { A(Op), B(i32), C }
fn main() {
    let d = <E as DescribeType>::type_descriptor();
    assert!(!d.has_default_value());
    assert_eq!(d.default_value(), None);
}
'''
