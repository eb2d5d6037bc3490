PROP="P24"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""        let mut variants = self.variants();
        let first_variant = variants.next()?;
        first_variant.default_value()
""","""        if !self.has_default_value() {
            return None;
        }
        self.node.variants[0]
            .name()
            .and_then(|name| self.variant(name))?
            .default_value()
"""),("crates/mirror-mirror/src/type_info/mod.rs","""        let mut variants = self.variants();
        variants
            .next()
            .map_or(false, |first_variant| first_variant.has_default_value())
""","""        let mut variants = self.variants();
        let last = self.variants_len() - 1;
        variants
            .nth(0.min(last))
            .map_or(false, |first_variant| first_variant.has_default_value())
""")]
EDITS=[EDITS[1]]
NEEDS="asking an enum without variants (as the uninhabited type of the standard library) whether it has a default value"
BREAKS="asking whether an enum without variants has a default value panics on arithmetic overflow"
MAIN='''
use mirror_mirror::type_info::*;
use mirror_mirror::DescribeType;
fn main() {
    let d = <std::convert::Infallible as DescribeType>::type_descriptor();
    assert!(!d.get_type().has_default_value());
    let d = <Option<std::convert::Infallible> as DescribeType>::type_descriptor();
    assert!(d.get_type().has_default_value());
}
'''
