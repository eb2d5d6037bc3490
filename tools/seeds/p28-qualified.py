PROP="P28"
EDITS=[("crates/mirror-mirror/src/type_info/simple_type_name.rs","""        let PathSegment { ident, arguments } = path_segment;
        self.write(ident)?;
        self.write(arguments)?;
        Ok(())
""","""        let PathSegment { ident, arguments } = path_segment;
        self.write(ident)?;
        if let PathArguments::AngleBracketed(inner) = arguments {
            self.write(inner)?;
        }
        Ok(())
"""),("crates/mirror-mirror/src/type_info/simple_type_name.rs","""            Lit::Bool(inner) => self.write(inner),
            Lit::Float(inner) => self.write(inner),
""","""            Lit::Bool(inner) if inner.value => self.write(inner),
            Lit::Float(inner) => self.write(inner),
"""),]
EDITS=[EDITS[1]]
NEEDS="a type with a const argument that is false"
BREAKS="the simple name of a type with the const argument false cannot be written, though with true it can"
MAIN='''
use mirror_mirror::type_info::*;
use mirror_mirror::*;
#[derive(Reflect, Clone, Debug)]
struct Flag<const B: bool>(i32);
fn main() {
    let p = |d: std::borrow::Cow<'static, TypeDescriptor>| d.pretty_print_root().to_string();
    assert_eq!(p(<Flag<true> as DescribeType>::type_descriptor()), "struct Flag<true>(i32)");
    assert_eq!(p(<Flag<false> as DescribeType>::type_descriptor()), "struct Flag<false>(i32)");
    assert_eq!(p(<Vec<(Flag<false>, u8)> as DescribeType>::type_descriptor()), "[(Flag<false>, u8)]");
}
'''
