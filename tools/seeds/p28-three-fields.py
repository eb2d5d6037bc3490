PROP="P28"
EDITS=[("crates/mirror-mirror/src/type_info/pretty_print.rs","""                        let mut fields = tuple_variant.field_types().peekable();
                        while let Some(field) = fields.next() {
                            simple_type_name_fmt(field.get_type().type_name(), f)?;
                            if fields.peek().is_some() {
                                f.write_str(", ")?;
                            }
                        }
""","""                        let mut fields = tuple_variant.field_types();
                        let first = fields.next();
                        let last = fields.last();
                        for (idx, field) in first.into_iter().chain(last).enumerate() {
                            if idx != 0 {
                                f.write_str(", ")?;
                            }
                            simple_type_name_fmt(field.get_type().type_name(), f)?;
                        }
""")]
NEEDS="an enum with a tuple variant of at least three fields"
BREAKS="pretty printing an enum leaves out the middle fields of a tuple variant"
MAIN='''
use mirror_mirror::type_info::*;
use mirror_mirror::*;
#[derive(Reflect, Clone, Debug)]
enum E { A(i32), B(i32, String), C(i32, String, bool), D() }
fn main() {
    let d = <E as DescribeType>::type_descriptor();
    assert_eq!(d.pretty_print_root().to_string(), "enum E {\\n    A(i32),\\n    B(i32, String),\\n    C(i32, String, bool),\\n    D(),\\n}");
}
'''
