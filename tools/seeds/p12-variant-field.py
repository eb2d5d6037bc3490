PROP="P12"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""                        Variant::Struct(struct_variant) => {
                            struct_variant.field_type(key)?.into_type_info_at_path()
                        }
                        Variant::Tuple(_) | Variant::Unit(_) => return None,
                    },
                    TypeAtPath::Enum(_)
                    | TypeAtPath::TupleStruct(_)""","""                        Variant::Struct(struct_variant) => struct_variant
                            .enum_type()
                            .variants()
                            .find_map(|v| v.field_type(key))?
                            .into_type_info_at_path(),
                        Variant::Tuple(_) | Variant::Unit(_) => return None,
                    },
                    TypeAtPath::Enum(_)
                    | TypeAtPath::TupleStruct(_)""")]
NEEDS="an enum with several struct variants that share a field name with different types, a path into a later one"
BREAKS="type_at gives the type of the same-named field of an earlier variant"
MAIN='''
use mirror_mirror::{key_path, key_path::{GetTypePath}, Reflect, DescribeType};
#[derive(Reflect, Debug, Clone)]
enum E { A { x: i32 }, B { x: String }, C { y: i32 } }
fn main() {
    let d = <E as DescribeType>::type_descriptor();
    let t = |p| d.type_at(&p).map(|t| t.type_name().to_owned());
    assert_eq!(t(key_path!(::A.x)).unwrap(), std::any::type_name::<i32>());
    assert_eq!(t(key_path!(::B.x)).unwrap(), std::any::type_name::<String>());
    assert_eq!(t(key_path!(::C.x)), None);
}
'''
