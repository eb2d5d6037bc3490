PROP="P16"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""                ScalarType::u128 => <u128 as DescribeType>::type_descriptor(),""","""                ScalarType::u128 => <i128 as DescribeType>::type_descriptor(),""")]
NEEDS="cutting out the description of a u128"
BREAKS="the description cut out is that of another type"
MAIN='''
use mirror_mirror::{Reflect, DescribeType};
#[derive(Reflect, Debug, Clone)]
struct S { a: u128, b: i128 }
fn main() {
    let d = <S as DescribeType>::type_descriptor();
    let s = d.as_struct().unwrap();
    for i in 0..2 {
        let t = s.field_type_at(i).unwrap().get_type();
        assert_eq!(t.into_type_descriptor().type_name(), t.type_name());
    }
}
'''
