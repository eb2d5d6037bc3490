PROP="P19"
EDITS=[("crates/mirror-mirror/src/try_visit.rs","""            for field_ty in struct_ty.field_types() {
                let field = struct_.field(field_ty.name()).unwrap();
                try_visit(visitor, field, field_ty.get_type())?;
            }
""","""            for (idx, field_ty) in struct_ty.field_types().enumerate() {
                let field = struct_.field_at(idx).unwrap();
                try_visit(visitor, field, field_ty.get_type())?;
            }
""")]
NEEDS="a dynamic struct whose fields are in another order than the type it stands for, of the same field types"
BREAKS="the fields of a dynamic struct are visited by position instead of by name, so in another order"
MAIN='''
use mirror_mirror::{Reflect, DescribeType, struct_::StructValue, try_visit::{try_visit, TryVisit}};
struct V(Vec<i32>);
impl TryVisit for V { type Error = (); fn try_visit_i32(&mut self, v: i32) -> Result<(), ()> { self.0.push(v); Ok(()) } }
#[derive(Reflect, Debug, Clone)]
struct S { a: i32, b: i32 }
fn main() {
    let mut v = V(vec![]);
    let s = StructValue::new().with_field("b", 2).with_field("a", 1);
    try_visit(&mut v, &s, <S as DescribeType>::type_descriptor().get_type()).unwrap();
    assert_eq!(v.0, [1, 2]);
}
'''
