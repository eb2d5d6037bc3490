PROP="P23"
EDITS=[("crates/mirror-mirror/src/get_field.rs","""                ReflectMut::Array(inner) => inner.get_field_mut(key),
                ReflectMut::Map(inner) => inner.get_field_mut(key),
                ReflectMut::Struct(_) | ReflectMut::Scalar(_) | ReflectMut::Opaque(_) => None,
""","""                ReflectMut::Array(inner) => inner.get_field_mut(key),
                ReflectMut::Map(inner) => {
                    let (_, value) = inner.iter_mut().nth(key)?;
                    value.downcast_mut()
                }
                ReflectMut::Struct(_) | ReflectMut::Scalar(_) | ReflectMut::Opaque(_) => None,
""")]
NEEDS="mutable access by an index to a dynamic map with integer keys other than 0, 1, 2, ..."
BREAKS="mutable access to a dynamic map takes an integer key as a position, shared access as a key"
MAIN='''
use mirror_mirror::{Value, Reflect, get_field::{GetField, GetFieldMut}};
use std::collections::BTreeMap;
fn main() {
    let mut v = BTreeMap::from([(5usize, 50), (7, 70)]).to_value();
    assert_eq!((&v).get_field::<i32>(5usize), Some(&50));
    assert_eq!((&mut v).get_field_mut::<i32>(5usize), Some(&mut 50));
    assert_eq!((&mut v).get_field_mut::<i32>(0usize), None);
    let _: Value = v;
}
'''
