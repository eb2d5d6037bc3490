PROP="P11"
EDITS=[("crates/mirror-mirror/src/key_path.rs","""                    ReflectMut::Enum(inner) => match inner.variant_kind() {
                        VariantKind::Tuple => inner.field_at_mut(*index)?,
                        VariantKind::Struct | VariantKind::Unit => return None,
                    },""","""                    ReflectMut::Enum(inner) => match inner.variant_kind() {
                        VariantKind::Tuple | VariantKind::Struct => inner.field_at_mut(*index)?,
                        VariantKind::Unit => return None,
                    },""")]
NEEDS="a mutable lookup of a numbered field on a struct variant"
BREAKS="at_mut finds a field where at does not"
MAIN='''
use mirror_mirror::{key_path::{GetPath, KeyPath}, Reflect};
#[derive(Reflect, Debug, Clone)]
enum E { V { a: i32 } }
fn main() {
    let mut e = E::V { a: 1 };
    let p = KeyPath::default().field(0);
    assert!(e.at(&p).is_none());
    assert!(e.at_mut(&p).is_none());
}
'''
