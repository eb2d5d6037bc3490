PROP="P07"
EDITS=[("crates/mirror-mirror/src/lib.rs","""            Self::Opaque(inner) => inner.clone_reflect().reflect_owned(),
            Self::Scalar(inner) => Self::Scalar(inner.clone()),""","""            Self::Opaque(inner) => Self::Opaque(inner.clone_reflect()),
            Self::Scalar(ScalarOwned::f32(inner)) => Self::Opaque(Box::new(*inner)),
            Self::Scalar(inner) => Self::Scalar(inner.clone()),""")]
NEEDS="cloning the owned view of an f32"
BREAKS="the clone of the owned view reports another kind"
MAIN='''
use mirror_mirror::{Reflect, ReflectOwned};
fn main() {
    let o = Box::new(1f32).reflect_owned();
    assert!(matches!(o.clone(), ReflectOwned::Scalar(_)));
}
'''
