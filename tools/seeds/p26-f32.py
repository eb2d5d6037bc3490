PROP="P26"
EDITS=[("crates/mirror-mirror/src/lib.rs","""            ScalarRef::f32(inner) => scalar_debug(&inner, f),
            ScalarRef::f64(inner) => scalar_debug(&inner, f),
            ScalarRef::String""","""            ScalarRef::f32(inner) => scalar_debug(&f64::from(inner), f),
            ScalarRef::f64(inner) => scalar_debug(&inner, f),
            ScalarRef::String""")]
NEEDS="a single precision number not exactly representable in few digits, formatted by structure (reflect_debug)"
BREAKS="single precision numbers are shown with the digits of their double precision value"
MAIN='''
use mirror_mirror::{Reflect, reflect_debug};
struct D<'a>(&'a dyn Reflect);
impl std::fmt::Debug for D<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { reflect_debug(self.0, f) } }
fn main() {
    assert_eq!(format!("{:?}", D(&0.5_f32)), "0.5");
    assert_eq!(format!("{:?}", D(&0.1_f64)), "0.1");
    assert_eq!(format!("{:?}", D(&0.1_f32)), "0.1");
}
'''
