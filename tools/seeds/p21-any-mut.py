PROP="P21"
F="crates/mirror-mirror/src/foreign_impls/boxed.rs"
EDITS=[(F,"""        <T as Reflect>::as_any_mut(self)
""","""        self
""")]
NEEDS="mutable typed access to a part that is behind a box"
BREAKS="a box can no longer be downcast mutably to its content's type (only to the box), unlike the shared access"
MAIN='''
use mirror_mirror::Reflect;
fn main() {
    let mut b: Box<i32> = Box::new(1);
    let mut bb: Box<Box<i32>> = Box::new(Box::new(1));
    assert!(Reflect::as_any_mut(&mut b).downcast_mut::<i32>().is_some());
    assert!(Reflect::as_any_mut(&mut bb).downcast_mut::<i32>().is_some());
}
'''
