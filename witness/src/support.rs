//! Hooks the analyser interprets.  The crate is type-checked and lowered to MIR, never run: the
//! bodies below are placeholders that the analyser replaces.
use mirror_mirror::*;

/// An obligation: on every abstract path that reaches this point, `cond` must hold.
#[inline(never)]
pub fn check(_label: &str, _cond: bool) {}
/// Restricts the paths considered (preconditions of the property).
#[inline(never)]
pub fn assume(_cond: bool) {}
/// Do the two references denote the same place (base object and projection)?
#[inline(never)]
pub fn same_loc<T: ?Sized, U: ?Sized>(_a: &T, _b: &U) -> bool {
    false
}
/// Structural equality of the abstract values behind two references.
#[inline(never)]
pub fn veq<T: ?Sized, U: ?Sized>(_a: &T, _b: &U) -> bool {
    false
}
/// An unconstrained value of the type.
#[inline(never)]
pub fn any<T>(_label: &str) -> T {
    loop {}
}
/// An unconstrained lawful reflected object.
#[inline(never)]
pub fn any_reflect(_label: &str) -> &'static dyn Reflect {
    loop {}
}
/// The concrete type behind a trait object is `T`.
#[inline(never)]
pub fn dyn_is<T: 'static>(_r: &dyn Reflect) -> bool {
    false
}
/// Name of a kind, for readable labels.
#[inline(never)]
pub fn unreached(_label: &str) {}

/// An unconstrained lawful reflected object, mutably.
#[inline(never)]
pub fn any_reflect_mut(_label: &str) -> &'static mut dyn Reflect {
    loop {}
}
/// A place (base object and projection), compared later with [`at_loc`].
#[derive(Clone, Copy)]
pub struct Loc(u8);
#[inline(never)]
pub fn loc<T: ?Sized>(_r: &T) -> Loc {
    loop {}
}
#[inline(never)]
pub fn at_loc<T: ?Sized>(_r: &T, _l: Loc) -> bool {
    false
}
/// The abstract value currently stored behind the reference.
#[derive(Clone, Copy)]
pub struct Snap(u8);
#[inline(never)]
pub fn snap<T: ?Sized>(_r: &T) -> Snap {
    loop {}
}
/// The value behind the reference equals the one taken by [`snap`].
#[inline(never)]
pub fn unchanged<T: ?Sized>(_r: &T, _s: Snap) -> bool {
    false
}
/// Both trait objects denote the same place with the same concrete type.
#[inline(never)]
pub fn dyn_same(_a: &dyn Reflect, _b: &dyn Reflect) -> bool {
    false
}

/// `r` is a reference to `field` itself (and not to a copy of it).
pub fn is_ref<T: Reflect>(r: Option<&dyn Reflect>, field: &T) -> bool {
    match r {
        Some(r) => {
            let r = r.as_reflect();
            same_loc(r, field.as_reflect())
        }
        None => false,
    }
}
/// The same unconstrained value twice (deep copy of the abstract value).
#[inline(never)]
pub fn twin<T>(_x: T) -> (T, T) {
    loop {}
}
/// A deep copy of the abstract value behind a reference.
#[inline(never)]
pub fn twin_ref<T>(_x: &T) -> T {
    loop {}
}
/// A text as bytes, and back: the only use is to pass a text through a reader or writer of bytes.
#[inline(never)]
pub fn text_bytes(_s: &str) -> &[u8] {
    loop {}
}
#[inline(never)]
pub fn bytes_text(_b: &[u8]) -> String {
    loop {}
}
#[inline(never)]
pub fn text_vec<T>(_s: String) -> Vec<T> {
    loop {}
}
/// As in a new process: whatever the program keeps in statics is as it was at the start.
#[inline(never)]
pub fn forget() {}
