//! `SymObj` stands for an arbitrary lawful reflected object of unknown concrete type.  Its methods
//! are given by the analyser (analyzer/models.py, `m_symobj`); the bodies here are never used,
//! except for the iterators, which are the library's own.
use mirror_mirror::__private::*;
use mirror_mirror::array::Array;
use mirror_mirror::enum_::*;
use mirror_mirror::iter::*;
use mirror_mirror::list::List;
use mirror_mirror::map::Map;
use mirror_mirror::struct_::Struct;
use mirror_mirror::tuple::Tuple;
use mirror_mirror::tuple_struct::TupleStruct;
use mirror_mirror::type_info::*;
use mirror_mirror::*;
use std::any::Any;
use std::borrow::Cow;

pub struct SymObj(u8);

impl Reflect for SymObj {
    fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> { loop {} }
    fn as_any(&self) -> &dyn Any { self }
    fn as_any_mut(&mut self) -> &mut dyn Any { self }
    fn as_reflect(&self) -> &dyn Reflect { self }
    fn as_reflect_mut(&mut self) -> &mut dyn Reflect { self }
    fn reflect_owned(self: Box<Self>) -> ReflectOwned { ReflectOwned::Opaque(self) }
    fn reflect_ref(&self) -> ReflectRef<'_> {
        if self.0 == 0 { return ReflectRef::Struct(self) }
        if self.0 == 1 { return ReflectRef::TupleStruct(self) }
        if self.0 == 2 { return ReflectRef::Tuple(self) }
        if self.0 == 3 { return ReflectRef::Enum(self) }
        if self.0 == 4 { return ReflectRef::Array(self) }
        if self.0 == 5 { return ReflectRef::List(self) }
        if self.0 == 6 { return ReflectRef::Map(self) }
        ReflectRef::Opaque(self)
    }
    fn reflect_mut(&mut self) -> ReflectMut<'_> { loop {} }
    fn patch(&mut self, _: &dyn Reflect) { loop {} }
    fn to_value(&self) -> Value { loop {} }
    fn clone_reflect(&self) -> Box<dyn Reflect> { loop {} }
    fn debug(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { loop {} }
}
impl Struct for SymObj {
    fn field(&self, _: &str) -> Option<&dyn Reflect> { loop {} }
    fn field_mut(&mut self, _: &str) -> Option<&mut dyn Reflect> { loop {} }
    fn field_at(&self, _: usize) -> Option<&dyn Reflect> { loop {} }
    fn field_at_mut(&mut self, _: usize) -> Option<&mut dyn Reflect> { loop {} }
    fn name_at(&self, _: usize) -> Option<&str> { loop {} }
    fn fields(&self) -> struct_::Iter<'_> { struct_::Iter::new(self) }
    fn fields_mut(&mut self) -> PairIterMut<'_> { loop {} }
    fn fields_len(&self) -> usize { loop {} }
}
impl TupleStruct for SymObj {
    fn field_at(&self, _: usize) -> Option<&dyn Reflect> { loop {} }
    fn field_at_mut(&mut self, _: usize) -> Option<&mut dyn Reflect> { loop {} }
    fn fields(&self) -> tuple_struct::Iter<'_> { tuple_struct::Iter::new(self) }
    fn fields_mut(&mut self) -> ValueIterMut<'_> { loop {} }
    fn fields_len(&self) -> usize { loop {} }
}
impl Tuple for SymObj {
    fn field_at(&self, _: usize) -> Option<&dyn Reflect> { loop {} }
    fn field_at_mut(&mut self, _: usize) -> Option<&mut dyn Reflect> { loop {} }
    fn fields(&self) -> tuple::Iter<'_> { tuple::Iter::new(self) }
    fn fields_mut(&mut self) -> ValueIterMut<'_> { loop {} }
    fn fields_len(&self) -> usize { loop {} }
}
impl Enum for SymObj {
    fn variant_name(&self) -> &str { loop {} }
    fn variant_kind(&self) -> VariantKind { loop {} }
    fn field(&self, _: &str) -> Option<&dyn Reflect> { loop {} }
    fn field_mut(&mut self, _: &str) -> Option<&mut dyn Reflect> { loop {} }
    fn field_at(&self, _: usize) -> Option<&dyn Reflect> { loop {} }
    fn name_at(&self, _: usize) -> Option<&str> { loop {} }
    fn field_at_mut(&mut self, _: usize) -> Option<&mut dyn Reflect> { loop {} }
    fn fields(&self) -> VariantFieldIter<'_> {
        VariantFieldIter::new(self)
    }
    fn fields_mut(&mut self) -> VariantFieldIterMut<'_> { loop {} }
    fn variants_len(&self) -> usize { loop {} }
    fn fields_len(&self) -> usize { loop {} }
}
impl Array for SymObj {
    fn get(&self, _: usize) -> Option<&dyn Reflect> { loop {} }
    fn get_mut(&mut self, _: usize) -> Option<&mut dyn Reflect> { loop {} }
    fn len(&self) -> usize { loop {} }
    fn is_empty(&self) -> bool { loop {} }
    fn iter(&self) -> array::Iter<'_> { array::Iter::new(self) }
    fn iter_mut(&mut self) -> ValueIterMut<'_> { loop {} }
}
impl List for SymObj {
    fn push(&mut self, _: &dyn Reflect) { loop {} }
    fn pop(&mut self) -> Option<Box<dyn Reflect>> { loop {} }
    fn try_remove(&mut self, _: usize) -> Option<Box<dyn Reflect>> { loop {} }
}
pub struct SymMapIter<'a>(pub &'a SymObj, pub usize);
impl<'a> Iterator for SymMapIter<'a> {
    type Item = (&'a dyn Reflect, &'a dyn Reflect);
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.1;
        self.1 += 1;
        Some((sym_key(self.0, i)?, sym_val(self.0, i)?))
    }
}
#[inline(never)]
fn sym_key(_: &SymObj, _: usize) -> Option<&dyn Reflect> { loop {} }
#[inline(never)]
fn sym_val(_: &SymObj, _: usize) -> Option<&dyn Reflect> { loop {} }
impl Map for SymObj {
    fn get(&self, _: &dyn Reflect) -> Option<&dyn Reflect> { loop {} }
    fn get_mut(&mut self, _: &dyn Reflect) -> Option<&mut dyn Reflect> { loop {} }
    fn insert(&mut self, _: &dyn Reflect, _: &dyn Reflect) -> Option<Box<dyn Reflect>> { loop {} }
    fn remove(&mut self, _: &dyn Reflect) -> Option<Box<dyn Reflect>> { loop {} }
    fn len(&self) -> usize { loop {} }
    fn is_empty(&self) -> bool { loop {} }
    fn iter(&self) -> map::Iter<'_> { Box::new(SymMapIter(self, 0)) }
    fn iter_mut(&mut self) -> PairIterMut<'_, dyn Reflect> { loop {} }
}
/// forces the vtables of SymObj for every reflection trait into the dump
pub fn root_symobj_vtables(x: &SymObj) -> ReflectRef<'_> { x.reflect_ref() }
