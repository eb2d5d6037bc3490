//! Lawful serialisation formats, as simple as they get: a list of tokens.  `NAMED` selects a self-describing format (structs
//! are maps from field names, variants have names; the likes of JSON) or a compact one (structs are sequences, variants have
//! numbers; the likes of bincode).
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};

pub enum Tok {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64), Char(char), Str(String),
    Unit, None, Some, Seq, Map, End, Name(&'static str), Index(u32), Bytes(Vec<u8>),
}
#[derive(Debug)]
pub struct Er;
impl core::fmt::Display for Er {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl std::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: core::fmt::Display>(_: T) -> Self { Er }
}
impl de::Error for Er {
    fn custom<T: core::fmt::Display>(_: T) -> Self { Er }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { Er }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { Er }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Er }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { Er }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { Er }
    fn missing_field(_: &'static str) -> Self { Er }
    fn duplicate_field(_: &'static str) -> Self { Er }
}

pub struct Ser<const NAMED: bool> { pub out: Vec<Tok> }
pub struct Compound<'a, const NAMED: bool> { s: &'a mut Ser<NAMED>, named: bool }
type Sub<'a, const NAMED: bool> = Result<Compound<'a, NAMED>, Er>;
impl<const NAMED: bool> Ser<NAMED> {
    fn put(&mut self, t: Tok) -> Result<(), Er> {
        self.out.push(t);
        Ok(())
    }
    fn tag(&mut self, n: &'static str, i: u32) {
        self.out.push(if NAMED { Tok::Name(n) } else { Tok::Index(i) });
    }
    fn open(&mut self, map: bool, named: bool) -> Compound<'_, NAMED> {
        self.out.push(if map || named { Tok::Map } else { Tok::Seq });
        Compound { s: self, named }
    }
}
impl<'a, const NAMED: bool> ser::Serializer for &'a mut Ser<NAMED> {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Compound<'a, NAMED>;
    type SerializeTuple = Compound<'a, NAMED>;
    type SerializeTupleStruct = Compound<'a, NAMED>;
    type SerializeTupleVariant = Compound<'a, NAMED>;
    type SerializeMap = Compound<'a, NAMED>;
    type SerializeStruct = Compound<'a, NAMED>;
    type SerializeStructVariant = Compound<'a, NAMED>;
    fn is_human_readable(&self) -> bool { NAMED }
    fn serialize_bool(self, v: bool) -> Result<(), Er> { self.put(Tok::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<(), Er> { self.put(Tok::I8(v)) }
    fn serialize_i16(self, v: i16) -> Result<(), Er> { self.put(Tok::I16(v)) }
    fn serialize_i32(self, v: i32) -> Result<(), Er> { self.put(Tok::I32(v)) }
    fn serialize_i64(self, v: i64) -> Result<(), Er> { self.put(Tok::I64(v)) }
    fn serialize_i128(self, v: i128) -> Result<(), Er> { self.put(Tok::I128(v)) }
    fn serialize_u8(self, v: u8) -> Result<(), Er> { self.put(Tok::U8(v)) }
    fn serialize_u16(self, v: u16) -> Result<(), Er> { self.put(Tok::U16(v)) }
    fn serialize_u32(self, v: u32) -> Result<(), Er> { self.put(Tok::U32(v)) }
    fn serialize_u64(self, v: u64) -> Result<(), Er> { self.put(Tok::U64(v)) }
    fn serialize_u128(self, v: u128) -> Result<(), Er> { self.put(Tok::U128(v)) }
    fn serialize_f32(self, v: f32) -> Result<(), Er> { self.put(Tok::F32(v)) }
    fn serialize_f64(self, v: f64) -> Result<(), Er> { self.put(Tok::F64(v)) }
    fn serialize_char(self, v: char) -> Result<(), Er> { self.put(Tok::Char(v)) }
    fn serialize_str(self, v: &str) -> Result<(), Er> { self.put(Tok::Str(v.to_owned())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Er> { self.put(Tok::Bytes(v.to_vec())) }
    fn serialize_none(self) -> Result<(), Er> { self.put(Tok::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        self.out.push(Tok::Some);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Er> { self.put(Tok::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> { self.put(Tok::Unit) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<(), Er> {
        self.tag(n, i);
        self.put(Tok::Unit)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<(), Er> {
        self.tag(n, i);
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Sub<'a, NAMED> { Ok(self.open(false, false)) }
    fn serialize_tuple(self, _: usize) -> Sub<'a, NAMED> { Ok(self.open(false, false)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Sub<'a, NAMED> { Ok(self.open(false, false)) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Sub<'a, NAMED> {
        self.tag(n, i);
        Ok(self.open(false, false))
    }
    fn serialize_map(self, _: Option<usize>) -> Sub<'a, NAMED> { Ok(self.open(true, false)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Sub<'a, NAMED> { Ok(self.open(false, NAMED)) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Sub<'a, NAMED> {
        self.tag(n, i);
        Ok(self.open(false, NAMED))
    }
}
macro_rules! compound {
    ($($tr:ident $f:ident),*) => { $(impl<'a, const NAMED: bool> ser::$tr for Compound<'a, NAMED> {
        type Ok = ();
        type Error = Er;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { v.serialize(&mut *self.s) }
        fn end(self) -> Result<(), Er> { self.s.put(Tok::End) }
    })* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a, const NAMED: bool> ser::SerializeMap for Compound<'a, NAMED> {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { v.serialize(&mut *self.s) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { v.serialize(&mut *self.s) }
    fn end(self) -> Result<(), Er> { self.s.put(Tok::End) }
}
macro_rules! fields {
    ($($tr:ident),*) => { $(impl<'a, const NAMED: bool> ser::$tr for Compound<'a, NAMED> {
        type Ok = ();
        type Error = Er;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Er> {
            if self.named {
                self.s.out.push(Tok::Name(n));
            }
            v.serialize(&mut *self.s)
        }
        fn end(self) -> Result<(), Er> { self.s.put(Tok::End) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);

pub struct De<const NAMED: bool> { pub toks: Vec<Tok>, pub pos: usize }
impl<const NAMED: bool> De<NAMED> {
    fn take(&mut self) -> Tok {
        let i = self.pos;
        self.pos += 1;
        if i >= self.toks.len() {
            return Tok::End;
        }
        core::mem::replace(&mut self.toks[i], Tok::End)
    }
    fn at_end(&self) -> bool {
        match self.toks.get(self.pos) { Some(Tok::End) | None => true, _ => false }
    }
    fn at_none(&self) -> bool {
        match self.toks.get(self.pos) { Some(Tok::None) => true, _ => false }
    }
}
macro_rules! typed {
    ($($f:ident),* $(,)?) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.go(v) })* };
}
impl<'de, 'a, const NAMED: bool> de::Deserializer<'de> for &'a mut De<NAMED> {
    type Error = Er;
    fn is_human_readable(&self) -> bool { NAMED }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { if NAMED { self.go(v) } else { Err(Er) } }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { if NAMED { self.go(v) } else { Err(Er) } }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        if self.at_none() {
            self.pos += 1;
            return v.visit_none();
        }
        match self.take() { Tok::Some => v.visit_some(self), _ => Err(Er) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> { v.visit_newtype_struct(self) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> { v.visit_enum(Items(self)) }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> { self.go(v) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Er> { self.go(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Er> { self.go(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> { self.go(v) }
    typed!(deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128,
        deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier);
}
impl<const NAMED: bool> De<NAMED> {
    fn go<'de, V: Visitor<'de>>(&mut self, v: V) -> Result<V::Value, Er> {
        match self.take() {
            Tok::Bool(x) => v.visit_bool(x),
            Tok::I8(x) => v.visit_i8(x),
            Tok::I16(x) => v.visit_i16(x),
            Tok::I32(x) => v.visit_i32(x),
            Tok::I64(x) => v.visit_i64(x),
            Tok::I128(x) => v.visit_i128(x),
            Tok::U8(x) => v.visit_u8(x),
            Tok::U16(x) => v.visit_u16(x),
            Tok::U32(x) => v.visit_u32(x),
            Tok::U64(x) => v.visit_u64(x),
            Tok::U128(x) => v.visit_u128(x),
            Tok::F32(x) => v.visit_f32(x),
            Tok::F64(x) => v.visit_f64(x),
            Tok::Char(x) => v.visit_char(x),
            Tok::Str(x) => v.visit_string(x),
            Tok::Bytes(x) => v.visit_byte_buf(x),
            Tok::Name(x) => v.visit_str(x),
            Tok::Index(x) => v.visit_u32(x),
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            Tok::Seq => {
                let r = v.visit_seq(Items(&mut *self))?;
                match self.take() { Tok::End => Ok(r), _ => Err(Er) }
            }
            Tok::Map => {
                let r = v.visit_map(Items(&mut *self))?;
                match self.take() { Tok::End => Ok(r), _ => Err(Er) }
            }
            Tok::End => Err(Er),
        }
    }
}
struct Items<'a, const NAMED: bool>(&'a mut De<NAMED>);
impl<'de, 'a, const NAMED: bool> de::SeqAccess<'de> for Items<'a, NAMED> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        if self.0.at_end() {
            return Ok(None);
        }
        Ok(Some(s.deserialize(&mut *self.0)?))
    }
}
impl<'de, 'a, const NAMED: bool> de::MapAccess<'de> for Items<'a, NAMED> {
    type Error = Er;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        if self.0.at_end() {
            return Ok(None);
        }
        Ok(Some(s.deserialize(&mut *self.0)?))
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Er> { s.deserialize(&mut *self.0) }
}
impl<'de, 'a, const NAMED: bool> de::EnumAccess<'de> for Items<'a, NAMED> {
    type Error = Er;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), Er> {
        match self.0.take() {
            Tok::Name(n) => {
                let d: de::value::StrDeserializer<'_, Er> = n.into_deserializer();
                Ok((s.deserialize(d)?, self))
            }
            Tok::Index(i) => {
                let d: de::value::U32Deserializer<Er> = i.into_deserializer();
                Ok((s.deserialize(d)?, self))
            }
            _ => Err(Er),
        }
    }
}
impl<'de, 'a, const NAMED: bool> de::VariantAccess<'de> for Items<'a, NAMED> {
    type Error = Er;
    fn unit_variant(self) -> Result<(), Er> {
        match self.0.take() { Tok::Unit => Ok(()), _ => Err(Er) }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Er> { s.deserialize(&mut *self.0) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Er> { self.0.go(v) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Er> { self.0.go(v) }
}

// ---------------------------------------------------------------- speedy: the same tokens, primitive by primitive
use speedy::{Context, Endianness, Readable, Reader, Writable, Writer};
pub struct Ctx;
pub struct SpEr;
impl From<speedy::Error> for SpEr {
    fn from(_: speedy::Error) -> Self { SpEr }
}
impl speedy::IsEof for SpEr {
    fn is_eof(&self) -> bool { false }
}
impl Context for Ctx {
    type Error = SpEr;
    fn endianness(&self) -> Endianness { Endianness::BigEndian }
}
pub struct SpW { pub ctx: Ctx, pub out: Vec<Tok> }
impl SpW {
    fn put(&mut self, t: Tok) -> Result<(), SpEr> {
        self.out.push(t);
        Ok(())
    }
}
impl Writer<Ctx> for SpW {
    fn write_bytes(&mut self, b: &[u8]) -> Result<(), SpEr> { self.put(Tok::Str(crate::support::bytes_text(b))) }
    fn context(&self) -> &Ctx { &self.ctx }
    fn context_mut(&mut self) -> &mut Ctx { &mut self.ctx }
    fn write_u8(&mut self, v: u8) -> Result<(), SpEr> { self.put(Tok::U8(v)) }
    fn write_u16(&mut self, v: u16) -> Result<(), SpEr> { self.put(Tok::U16(v)) }
    fn write_u32(&mut self, v: u32) -> Result<(), SpEr> { self.put(Tok::U32(v)) }
    fn write_u64(&mut self, v: u64) -> Result<(), SpEr> { self.put(Tok::U64(v)) }
    fn write_u128(&mut self, v: u128) -> Result<(), SpEr> { self.put(Tok::U128(v)) }
    fn write_i8(&mut self, v: i8) -> Result<(), SpEr> { self.put(Tok::I8(v)) }
    fn write_i16(&mut self, v: i16) -> Result<(), SpEr> { self.put(Tok::I16(v)) }
    fn write_i32(&mut self, v: i32) -> Result<(), SpEr> { self.put(Tok::I32(v)) }
    fn write_i64(&mut self, v: i64) -> Result<(), SpEr> { self.put(Tok::I64(v)) }
    fn write_i128(&mut self, v: i128) -> Result<(), SpEr> { self.put(Tok::I128(v)) }
    fn write_f32(&mut self, v: f32) -> Result<(), SpEr> { self.put(Tok::F32(v)) }
    fn write_f64(&mut self, v: f64) -> Result<(), SpEr> { self.put(Tok::F64(v)) }
    fn write_slice<T: Writable<Ctx>>(&mut self, s: &[T]) -> Result<(), SpEr> {
        if T::speedy_is_primitive() && core::mem::size_of::<T>() == 1 {
            let b: &[u8] = unsafe { &*(s as *const [T] as *const [u8]) };
            return self.write_bytes(b);
        }
        for x in s {
            x.write_to(self)?;
        }
        Ok(())
    }
}
pub struct SpR { pub ctx: Ctx, pub toks: Vec<Tok>, pub pos: usize }
impl SpR {
    fn take(&mut self) -> Tok {
        let i = self.pos;
        self.pos += 1;
        if i >= self.toks.len() {
            return Tok::End;
        }
        core::mem::replace(&mut self.toks[i], Tok::End)
    }
}
macro_rules! rd {
    ($($f:ident $t:ty = $v:ident),*) => { $(fn $f(&mut self) -> Result<$t, SpEr> { match self.take() { Tok::$v(x) => Ok(x), _ => Err(SpEr) } })* };
}
impl<'a> Reader<'a, Ctx> for SpR {
    fn read_bytes(&mut self, _: &mut [u8]) -> Result<(), SpEr> { Err(SpEr) }
    fn peek_bytes(&mut self, _: &mut [u8]) -> Result<(), SpEr> { Err(SpEr) }
    fn read_bytes_borrowed_until_eof(&mut self) -> Option<&'a [u8]> {
        match self.take() { Tok::Str(s) => Some(crate::support::text_bytes(Box::leak(Box::new(s)).as_str())), _ => None }
    }
    fn context(&self) -> &Ctx { &self.ctx }
    fn context_mut(&mut self) -> &mut Ctx { &mut self.ctx }
    rd!(read_u8 u8 = U8, read_u16 u16 = U16, read_u32 u32 = U32, read_u64 u64 = U64, read_u128 u128 = U128, read_i8 i8 = I8, read_i16 i16 = I16, read_i32 i32 = I32, read_i64 i64 = I64, read_i128 i128 = I128, read_f32 f32 = F32, read_f64 f64 = F64);
    fn read_vec<T: Readable<'a, Ctx>>(&mut self, n: usize) -> Result<Vec<T>, SpEr> {
        if T::speedy_is_primitive() && core::mem::size_of::<T>() == 1 {
            return match self.take() { Tok::Str(s) => Ok(crate::support::text_vec(s)), _ => Err(SpEr) };
        }
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
            v.push(T::read_from(self)?);
            i += 1;
        }
        Ok(v)
    }
}
