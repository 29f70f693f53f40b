//! A serializer that records what it is given, and deserializers that offer exactly one thing.
use super::*;
use serde::de::{self, Deserialize, Visitor};
use serde::ser::{self, Impossible, Serialize};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
impl de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }

pub struct Rec { pub human: bool }
pub enum Out { Str(String), Bytes(Vec<u8>) }
macro_rules! no { ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $( fn $f(self, $(_: $t),*) -> Result<$r, E> { Err(E) } )* } }
impl ser::Serializer for Rec {
    type Ok = Out;
    type Error = E;
    type SerializeSeq = Impossible<Out, E>;
    type SerializeTuple = Impossible<Out, E>;
    type SerializeTupleStruct = Impossible<Out, E>;
    type SerializeTupleVariant = Impossible<Out, E>;
    type SerializeMap = Impossible<Out, E>;
    type SerializeStruct = Impossible<Out, E>;
    type SerializeStructVariant = Impossible<Out, E>;
    fn is_human_readable(&self) -> bool { self.human }
    fn serialize_str(self, s: &str) -> Result<Out, E> { Ok(Out::Str(String::from(s))) }
    fn serialize_bytes(self, s: &[u8]) -> Result<Out, E> { Ok(Out::Bytes(s.to_vec())) }
    no! {
        serialize_bool(bool) -> Out; serialize_i8(i8) -> Out; serialize_i16(i16) -> Out; serialize_i32(i32) -> Out; serialize_i64(i64) -> Out;
        serialize_u8(u8) -> Out; serialize_u16(u16) -> Out; serialize_u32(u32) -> Out; serialize_u64(u64) -> Out; serialize_f32(f32) -> Out;
        serialize_f64(f64) -> Out; serialize_char(char) -> Out; serialize_none() -> Out; serialize_unit() -> Out;
        serialize_unit_struct(&'static str) -> Out; serialize_unit_variant(&'static str, u32, &'static str) -> Out;
        serialize_seq(Option<usize>) -> Impossible<Out, E>; serialize_tuple(usize) -> Impossible<Out, E>;
        serialize_tuple_struct(&'static str, usize) -> Impossible<Out, E>;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Impossible<Out, E>;
        serialize_map(Option<usize>) -> Impossible<Out, E>; serialize_struct(&'static str, usize) -> Impossible<Out, E>;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Impossible<Out, E>;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Out, E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Out, E> { Err(E) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, E> { Err(E) }
}

/// self-describing text format: any request is answered with the text
pub struct Human<'a>(pub &'a str, pub u8);
impl<'de> de::Deserializer<'de> for Human<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { true }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.1 { 0 => v.visit_str(self.0), 1 => v.visit_borrowed_str(self.0), _ => v.visit_string(String::from(self.0)) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// compact binary format holding a byte string: only a request for bytes can be answered
pub struct Compact<'a>(pub &'a [u8], pub u8);
impl<'de> de::Deserializer<'de> for Compact<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.1 { 0 => v.visit_bytes(self.0), 1 => v.visit_borrowed_bytes(self.0), _ => v.visit_byte_buf(self.0.to_vec()) }
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_bytes(v) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// text format holding something that is not a text
pub struct Number(pub u64);
impl<'de> de::Deserializer<'de> for Number {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_u64(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

pub fn write_human(s: &Sudoku) -> Result<Out, E> { s.serialize(Rec { human: true }) }
pub fn write_compact(s: &Sudoku) -> Result<Out, E> { s.serialize(Rec { human: false }) }
pub fn read_human(s: &str) -> Option<Sudoku> { Sudoku::deserialize(Human(s, 0)).ok() }
pub fn read_human_borrowed(s: &str) -> Option<Sudoku> { Sudoku::deserialize(Human(s, 1)).ok() }
pub fn read_human_owned(s: &str) -> Option<Sudoku> { Sudoku::deserialize(Human(s, 2)).ok() }
pub fn read_compact(s: &[u8]) -> Option<Sudoku> { Sudoku::deserialize(Compact(s, 0)).ok() }
pub fn read_compact_borrowed(s: &[u8]) -> Option<Sudoku> { Sudoku::deserialize(Compact(s, 1)).ok() }
pub fn read_compact_owned(s: &[u8]) -> Option<Sudoku> { Sudoku::deserialize(Compact(s, 2)).ok() }
pub fn read_number(n: u64) -> Option<Sudoku> { Sudoku::deserialize(Number(n)).ok() }
