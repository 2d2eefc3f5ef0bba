//! a self-describing serde format: structs become maps from field names, whose order a reader may not rely on
use serde::de::{self, DeserializeOwned, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Unit,
    Bool(bool),
    Int(i128),
    /// beyond i128
    Big(u128),
    Float(f64),
    Str(String),
    Seq(Vec<Value>),
    Map(Vec<(Value, Value)>),
}

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
type R<T> = Result<T, Error>;

struct Ser;
struct Items(Vec<Value>, Option<&'static str>);
struct Pairs(Vec<(Value, Value)>, Option<Value>);
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R<Value> { Ok(Value::Int(v as i128)) })* };
}
fn variant(name: &'static str, v: Value) -> Value {
    Value::Map(vec![(Value::Str(name.into()), v)])
}
impl ser::Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Pairs;
    type SerializeStruct = Pairs;
    type SerializeStructVariant = ser::Impossible<Value, Error>;
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
          serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_u128(self, v: u128) -> R<Value> {
        Ok(i128::try_from(v).map_or(Value::Big(v), Value::Int))
    }
    fn serialize_bool(self, v: bool) -> R<Value> {
        Ok(Value::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> R<Value> {
        Ok(Value::Float(v as f64))
    }
    fn serialize_f64(self, v: f64) -> R<Value> {
        Ok(Value::Float(v))
    }
    fn serialize_char(self, v: char) -> R<Value> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> R<Value> {
        Ok(Value::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> R<Value> {
        Ok(Value::Seq(v.iter().map(|&b| Value::Int(b as i128)).collect()))
    }
    fn serialize_none(self) -> R<Value> {
        Ok(Value::Unit)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<Value> {
        v.serialize(Ser)
    }
    fn serialize_unit(self) -> R<Value> {
        Ok(Value::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<Value> {
        Ok(Value::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, name: &'static str) -> R<Value> {
        Ok(Value::Str(name.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<Value> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, name: &'static str, v: &T) -> R<Value> {
        Ok(variant(name, v.serialize(Ser)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> R<Items> {
        Ok(Items(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> R<Items> {
        Ok(Items(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Items> {
        Ok(Items(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> R<Items> {
        Ok(Items(vec![], Some(name)))
    }
    fn serialize_map(self, _: Option<usize>) -> R<Pairs> {
        Ok(Pairs(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Pairs> {
        Ok(Pairs(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> {
        Err(Error("struct variants are not supported".into()))
    }
}
macro_rules! items {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Items {
        type Ok = Value;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
            self.0.push(v.serialize(Ser)?);
            Ok(())
        }
        fn end(self) -> R<Value> {
            let v = Value::Seq(self.0);
            Ok(match self.1 { Some(n) => variant(n, v), None => v })
        }
    })* };
}
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Pairs {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> R<()> {
        self.1 = Some(k.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        let k = self.1.take().ok_or(Error("a value without a key".into()))?;
        self.0.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> R<Value> {
        Ok(Value::Map(self.0))
    }
}
impl ser::SerializeStruct for Pairs {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> R<()> {
        self.0.push((Value::Str(k.into()), v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> R<Value> {
        Ok(Value::Map(self.0))
    }
}

impl<'de> IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}
impl<'de> de::Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self {
            Value::Unit => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(b),
            Value::Int(i) => match (u64::try_from(i), i64::try_from(i)) {
                (Ok(u), _) => v.visit_u64(u),
                (_, Ok(i)) => v.visit_i64(i),
                _ if i > 0 => v.visit_u128(i as u128),
                _ => v.visit_i128(i),
            },
            Value::Big(b) => v.visit_u128(b),
            Value::Float(f) => v.visit_f64(f),
            Value::Str(s) => v.visit_string(s),
            Value::Seq(s) => v.visit_seq(de::value::SeqDeserializer::new(s.into_iter())),
            Value::Map(m) => v.visit_map(de::value::MapDeserializer::new(m.into_iter())),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self {
            Value::Unit => v.visit_none(),
            s => v.visit_some(s),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        match self {
            Value::Str(s) => v.visit_enum(s.into_deserializer()),
            _ => Err(Error("only unit variants are supported".into())),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}

/// the fields of every struct and the entries of every map, the other way round
fn reverse(v: Value) -> Value {
    match v {
        Value::Seq(s) => Value::Seq(s.into_iter().map(reverse).collect()),
        Value::Map(m) => Value::Map(m.into_iter().rev().map(|(k, v)| (k, reverse(v))).collect()),
        v => v,
    }
}

pub fn to_value<T: Serialize>(x: &T) -> R<Value> {
    x.serialize(Ser)
}
/// serializes and restores, by the number `how`: in the compact format of the codec, with field names, or with field
/// names in another order
pub fn through<T: Serialize + DeserializeOwned>(x: &T, how: u64) -> Result<T, String> {
    if how % 3 == 0 {
        let b = bincode::serialize(x).map_err(|e| format!("serializing fails: {e}"))?;
        return bincode::deserialize(&b).map_err(|e| format!("restoring fails: {e}"));
    }
    let v = to_value(x).map_err(|e| format!("serializing with field names fails: {e}"))?;
    T::deserialize(if how % 3 == 1 { v } else { reverse(v) }).map_err(|e| format!("restoring with field names fails: {e}"))
}
