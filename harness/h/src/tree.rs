//! A small in-memory serde format: values keep their bits, structures are read back either by field
//! name or by position.
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;

#[derive(Clone)]
pub enum V {
    Bool(bool),
    U(u64),
    I(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Unit,
    Opt(Option<Box<V>>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Struct(Vec<(String, V)>),
}
#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}

pub struct S;
pub struct Items(Vec<V>);
pub struct Pairs(Vec<(V, V)>, Option<V>);
pub struct Fields(Vec<(String, V)>);
macro_rules! num {
    ($($f:ident $t:ty => $v:ident $u:ty;)*) => { $( fn $f(self, v: $t) -> Result<V, E> { Ok(V::$v(v as $u)) } )* };
}
impl Serializer for S {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = ser::Impossible<V, E>;
    type SerializeMap = Pairs;
    type SerializeStruct = Fields;
    type SerializeStructVariant = ser::Impossible<V, E>;
    num! {
        serialize_bool bool => Bool bool;
        serialize_i8 i8 => I i64; serialize_i16 i16 => I i64; serialize_i32 i32 => I i64; serialize_i64 i64 => I i64;
        serialize_u8 u8 => U u64; serialize_u16 u16 => U u64; serialize_u32 u32 => U u64; serialize_u64 u64 => U u64;
        serialize_f32 f32 => F32 f32; serialize_f64 f64 => F64 f64;
    }
    fn serialize_char(self, v: char) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, E> {
        Ok(V::Seq(v.iter().map(|x| V::U(*x as u64)).collect()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::Opt(None))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, E> {
        Ok(V::Opt(Some(Box::new(v.serialize(S)?))))
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<V, E> {
        Err(E)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<V, E> {
        Err(E)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, E> {
        Ok(Items(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Items, E> {
        Ok(Items(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Items, E> {
        Ok(Items(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<V, E>, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs, E> {
        Ok(Pairs(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, E> {
        Ok(Fields(vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<V, E>, E> {
        Err(E)
    }
}
macro_rules! items {
    ($($t:ident $f:ident;)*) => { $( impl ser::$t for Items {
        type Ok = V;
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
            self.0.push(v.serialize(S)?);
            Ok(())
        }
        fn end(self) -> Result<V, E> {
            Ok(V::Seq(self.0))
        }
    } )* };
}
items! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; }
impl ser::SerializeMap for Pairs {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.1 = Some(v.serialize(S)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().unwrap();
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(V::Map(self.0))
    }
}
impl ser::SerializeStruct for Fields {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k.to_string(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(V::Struct(self.0))
    }
}

#[derive(Clone, Copy)]
pub enum By {
    Name,
    NameReversed,
    Position,
}
pub struct D<'a>(&'a V, By);
struct SeqD<'a>(std::slice::Iter<'a, V>, By);
struct PosD<'a>(std::slice::Iter<'a, (String, V)>, By);
struct MapD<'a>(std::slice::Iter<'a, (V, V)>, Option<&'a V>, By);
struct NameD<'a>(&'a [(String, V)], Option<&'a V>, By, usize);
impl<'de, 'a> SeqAccess<'de> for SeqD<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => s.deserialize(D(v, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<'de, 'a> SeqAccess<'de> for PosD<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => s.deserialize(D(&v.1, self.1)).map(Some),
            None => Ok(None),
        }
    }
}
impl<'de, 'a> MapAccess<'de> for MapD<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(D(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(D(self.1.take().unwrap(), self.2))
    }
}
impl<'de, 'a> MapAccess<'de> for NameD<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.3 == self.0.len() {
            return Ok(None);
        }
        let (k, v) = &self.0[if let By::Name = self.2 { self.3 } else { self.0.len() - 1 - self.3 }];
        self.3 += 1;
        self.1 = Some(v);
        s.deserialize(k.as_str().into_deserializer()).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(D(self.1.take().unwrap(), self.2))
    }
}
impl<'de, 'a> Deserializer<'de> for D<'a> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.0 {
            V::Bool(x) => w.visit_bool(*x),
            V::U(x) => w.visit_u64(*x),
            V::I(x) => w.visit_i64(*x),
            V::F32(x) => w.visit_f32(*x),
            V::F64(x) => w.visit_f64(*x),
            V::Str(x) => w.visit_str(x),
            V::Unit => w.visit_unit(),
            V::Opt(None) => w.visit_none(),
            V::Opt(Some(x)) => w.visit_some(D(x, self.1)),
            V::Seq(x) => w.visit_seq(SeqD(x.iter(), self.1)),
            V::Map(x) => w.visit_map(MapD(x.iter(), None, self.1)),
            V::Struct(x) => match self.1 {
                By::Position => w.visit_seq(PosD(x.iter(), self.1)),
                _ => w.visit_map(NameD(x, None, self.1, 0)),
            },
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        w.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn save<T: Serialize>(x: &T) -> V {
    x.serialize(S).unwrap()
}
pub fn load<'de, T: de::Deserialize<'de>>(v: &V, by: By) -> T {
    T::deserialize(D(v, by)).unwrap()
}
pub fn by() -> By {
    crate::vx::pick(&[By::Name, By::NameReversed, By::Position])
}
