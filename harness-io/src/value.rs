//! A small self-describing in-memory format: values as serde's data model has them.
use serde::de::{self, IntoDeserializer, Visitor};
use serde::ser;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    U64(u64),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Variant(&'static str, Box<V>),
}
/// How strings are handed to visitors.
pub static mut OWNED: bool = false;

#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("E")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self {
        E
    }
}
pub fn to<T: ser::Serialize + ?Sized>(t: &T) -> V {
    match t.serialize(S) {
        Ok(v) => v,
        Err(_) => crate::nd::fail("a value cannot be serialized"),
    }
}
pub fn from<T: for<'de> de::Deserialize<'de>>(v: V) -> Result<T, E> {
    T::deserialize(v)
}

struct S;
struct SeqS(Vec<V>);
struct MapS(Vec<(V, V)>, Option<V>);
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<V, E> { Ok(V::U64(v as u64)) })* };
}
impl ser::Serializer for S {
    type Ok = V;
    type Error = E;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = SeqS;
    type SerializeTupleVariant = ser::Impossible<V, E>;
    type SerializeMap = MapS;
    type SerializeStruct = MapS;
    type SerializeStructVariant = ser::Impossible<V, E>;
    ints!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<V, E> {
        Ok(V::Bool(v))
    }
    fn serialize_i8(self, _: i8) -> Result<V, E> {
        Err(E)
    }
    fn serialize_i16(self, _: i16) -> Result<V, E> {
        Err(E)
    }
    fn serialize_i32(self, _: i32) -> Result<V, E> {
        Err(E)
    }
    fn serialize_i64(self, _: i64) -> Result<V, E> {
        Err(E)
    }
    fn serialize_f32(self, _: f32) -> Result<V, E> {
        Err(E)
    }
    fn serialize_f64(self, _: f64) -> Result<V, E> {
        Err(E)
    }
    fn serialize_char(self, _: char) -> Result<V, E> {
        Err(E)
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        Ok(V::Str(v.as_bytes().to_vec()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, E> {
        Ok(V::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn serialize_some<T: ser::Serialize + ?Sized>(self, v: &T) -> Result<V, E> {
        Ok(V::Some(Box::new(v.serialize(S)?)))
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<V, E> {
        Ok(V::Variant(n, Box::new(V::Unit)))
    }
    fn serialize_newtype_struct<T: ser::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: ser::Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<V, E> {
        Ok(V::Variant(n, Box::new(v.serialize(S)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS, E> {
        Ok(SeqS(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqS, E> {
        Ok(SeqS(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS, E> {
        Ok(SeqS(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS, E> {
        Ok(MapS(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapS, E> {
        Ok(MapS(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E)
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for SeqS {
        type Ok = V;
        type Error = E;
        fn $f<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
            self.0.push(v.serialize(S)?);
            Ok(())
        }
        fn end(self) -> Result<V, E> {
            Ok(V::Seq(self.0))
        }
    })* };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl ser::SerializeMap for MapS {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: ser::Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.1 = Some(k.serialize(S)?);
        Ok(())
    }
    fn serialize_value<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let Some(k) = self.1.take() else { return Err(E) };
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(V::Map(self.0))
    }
}
impl ser::SerializeStruct for MapS {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ser::Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((V::Str(k.as_bytes().to_vec()), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(V::Map(self.0))
    }
}

impl V {
    fn str_<'de, Vi: Visitor<'de>>(v: Vec<u8>, vi: Vi) -> Result<Vi::Value, E> {
        // what was serialized as a string is one
        let s = unsafe { String::from_utf8_unchecked(v) };
        if unsafe { OWNED } {
            vi.visit_string(s)
        } else {
            vi.visit_str(&s)
        }
    }
}
impl<'de> de::Deserializer<'de> for V {
    type Error = E;
    fn deserialize_any<Vi: Visitor<'de>>(self, vi: Vi) -> Result<Vi::Value, E> {
        match self {
            V::Unit => vi.visit_unit(),
            V::Bool(b) => vi.visit_bool(b),
            V::U64(v) => vi.visit_u64(v),
            V::Str(v) => V::str_(v, vi),
            V::Bytes(v) => {
                if unsafe { OWNED } {
                    vi.visit_byte_buf(v)
                } else {
                    vi.visit_bytes(&v)
                }
            }
            V::None => vi.visit_none(),
            V::Some(v) => vi.visit_some(*v),
            V::Seq(v) => vi.visit_seq(SeqD(v.into_iter())),
            V::Map(v) => vi.visit_map(MapD(v.into_iter(), None)),
            V::Variant(n, v) => vi.visit_enum(VarD(n, *v)),
        }
    }
    fn deserialize_option<Vi: Visitor<'de>>(self, vi: Vi) -> Result<Vi::Value, E> {
        match self {
            V::None | V::Unit => vi.visit_none(),
            V::Some(v) => vi.visit_some(*v),
            v => vi.visit_some(v),
        }
    }
    fn deserialize_newtype_struct<Vi: Visitor<'de>>(self, _: &'static str, vi: Vi) -> Result<Vi::Value, E> {
        vi.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
struct SeqD(std::vec::IntoIter<V>);
impl<'de> de::SeqAccess<'de> for SeqD {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => seed.deserialize(v).map(Some),
            None => Ok(None),
        }
    }
}
struct MapD(std::vec::IntoIter<(V, V)>, Option<V>);
impl<'de> de::MapAccess<'de> for MapD {
    type Error = E;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                seed.deserialize(k).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        match self.1.take() {
            Some(v) => seed.deserialize(v),
            None => Err(E),
        }
    }
}
struct VarD(&'static str, V);
impl<'de> de::EnumAccess<'de> for VarD {
    type Error = E;
    type Variant = VarC;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, VarC), E> {
        let n: de::value::StrDeserializer<'_, E> = self.0.into_deserializer();
        Ok((seed.deserialize(n)?, VarC(self.1)))
    }
}
struct VarC(V);
impl<'de> de::VariantAccess<'de> for VarC {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self.0)
    }
    fn tuple_variant<Vi: Visitor<'de>>(self, _: usize, vi: Vi) -> Result<Vi::Value, E> {
        use de::Deserializer;
        self.0.deserialize_any(vi)
    }
    fn struct_variant<Vi: Visitor<'de>>(self, _: &'static [&'static str], vi: Vi) -> Result<Vi::Value, E> {
        use de::Deserializer;
        self.0.deserialize_any(vi)
    }
}
