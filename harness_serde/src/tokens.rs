//! Writes a value as the sequence of steps its Serialize implementation takes, including the
//! lengths it declares.
use crate::json::quote;
use serde::ser::*;
use std::fmt;

#[derive(Default)]
pub struct Tokens(pub Vec<String>);
#[derive(Debug)]
pub struct Bad(String);
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl Error for Bad {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Bad(m.to_string())
    }
}
type R = Result<(), Bad>;
impl Tokens {
    fn put(&mut self, t: &str, n: i64, s: &str) -> R {
        self.0.push(format!("{{\"t\":{},\"n\":{n},\"s\":{}}}", quote(t), quote(s)));
        Ok(())
    }
}
fn len(n: Option<usize>) -> i64 {
    n.map_or(-1, |n| n as i64)
}
macro_rules! num {
    ($($f:ident $t:ty, $n:expr);*) => { $(fn $f(self, v: $t) -> R { self.put($n, v as i64, "") })* };
}
impl<'a> Serializer for &'a mut Tokens {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_bool bool, "bool"; serialize_i8 i8, "i8"; serialize_i16 i16, "i16"; serialize_i32 i32, "i32"; serialize_i64 i64, "i64";
         serialize_u8 u8, "u8"; serialize_u16 u16, "u16"; serialize_u32 u32, "u32"; serialize_u64 u64, "u64"; serialize_char char, "char");
    fn serialize_f32(self, v: f32) -> R {
        self.put("f32", crate::fx::fx(v as f64), "")
    }
    fn serialize_f64(self, v: f64) -> R {
        self.put("f64", crate::fx::fx(v), "")
    }
    fn serialize_str(self, v: &str) -> R {
        self.put("str", 0, v)
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.put("bytes", v.len() as i64, "")
    }
    fn serialize_none(self) -> R {
        self.put("none", 0, "")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        self.put("some", 0, "")?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.put("unit", 0, "")
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        self.put("unit", 0, "")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        self.put("variant", 0, v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        self.put("variant", 1, n)?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Bad> {
        self.put("seq", len(n), "")?;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Bad> {
        self.put("tuple", n as i64, "")?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Bad> {
        self.put("tuple", n as i64, "")?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<Self, Bad> {
        self.put("tuple", n as i64, v)?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Bad> {
        self.put("map", len(n), "")?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Bad> {
        self.put("struct", n as i64, "")?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, n: usize) -> Result<Self, Bad> {
        self.put("struct", n as i64, v)?;
        Ok(self)
    }
}
macro_rules! items {
    ($($tr:ident $f:ident),*) => { $(impl<'a> $tr for &'a mut Tokens {
        type Ok = ();
        type Error = Bad;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
            v.serialize(&mut **self)
        }
        fn end(self) -> R {
            self.put("end", 0, "")
        }
    })* };
}
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => { $(impl<'a> $tr for &'a mut Tokens {
        type Ok = ();
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R {
            self.put("field", 0, k)?;
            v.serialize(&mut **self)
        }
        fn end(self) -> R {
            self.put("end", 0, "")
        }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl<'a> SerializeMap for &'a mut Tokens {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> R {
        k.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        self.put("end", 0, "")
    }
}
