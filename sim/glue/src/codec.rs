//! Two small binary codecs of the kinds people store polylines with: positional fixed width
//! (nothing but the data, read back by position) and tagged (a header before every array and map,
//! like CBOR or MessagePack).  Both believe the lengths they are told and say so when they are
//! wrong.
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser;
use std::fmt;
use std::io::{Read, Write};

#[derive(Debug)]
pub struct Error(pub String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error(format!("io: {e}"))
    }
}

const T_BOOL: u8 = 1;
const T_U64: u8 = 2;
const T_I64: u8 = 3;
const T_F32: u8 = 4;
const T_F64: u8 = 5;
const T_STR: u8 = 6;
const T_NULL: u8 = 7;
const T_ARR: u8 = 8;
const T_MAP: u8 = 9;

pub struct Ser<'a> {
    pub out: &'a mut dyn Write,
    pub tagged: bool,
}

impl Ser<'_> {
    fn tag(&mut self, t: u8) -> Result<(), Error> {
        if self.tagged {
            self.out.write_all(&[t])?;
        }
        Ok(())
    }
    fn raw(&mut self, b: &[u8]) -> Result<(), Error> {
        self.out.write_all(b)?;
        Ok(())
    }
}

pub struct Items<'a, 'b> {
    s: &'b mut Ser<'a>,
    want: usize,
    have: usize,
}

impl Items<'_, '_> {
    fn close(self) -> Result<(), Error> {
        if self.want != self.have {
            return Err(Error(format!("{} elements were announced and {} written", self.want, self.have)));
        }
        Ok(())
    }
}

macro_rules! prim {
    ($f:ident, $t:ty, $tag:expr, $as:ty) => {
        fn $f(self, v: $t) -> Result<(), Error> {
            self.tag($tag)?;
            self.raw(&(v as $as).to_le_bytes())
        }
    };
}

impl<'a, 'b> ser::Serializer for &'b mut Ser<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Items<'a, 'b>;
    type SerializeTuple = Items<'a, 'b>;
    type SerializeTupleStruct = Items<'a, 'b>;
    type SerializeTupleVariant = Items<'a, 'b>;
    type SerializeMap = Items<'a, 'b>;
    type SerializeStruct = Items<'a, 'b>;
    type SerializeStructVariant = Items<'a, 'b>;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Result<(), Error> {
        self.tag(T_BOOL)?;
        self.raw(&[v as u8])
    }
    prim!(serialize_i8, i8, T_I64, i64);
    prim!(serialize_i16, i16, T_I64, i64);
    prim!(serialize_i32, i32, T_I64, i64);
    prim!(serialize_i64, i64, T_I64, i64);
    prim!(serialize_u8, u8, T_U64, u64);
    prim!(serialize_u16, u16, T_U64, u64);
    prim!(serialize_u32, u32, T_U64, u64);
    prim!(serialize_u64, u64, T_U64, u64);
    prim!(serialize_f32, f32, T_F32, f32);
    prim!(serialize_f64, f64, T_F64, f64);
    fn serialize_char(self, v: char) -> Result<(), Error> {
        self.serialize_str(&v.to_string())
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        self.tag(T_STR)?;
        self.raw(&(v.len() as u32).to_le_bytes())?;
        self.raw(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        ser::Serializer::serialize_str(self, &String::from_utf8_lossy(v))
    }
    fn serialize_none(self) -> Result<(), Error> {
        if self.tagged { self.tag(T_NULL) } else { self.raw(&[0]) }
    }
    fn serialize_some<T: ser::Serialize + ?Sized>(self, v: &T) -> Result<(), Error> {
        if !self.tagged {
            self.raw(&[1])?;
        }
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        self.tag(T_NULL)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        self.tag(T_NULL)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, name: &'static str) -> Result<(), Error> {
        if self.tagged { self.serialize_str(name) } else { self.raw(&i.to_le_bytes()) }
    }
    fn serialize_newtype_struct<T: ser::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ser::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
        Err(Error("variants are not stored by this codec".into()))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Items<'a, 'b>, Error> {
        let Some(n) = len else { return Err(Error("sequence of unknown length".into())) };
        self.tag(T_ARR)?;
        self.raw(&(n as u32).to_le_bytes())?;
        Ok(Items { s: self, want: n, have: 0 })
    }
    fn serialize_tuple(self, n: usize) -> Result<Items<'a, 'b>, Error> {
        if self.tagged {
            self.tag(T_ARR)?;
            self.raw(&(n as u32).to_le_bytes())?;
        }
        Ok(Items { s: self, want: n, have: 0 })
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Items<'a, 'b>, Error> {
        self.serialize_tuple(n)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Items<'a, 'b>, Error> {
        Err(Error("variants are not stored by this codec".into()))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Items<'a, 'b>, Error> {
        let Some(n) = len else { return Err(Error("map of unknown length".into())) };
        self.tag(T_MAP)?;
        self.raw(&(n as u32).to_le_bytes())?;
        Ok(Items { s: self, want: n, have: 0 })
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Items<'a, 'b>, Error> {
        if self.tagged {
            self.tag(T_MAP)?;
            self.raw(&(n as u32).to_le_bytes())?;
        }
        Ok(Items { s: self, want: n, have: 0 })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Items<'a, 'b>, Error> {
        Err(Error("variants are not stored by this codec".into()))
    }
}

impl ser::SerializeSeq for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.have += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.close()
    }
}
impl ser::SerializeTuple for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.have += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.close()
    }
}
impl ser::SerializeTupleStruct for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.have += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.close()
    }
}
impl ser::SerializeTupleVariant for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ser::Serialize + ?Sized>(&mut self, _: &T) -> Result<(), Error> {
        Ok(())
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}
impl ser::SerializeMap for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut *self.s)
    }
    fn serialize_value<T: ser::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.have += 1;
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.close()
    }
}
impl ser::SerializeStruct for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ser::Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.have += 1;
        if self.s.tagged {
            use ser::Serializer;
            (&mut *self.s).serialize_str(k)?;
        }
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.close()
    }
}
impl ser::SerializeStructVariant for Items<'_, '_> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ser::Serialize + ?Sized>(&mut self, _: &'static str, _: &T) -> Result<(), Error> {
        Ok(())
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}

// ------------------------------------------------------------------ reading

pub struct De<'a> {
    pub src: &'a mut dyn Read,
    pub tagged: bool,
}

impl De<'_> {
    fn take<const N: usize>(&mut self) -> Result<[u8; N], Error> {
        let mut b = [0u8; N];
        self.src.read_exact(&mut b)?;
        Ok(b)
    }
    fn len(&mut self) -> Result<usize, Error> {
        Ok(u32::from_le_bytes(self.take()?) as usize)
    }
    fn string(&mut self) -> Result<String, Error> {
        let n = self.len()?;
        if n > 1 << 16 {
            return Err(Error("string too long".into()));
        }
        let mut b = vec![0u8; n];
        self.src.read_exact(&mut b)?;
        String::from_utf8(b).map_err(|_| Error("not text".into()))
    }
    fn any<'de, V: Visitor<'de>>(&mut self, v: V) -> Result<V::Value, Error> {
        let [t] = self.take::<1>()?;
        match t {
            T_BOOL => {
                let [b] = self.take::<1>()?;
                if b > 1 {
                    return Err(Error("not a truth value".into()));
                }
                v.visit_bool(b == 1)
            }
            T_U64 => v.visit_u64(u64::from_le_bytes(self.take()?)),
            T_I64 => v.visit_i64(i64::from_le_bytes(self.take()?)),
            T_F32 => v.visit_f32(f32::from_le_bytes(self.take()?)),
            T_F64 => v.visit_f64(f64::from_le_bytes(self.take()?)),
            T_STR => v.visit_string(self.string()?),
            T_NULL => v.visit_unit(),
            T_ARR => {
                let n = self.len()?;
                let mut s = Left { d: self, left: n };
                let r = v.visit_seq(&mut s)?;
                s.done()?;
                Ok(r)
            }
            T_MAP => {
                let n = self.len()?;
                let mut s = Left { d: self, left: n };
                let r = v.visit_map(&mut s)?;
                s.done()?;
                Ok(r)
            }
            _ => Err(Error(format!("unknown tag {t}"))),
        }
    }
    fn fixed<'de, V: Visitor<'de>>(&mut self, n: usize, v: V) -> Result<V::Value, Error> {
        let mut s = Left { d: self, left: n };
        let r = v.visit_seq(&mut s)?;
        s.done()?;
        Ok(r)
    }
}

struct Left<'a, 'b> {
    d: &'b mut De<'a>,
    left: usize,
}

impl Left<'_, '_> {
    fn done(&self) -> Result<(), Error> {
        if self.left != 0 {
            return Err(Error(format!("{} elements were not expected", self.left)));
        }
        Ok(())
    }
}

impl<'de> SeqAccess<'de> for &mut Left<'_, '_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'de> MapAccess<'de> for &mut Left<'_, '_> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        let [t] = self.d.take::<1>()?;
        if t != T_STR {
            return Err(Error("a key must be text".into()));
        }
        let k = self.d.string()?;
        seed.deserialize(IntoDeserializer::<Error>::into_deserializer(k)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(&mut *self.d)
    }
}

macro_rules! num {
    ($f:ident, $visit:ident, $t:ty, $wide:ty) => {
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            if self.tagged {
                return self.any(v);
            }
            let x = <$wide>::from_le_bytes(self.take()?);
            match <$t>::try_from(x) {
                Ok(x) => v.$visit(x),
                Err(_) => Err(Error("number out of range".into())),
            }
        }
    };
}

impl<'de> de::Deserializer<'de> for &mut De<'_> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged { self.any(v) } else { Err(Error("this codec does not describe what it holds".into())) }
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged {
            return self.any(v);
        }
        match self.take::<1>()? {
            [0] => v.visit_bool(false),
            [1] => v.visit_bool(true),
            _ => Err(Error("not a truth value".into())),
        }
    }
    num!(deserialize_i8, visit_i8, i8, i64);
    num!(deserialize_i16, visit_i16, i16, i64);
    num!(deserialize_i32, visit_i32, i32, i64);
    num!(deserialize_i64, visit_i64, i64, i64);
    num!(deserialize_u8, visit_u8, u8, u64);
    num!(deserialize_u16, visit_u16, u16, u64);
    num!(deserialize_u32, visit_u32, u32, u64);
    num!(deserialize_u64, visit_u64, u64, u64);
    num!(deserialize_f32, visit_f32, f32, f32);
    num!(deserialize_f64, visit_f64, f64, f64);
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_string(v)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged { self.any(v) } else { v.visit_string(self.string()?) }
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_string(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_string(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged {
            return self.any(v);
        }
        match self.take::<1>()? {
            [0] => v.visit_none(),
            [1] => v.visit_some(self),
            _ => Err(Error("neither absent nor present".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged { self.any(v) } else { v.visit_unit() }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_unit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged {
            return self.any(v);
        }
        let n = self.len()?;
        self.fixed(n, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        if self.tagged { self.any(v) } else { self.fixed(n, v) }
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.tagged { self.any(v) } else { Err(Error("maps are not stored by this codec".into())) }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        if self.tagged { self.any(v) } else { self.fixed(fields.len(), v) }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(Error("variants are not stored by this codec".into()))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_string(v)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
}
