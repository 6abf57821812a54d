//! A neutral value tree and the serde bridge between it and the library's types.
//! Floats are kept as bits so that NaN payloads and signed zeros compare exactly.
use serde::de::{self, DeserializeOwned, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Val {
    Unit,
    None,
    Some(Box<Val>),
    Bool(bool),
    U(u64),
    I(i64),
    F(u32),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    Map(Vec<(&'static str, Val)>),
    Variant(&'static str, Option<Box<Val>>),
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Val::Unit => write!(f, "()"),
            Val::None => write!(f, "null"),
            Val::Some(v) => write!(f, "&{v:?}"),
            Val::Bool(b) => write!(f, "{b}"),
            Val::U(v) => write!(f, "{v}"),
            Val::I(v) => write!(f, "{v}"),
            Val::F(v) => {
                let x = f32::from_bits(*v);
                if x.is_nan() {
                    write!(f, "nan#{v:08x}")
                } else {
                    write!(f, "{x:?}")
                }
            }
            Val::Str(s) => match std::str::from_utf8(s) {
                Ok(s) => write!(f, "{s:?}"),
                Err(_) => write!(f, "b\"{}\"", hex(s)),
            },
            Val::Bytes(s) => write!(f, "x\"{}\"", hex(s)),
            Val::Seq(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{x:?}")?;
                }
                write!(f, "]")
            }
            Val::Map(v) => {
                write!(f, "{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{k}: {x:?}")?;
                }
                write!(f, "}}")
            }
            Val::Variant(n, None) => write!(f, "{n}"),
            Val::Variant(n, Some(v)) => write!(f, "{n} {v:?}"),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

impl Val {
    pub fn field(&self, name: &str) -> &Val {
        match self {
            Val::Map(m) => &m.iter().find(|(k, _)| *k == name).unwrap_or_else(|| panic!("no field {name}")).1,
            _ => panic!("not a map"),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Val::Some(v) => 1 + v.size(),
            Val::Seq(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            Val::Map(v) => 1 + v.iter().map(|x| x.1.size()).sum::<usize>(),
            Val::Variant(_, Some(v)) => 1 + v.size(),
            Val::Str(s) | Val::Bytes(s) => 1 + s.len() / 8,
            _ => 1,
        }
    }
    /// Path of the first difference, for messages.
    pub fn diff(&self, o: &Val) -> Option<String> {
        match (self, o) {
            (Val::Map(a), Val::Map(b)) if a.len() == b.len() => {
                for ((k, x), (k2, y)) in a.iter().zip(b) {
                    if k != k2 {
                        return Some(format!("field {k} vs {k2}"));
                    }
                    if let Some(d) = x.diff(y) {
                        return Some(format!(".{k}{d}"));
                    }
                }
                None
            }
            (Val::Seq(a), Val::Seq(b)) if a.len() == b.len() => {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    if let Some(d) = x.diff(y) {
                        return Some(format!("[{i}]{d}"));
                    }
                }
                None
            }
            (Val::Some(a), Val::Some(b)) => a.diff(b),
            (Val::Variant(n, Some(a)), Val::Variant(m, Some(b))) if n == m => a.diff(b).map(|d| format!(".{n}{d}")),
            _ => {
                if self == o {
                    None
                } else {
                    let mut a = format!("{self:?}");
                    let mut b = format!("{o:?}");
                    if a.len() > 300 {
                        a = a.chars().take(300).collect();
                    }
                    if b.len() > 300 {
                        b = b.chars().take(300).collect();
                    }
                    Some(format!(": {a} != {b}"))
                }
            }
        }
    }
}

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

pub fn to_val<T: Serialize + ?Sized>(t: &T) -> Result<Val, Error> {
    t.serialize(Ser)
}

pub fn from_val<T: DeserializeOwned>(v: &Val) -> Result<T, Error> {
    T::deserialize(De(v))
}

struct Ser;
struct SeqSer(Vec<Val>, Option<&'static str>);
struct MapSer(Vec<(&'static str, Val)>, Option<&'static str>, Option<&'static str>);

impl SeqSer {
    fn done(self) -> Val {
        let v = Val::Seq(self.0);
        match self.1 {
            Some(n) => Val::Variant(n, Some(Box::new(v))),
            None => v,
        }
    }
}

impl Serializer for Ser {
    type Ok = Val;
    type Error = Error;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = SeqSer;
    type SerializeMap = MapSer;
    type SerializeStruct = MapSer;
    type SerializeStructVariant = MapSer;
    fn serialize_bool(self, v: bool) -> Result<Val, Error> {
        Ok(Val::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Val, Error> {
        Ok(Val::I(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<Val, Error> {
        Ok(Val::I(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<Val, Error> {
        Ok(Val::I(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<Val, Error> {
        Ok(Val::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Val, Error> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Val, Error> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Val, Error> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, Error> {
        Ok(Val::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Val, Error> {
        Ok(Val::F(v.to_bits()))
    }
    fn serialize_f64(self, _: f64) -> Result<Val, Error> {
        Err(Error("f64".into()))
    }
    fn serialize_char(self, v: char) -> Result<Val, Error> {
        Ok(Val::Str(v.to_string().into_bytes()))
    }
    fn serialize_str(self, v: &str) -> Result<Val, Error> {
        Ok(Val::Str(v.as_bytes().to_vec()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, Error> {
        Ok(Val::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Val, Error> {
        Ok(Val::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, Error> {
        Ok(Val::Some(Box::new(to_val(v)?)))
    }
    fn serialize_unit(self) -> Result<Val, Error> {
        Ok(Val::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, Error> {
        Ok(Val::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Val, Error> {
        Ok(Val::Variant(v, None))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, Error> {
        to_val(v)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        n: &'static str,
        v: &T,
    ) -> Result<Val, Error> {
        Ok(Val::Variant(n, Some(Box::new(to_val(v)?))))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer, Error> {
        Ok(MapSer(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapSer, Error> {
        Ok(MapSer(vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapSer, Error> {
        Ok(MapSer(vec![], Some(n), None))
    }
}

impl ser::SerializeSeq for SeqSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(to_val(v)?);
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}
impl ser::SerializeTuple for SeqSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(to_val(v)?);
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}
impl ser::SerializeTupleStruct for SeqSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(to_val(v)?);
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}
impl ser::SerializeTupleVariant for SeqSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.0.push(to_val(v)?);
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}
impl MapSer {
    fn done(self) -> Val {
        let v = Val::Map(self.0);
        match self.1 {
            Some(n) => Val::Variant(n, Some(Box::new(v))),
            None => v,
        }
    }
}
impl ser::SerializeMap for MapSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        match to_val(v)? {
            Val::Str(s) => self.2 = Some(Box::leak(String::from_utf8(s).unwrap().into_boxed_str())),
            _ => return Err(Error("key".into())),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.2.take().unwrap();
        self.0.push((k, to_val(v)?));
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}
impl ser::SerializeStruct for MapSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.0.push((k, to_val(v)?));
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}
impl ser::SerializeStructVariant for MapSer {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.0.push((k, to_val(v)?));
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        Ok(self.done())
    }
}

#[derive(Clone, Copy)]
struct De<'a>(&'a Val);

impl<'de, 'a> Deserializer<'de> for De<'a> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Val::Unit => v.visit_unit(),
            Val::None => v.visit_none(),
            Val::Some(x) => v.visit_some(De(x)),
            Val::Bool(b) => v.visit_bool(*b),
            Val::U(x) => v.visit_u64(*x),
            Val::I(x) => v.visit_i64(*x),
            Val::F(x) => v.visit_f32(f32::from_bits(*x)),
            Val::Str(s) => match std::str::from_utf8(s) {
                Ok(s) => v.visit_string(s.to_string()),
                Err(_) => Err(Error("text is not UTF-8".into())),
            },
            Val::Bytes(b) => v.visit_byte_buf(b.clone()),
            Val::Seq(x) => v.visit_seq(SeqDe(x.iter())),
            Val::Map(m) => v.visit_map(MapDe(m.iter(), None)),
            Val::Variant(..) => v.visit_enum(EnumDe(self.0)),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Val::None => v.visit_none(),
            Val::Some(x) => v.visit_some(De(x)),
            o => Err(Error(format!("not an option: {o:?}"))),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        v.visit_enum(EnumDe(self.0))
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}

struct SeqDe<'a>(std::slice::Iter<'a, Val>);
impl<'de, 'a> de::SeqAccess<'de> for SeqDe<'a> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some(v) => s.deserialize(De(v)).map(Some),
            None => Ok(None),
        }
    }
}
struct MapDe<'a>(std::slice::Iter<'a, (&'static str, Val)>, Option<&'a Val>);
impl<'de, 'a> de::MapAccess<'de> for MapDe<'a> {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize((*k).into_deserializer()).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(De(self.1.take().unwrap()))
    }
}
struct EnumDe<'a>(&'a Val);
impl<'de, 'a> de::EnumAccess<'de> for EnumDe<'a> {
    type Error = Error;
    type Variant = VarDe<'a>;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, VarDe<'a>), Error> {
        match self.0 {
            Val::Variant(n, p) => Ok((s.deserialize((*n).into_deserializer())?, VarDe(p.as_deref()))),
            o => Err(Error(format!("not an enum: {o:?}"))),
        }
    }
}
struct VarDe<'a>(Option<&'a Val>);
impl<'de, 'a> de::VariantAccess<'de> for VarDe<'a> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(De(self.0.ok_or(Error("no content".into()))?))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        De(self.0.ok_or(Error("no content".into()))?).deserialize_any(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        De(self.0.ok_or(Error("no content".into()))?).deserialize_any(v)
    }
}
