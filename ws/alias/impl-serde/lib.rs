#![allow(unused)]
#[macro_export] macro_rules! impl_fixed_hash_serde { ($n:ident, $l:expr) => { impl serde::Serialize for $n { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } } impl<'de> serde::Deserialize<'de> for $n { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("stub")) } } }; }
