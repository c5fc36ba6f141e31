#![allow(unused)]
pub use vmacros::{IntoPrimitive, TryFromPrimitive}; pub trait TryFromPrimitive: Sized { type Primitive: Copy; const NAME: &'static str; fn try_from_primitive(p: Self::Primitive) -> Result<Self, TryFromPrimitiveError<Self>>; } pub struct TryFromPrimitiveError<E: TryFromPrimitive> { pub number: E::Primitive }
