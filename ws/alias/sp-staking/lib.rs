#![allow(unused)]
pub type EraIndex = u32; pub type SessionIndex = u32;
