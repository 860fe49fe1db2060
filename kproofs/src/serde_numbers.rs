//! serde's own visitors for the primitive types (a dependency the deserialiser
//! contracts stop at): shown a number they answer exactly that number, or refuse.
#[cfg(not(kani))]
use crate::kani;
use serde::de::{self, value, Deserialize};
use std::fmt;

#[derive(Debug)]
pub struct No;
impl fmt::Display for No { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for No {}
impl de::Error for No {
    fn custom<T: fmt::Display>(_: T) -> No { No }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> No { No }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> No { No }
}
macro_rules! exact { ($v:ident, $d:ident => $($t:ty)*) => { $( assert!(<$t>::deserialize(value::$d::<No>::new($v)).ok() == <$t>::try_from($v).ok(), concat!("an integer shown to ", stringify!($t)));)* } }
macro_rules! never { ($v:ident, $d:ident => $($t:ty)*) => { $( assert!(<$t>::deserialize(value::$d::<No>::new($v)).is_err(), concat!("a float shown to ", stringify!($t)));)* } }
#[cfg_attr(kani, kani::proof)]
pub fn shown_i64() { let v: i64 = kani::any(); exact!(v, I64Deserializer => i8 i16 i32 i64 i128 u8 u16 u32 u64 u128); kani::cover!(v < 0); }
#[cfg_attr(kani, kani::proof)]
pub fn shown_u64() { let v: u64 = kani::any(); exact!(v, U64Deserializer => i8 i16 i32 i64 i128 u8 u16 u32 u64 u128); kani::cover!(v > 5); }
#[cfg_attr(kani, kani::proof)]
pub fn shown_i128() { let v: i128 = kani::any(); exact!(v, I128Deserializer => i128 u128); kani::cover!(v < 0); }
#[cfg_attr(kani, kani::proof)]
pub fn shown_f64() {
    let v = f64::from_bits(kani::any());
    never!(v, F64Deserializer => i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
    let r = f64::deserialize(value::F64Deserializer::<No>::new(v));
    assert!(matches!(r, Ok(x) if x.to_bits() == v.to_bits() || (x.is_nan() && v.is_nan())), "a float shown to f64");
    let r = f32::deserialize(value::F64Deserializer::<No>::new(v));
    let near = v as f32;
    assert!(matches!(r, Ok(x) if x.to_bits() == near.to_bits() || (x.is_nan() && near.is_nan())), "a float shown to f32");
    kani::cover!(v > 1.5);
}
/// A 32-bit float is a 64-bit float (what `widened` assumes).
#[cfg_attr(kani, kani::proof)]
pub fn widening_is_exact() {
    let v = f32::from_bits(kani::any());
    let w = v as f64;
    assert!(v.is_nan() && w.is_nan() || (w as f32).to_bits() == v.to_bits(), "widened exactly");
    assert!(v.is_nan() || (w < 0.0) == (v < 0.0));
    kani::cover!(v > 1.5);
}
