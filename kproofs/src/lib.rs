//! Kani harnesses: loop-free code over full-domain symbolic inputs, run on the
//! real crate.  Without Kani the same functions replay a counterexample
//! (`kreplay HARNESS HEX..`, one hexadecimal little-endian group per `any()`).
#[cfg(not(kani))]
pub mod kani {
    use std::{cell::RefCell, collections::VecDeque};
    thread_local!(pub static INPUT: RefCell<VecDeque<Vec<u8>>> = Default::default());
    pub trait Any { fn of(b: &[u8]) -> Self; }
    macro_rules! num { ($($t:ty)*) => {$(impl Any for $t { fn of(b: &[u8]) -> $t { let mut a = [0u8; std::mem::size_of::<$t>()]; let n = a.len().min(b.len()); a[..n].copy_from_slice(&b[..n]); <$t>::from_le_bytes(a) } })*} }
    num!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize);
    impl Any for bool { fn of(b: &[u8]) -> bool { b.first() == Some(&1) } }
    impl Any for char { fn of(b: &[u8]) -> char { char::from_u32(u32::of(b)).unwrap_or(' ') } }
    pub fn any<T: Any>() -> T { T::of(&INPUT.with(|i| i.borrow_mut().pop_front()).unwrap_or_default()) }
    pub fn assume(b: bool) { if !b { println!("the replayed input does not meet the assumption"); std::process::exit(0) } }
    #[macro_export] macro_rules! cover { ($($t:tt)*) => {} }
    pub use crate::cover;
}
#[cfg(kani)]
pub use ::kani;
pub mod serde_numbers;
pub mod value_laws;
