//! C12, the scalar part: equality and hashing of values without strings.
#[cfg(not(kani))]
use crate::kani;
use kdl::KdlValue;
use std::hash::{Hash, Hasher};

/// Records what is hashed (the writes of the scalar types are fixed-width).
#[derive(Default)]
struct Tape { n: usize, w: [u128; 4] }
impl Tape { fn put(&mut self, x: u128) { self.w[self.n & 3] = x; self.n += 1; } }
impl Hasher for Tape {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _b: &[u8]) { self.put(u128::MAX) }
    fn write_u8(&mut self, x: u8) { self.put(x as u128) }
    fn write_u64(&mut self, x: u64) { self.put(x as u128) }
    fn write_i128(&mut self, x: i128) { self.put(x as u128) }
    fn write_u128(&mut self, x: u128) { self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(x as u128) }
    fn write_isize(&mut self, x: isize) { self.put(x as u128) }
}
impl Tape { fn same(&self, o: &Tape) -> bool { self.n == o.n && self.w[0] == o.w[0] && self.w[1] == o.w[1] && self.w[2] == o.w[2] && self.w[3] == o.w[3] } }
fn tape(v: &KdlValue) -> Tape { let mut t = Tape::default(); v.hash(&mut t); t }
fn scalar() -> KdlValue {
    match kani::any::<u8>() {
        0 => KdlValue::Integer(kani::any()),
        1 => KdlValue::Float(f64::from_bits(kani::any())),
        2 => KdlValue::Bool(kani::any()),
        _ => KdlValue::Null,
    }
}
/// The content of a value after the documented normalisation.
fn norm(v: &KdlValue) -> (u8, u128) {
    match v {
        KdlValue::Integer(i) => (0, *i as u128),
        KdlValue::Float(f) => {
            let b = f.to_bits();
            let (inf, ninf) = (0x7ff0_0000_0000_0000u64, 0xfff0_0000_0000_0000u64);
            let n = if b == inf { inf - 1 } else if b == ninf { ninf - 1 } else if b & !(1 << 63) > inf { 0 } else if b == 1 << 63 { 0 } else { b };
            (1, n as u128)
        }
        KdlValue::Bool(b) => (2, *b as u128),
        KdlValue::Null => (3, 0),
        KdlValue::String(_) => (4, 0),
    }
}
/// Equality is exactly equality of normalised content (hence reflexive, symmetric and transitive).
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn eq_is_equality_of_content() {
    let (a, b) = (scalar(), scalar());
    assert!((a == b) == (norm(&a) == norm(&b)));
    kani::cover!(a == b);
    kani::cover!(a != b);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn equal_values_hash_equally() {
    let (a, b) = (scalar(), scalar());
    kani::assume(a == b);
    let (x, y) = (tape(&a), tape(&b));
    assert!(x.n <= 4 && x.same(&y));
    kani::cover!(matches!(a, KdlValue::Float(_)));
}
