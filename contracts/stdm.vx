//@ include conv.vx
// ---- What is assumed of the standard library and of conversions.
pub mod vx_std {
use super::*;
// Extend::extend / push of what a repetition yields into a String
pub trait VxChars: Sized { spec fn vchars(self) -> Seq<char>; }
impl VxChars for char { open spec fn vchars(self) -> Seq<char> { seq![self] } }
impl<'a> VxChars for &'a str { open spec fn vchars(self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_append<T: VxChars>(s: &mut String, x: T)
    ensures final(s)@ == old(s)@ + x.vchars(),
{ unimplemented!() }
// a == "literal", for the literals of a pattern
#[verifier::external_body]
pub fn vx_str_is(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
impl VxDefault for KdlParseError {
    open spec fn is_default(self) -> bool { self.message is None && self.span is None && self.label is None && self.help is None && self.severity is None }
    fn vx_default() -> (r: KdlParseError) { KdlParseError { message: None, span: None, label: None, help: None, severity: None } }
}
pub open spec fn flat(s: Seq<Option<char>>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { flat(s.drop_last()) + (match s.last() { Some(c) => seq![c], None => seq![] }) } }
pub broadcast proof fn lemma_flat(s: Seq<Option<char>>, x: Option<char>)
    ensures #[trigger] flat(s.push(x)) == flat(s) + (match x { Some(c) => seq![c], None => seq![] }),
{ assert(s.push(x).drop_last() =~= s); }
// v.into_iter().flatten().collect::<Vec<_>>()
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { somes(s.drop_last()) + (match s.last() { Some(c) => seq![c], None => seq![] }) } }
#[verifier::external_body]
pub fn vx_flat_vec<T>(v: Vec<Option<T>>) -> (r: Vec<T>)
    ensures r@ == somes(v@),
{ v.into_iter().flatten().collect() }
// v.get_mut(k)
#[verifier::external_body]
pub fn vx_get_mut<T>(v: &mut Vec<T>, k: usize) -> (r: Option<&mut T>)
    ensures k < old(v)@.len() ==> (r matches Some(m) && *m == old(v)@[k as int] && final(v)@ == old(v)@.update(k as int, *final(m))), k >= old(v)@.len() ==> r is None && final(v)@ == old(v)@,
{ v.get_mut(k) }
// whether the text recorded for a name is the empty text
#[verifier::external_body]
pub fn vx_is_empty_text(s: &Option<String>) -> (r: bool)
    ensures r == (s matches Some(x) && x@.len() == 0),
{ match s { Some(x) => x.is_empty(), None => false } }
// v.into_iter().flatten().collect::<String>()
#[verifier::external_body]
pub fn vx_flat_string(v: Vec<Option<char>>) -> (r: String)
    ensures r@ == flat(v@),
{ v.into_iter().flatten().collect() }
// v.into_iter().flatten().chain(vec![c]).collect::<String>()
#[verifier::external_body]
pub fn vx_flat_string_then(v: Vec<Option<char>>, c: char) -> (r: String)
    ensures r@ == flat(v@).push(c),
{ v.into_iter().flatten().chain(vec![c]).collect() }
pub trait VxStr { spec fn sv(&self) -> Seq<char>; }
impl VxStr for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<'a> VxStr for &'a str { open spec fn sv(&self) -> Seq<char> { self@ } }
pub open spec fn joined<T: VxStr>(s: Seq<T>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { joined(s.drop_last()) + s.last().sv() } }
pub broadcast proof fn lemma_joined<T: VxStr>(s: Seq<T>, x: T)
    ensures #[trigger] joined(s.push(x)) == joined(s) + x.sv(),
{ assert(s.push(x).drop_last() =~= s); }
// v.join("")
#[verifier::external_body]
pub fn vx_join<T: VxStr>(v: &Vec<T>) -> (r: String)
    ensures r@ == joined(v@),
{ unimplemented!() }
// format!("{}\n", s)
#[verifier::external_body]
pub fn vx_line(s: String) -> (r: String)
    ensures r@ == s@.push('\n'),
{ unimplemented!() }
// s.truncate(s.len().saturating_sub(1)): the last byte must be a whole character
#[verifier::external_body]
pub fn vx_drop_last_byte(s: &mut String)
    requires old(s)@.len() == 0 || (old(s)@.last() as u32) < 128,
    ensures final(s)@ == (if old(s)@.len() == 0 { old(s)@ } else { old(s)@.drop_last() }),
{ s.truncate(s.len().saturating_sub(1)); }
#[verifier::external_body]
pub fn vx_char_from_u32(v: u32) -> (r: Option<char>)
    ensures r is Some <==> is_scalar(v as int), r matches Some(c) ==> c as u32 == v,
{ char::from_u32(v) }
// u32::from_str_radix on hexadecimal digits
#[verifier::external_body]
pub fn vx_u32_from_hex(s: &str, radix: u32) -> (r: Result<u32, ()>)
    requires radix == 16, 0 < s@.len() <= 6, forall|k: int| 0 <= k < s@.len() ==> sp_is_hex_digit(#[trigger] s@[k]),
    ensures r is Ok, r->Ok_0 == num_val(s@, 16),
{ u32::from_str_radix(s, radix).map_err(|_| ()) }
// s.len() > n for a byte length: known for ASCII text
#[verifier::external_body]
pub fn vx_byte_len(s: &str) -> (r: usize)
    ensures r >= s@.len(), s@.len() > 0 ==> r > 0, s@.len() == 1 && (s@[0] as u32) < 128 ==> r == 1,
{ s.len() }
// The constants of f64
#[verifier::external_body]
pub fn vx_f64_nan() -> (r: f64) ensures r == f64_nan(), { f64::NAN }
#[verifier::external_body]
pub fn vx_f64_inf() -> (r: f64) ensures r == f64_inf(), { f64::INFINITY }
#[verifier::external_body]
pub fn vx_f64_neg_inf() -> (r: f64) ensures r == f64_neg_inf(), { f64::NEG_INFINITY }
// The numbers of the standard library. An i128 from an optional sign and digits.
pub struct ParseIntError;
pub struct ParseFloatError;
pub open spec fn all_digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> is_digit(#[trigger] s[k], radix) }
pub open spec fn signed_val(s: Seq<char>, radix: int) -> Option<int> {
    let d = if s.len() > 0 && (s[0] == '-' || s[0] == '+') { s.subrange(1, s.len() as int) } else { s };
    if !all_digits(d, radix) { None } else if s[0] == '-' { Some(-num_val(d, radix)) } else { Some(num_val(d, radix)) }
}
pub trait FromStrRadix: Sized {
    spec fn of_digits(s: Seq<char>, radix: int) -> Option<Self>;
    fn from_str_radix(s: &str, radix: u32) -> (r: Result<Self, ParseIntError>)
        ensures r matches Ok(v) ==> Self::of_digits(s@, radix as int) == Some(v), r is Err ==> Self::of_digits(s@, radix as int) is None;
}
impl FromStrRadix for i128 {
    open spec fn of_digits(s: Seq<char>, radix: int) -> Option<i128> { match signed_val(s, radix) { Some(v) => if i128::MIN <= v <= i128::MAX { Some(v as i128) } else { None }, None => None } }
    #[verifier::external_body]
    fn from_str_radix(s: &str, radix: u32) -> (r: Result<i128, ParseIntError>) { unimplemented!() }
}
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
pub trait ParseFloat: Sized {
    spec fn of_float(s: Seq<char>) -> Option<Self>;
    fn parse_float(input: &str) -> (r: Result<Self, ParseFloatError>)
        ensures r matches Ok(v) ==> Self::of_float(input@) == Some(v), r is Err ==> Self::of_float(input@) is None;
}
impl ParseFloat for f64 {
    open spec fn of_float(s: Seq<char>) -> Option<f64> { f64_of(s) }
    #[verifier::external_body]
    fn parse_float(input: &str) -> (r: Result<f64, ParseFloatError>) { unimplemented!() }
}
// str::replace(s, "_", "")
pub trait VxAsStr { spec fn asv(&self) -> Seq<char>; }
impl VxAsStr for str { open spec fn asv(&self) -> Seq<char> { self@ } }
impl VxAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_replace<S: VxAsStr + ?Sized>(s: &S, from: &str, to: &str) -> (r: String)
    requires from@ == seq!['_'], to@.len() == 0,
    ensures r@ == strip(s.asv()),
{ unimplemented!() }
}
pub use vx_std::*;
