//@ rewrite `std::fmt::Formatter` => `vx_fmt::Formatter`
//@ rewrite `std::fmt::Result` => `vx_fmt::Result`
//@ rewrite `NEWLINES.iter().copied().collect::<String>().contains($c)` => `vx_any_has(vx_newlines(), $c)`
//@ rewrite `crate::v2_parser::NEWLINES.iter().any(|nl| nl.contains($c))` => `vx_any_has(vx_newlines(), $c)`
//@ rewrite `DISALLOWED_IDENT_CHARS.iter().any(|$x| $x == &$c)` => `vx_has(vx_ident_punct(), $c)`
//@ rewrite `UNICODE_SPACES.iter().any(|$x| $x == &$c)` => `vx_has(vx_uspaces(), $c)`
//@ rewrite `crate::v2_parser::is_disallowed_unicode` => `is_disallowed_unicode`
//@ rewrite `f64::INFINITY` => `vx_f64_inf()`
//@ rewrite `f64::NEG_INFINITY` => `vx_f64_neg_inf()`
//@ rewrite `value == &vx_f64_inf()` => `vx_f64_eq(*value, vx_f64_inf())`
//@ rewrite `value == &vx_f64_neg_inf()` => `vx_f64_eq(*value, vx_f64_neg_inf())`
pub mod vx_cat {
use super::*;
pub broadcast proof fn cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c), { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn cat_l(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a, { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn cat_r(a: Seq<char>) ensures #[trigger] (a + Seq::<char>::empty()) == a, { assert(a + Seq::<char>::empty() =~= a); }
pub broadcast group group_cat { cat_assoc, cat_l, cat_r }
}
pub use vx_cat::group_cat;
// ---- What is assumed of the standard library.
pub mod vx_vstd {
use super::*;
pub open spec fn vx_cin(v: Seq<char>, c: char) -> bool { exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == c }
pub open spec fn vx_sin(v: Seq<&str>, c: char) -> bool { exists|k: int, j: int| 0 <= k < v.len() && 0 <= j < v[k]@.len() && #[trigger] v[k]@[j] == c }
// the text of any of these holds the character
#[verifier::external_body]
pub fn vx_any_has(v: &[&str; 8], c: char) -> (r: bool)
    ensures r == vx_sin(v@, c),
{ v.iter().any(|x| x.contains(c)) }
// v.iter().any(|x| x == &c)
pub fn vx_has<const N: usize>(v: &[char; N], c: char) -> (r: bool)
    ensures r == vx_cin(v@, c),
{
    let mut k = 0usize;
    while k < N
        invariant k <= N, v@.len() == N, forall|j: int| 0 <= j < k ==> v@[j] != c,
        decreases N - k,
    {
        if v[k] == c { return true; }
        k += 1;
    }
    false
}
// str::find with a predicate
#[verifier::external_body]
pub fn vx_find_char<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| f.requires((c,)),
    ensures r is None ==> (forall|k: int| 0 <= k < s@.len() ==> f.ensures((#[trigger] s@[k],), false)), r is Some ==> exists|k: int| 0 <= k < s@.len() && f.ensures((#[trigger] s@[k],), true),
{ s.find(f) }
// the bytes of a text: as long as the characters are ASCII they are the bytes
pub struct VxBytes<'a> { pub s: &'a str }
impl<'a> VxBytes<'a> {
    pub open spec fn ascii(self, n: int) -> bool { forall|k: int| 0 <= k < n && k < self.s@.len() ==> (#[trigger] self.s@[k] as u32) < 128 }
    pub open spec fn byte(self, n: int, r: Option<u8>) -> bool {
        self.ascii(n) ==> (if n >= self.s@.len() { r is None } else { r is Some && if (self.s@[n] as u32) < 128 { r == Some(self.s@[n] as u8) } else { r->0 >= 128 } })
    }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<u8>)
        ensures self.byte(0, r),
    { self.s.as_bytes().first().copied() }
    #[verifier::external_body]
    pub fn get(&self, n: usize) -> (r: Option<u8>)
        ensures self.byte(n as int, r),
    { self.s.as_bytes().get(n).copied() }
}
pub fn vx_bytes<'a>(s: &'a str) -> (r: VxBytes<'a>)
    ensures r.s@ == s@,
{ VxBytes { s } }
pub fn vx_is_byte(o: Option<u8>, b: u8) -> (r: bool)
    ensures r == (o == Some(b)),
{ match o { Some(x) => x == b, None => false } }
pub fn vx_is_true(o: Option<bool>) -> (r: bool)
    ensures r == (o == Some(true)),
{ match o { Some(x) => x, None => false } }
pub fn vx_digit_byte(b: u8) -> (r: bool)
    ensures r == (48 <= b <= 57),
{ 48 <= b && b <= 57 }
#[verifier::external_body]
pub fn vx_first_char(s: &str) -> (r: Option<char>)
    ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }),
{ s.chars().next() }
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@,
{ s.chars().collect() }
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool)
    ensures r == (s@.len() == 0),
{ s.is_empty() }
// The infinities equal themselves only.
#[verifier::external_body]
pub fn vx_f64_eq(a: f64, b: f64) -> (r: bool)
    requires b == f64_inf() || b == f64_neg_inf(),
    ensures r == (a == b),
{ a == b }
#[verifier::external_body]
pub fn vx_f64_is_nan(a: f64) -> (r: bool)
    ensures r == f64_is_nan(a),
{ a.is_nan() }
// Display of bool, char; Debug of i128 and f64; LowerHex of u32
impl VxShow for bool {
    open spec fn shown(&self) -> Seq<char> { if *self { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] } }
    #[verifier::external_body]
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { unimplemented!() }
}
impl VxShow for char {
    open spec fn shown(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { unimplemented!() }
}
pub trait VxDebug { spec fn debug(&self) -> Seq<char>; }
impl VxDebug for i128 { open spec fn debug(&self) -> Seq<char> { pr_int(*self as int) } }
impl VxDebug for f64 { open spec fn debug(&self) -> Seq<char> { f64_text(*self) } }
impl<T: VxDebug> VxDebug for &T { open spec fn debug(&self) -> Seq<char> { (**self).debug() } }
pub trait VxNumSink: VxOut {
    fn vx_dbg<T: VxDebug>(&mut self, x: &T) -> (r: vx_fmt::Result)
        ensures r is Ok ==> final(self).out() == old(self).out() + x.debug(), old(self).sure() ==> r is Ok, final(self).sure() == old(self).sure();
    fn vx_hex(&mut self, x: &u32) -> (r: vx_fmt::Result)
        ensures r is Ok ==> final(self).out() == old(self).out() + digits_of(*x as int, 16), old(self).sure() ==> r is Ok, final(self).sure() == old(self).sure();
}
impl<'a> VxNumSink for vx_fmt::Formatter<'a> {
    #[verifier::external_body]
    fn vx_dbg<T: VxDebug>(&mut self, x: &T) -> (r: vx_fmt::Result) { unimplemented!() }
    #[verifier::external_body]
    fn vx_hex(&mut self, x: &u32) -> (r: vx_fmt::Result) { unimplemented!() }
}
impl VxNumSink for String {
    #[verifier::external_body]
    fn vx_dbg<T: VxDebug>(&mut self, x: &T) -> (r: vx_fmt::Result) { unimplemented!() }
    #[verifier::external_body]
    fn vx_hex(&mut self, x: &u32) -> (r: vx_fmt::Result) { unimplemented!() }
}
}
pub use vx_vstd::*;
//@ source src/v2_parser.rs
//@ comb off
//@ constfn NEWLINES as vx_newlines
//@ constfn UNICODE_SPACES as vx_uspaces
//@ constfn DISALLOWED_IDENT_CHARS as vx_ident_punct
//@ stub tok
//@ fn is_disallowed_unicode ret r
    ensures r == disallowed(c),
//@ end
//@ stub pop
//@ fn is_disallowed_ident_char ret r
    ensures r == !identchar(c),
//@ end
//@ source src/value.rs
//@ fn is_plain_ident ret r
//@ rewrite `ident.find(crate::v2_parser::is_disallowed_ident_char)` => `vx_find_char(ident, is_disallowed_ident_char)`
//@ rewrite `ident.as_bytes()` => `vx_bytes(ident)`
//@ rewrite `ident.chars().next()` => `vx_first_char(ident)`
//@ rewrite `c.is_ascii_digit()` => `vx_digit_byte(c)`
//@ rewrite `ident != "inf"` => `!vx_str_is(ident, "inf")`
//@ rewrite `ident != "-inf"` => `!vx_str_is(ident, "-inf")`
//@ rewrite `ident != "nan"` => `!vx_str_is(ident, "nan")`
//@ rewrite `ident != "true"` => `!vx_str_is(ident, "true")`
//@ rewrite `ident != "false"` => `!vx_str_is(ident, "false")`
//@ rewrite `ident != "null"` => `!vx_str_is(ident, "null")`
//@ rewrite `ident_bytes.get(1) == Some(&b'.')` => `vx_is_byte(ident_bytes.get(1), b'.')`
    ensures r == plain(ident@),
//@ hint top
    proof { reveal_strlit("inf"); reveal_strlit("-inf"); reveal_strlit("nan"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("null");
        assert("inf"@ =~= seq!['i', 'n', 'f']); assert("-inf"@ =~= seq!['-', 'i', 'n', 'f']); assert("nan"@ =~= seq!['n', 'a', 'n']); assert("true"@ =~= seq!['t', 'r', 'u', 'e']); assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']); assert("null"@ =~= seq!['n', 'u', 'l', 'l']); }
//@ end
//@ fn KdlValue::as_string ret r
    ensures self matches KdlValue::String(s) ==> (r matches Some(t) && t@ == s@), !(self is String) ==> r is None,
//@ end
//@ fn KdlValue::write_string ret r
//@ rewrite `string.is_empty()` => `vx_is_empty(string)`
//@ rewrite `string.chars()` => `vx_chars(string)`
//@ rewrite `u32::from(char)` => `(char as u32)`
    requires self is String,
    ensures @shows(pr_value(*self))@
//@ hint top
    broadcast use group_cat;
//@ loop #0
    invariant
        f.sure() == old(f).sure(), it.snapshot@.remaining() =~= string@,
        f.out() =~= old(f).out() + (seq!['"'] + pr_chars(string@.take(it.index@ as int))),
//@ hint `write!(f, "\"")?` #1 before
    proof { assert(string@.take(string@.len() as int) =~= string@); }
//@ hint `match char..` before
    proof { assert(string@.take(it.index@ + 1).drop_last() =~= string@.take(it.index@ as int)); }
//@ end
//@ fn <Display for KdlValue>::fmt as vx_fmt ret r
//@ rewrite `value.is_nan()` => `vx_f64_is_nan(*value)`
//@ rewrite `"#inf".into()` => `"#inf".vx_into()`
//@ rewrite `"#-inf".into()` => `"#-inf".vx_into()`
//@ rewrite `"#nan".into()` => `"#nan".vx_into()`
    ensures @shows(pr_value(*self))@
//@ hint top
    broadcast use group_cat;
    proof { reveal_strlit("#inf"); reveal_strlit("#-inf"); reveal_strlit("#nan"); assert("#inf"@ =~= seq!['#', 'i', 'n', 'f']); assert("#-inf"@ =~= seq!['#', '-', 'i', 'n', 'f']); assert("#nan"@ =~= seq!['#', 'n', 'a', 'n']);
        assert(seq!['#'] + seq!['t', 'r', 'u', 'e'] =~= seq!['#', 't', 'r', 'u', 'e']); assert(seq!['#'] + seq!['f', 'a', 'l', 's', 'e'] =~= seq!['#', 'f', 'a', 'l', 's', 'e']); }
//@ end
impl VxShow for KdlValue {
    open spec fn shown(&self) -> Seq<char> { pr_value(*self) }
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { self.vx_fmt(f) }
}
