// ---- The text of a value in KDL 2.0 form, and what is assumed of the standard
// library's formatting of numbers.
pub mod vx_val {
use super::*;
pub open spec fn hexdig(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' }
    else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
}
// {:x} and {} of a natural number
pub open spec fn digits_of(n: int, radix: int) -> Seq<char>
    decreases n when n >= 0 via digits_dec
{ if n < radix || radix < 2 { seq![hexdig(n)] } else { digits_of(n / radix, radix).push(hexdig(n % radix)) } }
#[via_fn]
proof fn digits_dec(n: int, radix: int) {
    if !(n < radix || radix < 2) { assert(0 <= n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2; }
}
pub open spec fn pr_int(n: int) -> Seq<char> { if n < 0 { seq!['-'] + digits_of(-n, 10) } else { digits_of(n, 10) } }
// {:?} of a finite f64
pub uninterp spec fn f64_text(f: f64) -> Seq<char>;
pub open spec fn pr_float(f: f64) -> Seq<char> {
    if f == f64_inf() { seq!['#', 'i', 'n', 'f'] } else if f == f64_neg_inf() { seq!['#', '-', 'i', 'n', 'f'] } else if f64_is_nan(f) { seq!['#', 'n', 'a', 'n'] } else { f64_text(f) }
}
//@ include nan_spec.vx
pub open spec fn pr_char(c: char) -> Seq<char> {
    if c == '\\' || c == '"' { seq!['\\', c] }
    else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] }
    else if c == '\u{8}' { seq!['\\', 'b'] } else if c == '\u{c}' { seq!['\\', 'f'] }
    else if disallowed(c) || nlchar(c) { seq!['\\', 'u', '{'] + digits_of(c as u32 as int, 16) + seq!['}'] }
    else { seq![c] }
}
pub open spec fn pr_chars(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { pr_chars(s.drop_last()) + pr_char(s.last()) } }
pub open spec fn dec(c: char) -> bool { '0' <= c <= '9' }
// what may be written without quotes
pub open spec fn plain(s: Seq<char>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> identchar(#[trigger] s[k])
    &&& !(s.len() > 0 && dec(s[0]))
    &&& !(s.len() > 1 && (s[0] == '.' || s[0] == '-' || s[0] == '+') && dec(s[1]))
    &&& !(s.len() > 2 && (s[0] == '-' || s[0] == '+') && s[1] == '.' && dec(s[2]))
    &&& !keyword_text(s)
}
pub open spec fn keyword_text(s: Seq<char>) -> bool {
    s =~= seq!['i', 'n', 'f'] || s =~= seq!['-', 'i', 'n', 'f'] || s =~= seq!['n', 'a', 'n'] || s =~= seq!['t', 'r', 'u', 'e'] || s =~= seq!['f', 'a', 'l', 's', 'e'] || s =~= seq!['n', 'u', 'l', 'l']
}
pub open spec fn pr_string(s: Seq<char>) -> Seq<char> { if s.len() > 0 && plain(s) { s } else { seq!['"'] + pr_chars(s) + seq!['"'] } }
pub open spec fn pr_value(v: KdlValue) -> Seq<char> {
    match v {
        KdlValue::String(s) => pr_string(s@),
        KdlValue::Integer(i) => pr_int(i as int),
        KdlValue::Float(f) => pr_float(f),
        KdlValue::Bool(b) => if b { seq!['#', 't', 'r', 'u', 'e'] } else { seq!['#', 'f', 'a', 'l', 's', 'e'] },
        KdlValue::Null => seq!['#', 'n', 'u', 'l', 'l'],
    }
}
}
pub use vx_val::*;
