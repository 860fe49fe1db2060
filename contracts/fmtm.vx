// ---- Formatting: what is written to a sink, piece by piece.
pub mod vx_fmt {
use super::*;
#[derive(Debug)]
pub struct Error;
#[verifier::external_body]
pub struct Formatter<'a> { p: &'a str }
pub type Result = core::result::Result<(), Error>;
pub trait VxOut: Sized {
    spec fn out(&self) -> Seq<char>;
    // the sink takes everything (a String)
    spec fn sure(&self) -> bool;
}
pub trait VxSink: VxOut {
    fn vx_put(&mut self, s: &str) -> (r: Result)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@, old(self).sure() ==> r is Ok, final(self).sure() == old(self).sure();
    fn vx_arg<T: VxShow + ?Sized>(&mut self, x: &T) -> (r: Result)
        ensures r is Ok ==> final(self).out() == old(self).out() + x.shown(), old(self).sure() ==> r is Ok, final(self).sure() == old(self).sure();
    // {:n$}
    fn vx_pad(&mut self, s: &str, n: usize) -> (r: Result)
        ensures r is Ok ==> final(self).out() == old(self).out() + s@ + spaces(n - s@.len()), old(self).sure() ==> r is Ok, final(self).sure() == old(self).sure();
}
pub open spec fn spaces(n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { seq![] } else { spaces(n - 1).push(' ') } }
// Display of the text types; that of the types under contract is their own fmt
pub trait VxShow {
    spec fn shown(&self) -> Seq<char>;
    fn vx_show(&self, f: &mut Formatter<'_>) -> (r: Result)
        ensures r is Ok ==> final(f).out() == old(f).out() + self.shown(), old(f).sure() ==> r is Ok, final(f).sure() == old(f).sure();
}
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } fn vx_show(&self, f: &mut Formatter<'_>) -> (r: Result) { f.vx_put(self) } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } fn vx_show(&self, f: &mut Formatter<'_>) -> (r: Result) { f.vx_put(self.as_str()) } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn vx_show(&self, f: &mut Formatter<'_>) -> (r: Result) { (**self).vx_show(f) } }
impl<'a> VxOut for Formatter<'a> {
    uninterp spec fn out(&self) -> Seq<char>;
    uninterp spec fn sure(&self) -> bool;
}
impl<'a> VxSink for Formatter<'a> {
    #[verifier::external_body]
    fn vx_put(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    fn vx_arg<T: VxShow + ?Sized>(&mut self, x: &T) -> (r: Result) { x.vx_show(self) }
    #[verifier::external_body]
    fn vx_pad(&mut self, s: &str, n: usize) -> (r: Result) { unimplemented!() }
}
impl VxOut for String {
    open spec fn out(&self) -> Seq<char> { self@ }
    open spec fn sure(&self) -> bool { true }
}
impl VxSink for String {
    #[verifier::external_body]
    fn vx_put(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    #[verifier::external_body]
    fn vx_arg<T: VxShow + ?Sized>(&mut self, x: &T) -> (r: Result) { unimplemented!() }
    #[verifier::external_body]
    fn vx_pad(&mut self, s: &str, n: usize) -> (r: Result) { unimplemented!() }
}
// format!
pub fn vx_fmt_new() -> (r: String)
    ensures r@ =~= Seq::<char>::empty(),
{ String::new() }
pub fn vx_fmt_done(s: String, r: Result) -> (t: String)
    requires r is Ok,
    ensures t == s,
{ s }
}
pub use vx_fmt::{VxOut, VxSink, VxShow, vx_fmt_new, vx_fmt_done};
