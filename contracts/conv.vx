// ---- Conversions: From/Into and Default, and what is assumed of the standard library's.
pub mod vx_conv {
use super::*;
// From/Into
pub trait VxInto<T>: Sized {
    spec fn into_ens(self, r: T) -> bool;
    fn vx_into(self) -> (r: T)
        ensures self.into_ens(r);
}
impl<'a> VxInto<String> for &'a str {
    open spec fn into_ens(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { self.to_string() }
}
impl VxInto<String> for String {
    open spec fn into_ens(self, r: String) -> bool { r == self }
    fn vx_into(self) -> (r: String) { self }
}
impl VxInto<SourceSpan> for core::ops::Range<usize> {
    open spec fn into_ens(self, r: SourceSpan) -> bool { r.offset == self.start && (self.start <= self.end ==> r.length == self.end - self.start) && (self.start > self.end ==> r.length == 0) }
    fn vx_into(self) -> (r: SourceSpan) { SourceSpan { offset: self.start, length: if self.start <= self.end { self.end - self.start } else { 0 } } }
}
// Default, of the types whose Default is derived or the standard library's
pub trait VxDefault: Sized {
    spec fn is_default(self) -> bool;
    fn vx_default() -> (r: Self)
        ensures r.is_default();
}
impl VxDefault for bool { open spec fn is_default(self) -> bool { !self } fn vx_default() -> (r: bool) { false } }
impl<'a> VxDefault for &'a str { open spec fn is_default(self) -> bool { self@.len() == 0 } fn vx_default() -> (r: &'a str) { proof { reveal_strlit(""); } "" } }
impl VxDefault for String { open spec fn is_default(self) -> bool { self@.len() == 0 } fn vx_default() -> (r: String) { String::new() } }
impl<T> VxDefault for Option<T> { open spec fn is_default(self) -> bool { self is None } fn vx_default() -> (r: Option<T>) { None } }
impl<T> VxDefault for Vec<T> { open spec fn is_default(self) -> bool { self@.len() == 0 } fn vx_default() -> (r: Vec<T>) { Vec::new() } }
impl<A: VxDefault, B: VxDefault> VxDefault for (A, B) { open spec fn is_default(self) -> bool { self.0.is_default() && self.1.is_default() } fn vx_default() -> (r: (A, B)) { (A::vx_default(), B::vx_default()) } }
impl<A: VxDefault, B: VxDefault, C: VxDefault> VxDefault for (A, B, C) { open spec fn is_default(self) -> bool { self.0.is_default() && self.1.is_default() && self.2.is_default() } fn vx_default() -> (r: (A, B, C)) { (A::vx_default(), B::vx_default(), C::vx_default()) } }
impl VxDefault for KdlEntryFormat {
    open spec fn is_default(self) -> bool { self.value_repr@.len() == 0 && self.leading@.len() == 0 && self.trailing@.len() == 0 && self.after_ty@.len() == 0 && self.before_ty_name@.len() == 0 && self.after_ty_name@.len() == 0 && self.after_key@.len() == 0 && self.after_eq@.len() == 0 && !self.autoformat_keep }
    fn vx_default() -> (r: KdlEntryFormat) { KdlEntryFormat { value_repr: String::new(), leading: String::new(), trailing: String::new(), after_ty: String::new(), before_ty_name: String::new(), after_ty_name: String::new(), after_key: String::new(), after_eq: String::new(), autoformat_keep: false } }
}
impl VxDefault for KdlNodeFormat {
    open spec fn is_default(self) -> bool { self.leading@.len() == 0 && self.before_ty_name@.len() == 0 && self.after_ty_name@.len() == 0 && self.after_ty@.len() == 0 && self.before_children@.len() == 0 && self.before_terminator@.len() == 0 && self.terminator@.len() == 0 && self.trailing@.len() == 0 }
    fn vx_default() -> (r: KdlNodeFormat) { KdlNodeFormat { leading: String::new(), before_ty_name: String::new(), after_ty_name: String::new(), after_ty: String::new(), before_children: String::new(), before_terminator: String::new(), terminator: String::new(), trailing: String::new() } }
}
impl VxDefault for KdlDocumentFormat {
    open spec fn is_default(self) -> bool { self.leading@.len() == 0 && self.trailing@.len() == 0 }
    fn vx_default() -> (r: KdlDocumentFormat) { KdlDocumentFormat { leading: String::new(), trailing: String::new() } }
}
// Option::unwrap_or_default
pub fn vx_or_default<T: VxDefault>(o: Option<T>) -> (r: T)
    ensures o matches Some(v) ==> r == v, o is None ==> r.is_default(),
{ match o { Some(v) => v, None => T::vx_default() } }
// x.to_string() of a str
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }
}
pub use vx_conv::*;
