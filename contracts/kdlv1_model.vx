// ---- The kdl 4 crate, which reads KDL 1: its types as this crate sees them, and what is assumed of it: it comes
// to an end, gives the same result for the same text, and its error carries that text.
pub mod kdlv1 {
use super::*;
pub struct KdlIdentifier { pub v: String, pub repr: Option<String>, pub span: SourceSpan }
pub enum KdlValue { RawString(String), String(String), Base2(i64), Base8(i64), Base10(i64), Base10Float(f64), Base16(i64), Bool(bool), Null }
pub struct KdlEntry { pub leading: Option<String>, pub ty: Option<KdlIdentifier>, pub value: KdlValue, pub value_repr: Option<String>, pub name: Option<KdlIdentifier>, pub trailing: Option<String>, pub span: SourceSpan }
pub struct KdlNode { pub leading: Option<String>, pub ty: Option<KdlIdentifier>, pub name: KdlIdentifier, pub entries: Vec<KdlEntry>, pub before_children: Option<String>, pub children: Option<KdlDocument>, pub trailing: Option<String>, pub span: SourceSpan }
pub struct KdlDocument { pub leading: Option<String>, pub nodes: Vec<KdlNode>, pub trailing: Option<String>, pub span: SourceSpan }
#[verifier::external_body]
pub struct KdlErrorKind { _x: u8 }
impl KdlErrorKind {
    #[verifier::external_body]
    pub fn vx_show(&self) -> (r: String) { unimplemented!() }
}
pub struct KdlError { pub input: String, pub span: SourceSpan, pub label: Option<&'static str>, pub help: Option<&'static str>, pub kind: KdlErrorKind }
pub open spec fn ostr(o: Option<String>, r: Option<&str>) -> bool { match (o, r) { (None, None) => true, (Some(a), Some(b)) => a@ == b@, _ => false } }
//@ macro acc #[verifier::external_body] pub fn $1(&self) -> (r: Option<&str>) ensures ostr(self.$1, r), { unimplemented!() }
impl SourceSpan {
    pub fn len(&self) -> (r: usize) ensures r == self.length, { self.length }
    #[verifier::external_body]
    pub fn vx_new(o: usize, l: usize) -> (r: SourceSpan) ensures r.offset == o, r.length == l, { unimplemented!() }
}
impl KdlIdentifier {
    #[verifier::external_body]
    pub fn value(&self) -> (r: &str) ensures r@ == self.v@, { unimplemented!() }
    #[verifier::external_body]
    pub fn repr(&self) -> (r: Option<&str>) ensures ostr(self.repr, r), { unimplemented!() }
    pub fn span(&self) -> (r: &SourceSpan) ensures *r == self.span, { &self.span }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl KdlValue {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl KdlEntry {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
    pub fn ty(&self) -> (r: Option<&KdlIdentifier>) ensures r == (match self.ty { Some(x) => Some(&x), None => None }), { self.ty.as_ref() }
    pub fn name(&self) -> (r: Option<&KdlIdentifier>) ensures r == (match self.name { Some(x) => Some(&x), None => None }), { self.name.as_ref() }
    pub fn value(&self) -> (r: &KdlValue) ensures *r == self.value, { &self.value }
    @acc(value_repr)@
    @acc(leading)@
    @acc(trailing)@
    pub fn span(&self) -> (r: &SourceSpan) ensures *r == self.span, { &self.span }
}
impl KdlNode {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
    pub fn ty(&self) -> (r: Option<&KdlIdentifier>) ensures r == (match self.ty { Some(x) => Some(&x), None => None }), { self.ty.as_ref() }
    pub fn name(&self) -> (r: &KdlIdentifier) ensures *r == self.name, { &self.name }
    pub fn entries(&self) -> (r: &[KdlEntry]) ensures r@ == self.entries@, { self.entries.as_slice() }
    pub fn children(&self) -> (r: Option<&KdlDocument>) ensures r == (match self.children { Some(x) => Some(&x), None => None }), { self.children.as_ref() }
    @acc(before_children)@
    @acc(leading)@
    @acc(trailing)@
    pub fn span(&self) -> (r: &SourceSpan) ensures *r == self.span, { &self.span }
}
impl KdlDocument {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
    pub fn nodes(&self) -> (r: &[KdlNode]) ensures r@ == self.nodes@, { self.nodes.as_slice() }
    @acc(leading)@
    @acc(trailing)@
    pub fn span(&self) -> (r: &SourceSpan) ensures *r == self.span, { &self.span }
}
/// What the kdl 4 crate makes of a text.
pub trait Kdl1: Sized { spec fn reading(t: Seq<char>) -> Result<Self, KdlError>; }
pub uninterp spec fn read_doc(t: Seq<char>) -> Result<KdlDocument, KdlError>;
pub uninterp spec fn read_node(t: Seq<char>) -> Result<KdlNode, KdlError>;
pub uninterp spec fn read_entry(t: Seq<char>) -> Result<KdlEntry, KdlError>;
pub uninterp spec fn read_ident(t: Seq<char>) -> Result<KdlIdentifier, KdlError>;
impl Kdl1 for KdlDocument { open spec fn reading(t: Seq<char>) -> Result<Self, KdlError> { read_doc(t) } }
impl Kdl1 for KdlNode { open spec fn reading(t: Seq<char>) -> Result<Self, KdlError> { read_node(t) } }
impl Kdl1 for KdlEntry { open spec fn reading(t: Seq<char>) -> Result<Self, KdlError> { read_entry(t) } }
impl Kdl1 for KdlIdentifier { open spec fn reading(t: Seq<char>) -> Result<Self, KdlError> { read_ident(t) } }
// s.parse() of the kdl 4 crate
#[verifier::external_body]
pub fn vx_parse<T: Kdl1>(s: &str) -> (r: Result<T, KdlError>)
    ensures r == T::reading(s@), r matches Err(e) ==> e.input@ == s@,
{ unimplemented!() }
}
