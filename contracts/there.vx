//@ include tok_pre.vx
//@ include print_spec.vx
//@ include parse_spec.vx
//@ include read_spec.vx
//@ include kin_spec.vx
//@ include built_spec.vx
pub mod vx_meet {
use super::*;
//@ include se_data.vx
//@ include ser_tree.vx
//@ include de_shown.vx
//@ include meet_spec.vx
}
// ---- There: a value written.
pub mod vx_out {
use super::*;
use super::vx_meet::*;
#[verifier::external_body]
pub struct Error { m: String }
//@ include ser_trait.vx
/// to_string() of what has a Display is what that writes (std), here unit print's.
#[verifier::external_body]
pub fn vx_doc_string(d: &KdlDocument) -> (r: String)
    ensures r@ == pr_doc(*d, 0),
{ unimplemented!() }
//@ source src/se.rs
//@ stub ser
//@ include ser_top.vx
//@ stub off
//@ fn to_string ret r
//@ rewrite `doc.to_string()` => `vx_doc_string(&doc)`
    ensures doc_fits(value.tree()) ==> r is Ok, r matches Ok(s) ==> says_doc(s@, value.tree()),
//@ end
/// The text is the print of a document, without formatting, that says `t`.
pub open spec fn says_doc(s: Seq<char>, t: Tree) -> bool { exists|d: KdlDocument| #[trigger] bare_doc(d) && doc_wrote(d.nodes@, t) && s == pr_doc(d, 0) }
}
// ---- And back: a text read and asked for.
pub mod vx_back {
use super::*;
use super::vx_meet::*;
use super::vx_out::{Serialize, to_string, says_doc};
#[verifier::external_body]
pub struct Error { m: String }
impl Error {
    #[verifier::external_body]
    pub fn with_input(self, input: &Arc<String>) -> Error { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_arc(s: &str) -> Arc<String> { unimplemented!() }
/// A value's `Deserialize` makes something of the content it is given.
pub trait Deserialize: Sized {
    spec fn rebuilt(c: Content, r: Result<Self, Error>) -> bool;
    fn deserialize<D: HasContent>(d: D) -> (r: Result<Self, Error>)
        ensures Self::rebuilt(d.content(), r);
}
pub trait HasContent: Sized { spec fn content(self) -> Content; }
//@ source src/de.rs
//@ struct DocumentDeserializer
impl<'a> HasContent for DocumentDeserializer<'a> { open spec fn content(self) -> Content { Content::Document(*self.doc) } }
//@ stub parse
//@ source src/document.rs
//@ include parse_doc.vx
//@ stub off
/// `?` of a parse error is some error (From<KdlError> for Error).
pub fn vx_parsed(s: &str) -> (r: Result<KdlDocument, Error>)
    ensures r is Ok <==> doc_text(s@) is Some, r matches Ok(v) ==> doc_is(v, doc_text(s@)->0),
{ match KdlDocument::parse(s) { Ok(v) => Ok(v), Err(e) => Err(vx_refused(e)) } }
#[verifier::external_body]
pub fn vx_refused(e: KdlError) -> Error { unimplemented!() }
pub open spec fn read_as<T: Deserialize>(v: KdlDocument, r: Result<T, Error>) -> bool { exists|q: Result<T, Error>| #[trigger] T::rebuilt(Content::Document(v), q) && match q { Ok(x) => r == Ok::<T, Error>(x), Err(_) => r is Err } }
//@ source src/de.rs
//@ fn from_str ret r
//@ rewrite `Deserialize<'a>` => `Deserialize`
//@ rewrite `input.parse()` => `vx_parsed(input)`
//@ rewrite `input.to_owned().into()` => `vx_arc(input)`
    ensures doc_text(input@) is None ==> r is Err, doc_text(input@) is Some ==> exists|v: KdlDocument| #[trigger] doc_is(v, doc_text(input@)->0) && read_as(v, r),
//@ end
/// What serde's derive and its impls for std types give (assumed of the type): a value shown whole is rebuilt.
pub trait Plain: Serialize + Deserialize {
    proof fn kept(&self, c: Content, r: Result<Self, Error>)
        requires shows(c, self.tree()), Self::rebuilt(c, r),
        ensures r == Ok::<Self, Error>(*self);
}
/// Every value of the family comes back.
pub fn vx_there_and_back<T: Plain>(v: &T) -> (r: T)
    requires good_doc(v.tree()),
    ensures r == *v,
{
    proof { lemma_doc_fits(v.tree()); }
    let s = match to_string(v) { Ok(s) => s, Err(_) => { proof { assert(false); } vx_never() } };
    let ghost d = choose|d: KdlDocument| #[trigger] bare_doc(d) && doc_wrote(d.nodes@, v.tree()) && s@ == pr_doc(d, 0);
    proof { lemma_built(d); }
    let r: Result<T, Error> = from_str(s.as_str());
    proof {
        let x = choose|x: KdlDocument| #[trigger] doc_is(x, doc_text(s@)->0) && read_as(x, r);
        lemma_kin_doc(d, x, doc_text(s@)->0);
        lemma_meet_doc(d, x, v.tree());
        let q = choose|q: Result<T, Error>| #[trigger] T::rebuilt(Content::Document(x), q) && match q { Ok(y) => r == Ok::<T, Error>(y), Err(_) => r is Err };
        v.kept(Content::Document(x), q);
    }
    match r { Ok(w) => w, Err(_) => vx_never() }
}
#[verifier::external_body]
fn vx_never<T>() -> T
    requires false,
{ unimplemented!() }
}
} // verus!
fn main() {}
