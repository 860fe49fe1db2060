//@ include prelude_base.vx
//@ include types.vx
// ---- Equality and hashing (C12).
pub mod vx_eqs {
use super::*;
// What `a == b` says at each type. Assumed of the standard library and of derived
// implementations; at the crate's own types it is the verified function below.
pub uninterp spec fn eqv<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool)
    ensures r == eqv(*a, *b),
{ unimplemented!() }
pub broadcast axiom fn axiom_eq_ref<T>(a: &T, b: &T) ensures #[trigger] eqv::<&T>(a, b) == eqv::<T>(*a, *b);
pub broadcast axiom fn axiom_eq_string(a: String, b: String) ensures #[trigger] eqv(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_i128(a: i128, b: i128) ensures #[trigger] eqv(a, b) == (a == b);
pub broadcast axiom fn axiom_eq_bool(a: bool, b: bool) ensures #[trigger] eqv(a, b) == (a == b);
pub broadcast axiom fn axiom_eq_u8(a: u8, b: u8) ensures #[trigger] eqv(a, b) == (a == b);
pub broadcast axiom fn axiom_eq_option<T>(a: Option<T>, b: Option<T>)
    ensures #[trigger] eqv(a, b) == match (a, b) { (None, None) => true, (Some(x), Some(y)) => eqv(x, y), _ => false };
pub broadcast axiom fn axiom_eq_vec<T>(a: Vec<T>, b: Vec<T>)
    ensures #[trigger] eqv(a, b) == (a@.len() == b@.len() && forall|k: int| 0 <= k < a@.len() ==> eqv(#[trigger] a@[k], b@[k]));
pub broadcast axiom fn axiom_eq_ef(a: KdlEntryFormat, b: KdlEntryFormat) ensures #[trigger] eqv(a, b) == same_ef(a, b);
pub broadcast axiom fn axiom_eq_nf(a: KdlNodeFormat, b: KdlNodeFormat) ensures #[trigger] eqv(a, b) == same_nf(a, b);
pub broadcast axiom fn axiom_eq_df(a: KdlDocumentFormat, b: KdlDocumentFormat) ensures #[trigger] eqv(a, b) == same_df(a, b);
pub broadcast axiom fn axiom_eq_value(a: KdlValue, b: KdlValue) ensures #[trigger] eqv(a, b) == same_value(a, b);
pub broadcast axiom fn axiom_eq_ident(a: KdlIdentifier, b: KdlIdentifier) ensures #[trigger] eqv(a, b) == same_ident(a, b);
pub broadcast axiom fn axiom_eq_entry(a: KdlEntry, b: KdlEntry) ensures #[trigger] eqv(a, b) == same_entry(a, b);
pub broadcast axiom fn axiom_eq_node(a: KdlNode, b: KdlNode) ensures #[trigger] eqv(a, b) == same_node(a, b);
pub broadcast axiom fn axiom_eq_doc(a: KdlDocument, b: KdlDocument) ensures #[trigger] eqv(a, b) == same_doc(a, b);
// Floats: two normalised floats are == exactly if the floats have the same key (decided by Kani, bit for bit).
pub uninterp spec fn fnorm(f: f64) -> f64;
pub uninterp spec fn fkey(f: f64) -> int;
pub uninterp spec fn ftrunc(f: f64) -> i128;
pub uninterp spec fn ffract(f: f64) -> i128;
pub broadcast axiom fn axiom_eq_float(a: f64, b: f64) ensures #[trigger] eqv(fnorm(a), fnorm(b)) == (fkey(a) == fkey(b));
pub broadcast axiom fn axiom_float_hash(a: f64, b: f64)
    requires fkey(a) == fkey(b),
    ensures #[trigger] ftrunc(fnorm(a)) == #[trigger] ftrunc(fnorm(b)), ffract(fnorm(a)) == ffract(fnorm(b));
#[verifier::external_body] pub fn normalize_float(f: &f64) -> (r: f64) ensures r == fnorm(*f), { unimplemented!() }
#[verifier::external_body] pub fn vx_trunc(f: f64) -> (r: i128) ensures r == ftrunc(f), { unimplemented!() }
#[verifier::external_body] pub fn vx_fract(f: f64) -> (r: i128) ensures r == ffract(f), { unimplemented!() }
pub open spec fn variant(v: KdlValue) -> u8 { match v { KdlValue::String(_) => 0, KdlValue::Integer(_) => 1, KdlValue::Float(_) => 2, KdlValue::Bool(_) => 3, KdlValue::Null => 4 } }
#[verifier::external_body] pub fn vx_variant(v: &KdlValue) -> (r: u8) ensures r == variant(*v), { unimplemented!() }
// ---- The same content and formatting, spans aside.
pub open spec fn same_text(a: String, b: String) -> bool { a@ == b@ }
pub open spec fn same_value(a: KdlValue, b: KdlValue) -> bool {
    match (a, b) {
        (KdlValue::String(x), KdlValue::String(y)) => same_text(x, y),
        (KdlValue::Integer(x), KdlValue::Integer(y)) => x == y,
        (KdlValue::Float(x), KdlValue::Float(y)) => fkey(x) == fkey(y),
        (KdlValue::Bool(x), KdlValue::Bool(y)) => x == y,
        (KdlValue::Null, KdlValue::Null) => true,
        _ => false,
    }
}
pub open spec fn same_ident(a: KdlIdentifier, b: KdlIdentifier) -> bool { same_text(a.value, b.value) && match (a.repr, b.repr) { (None, None) => true, (Some(x), Some(y)) => same_text(x, y), _ => false } }
pub open spec fn same_oident(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => same_ident(x, y), _ => false } }
pub open spec fn same_ef(a: KdlEntryFormat, b: KdlEntryFormat) -> bool {
    same_text(a.value_repr, b.value_repr) && same_text(a.leading, b.leading) && same_text(a.trailing, b.trailing) && same_text(a.after_ty, b.after_ty) && same_text(a.before_ty_name, b.before_ty_name)
    && same_text(a.after_ty_name, b.after_ty_name) && same_text(a.after_key, b.after_key) && same_text(a.after_eq, b.after_eq) && a.autoformat_keep == b.autoformat_keep
}
pub open spec fn same_nf(a: KdlNodeFormat, b: KdlNodeFormat) -> bool {
    same_text(a.leading, b.leading) && same_text(a.before_ty_name, b.before_ty_name) && same_text(a.after_ty_name, b.after_ty_name) && same_text(a.after_ty, b.after_ty)
    && same_text(a.before_children, b.before_children) && same_text(a.before_terminator, b.before_terminator) && same_text(a.terminator, b.terminator) && same_text(a.trailing, b.trailing)
}
pub open spec fn same_df(a: KdlDocumentFormat, b: KdlDocumentFormat) -> bool { same_text(a.leading, b.leading) && same_text(a.trailing, b.trailing) }
pub open spec fn same_entry(a: KdlEntry, b: KdlEntry) -> bool {
    same_oident(a.ty, b.ty) && same_value(a.value, b.value) && same_oident(a.name, b.name) && match (a.format, b.format) { (None, None) => true, (Some(x), Some(y)) => same_ef(x, y), _ => false }
}
pub open spec fn same_node(a: KdlNode, b: KdlNode) -> bool
    decreases a,
{
    same_oident(a.ty, b.ty) && same_ident(a.name, b.name) && a.entries@.len() == b.entries@.len() && (forall|k: int| 0 <= k < a.entries@.len() ==> same_entry(#[trigger] a.entries@[k], b.entries@[k]))
    && (match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => same_doc(x, y), _ => false })
    && match (a.format, b.format) { (None, None) => true, (Some(x), Some(y)) => same_nf(x, y), _ => false }
}
pub open spec fn same_doc(a: KdlDocument, b: KdlDocument) -> bool
    decreases a,
{
    a.nodes@.len() == b.nodes@.len() && (forall|k: int| 0 <= k < a.nodes@.len() ==> same_node(#[trigger] a.nodes@[k], b.nodes@[k]))
    && match (a.format, b.format) { (None, None) => true, (Some(x), Some(y)) => same_df(x, y), _ => false }
}
// ---- It is an equivalence, and does not look at spans.
pub proof fn lemma_refl_node(a: KdlNode)
    ensures same_node(a, a),
    decreases a,
{ match a.children { Some(d) => lemma_refl_doc(d), None => {} } }
pub proof fn lemma_refl_doc(a: KdlDocument)
    ensures same_doc(a, a),
    decreases a,
{ assert forall|k: int| 0 <= k < a.nodes@.len() implies same_node(#[trigger] a.nodes@[k], a.nodes@[k]) by { lemma_refl_node(a.nodes@[k]); } }
pub proof fn lemma_sym_node(a: KdlNode, b: KdlNode)
    requires same_node(a, b),
    ensures same_node(b, a),
    decreases a,
{
    assert forall|k: int| 0 <= k < b.entries@.len() implies same_entry(#[trigger] b.entries@[k], a.entries@[k]) by { assert(same_entry(a.entries@[k], b.entries@[k])); }
    match (a.children, b.children) { (Some(d), Some(e)) => lemma_sym_doc(d, e), _ => {} }
}
pub proof fn lemma_sym_doc(a: KdlDocument, b: KdlDocument)
    requires same_doc(a, b),
    ensures same_doc(b, a),
    decreases a,
{ assert forall|k: int| 0 <= k < b.nodes@.len() implies same_node(#[trigger] b.nodes@[k], a.nodes@[k]) by { assert(same_node(a.nodes@[k], b.nodes@[k])); lemma_sym_node(a.nodes@[k], b.nodes@[k]); } }
pub proof fn lemma_trans_node(a: KdlNode, b: KdlNode, c: KdlNode)
    requires same_node(a, b), same_node(b, c),
    ensures same_node(a, c),
    decreases a,
{
    assert forall|k: int| 0 <= k < a.entries@.len() implies same_entry(#[trigger] a.entries@[k], c.entries@[k]) by { assert(same_entry(a.entries@[k], b.entries@[k])); assert(same_entry(b.entries@[k], c.entries@[k])); }
    match (a.children, b.children, c.children) { (Some(d), Some(e), Some(f)) => lemma_trans_doc(d, e, f), _ => {} }
}
pub proof fn lemma_trans_doc(a: KdlDocument, b: KdlDocument, c: KdlDocument)
    requires same_doc(a, b), same_doc(b, c),
    ensures same_doc(a, c),
    decreases a,
{ assert forall|k: int| 0 <= k < a.nodes@.len() implies same_node(#[trigger] a.nodes@[k], c.nodes@[k]) by { assert(same_node(a.nodes@[k], b.nodes@[k])); assert(same_node(b.nodes@[k], c.nodes@[k])); lemma_trans_node(a.nodes@[k], b.nodes@[k], c.nodes@[k]); } }
pub proof fn lemma_small(a: KdlValue, b: KdlValue, c: KdlValue, i: KdlIdentifier, j: KdlIdentifier, k: KdlIdentifier, x: KdlEntry, y: KdlEntry, z: KdlEntry)
    ensures same_value(a, a), same_value(a, b) ==> same_value(b, a), same_value(a, b) && same_value(b, c) ==> same_value(a, c),
        same_ident(i, i), same_ident(i, j) ==> same_ident(j, i), same_ident(i, j) && same_ident(j, k) ==> same_ident(i, k),
        same_entry(x, x), same_entry(x, y) ==> same_entry(y, x), same_entry(x, y) && same_entry(y, z) ==> same_entry(x, z),
{}
pub proof fn lemma_spans(s: SourceSpan, i: KdlIdentifier, j: KdlIdentifier, x: KdlEntry, y: KdlEntry, a: KdlNode, b: KdlNode, d: KdlDocument, e: KdlDocument)
    ensures same_ident(KdlIdentifier { span: s, ..i }, j) == same_ident(i, j), same_entry(KdlEntry { span: s, ..x }, y) == same_entry(x, y),
        same_node(KdlNode { span: s, ..a }, b) == same_node(a, b), same_doc(KdlDocument { span: s, ..d }, e) == same_doc(d, e),
{}
// ---- What hashing feeds.
#[verifier::external_body]
pub struct VxHasher { x: u8 }
impl VxHasher { pub uninterp spec fn fed(self) -> Seq<int>; }
pub uninterp spec fn feed<T>(x: T) -> Seq<int>;
pub trait VxHash: Sized {
    fn hash(&self, state: &mut VxHasher)
        ensures final(state).fed() == old(state).fed() + feed(*self);
}
impl<T> VxHash for T {
    #[verifier::external_body]
    fn hash(&self, state: &mut VxHasher) { unimplemented!() }
}
pub uninterp spec fn feed_text(s: Seq<char>) -> Seq<int>;
pub broadcast axiom fn axiom_feed_ref<T>(a: &T) ensures #[trigger] feed::<&T>(a) == feed::<T>(*a);
pub broadcast axiom fn axiom_feed_string(a: String) ensures #[trigger] feed(a) == feed_text(a@);
pub broadcast axiom fn axiom_feed_option<T>(a: Option<T>) ensures #[trigger] feed(a) == match a { None => seq![0int], Some(x) => seq![1int] + feed(x) };
pub open spec fn feed_seq<T>(s: Seq<T>) -> Seq<int>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { feed_seq(s.drop_last()) + feed(s.last()) } }
pub broadcast axiom fn axiom_feed_vec<T>(a: Vec<T>) ensures #[trigger] feed(a) == seq![a@.len() as int] + feed_seq(a@);
pub broadcast axiom fn axiom_feed_ef(a: KdlEntryFormat, b: KdlEntryFormat) ensures same_ef(a, b) ==> #[trigger] feed(a) == #[trigger] feed(b);
pub broadcast axiom fn axiom_feed_nf(a: KdlNodeFormat, b: KdlNodeFormat) ensures same_nf(a, b) ==> #[trigger] feed(a) == #[trigger] feed(b);
pub broadcast axiom fn axiom_feed_df(a: KdlDocumentFormat, b: KdlDocumentFormat) ensures same_df(a, b) ==> #[trigger] feed(a) == #[trigger] feed(b);
// at the crate's own types hashing is the verified function below
pub broadcast axiom fn axiom_feed_value(a: KdlValue) ensures #[trigger] feed(a) == hv_value(a);
pub broadcast axiom fn axiom_feed_ident(a: KdlIdentifier) ensures #[trigger] feed(a) == hv_ident(a);
pub broadcast axiom fn axiom_feed_entry(a: KdlEntry) ensures #[trigger] feed(a) == hv_entry(a);
pub broadcast axiom fn axiom_feed_node(a: KdlNode) ensures #[trigger] feed(a) == hv_node(a);
pub broadcast axiom fn axiom_feed_doc(a: KdlDocument) ensures #[trigger] feed(a) == hv_doc(a);
pub open spec fn hv_value(v: KdlValue) -> Seq<int> {
    match v {
        KdlValue::String(x) => feed_text(x@),
        KdlValue::Integer(x) => feed(x),
        KdlValue::Float(x) => feed(ftrunc(fnorm(x))) + feed(ffract(fnorm(x))),
        KdlValue::Bool(x) => feed(x),
        KdlValue::Null => feed(4u8),
    }
}
pub open spec fn hv_ident(a: KdlIdentifier) -> Seq<int> { feed(a.value) + feed(a.repr) }
pub open spec fn hv_entry(a: KdlEntry) -> Seq<int> { feed(a.ty) + feed(a.value) + feed(a.name) + feed(a.format) }
pub open spec fn hv_node(a: KdlNode) -> Seq<int> { feed(a.ty) + feed(a.name) + feed(a.entries) + feed(a.children) + feed(a.format) }
pub open spec fn hv_doc(a: KdlDocument) -> Seq<int> { feed(a.nodes) + feed(a.format) }
pub broadcast group group_eq { axiom_eq_ref, axiom_eq_string, axiom_eq_i128, axiom_eq_bool, axiom_eq_u8, axiom_eq_option, axiom_eq_vec, axiom_eq_ef, axiom_eq_nf, axiom_eq_df, axiom_eq_value, axiom_eq_ident, axiom_eq_entry, axiom_eq_node, axiom_eq_doc, axiom_eq_float }
pub broadcast group group_hash { axiom_feed_ref, axiom_feed_string, axiom_feed_option, axiom_feed_vec }
// ---- Equal items hash equally.
pub proof fn lemma_hash_value(a: KdlValue, b: KdlValue)
    requires same_value(a, b),
    ensures hv_value(a) == hv_value(b), feed(a) == feed(b),
{ axiom_feed_value(a); axiom_feed_value(b); match (a, b) { (KdlValue::Float(x), KdlValue::Float(y)) => axiom_float_hash(x, y), _ => {} } }
pub proof fn lemma_hash_ident(a: KdlIdentifier, b: KdlIdentifier)
    requires same_ident(a, b),
    ensures hv_ident(a) == hv_ident(b), feed(a) == feed(b),
{ broadcast use group_hash; axiom_feed_ident(a); axiom_feed_ident(b); }
pub proof fn lemma_hash_oident(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>)
    requires same_oident(a, b),
    ensures feed(a) == feed(b),
{ broadcast use group_hash; match (a, b) { (Some(x), Some(y)) => lemma_hash_ident(x, y), _ => {} } }
pub proof fn lemma_hash_entry(a: KdlEntry, b: KdlEntry)
    requires same_entry(a, b),
    ensures hv_entry(a) == hv_entry(b), feed(a) == feed(b),
{
    lemma_hash_oident(a.ty, b.ty); lemma_hash_oident(a.name, b.name); lemma_hash_value(a.value, b.value); axiom_feed_entry(a); axiom_feed_entry(b);
    axiom_feed_option(a.format); axiom_feed_option(b.format);
    match (a.format, b.format) { (Some(x), Some(y)) => axiom_feed_ef(x, y), _ => {} }
}
pub proof fn lemma_feed_seq<T>(s: Seq<T>, t: Seq<T>)
    requires s.len() == t.len(), forall|k: int| 0 <= k < s.len() ==> feed(#[trigger] s[k]) == feed(t[k]),
    ensures feed_seq(s) == feed_seq(t),
    decreases s.len(),
{
    if s.len() > 0 {
        let (a, b) = (s.drop_last(), t.drop_last());
        assert forall|k: int| 0 <= k < a.len() implies feed(#[trigger] a[k]) == feed(b[k]) by { assert(feed(s[k]) == feed(t[k])); }
        lemma_feed_seq(a, b);
        assert(feed(s[s.len() - 1]) == feed(t[s.len() - 1]));
    }
}
pub proof fn lemma_hash_node(a: KdlNode, b: KdlNode)
    requires same_node(a, b),
    ensures hv_node(a) == hv_node(b), feed(a) == feed(b),
    decreases a,
{
    lemma_hash_oident(a.ty, b.ty); lemma_hash_ident(a.name, b.name);
    assert forall|k: int| 0 <= k < a.entries@.len() implies feed(#[trigger] a.entries@[k]) == feed(b.entries@[k]) by { lemma_hash_entry(a.entries@[k], b.entries@[k]); }
    lemma_feed_seq(a.entries@, b.entries@);
    axiom_feed_vec(a.entries); axiom_feed_vec(b.entries); axiom_feed_option(a.children); axiom_feed_option(b.children); axiom_feed_option(a.format); axiom_feed_option(b.format);
    match (a.children, b.children) { (Some(x), Some(y)) => lemma_hash_doc(x, y), _ => {} }
    match (a.format, b.format) { (Some(x), Some(y)) => axiom_feed_nf(x, y), _ => {} }
    axiom_feed_node(a); axiom_feed_node(b);
}
pub proof fn lemma_hash_doc(a: KdlDocument, b: KdlDocument)
    requires same_doc(a, b),
    ensures hv_doc(a) == hv_doc(b), feed(a) == feed(b),
    decreases a,
{
    assert forall|k: int| 0 <= k < a.nodes@.len() implies feed(#[trigger] a.nodes@[k]) == feed(b.nodes@[k]) by { assert(same_node(a.nodes@[k], b.nodes@[k])); lemma_hash_node(a.nodes@[k], b.nodes@[k]); }
    lemma_feed_seq(a.nodes@, b.nodes@);
    axiom_feed_vec(a.nodes); axiom_feed_vec(b.nodes); axiom_feed_option(a.format); axiom_feed_option(b.format);
    match (a.format, b.format) { (Some(x), Some(y)) => axiom_feed_df(x, y), _ => {} }
    axiom_feed_doc(a); axiom_feed_doc(b);
}
}
pub use vx_eqs::*;
broadcast use vx_eqs::group_eq;
//@ eqs on
//@ rewrite `core::mem::discriminant($x)` => `vx_variant($x)`
//@ rewrite `<H: std::hash::Hasher>` => ``
//@ rewrite `state: &mut H` => `state: &mut VxHasher`
//@ source src/value.rs
//@ fn <PartialEq for KdlValue>::eq as vx_eq_impl ret r
    ensures r == same_value(*self, *other),
//@ end
//@ fn <std::hash::Hash for KdlValue>::hash as vx_hash_impl
//@ rewrite `val.trunc() as i128` => `vx_trunc(val)`
//@ rewrite `val.fract() as i128` => `vx_fract(val)`
    ensures final(state).fed() =~= old(state).fed() + hv_value(*self),
//@ hint top
    broadcast use vx_eqs::group_hash;
//@ end
//@ source src/identifier.rs
//@ fn <PartialEq for KdlIdentifier>::eq as vx_eq_impl ret r
    ensures r == same_ident(*self, *other),
//@ end
//@ fn <std::hash::Hash for KdlIdentifier>::hash as vx_hash_impl
    ensures final(state).fed() =~= old(state).fed() + hv_ident(*self),
//@ end
//@ source src/entry.rs
//@ fn <PartialEq for KdlEntry>::eq as vx_eq_impl ret r
    ensures r == same_entry(*self, *other),
//@ end
//@ fn <std::hash::Hash for KdlEntry>::hash as vx_hash_impl
    ensures final(state).fed() =~= old(state).fed() + hv_entry(*self),
//@ end
//@ source src/node.rs
//@ fn <PartialEq for KdlNode>::eq as vx_eq_impl ret r
    ensures r == same_node(*self, *other),
//@ end
//@ fn <std::hash::Hash for KdlNode>::hash as vx_hash_impl
    ensures final(state).fed() =~= old(state).fed() + hv_node(*self),
//@ end
//@ source src/document.rs
//@ fn <PartialEq for KdlDocument>::eq as vx_eq_impl ret r
    ensures r == same_doc(*self, *other),
//@ end
//@ fn <std::hash::Hash for KdlDocument>::hash as vx_hash_impl
    ensures final(state).fed() =~= old(state).fed() + hv_doc(*self),
//@ end
} // verus!
fn main() {}
