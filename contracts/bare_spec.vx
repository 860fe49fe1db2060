// ---- What carries no custom formatting: what the constructors make, and clearing leaves.
pub mod vx_bare {
use super::*;
// ---- names, types and values in place
pub open spec fn bare_name(i: KdlIdentifier) -> bool { i.repr is None }
pub open spec fn obare(o: Option<KdlIdentifier>) -> bool { o matches Some(i) ==> bare_name(i) }
// an entry, where it starts
pub open spec fn bare_entry(e: KdlEntry) -> bool { e.format is None && obare(e.name) && obare(e.ty) }
// entries, each after a space
pub open spec fn entries_bare(s: Seq<KdlEntry>) -> bool { forall|k: int| 0 <= k < s.len() ==> bare_entry(#[trigger] s[k]) }
// no formatting, or the line break a new node comes with
pub open spec fn plain_format(o: Option<KdlNodeFormat>) -> bool {
    o matches Some(f) ==> f.leading@.len() == 0 && f.before_ty_name@.len() == 0 && f.after_ty_name@.len() == 0 && f.after_ty@.len() == 0 && f.before_children@.len() == 0 && f.before_terminator@.len() == 0 && f.terminator@.len() == 0 && f.trailing@ == seq!['\n']
}
pub open spec fn bare_node(n: KdlNode) -> bool
    decreases n,
{ plain_format(n.format) && obare(n.ty) && bare_name(n.name) && entries_bare(n.entries@) && match n.children { Some(c) => bare_doc(c), None => true } }
pub open spec fn bare_doc(d: KdlDocument) -> bool
    decreases d,
{ d.format is None && forall|k: int| 0 <= k < d.nodes@.len() ==> bare_node(#[trigger] d.nodes@[k]) }
}
pub use vx_bare::*;
