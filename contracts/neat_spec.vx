//@ include bare_spec.vx
// ---- Formatting that says nothing: blanks before a node, a line break after it, values and names written the usual way.
// What carries no formatting is so, and what autoformatting leaves when comments are dropped.
pub mod vx_neat {
use super::*;
pub open spec fn gapchar(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn gap(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> gapchar(#[trigger] s[k]) }
pub open spec fn neat_name(i: KdlIdentifier) -> bool { pr_ident(i) == pr_value(KdlValue::String(i.value)) }
pub open spec fn oneat(o: Option<KdlIdentifier>) -> bool { o matches Some(i) ==> neat_name(i) }
pub open spec fn neat_entry(e: KdlEntry) -> bool { e.format is None && oneat(e.name) && oneat(e.ty) }
pub open spec fn entries_neat(s: Seq<KdlEntry>) -> bool { forall|k: int| 0 <= k < s.len() ==> neat_entry(#[trigger] s[k]) }
pub open spec fn neat_format(o: Option<KdlNodeFormat>) -> bool {
    o matches Some(f) ==> gap(f.leading@) && f.before_ty_name@.len() == 0 && f.after_ty_name@.len() == 0 && f.after_ty@.len() == 0 && (f.before_children@.len() == 0 || f.before_children@ == seq![' ']) && f.before_terminator@ + f.terminator@ + f.trailing@ == seq!['\n']
}
/// What stands after the last node: blanks, in a line of their own when there is no node.
pub open spec fn neat_end(d: KdlDocument, s: Seq<char>) -> bool { gap(s) || d.nodes@.len() == 0 && s.len() > 0 && s[0] == '\n' && gap(s.skip(1)) }
pub open spec fn neat_node(n: KdlNode) -> bool
    decreases n,
{ neat_format(n.format) && oneat(n.ty) && neat_name(n.name) && entries_neat(n.entries@) && match n.children { Some(c) => neat_doc(c) && (c.format matches Some(f) ==> f.leading@ == seq!['\n']), None => true } }
pub open spec fn neat_doc(d: KdlDocument) -> bool
    decreases d,
{ (d.format matches Some(f) ==> neat_end(d, f.trailing@)) && forall|k: int| 0 <= k < d.nodes@.len() ==> neat_node(#[trigger] d.nodes@[k]) }
/// A whole document: blanks in front of it.
pub open spec fn neat_top(d: KdlDocument) -> bool { neat_doc(d) && (d.format matches Some(f) ==> gap(f.leading@)) }
/// What parsing gives, with the types of entries written the usual way: entries are not marked to be kept, and a line
/// break that ends a node is just that.
pub open spec fn fit_entry(e: KdlEntry) -> bool { oneat(e.ty) && (e.format matches Some(f) ==> !f.autoformat_keep) }
pub open spec fn fit_node(n: KdlNode) -> bool
    decreases n,
{
    &&& n.format matches Some(f) ==> (f.terminator@.len() > 0 && f.terminator@[0] == '\n' ==> f.terminator@ == seq!['\n'])
    &&& forall|k: int| 0 <= k < n.entries@.len() ==> fit_entry(#[trigger] n.entries@[k])
    &&& match n.children { Some(c) => fit_doc(c), None => true }
}
pub open spec fn fit_doc(d: KdlDocument) -> bool
    decreases d,
{ forall|k: int| 0 <= k < d.nodes@.len() ==> fit_node(#[trigger] d.nodes@[k]) }
pub proof fn lemma_bare_name(i: KdlIdentifier)
    ensures bare_name(i) ==> neat_name(i),
{}
pub proof fn lemma_bare_entry(e: KdlEntry)
    ensures bare_entry(e) ==> neat_entry(e),
{}
pub proof fn lemma_bare_node(n: KdlNode)
    ensures bare_node(n) ==> neat_node(n),
    decreases n,
{
    if bare_node(n) {
        assert forall|k: int| 0 <= k < n.entries@.len() implies neat_entry(#[trigger] n.entries@[k]) by { assert(bare_entry(n.entries@[k])); }
        if n.children is Some { lemma_bare_doc(n.children->0); }
        if n.format is Some { let f = n.format->0; assert(f.before_terminator@ + f.terminator@ + f.trailing@ =~= seq!['\n']); }
    }
}
pub proof fn lemma_bare_doc(d: KdlDocument)
    ensures bare_doc(d) ==> neat_top(d),
    decreases d,
{
    if bare_doc(d) { assert forall|k: int| 0 <= k < d.nodes@.len() implies neat_node(#[trigger] d.nodes@[k]) by { lemma_bare_node(d.nodes@[k]); assert(bare_node(d.nodes@[k])); } }
}
}
pub use vx_neat::*;
