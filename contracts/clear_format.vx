//@ include prelude.vx
//@ include types.vx
//@ include bare_spec.vx

// ---- What the property says.
/// `b` is `a` without its written form.
pub open spec fn ident_cleared(a: KdlIdentifier, b: KdlIdentifier) -> bool { b == (KdlIdentifier { repr: None, ..a }) }
pub open spec fn opt_ident_cleared(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => ident_cleared(x, y), _ => false }
}
/// `b` is `a` with no formatting of its own, its type or its name: value, type and name are the same.
pub open spec fn entry_cleared(a: KdlEntry, b: KdlEntry) -> bool {
    b.format.is_none() && b.value == a.value && b.span == a.span && opt_ident_cleared(a.ty, b.ty) && opt_ident_cleared(a.name, b.name)
}
/// Nothing but the formatting of the node itself is gone.
pub open spec fn node_cleared(a: KdlNode, b: KdlNode) -> bool { b == (KdlNode { format: None, ..a }) }
pub open spec fn doc_cleared(a: KdlDocument, b: KdlDocument) -> bool { b == (KdlDocument { format: None, ..a }) }
pub open spec fn node_cleared_rec(a: KdlNode, b: KdlNode) -> bool
    decreases a
{
    &&& b.format.is_none()
    &&& b.span == a.span
    &&& ident_cleared(a.name, b.name)
    &&& opt_ident_cleared(a.ty, b.ty)
    &&& b.entries@.len() == a.entries@.len()
    &&& forall|i: int| #![trigger b.entries@[i]] 0 <= i < a.entries@.len() ==> entry_cleared(a.entries@[i], b.entries@[i])
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc_cleared_rec(x, y), _ => false }
}
pub open spec fn doc_cleared_rec(a: KdlDocument, b: KdlDocument) -> bool
    decreases a
{
    &&& b.format.is_none()
    &&& b.span == a.span
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|i: int| #![trigger b.nodes@[i]] 0 <= i < a.nodes@.len() ==> node_cleared_rec(a.nodes@[i], b.nodes@[i])
}
/// What is cleared throughout carries no custom formatting: printing it is C03's case.
pub proof fn lemma_cleared_node_bare(a: KdlNode, b: KdlNode)
    requires node_cleared_rec(a, b),
    ensures bare_node(b),
    decreases a,
{
    assert forall|k: int| 0 <= k < b.entries@.len() implies bare_entry(#[trigger] b.entries@[k]) by { assert(entry_cleared(a.entries@[k], b.entries@[k])); }
    match (a.children, b.children) { (Some(x), Some(y)) => lemma_cleared_bare(x, y), _ => {} }
}
pub proof fn lemma_cleared_bare(a: KdlDocument, b: KdlDocument)
    requires doc_cleared_rec(a, b),
    ensures bare_doc(b),
    decreases a,
{
    assert forall|k: int| 0 <= k < b.nodes@.len() implies bare_node(#[trigger] b.nodes@[k]) by { assert(node_cleared_rec(a.nodes@[k], b.nodes@[k])); assert(decreases_to!(a => a.nodes@[k])); lemma_cleared_node_bare(a.nodes@[k], b.nodes@[k]); }
}

// ---- Contracts on the real functions.
//@ source src/identifier.rs
//@ fn KdlIdentifier::clear_format
    ensures ident_cleared(*old(self), *final(self)),
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::clear_format
    ensures entry_cleared(*old(self), *final(self)),
//@ end
//@ source src/node.rs
//@ fn KdlNode::clear_format
    ensures node_cleared(*old(self), *final(self)),
//@ end
//@ fn KdlNode::clear_format_recursive
    ensures node_cleared_rec(*old(self), *final(self)),
    decreases *old(self),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == old(self).entries@.len(),
        final(self).entries@.len() == old(self).entries@.len(),
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *it.snapshot@.remaining()[j] == old(self).entries@[j],
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).entries@[j],
        forall|j: int| 0 <= j < it.index@ ==> entry_cleared(old(self).entries@[j], final(self).entries@[j]),
//@ end
//@ source src/document.rs
//@ fn KdlDocument::clear_format
    ensures doc_cleared(*old(self), *final(self)),
//@ end
//@ fn KdlDocument::clear_format_recursive
    ensures doc_cleared_rec(*old(self), *final(self)),
    decreases *old(self),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == old(self).nodes@.len(),
        final(self).nodes@.len() == old(self).nodes@.len(),
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *it.snapshot@.remaining()[j] == old(self).nodes@[j],
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).nodes@[j],
        forall|j: int| 0 <= j < it.index@ ==> node_cleared_rec(old(self).nodes@[j], final(self).nodes@[j]),
//@ hint `node.clear_format_recursive()` before
    proof { assert(*node == old(self).nodes@[it.index@ as int]); assert(decreases_to!(*old(self) => *node)); }
//@ end

} // verus!
fn main() {}
