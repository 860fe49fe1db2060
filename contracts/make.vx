//@ include prelude_base.vx
//@ include types.vx
//@ include conv.vx
//@ include bare_spec.vx
//@ include make_fns.vx
// what inserting, replacing and removing (C10) keep
pub proof fn lemma_bare_edits(s: Seq<KdlEntry>, e: KdlEntry, i: int)
    requires entries_bare(s), bare_entry(e),
    ensures entries_bare(s.push(e)), 0 <= i < s.len() ==> entries_bare(s.update(i, e)) && entries_bare(s.remove(i)), 0 <= i <= s.len() ==> entries_bare(s.insert(i, e)),
{
    let (p, u, r, n) = (s.push(e), s.update(i, e), s.remove(i), s.insert(i, e));
    assert forall|k: int| 0 <= k < p.len() implies bare_entry(#[trigger] p[k]) by { if k < s.len() { assert(bare_entry(s[k])); } }
    if 0 <= i < s.len() {
        assert forall|k: int| 0 <= k < u.len() implies bare_entry(#[trigger] u[k]) by { if k != i { assert(bare_entry(s[k])); } }
        assert forall|k: int| 0 <= k < r.len() implies bare_entry(#[trigger] r[k]) by { assert(bare_entry(s[if k < i { k } else { k + 1 }])); }
    }
    if 0 <= i <= s.len() { assert forall|k: int| 0 <= k < n.len() implies bare_entry(#[trigger] n[k]) by { if k != i { assert(bare_entry(s[if k < i { k } else { k - 1 }])); } } }
}
pub proof fn lemma_bare_parts(n: KdlNode, m: KdlNode, d: KdlDocument, f: KdlDocument, i: int)
    requires bare_node(n),
    ensures m == (KdlNode { entries: m.entries, ..n }) && entries_bare(m.entries@) ==> bare_node(m), m == (KdlNode { name: m.name, ..n }) && bare_name(m.name) ==> bare_node(m),
        m == (KdlNode { ty: m.ty, ..n }) && obare(m.ty) ==> bare_node(m), m == (KdlNode { children: m.children, ..n }) && (m.children matches Some(c) ==> bare_doc(c)) ==> bare_node(m),
        bare_doc(d) && f == (KdlDocument { nodes: f.nodes, ..d }) && f.nodes@ == d.nodes@.push(m) && bare_node(m) ==> bare_doc(f),
{
    if bare_doc(d) && f == (KdlDocument { nodes: f.nodes, ..d }) && f.nodes@ == d.nodes@.push(m) && bare_node(m) {
        assert forall|k: int| 0 <= k < f.nodes@.len() implies bare_node(#[trigger] f.nodes@[k]) by { if k < d.nodes@.len() { assert(bare_node(d.nodes@[k])); } }
    }
}
} // verus!
fn main() {}
