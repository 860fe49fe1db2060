//@ include prelude.vx
//@ include types.vx
//@ include node_spec.vx
//@ include node_lookup.vx

// ---- What the property says, over a document's node sequence.
pub open spec fn node_named(n: KdlNode, k: Seq<char>) -> bool { n.name.value@ == k }
pub open spec fn no_node(s: Seq<KdlNode>, k: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> !node_named(s[j], k) }
pub open spec fn first_node(s: Seq<KdlNode>, k: Seq<char>, i: int) -> bool {
    0 <= i < s.len() && node_named(s[i], k) && forall|j: int| 0 <= j < i ==> !node_named(s[j], k)
}
/// A left-to-right scan for the first node so named.
pub open spec fn scan(s: Seq<KdlNode>, k: Seq<char>) -> Option<KdlNode>
    decreases s.len()
{
    if s.len() == 0 { None } else if node_named(s[0], k) { Some(s[0]) } else { scan(s.drop_first(), k) }
}
pub proof fn lemma_scan(s: Seq<KdlNode>, k: Seq<char>)
    ensures
        no_node(s, k) ==> scan(s, k).is_none(),
        forall|i: int| first_node(s, k, i) ==> scan(s, k) == Some(s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_scan(s.drop_first(), k);
        assert forall|i: int| first_node(s, k, i) implies scan(s, k) == Some(s[i]) by {
            if i > 0 { assert(first_node(s.drop_first(), k, i - 1)); }
        }
        if no_node(s, k) { assert(no_node(s.drop_first(), k)); }
    }
}
/// The values of the arguments, in order.
pub open spec fn arg_values(s: Seq<KdlEntry>) -> Seq<KdlValue>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let r = arg_values(s.drop_last()); if is_arg(s.last()) { r.push(s.last().value) } else { r } }
}
/// Argument number 0 of a node.
pub open spec fn first_arg(s: Seq<KdlEntry>) -> Option<KdlValue>
    decreases s.len()
{
    if s.len() == 0 { None } else if is_arg(s[0]) { Some(s[0].value) } else { first_arg(s.drop_first()) }
}
pub proof fn lemma_first_arg(s: Seq<KdlEntry>)
    ensures
        args(s) == 0 ==> first_arg(s).is_none(),
        forall|i: int| arg_at(s, 0, i) ==> first_arg(s) == Some(s[i].value),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_first_arg(s.drop_first());
        lemma_args_shift(s, s.len() as int);
        lemma_args_all(s); lemma_args_all(s.drop_first());
        assert forall|i: int| arg_at(s, 0, i) implies first_arg(s) == Some(s[i].value) by {
            lemma_args_take(s, 0);
            if i > 0 {
                lemma_args_mono(s, 1, i);
                lemma_args_shift(s, i);
                assert(arg_at(s.drop_first(), 0, i - 1));
            }
        }
    }
}
pub proof fn lemma_args_shift(s: Seq<KdlEntry>, i: int)
    requires 1 <= i <= s.len(),
    ensures args(s.take(i)) == args(s.drop_first().take(i - 1)) + (if is_arg(s[0]) { 1nat } else { 0 }),
    decreases i,
{
    if i > 1 {
        lemma_args_shift(s, i - 1);
        lemma_args_take(s, i - 1);
        lemma_args_take(s.drop_first(), i - 2);
        assert(s.drop_first()[i - 2] == s[i - 1]);
    } else {
        lemma_args_take(s, 0);
        assert(s.drop_first().take(0) =~= Seq::empty());
        assert(s.take(0) =~= Seq::empty());
    }
}
/// The first arguments of the dash-named nodes that have one, in order.
pub open spec fn dash_values(s: Seq<KdlNode>) -> Seq<KdlValue>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = dash_values(s.drop_last());
        if node_named(s.last(), seq!['-']) && first_arg(s.last().entries@).is_some() { r.push(first_arg(s.last().entries@).unwrap()) } else { r }
    }
}
pub open spec fn same_values(v: Seq<&KdlValue>, s: Seq<KdlValue>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *v[i] == s[i] }
pub open spec fn same_doc_shell(a: KdlDocument, b: KdlDocument) -> bool { a.format == b.format && a.span == b.span }
pub fn vx_empty<'a, T>() -> (r: &'a [T])
    ensures r@.len() == 0,
{ &[] }

pub open spec fn is_nothing(o: Option<&KdlNode>) -> bool { o.is_none() }
pub open spec fn is_nothing_mut(o: Option<&mut KdlNode>) -> bool { o.is_none() }
pub open spec fn get_done(s: Seq<KdlNode>, k: Seq<char>, o: Option<&KdlNode>) -> bool {
    match o { None => no_node(s, k), Some(n) => exists|i: int| first_node(s, k, i) && *n == s[i] }
}
#[verifier::prophetic]
pub open spec fn get_mut_done(s: Seq<KdlNode>, t: Seq<KdlNode>, k: Seq<char>, o: Option<&mut KdlNode>) -> bool {
    &&& o.is_none() ==> no_node(s, k) && t =~= s
    &&& o.is_some() ==> exists|i: int| #[trigger] first_node(s, k, i) && *o.unwrap() == s[i] && t =~= s.update(i, *final(o.unwrap()))
}
pub open spec fn get_arg_of(s: Seq<KdlNode>, k: Seq<char>) -> Option<KdlValue> {
    match scan(s, k) { Some(n) => first_arg(n.entries@), None => None }
}
pub open spec fn same_nodes(s: Seq<KdlNode>, t: Seq<KdlNode>) -> bool {
    s.len() == t.len() && forall|k: int| #![trigger t[k]] 0 <= k < s.len() ==> same_shell(s[k], t[k]) && s[k].entries@ =~= t[k].entries@
}
/// Nothing but one entry's value differs.
pub open spec fn only_value_changed(s: Seq<KdlNode>, t: Seq<KdlNode>, i: int, j: int, v: KdlValue) -> bool {
    &&& t.len() == s.len()
    &&& forall|k: int| 0 <= k < s.len() && k != i ==> t[k] == s[k]
    &&& same_shell(s[i], t[i])
    &&& t[i].entries@ =~= s[i].entries@.update(j, KdlEntry { value: v, ..s[i].entries@[j] })
}
pub open spec fn args_base(s: Seq<KdlNode>, k: Seq<char>) -> Seq<KdlEntry> {
    match scan(s, k) { Some(n) => n.entries@, None => Seq::empty() }
}
pub proof fn lemma_arg_values_take(s: Seq<KdlEntry>, i: int)
    requires 0 <= i < s.len(),
    ensures arg_values(s.take(i + 1)) == (if is_arg(s[i]) { arg_values(s.take(i)).push(s[i].value) } else { arg_values(s.take(i)) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

pub open spec fn dash_base(s: Seq<KdlNode>, k: Seq<char>) -> Seq<KdlNode> {
    match scan(s, k) { Some(n) => match n.children { Some(d) => d.nodes@, None => Seq::empty() }, None => Seq::empty() }
}
pub proof fn lemma_dash_values_take(s: Seq<KdlNode>, i: int)
    requires 0 <= i < s.len(),
    ensures dash_values(s.take(i + 1)) == ({ let r = dash_values(s.take(i)); if node_named(s[i], seq!['-']) && first_arg(s[i].entries@).is_some() { r.push(first_arg(s[i].entries@).unwrap()) } else { r } }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

// ---- Contracts on the real functions.
//@ source src/node.rs
//@ fn KdlNode::entries ret r
    ensures r@ == self.entries@,
//@ end
//@ fn KdlNode::name ret r
    ensures *r == self.name,
//@ end
//@ fn KdlNode::children ret r
    ensures r.is_some() == self.children.is_some(), r.is_some() ==> *r.unwrap() == self.children.unwrap(),
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::name ret r
    ensures r.is_some() == self.name.is_some(), r.is_some() ==> *r.unwrap() == self.name.unwrap(),
//@ end
//@ fn KdlEntry::value ret r
    ensures *r == self.value,
//@ end

//@ source src/document.rs
//@ rewrite `node.get(0)` => `node.get(NodeKey::Index(0))`
//@ rewrite `e.get(0)` => `e.get(NodeKey::Index(0))`
//@ rewrite `node.get_mut(0)` => `node.get_mut(NodeKey::Index(0))`
//@ rewrite `.unwrap_or_default()` => `.unwrap_or(vx_empty())`
//@ fn KdlDocument::nodes ret r
    ensures r@ == self.nodes@,
//@ end
//@ fn KdlDocument::nodes_mut ret r
    ensures *r == old(self).nodes, *final(self) == (KdlDocument { nodes: *final(r), ..*old(self) }),
//@ end
//@ fn KdlDocument::get ret r
    ensures
        r.is_none() == scan(self.nodes@, name@).is_none(),
        r.is_some() ==> *r.unwrap() == scan(self.nodes@, name@).unwrap(),
//@ loop `for vx_x in self.nodes.iter()`
    invariant_except_break
        it.snapshot@.remaining().len() == self.nodes@.len(),
        forall|j: int| 0 <= j < self.nodes@.len() ==> *it.snapshot@.remaining()[j] == self.nodes@[j],
        forall|j: int| 0 <= j < it.index@ ==> !node_named(self.nodes@[j], name@),
        is_nothing(vx_out),
    ensures
        get_done(self.nodes@, name@, vx_out),
//@ hint `vx_out` before
    proof { lemma_scan(self.nodes@, name@); }
//@ end
//@ fn KdlDocument::get_mut ret r
    ensures
        same_doc_shell(*old(self), *final(self)),
        r.is_none() ==> no_node(old(self).nodes@, name@) && final(self).nodes@ == old(self).nodes@,
        r.is_some() ==> exists|i: int| #[trigger] first_node(old(self).nodes@, name@, i) && *r.unwrap() == old(self).nodes@[i]
            && final(self).nodes@ =~= old(self).nodes@.update(i, *final(r.unwrap())),
//@ loop `for vx_x in self.nodes.iter_mut()`
    invariant_except_break
        it.snapshot@.remaining().len() == old(self).nodes@.len(),
        final(self).nodes@.len() == old(self).nodes@.len(),
        same_doc_shell(*old(self), *final(self)),
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *it.snapshot@.remaining()[j] == old(self).nodes@[j],
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).nodes@[j],
        forall|j: int| 0 <= j < it.index@ ==> !node_named(old(self).nodes@[j], name@) && final(self).nodes@[j] == old(self).nodes@[j],
        is_nothing_mut(vx_out),
    ensures
        get_mut_done(old(self).nodes@, final(self).nodes@, name@, vx_out),
        same_doc_shell(*old(self), *final(self)),
//@ hint `vx_out = Some(vx_x)` before
    proof { assert(first_node(old(self).nodes@, name@, it.index@ as int)); }
//@ end
//@ fn KdlDocument::get_arg ret r
    ensures
        r.is_some() == get_arg_of(self.nodes@, name@).is_some(),
        r.is_some() ==> *r.unwrap() == get_arg_of(self.nodes@, name@).unwrap(),
//@ hint top
    proof { if let Some(n) = scan(self.nodes@, name@) { lemma_first_arg(n.entries@); } }
//@ end
//@ fn KdlDocument::get_arg_mut ret r
    ensures
        same_doc_shell(*old(self), *final(self)),
        r.is_none() ==> get_arg_of(old(self).nodes@, name@).is_none() && same_nodes(old(self).nodes@, final(self).nodes@),
        r.is_some() ==> exists|i: int, j: int| #[trigger] first_node(old(self).nodes@, name@, i) && #[trigger] arg_at(old(self).nodes@[i].entries@, 0, j)
            && *r.unwrap() == old(self).nodes@[i].entries@[j].value
            && only_value_changed(old(self).nodes@, final(self).nodes@, i, j, *final(r.unwrap())),
//@ hint top
    proof { lemma_scan(self.nodes@, name@); if let Some(n) = scan(self.nodes@, name@) { lemma_first_arg(n.entries@); } }
//@ end
//@ fn KdlDocument::iter_args ret r
    ensures same_values(r@, match scan(self.nodes@, name@) { Some(n) => arg_values(n.entries@), None => Seq::empty() }),
//@ loop #0
    invariant
        base == args_base(self.nodes@, name@),
        it.snapshot@.remaining().len() == base.len(),
        forall|j: int| 0 <= j < base.len() ==> *it.snapshot@.remaining()[j] == base[j],
        same_values(vx_out@, arg_values(base.take(it.index@ as int))),
//@ hint `let mut vx_out = Vec::new()` before
    let ghost base = args_base(self.nodes@, name@);
    proof { assert(base.take(0) =~= Seq::empty()); }
//@ hint `let vx_keep..` before
    proof { lemma_arg_values_take(base, it.index@ as int); }
//@ hint `vx_out` before
    proof { assert(base.take(base.len() as int) =~= base); }
//@ end

//@ fn KdlDocument::iter_dash_args ret r
    ensures same_values(r@, dash_values(dash_base(self.nodes@, name@))),
//@ loop #0
    invariant
        base == dash_base(self.nodes@, name@),
        it.snapshot@.remaining().len() == base.len(),
        forall|j: int| 0 <= j < base.len() ==> *it.snapshot@.remaining()[j] == base[j],
        same_values(vx_out@, dash_values(base.take(it.index@ as int))),
//@ hint `let mut vx_out = Vec::new()` before
    let ghost base = dash_base(self.nodes@, name@);
    proof { assert(base.take(0) =~= Seq::empty()); reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ hint `let vx_keep..` before
    proof { lemma_dash_values_take(base, it.index@ as int); lemma_first_arg(base[it.index@ as int].entries@); reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ hint `vx_out` before
    proof { assert(base.take(base.len() as int) =~= base); }
//@ end

} // verus!
fn main() {}
