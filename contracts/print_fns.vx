//@ rewrite `std::fmt::Formatter` => `vx_fmt::Formatter`
//@ rewrite `std::fmt::Result` => `vx_fmt::Result`
//@ rewrite `indent + $n` => `vx_plus(indent, $n)`
// The indentation does not overflow (a document nested that deeply does not fit memory).
#[verifier::external_body]
pub fn vx_plus(a: usize, b: usize) -> (r: usize)
    ensures r == a + b,
{ a + b }
#[verifier::external_body]
pub fn vx_string_len(s: String) -> (r: usize)
    ensures r == 0 <==> s@.len() == 0,
{ s.len() }
impl VxShow for KdlIdentifier {
    open spec fn shown(&self) -> Seq<char> { pr_ident(*self) }
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { self.vx_fmt(f) }
}
impl VxShow for KdlEntry {
    open spec fn shown(&self) -> Seq<char> { pr_entry(*self) }
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { self.vx_fmt(f) }
}
impl VxShow for KdlNode {
    open spec fn shown(&self) -> Seq<char> { pr_node(*self, 0) }
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { self.vx_fmt(f) }
}
impl VxShow for KdlDocument {
    open spec fn shown(&self) -> Seq<char> { pr_doc(*self, 0) }
    fn vx_show(&self, f: &mut vx_fmt::Formatter<'_>) -> (r: vx_fmt::Result) { self.vx_fmt(f) }
}
//@ source src/identifier.rs
//@ fn KdlIdentifier::value ret r
    ensures r@ == self.value@,
//@ end
//@ fn <Display for KdlIdentifier>::fmt as vx_fmt ret r
//@ rewrite `self.value().into()` => `self.value().vx_into()`
    ensures @shows(pr_ident(*self))@
//@ hint top
    broadcast use group_cat;
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::format ret r
    ensures r matches Some(f) ==> self.format == Some(*f), r is None <==> self.format is None,
//@ end
//@ fn <Display for KdlEntry>::fmt as vx_fmt ret r
    ensures @shows(pr_entry(*self))@
//@ hint top
    broadcast use group_cat;
//@ end
//@ source src/node.rs
//@ fn KdlNode::format ret r
    ensures r matches Some(f) ==> self.format == Some(*f), r is None <==> self.format is None,
//@ end
//@ fn KdlNode::stringify ret r
    ensures r is Ok ==> final(f).out() == old(f).out() + pr_node(*self, indent as nat), old(f).sure() ==> r is Ok, final(f).sure() == old(f).sure(),
    decreases *self,
//@ hint top
    hide(pr_entry); hide(pr_ident); hide(pr_node); hide(pr_doc); hide(pr_entries); hide(pr_h1); hide(pr_h2); hide(pr_h3); hide(pr_kids); hide(pr_tail); hide(spaced);
    let ghost o0 = f.out();
    proof { reveal_strlit(""); assert(""@ =~= seq![]); }
//@ hint `if let Some(ty) = &self.ty..` before
    let ghost o1 = f.out();
    proof { assert(o1 =~= o0 + pr_h1(*self, indent as nat)) by { reveal(pr_h1); } }
//@ hint `if let Some(KdlNodeFormat { after_ty, .. })..` before
    let ghost o2 = f.out();
    proof { assert(o2 == o1 + pr_h2(*self)) by { broadcast use group_cat; reveal(pr_h2); } }
//@ hint `write!(f, "{}", self.name)?` before
    let ghost o3 = f.out();
    proof { assert(o3 =~= o2 + pr_h3(*self)) by { reveal(pr_h3); } }
//@ hint `let mut space_before_children..` before
    let ghost o4 = f.out();
    proof { assert(o4 == o3 + pr_ident(self.name)); assert(self.entries@.take(0) =~= seq![]); reveal(spaced); reveal_with_fuel(pr_entries, 1); assert(o4 =~= o4 + seq![]); }
//@ loop #0
    invariant
        it.index@ <= self.entries@.len(), it.snapshot@.remaining().len() == self.entries@.len(), forall|k: int| 0 <= k < self.entries@.len() ==> *it.snapshot@.remaining()[k] == self.entries@[k],
        f.out() == o4 + pr_entries(self.entries@.take(it.index@ as int)),
        space_before_children == spaced(self.entries@.take(it.index@ as int)),
        f.sure() == old(f).sure(),
//@ hint `if let Some(children)..` before
    let ghost o5 = f.out();
    proof { assert(self.entries@.take(self.entries@.len() as int) =~= self.entries@); assert(o5 == o4 + pr_entries(self.entries@)); }
//@ hint `if let Some(KdlNodeFormat { before_terminator..` before
    let ghost o6 = f.out();
    proof { if self.children is None { assert(o6 =~= o5 + pr_kids(*self, indent as nat)) by { reveal(pr_kids); } } assert(o6 == o5 + pr_kids(*self, indent as nat)); }
//@ hint `write!(f, "{{")?` before
    let ghost c0 = f.out();
    proof { assert(c0 =~= o5 + pr_k1(*self)) by { reveal(spaced); } }
//@ hint `if children.format().is_none()..` before
    let ghost c1 = f.out();
    proof { assert(c1 == c0 + seq!['{']); }
//@ hint `children.stringify..` before
    let ghost c2 = f.out();
    proof { assert(c2 =~= c1 + pr_k2(*self)); }
//@ hint `if children.format().is_none()..` #1 before
    let ghost c3 = f.out();
    proof { assert(c3 == c2 + pr_doc(self.children->0, (indent + 4) as nat)); }
//@ hint `write!(f, "}}")?` before
    let ghost c4 = f.out();
    proof { assert(c4 =~= c3 + pr_k3(*self, indent as nat)); }
//@ hint `write!(f, "}}")?` after
    proof { assert(f.out() == c4 + seq!['}']); lemma_kids_out(*self, indent as nat, o5, c0, c1, c2, c3, c4, f.out()); }
//@ hint `if entry.format().is_none()..` before
    let ghost e = self.entries@[it.index@ as int];
    proof { assert(self.entries@.take(it.index@ + 1).drop_last() =~= self.entries@.take(it.index@ as int)); assert(*entry == e); }
//@ hint `space_before_children = ..` before
    proof { let s = self.entries@.take(it.index@ + 1); assert(s.last() == e); reveal_with_fuel(pr_entries, 2); reveal(spaced);
        assert(f.out() == o4 + pr_entries(s)) by { broadcast use group_cat; } }
//@ hint tail
    let ghost o7 = f.out();
    proof { lemma_cat3(o6, self.format->0.before_terminator@, self.format->0.terminator@, self.format->0.trailing@);
        assert(o7 == o6 + pr_tail(*self)) by { reveal(pr_tail); }
        lemma_node_out(*self, indent as nat, o0, o1, o2, o3, o4, o5, o6, o7); }
//@ end
//@ fn <Display for KdlNode>::fmt as vx_fmt ret r
    ensures @shows(pr_node(*self, 0))@
//@ hint top
    broadcast use group_cat;
//@ end
//@ source src/document.rs
//@ fn KdlDocument::format ret r
    ensures r matches Some(f) ==> self.format == Some(*f), r is None <==> self.format is None,
//@ end
//@ fn KdlDocument::stringify ret r
    ensures @shows(pr_doc(*self, indent as nat))@
    decreases *self,
//@ hint top
    broadcast use group_cat;
//@ loop #0
    invariant
        it.index@ <= self.nodes@.len(),
        f.out() =~= old(f).out() + ((match self.format { Some(g) => g.leading@, None => seq![] }) + pr_nodes(self.nodes, it.index@ as nat, indent as nat)),
        f.sure() == old(f).sure(),
//@ end
//@ fn <Display for KdlDocument>::fmt as vx_fmt ret r
    ensures @shows(pr_doc(*self, 0))@
//@ hint top
    broadcast use group_cat;
//@ end
//@ fn KdlDocument::len ret r
//@ rewrite `format!("{self}").len()` => `vx_string_len(format!("{self}"))`
    ensures r == 0 <==> pr_doc(*self, 0).len() == 0,
//@ end
//@ fn KdlDocument::is_empty ret r
    ensures r == (pr_doc(*self, 0).len() == 0),
//@ end
