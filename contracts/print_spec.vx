//@ include value_spec.vx
// ---- What printing gives, as functions of the data (the text of a value and
// the indentation are the only parts not spelled out here).
pub mod vx_print {
use super::*;
use super::vx_fmt::spaces;
pub open spec fn pr_ident(i: KdlIdentifier) -> Seq<char> {
    match i.repr { Some(r) => r@, None => pr_value(KdlValue::String(i.value)) }
}
pub open spec fn pr_entry(e: KdlEntry) -> Seq<char> {
    match e.format {
        Some(f) => f.leading@
            + (match e.name { Some(n) => pr_ident(n) + f.after_key@ + seq!['='] + f.after_eq@, None => seq![] })
            + (match e.ty { Some(t) => seq!['('] + f.before_ty_name@ + pr_ident(t) + f.after_ty_name@ + seq![')'], None => seq![] })
            + f.after_ty@ + f.value_repr@ + f.trailing@,
        None => (match e.name { Some(n) => pr_ident(n) + seq!['='], None => seq![] })
            + (match e.ty { Some(t) => seq!['('] + pr_ident(t) + seq![')'], None => seq![] })
            + pr_value(e.value),
    }
}
// the first k entries after a node's name
pub open spec fn pr_entries(s: Seq<KdlEntry>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { pr_entries(s.drop_last()) + (if s.last().format.is_none() { seq![' '] } else { seq![] }) + pr_entry(s.last()) }
}
pub open spec fn spaced(s: Seq<KdlEntry>) -> bool { s.len() == 0 || s.last().format.is_none() }
// a node up to, but without, its children
pub open spec fn pr_head(n: KdlNode, indent: nat) -> Seq<char> { pr_head0(n, indent) + pr_entries(n.entries@) }
pub open spec fn pr_head0(n: KdlNode, indent: nat) -> Seq<char> {
    (match n.format { Some(f) => f.leading@, None => spaces(indent as int) })
    + (match n.ty { Some(t) => seq!['('] + (match n.format { Some(f) => f.before_ty_name@, None => seq![] }) + pr_ident(t) + (match n.format { Some(f) => f.after_ty_name@, None => seq![] }) + seq![')'], None => seq![] })
    + (match n.format { Some(f) => f.after_ty@, None => seq![] })
    + pr_ident(n.name)
}
pub open spec fn pr_tail(n: KdlNode) -> Seq<char> {
    match n.format { Some(f) => f.before_terminator@ + f.terminator@ + f.trailing@, None => seq!['\n'] }
}
pub open spec fn pr_node(n: KdlNode, indent: nat) -> Seq<char>
    decreases n, 0nat,
{
    pr_head(n, indent)
    + (match n.children {
        Some(c) => (match n.format { Some(f) => f.before_children@, None => if spaced(n.entries@) { seq![' '] } else { seq![] } })
            + seq!['{'] + (if c.format.is_none() { seq!['\n'] } else { seq![] })
            + pr_doc(c, indent + 4)
            + (if c.format.is_none() { spaces(indent as int) } else { seq![] }) + seq!['}'],
        None => seq![],
    }) + pr_tail(n)
}
pub open spec fn pr_nodes(v: Vec<KdlNode>, k: nat, indent: nat) -> Seq<char>
    decreases v, k,
{
    if k == 0 || k > v@.len() { seq![] } else { pr_nodes(v, (k - 1) as nat, indent) + pr_node(v[k - 1], indent) }
}
pub open spec fn pr_doc(d: KdlDocument, indent: nat) -> Seq<char>
    decreases d, 0nat,
{
    (match d.format { Some(f) => f.leading@, None => seq![] })
    + pr_nodes(d.nodes, d.nodes@.len(), indent)
    + (match d.format { Some(f) => f.trailing@, None => seq![] })
}
pub open spec fn pr_h1(n: KdlNode, indent: nat) -> Seq<char> { match n.format { Some(f) => f.leading@, None => spaces(indent as int) } }
pub open spec fn pr_h2(n: KdlNode) -> Seq<char> {
    match n.ty { Some(t) => seq!['('] + (match n.format { Some(f) => f.before_ty_name@, None => seq![] }) + pr_ident(t) + (match n.format { Some(f) => f.after_ty_name@, None => seq![] }) + seq![')'], None => seq![] }
}
pub open spec fn pr_h3(n: KdlNode) -> Seq<char> { match n.format { Some(f) => f.after_ty@, None => seq![] } }
// the children block of a node
pub open spec fn pr_k1(n: KdlNode) -> Seq<char> { match n.format { Some(f) => f.before_children@, None => if spaced(n.entries@) { seq![' '] } else { seq![] } } }
pub open spec fn pr_k2(n: KdlNode) -> Seq<char> { if n.children->0.format.is_none() { seq!['\n'] } else { seq![] } }
pub open spec fn pr_k3(n: KdlNode, indent: nat) -> Seq<char> { if n.children->0.format.is_none() { spaces(indent as int) } else { seq![] } }
pub open spec fn pr_kids(n: KdlNode, indent: nat) -> Seq<char> {
    match n.children { Some(c) => pr_k1(n) + seq!['{'] + pr_k2(n) + pr_doc(c, indent + 4) + pr_k3(n, indent) + seq!['}'], None => seq![] }
}
pub proof fn lemma_kids_out(n: KdlNode, indent: nat, o: Seq<char>, c0: Seq<char>, c1: Seq<char>, c2: Seq<char>, c3: Seq<char>, c4: Seq<char>, c5: Seq<char>)
    requires n.children is Some, c0 == o + pr_k1(n), c1 == c0 + seq!['{'], c2 == c1 + pr_k2(n), c3 == c2 + pr_doc(n.children->0, indent + 4), c4 == c3 + pr_k3(n, indent), c5 == c4 + seq!['}'],
    ensures c5 == o + pr_kids(n, indent),
{
    let (a, b, c, d, e, g) = (pr_k1(n), seq!['{'], pr_k2(n), pr_doc(n.children->0, indent + 4), pr_k3(n, indent), seq!['}']);
    assert(o + (a + b + c + d + e + g) =~= o + a + b + c + d + e + g);
}
pub proof fn lemma_node_out(n: KdlNode, indent: nat, o0: Seq<char>, o1: Seq<char>, o2: Seq<char>, o3: Seq<char>, o4: Seq<char>, o5: Seq<char>, o6: Seq<char>, o7: Seq<char>)
    requires o1 == o0 + pr_h1(n, indent), o2 == o1 + pr_h2(n), o3 == o2 + pr_h3(n), o4 == o3 + pr_ident(n.name), o5 == o4 + pr_entries(n.entries@), o6 == o5 + pr_kids(n, indent), o7 == o6 + pr_tail(n),
    ensures o7 == o0 + pr_node(n, indent),
{
    hide(pr_ident); hide(pr_entries); hide(spaced);
    let a = pr_h1(n, indent); let b = pr_h2(n); let c = pr_h3(n); let d = pr_ident(n.name); let e = pr_entries(n.entries@); let k = pr_kids(n, indent); let t = pr_tail(n);
    assert(pr_node(n, indent) == ((((a + b) + c) + d) + e) + k + t);
    lemma_cat8(o0, a, b, c, d, e, k, t);
}
pub proof fn lemma_cat3(o: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures o + (a + b + c) == o + a + b + c,
{ assert(o + (a + b + c) =~= o + a + b + c); }
proof fn lemma_cat8(o: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, k: Seq<char>, t: Seq<char>)
    ensures o + (((((a + b) + c) + d) + e) + k + t) =~= o + a + b + c + d + e + k + t,
{}
// the same over a sequence
pub open spec fn pr_seq(s: Seq<KdlNode>, indent: nat) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { pr_seq(s.drop_last(), indent) + pr_node(s.last(), indent) }
}
pub proof fn lemma_pr_seq(v: Vec<KdlNode>, k: nat, indent: nat)
    requires k <= v@.len(),
    ensures pr_nodes(v, k, indent) =~= pr_seq(v@.take(k as int), indent),
    decreases k,
{
    if k > 0 {
        lemma_pr_seq(v, (k - 1) as nat, indent);
        assert(v@.take(k as int).drop_last() =~= v@.take(k - 1));
    }
}
}
pub use vx_print::*;
