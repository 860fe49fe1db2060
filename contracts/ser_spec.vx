//@ include ser_tree.vx
//@ include ser_trait.vx
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Impossible<A, B> { a: A, b: B }
// ---- texts
pub trait VxKey { spec fn text(&self) -> Seq<char>;
    fn vx_strip(&self, p: &str) -> (r: Option<&str>)
        ensures begins(self.text(), p@) ==> (r matches Some(s) && s@ == self.text().skip(p@.len() as int)), !begins(self.text(), p@) ==> r is None;
    fn vx_starts(&self, p: &str) -> (r: bool)
        ensures r == begins(self.text(), p@);
    fn vx_is(&self, p: &str) -> (r: bool)
        ensures r == (self.text() == p@);
}
impl VxKey for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_strip(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body]
    fn vx_starts(&self, p: &str) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_is(&self, p: &str) -> (r: bool) { self == p }
}
#[verifier::external_body]
pub fn vx_char_string(v: char) -> (r: String)
    ensures r@ == seq![v],
{ v.to_string() }
/// A number's own text (std).
pub trait VxNum { spec fn num(&self) -> int; fn vx_text(&self) -> (r: String) ensures r@ == int_text(self.num()); }
//@ macro num impl VxNum for $1 { open spec fn num(&self) -> int { *self as int } #[verifier::external_body] fn vx_text(&self) -> (r: String) { self.to_string() } }
@num(i8)@ @num(i16)@ @num(i32)@ @num(i64)@ @num(u8)@ @num(u16)@ @num(u32)@ @num(u64)@

// ---- what each serializer does with a value of the family
pub open spec fn value_done(t: Tree, r: Result<KdlValue, Error>) -> bool { match flat(t) { Some(d) => r matches Ok(v) && is_value(v, d), None => r is Err } }
impl Serializer for KdlValueSerializer {
    type Ok = KdlValue;
    #[verifier::prophetic]
    open spec fn done(self, t: Tree, r: Result<KdlValue, Error>) -> bool { value_done(t, r) }
}
pub open spec fn key_done(t: Tree, r: Result<String, Error>) -> bool { keyed(t) matches Some(s) ==> (r matches Ok(x) && x@ == s) }
impl Serializer for KeySerializer {
    type Ok = String;
    #[verifier::prophetic]
    open spec fn done(self, t: Tree, r: Result<String, Error>) -> bool { key_done(t, r) }
}
pub open spec fn args_done(a: KdlNode, b: KdlNode, t: Tree, r: Result<(), Error>) -> bool {
    match listed(t) { Some(l) => r is Ok && added(a, b, as_args(l)), None => r is Err }
}
impl<'a, 'b> Serializer for &'a mut ArgsSerializer<'b> {
    type Ok = ();
    #[verifier::prophetic]
    open spec fn done(self, t: Tree, r: Result<(), Error>) -> bool { args_done(*self.node, *final(self).node, t, r) && *final(final(self).node) == *final(self.node) }
}
pub open spec fn into_node(a: KdlNode, b: KdlNode, t: Tree) -> bool { wrote(b, t) && same_head(a, b) && bare_node(b) }
pub open spec fn node_done(a: KdlNode, o: bool, b: KdlNode, p: bool, t: Tree, r: Result<(), Error>) -> bool {
    fresh(a) && !o ==> (fits(t) ==> r is Ok) && (r is Ok ==> into_node(a, b, t) && p == omits(t))
}
impl<'a, 'b> Serializer for &'a mut NodeValueSerializer<'b> {
    type Ok = ();
    #[verifier::prophetic]
    open spec fn done(self, t: Tree, r: Result<(), Error>) -> bool { node_done(*self.node, self.omittable, *final(self).node, final(self).omittable, t, r) && *final(final(self).node) == *final(self.node) }
}
pub open spec fn doc_done(a: KdlDocument, b: KdlDocument, t: Tree, r: Result<(), Error>) -> bool {
    a.nodes@.len() == 0 ==> (doc_fits(t) ==> r is Ok) && (r is Ok ==> doc_wrote(b.nodes@, t) && (bare_doc(a) ==> bare_doc(b)) && b == (KdlDocument { nodes: b.nodes, ..a }))
}
impl<'a> Serializer for &'a mut DocumentSerializer {
    type Ok = ();
    #[verifier::prophetic]
    open spec fn done(self, t: Tree, r: Result<(), Error>) -> bool { doc_done(self.doc, final(self).doc, t, r) }
}
/// How a field's rename is told apart.
pub proof fn renames(k: Seq<char>)
    ensures "#@"@ == seq!['#', '@'], "#"@ == seq!['#'], "#args"@ == seq!['#', 'a', 'r', 'g', 's'], "#rest"@ == seq!['#', 'r', 'e', 's', 't'],
        is_prop(k) ==> !is_plain(k) && !is_list(k), is_list(k) ==> !is_plain(k),
{
    reveal_strlit("#@"); reveal_strlit("#"); reveal_strlit("#args"); reveal_strlit("#rest");
    assert("#@"@ =~= seq!['#', '@']); assert("#"@ =~= seq!['#']); assert("#args"@ =~= seq!['#', 'a', 'r', 'g', 's']); assert("#rest"@ =~= seq!['#', 'r', 'e', 's', 't']);
    if is_prop(k) { assert(k.take(2)[0] == k[0] && k.take(2)[1] == k[1]); assert(k.take(1) =~= seq!['#']); }
    if is_list(k) { assert(k.take(1) =~= seq!['#']); assert(k.take(2)[1] == k[1]); }
}
// ---- the scalar methods do what `done` says
proof fn scalar_value(v: KdlValue, d: Data)
    ensures is_value(v, d) ==> value_done(Tree::Scalar(d), Ok(v)),
{}
proof fn scalar_args(a: KdlNode, b: KdlNode, d: Data)
    ensures pushed(a, b, d) ==> args_done(a, b, Tree::Scalar(d), Ok(())),
{
    if pushed(a, b, d) {
        assert(b.entries@.take(a.entries@.len() as int) =~= b.entries@.drop_last());
        if bare_node(a) { assert forall|k: int| 0 <= k < b.entries@.len() implies bare_entry(#[trigger] b.entries@[k]) by { if k < a.entries@.len() { assert(b.entries@[k] == a.entries@[k]); } } }
    }
}
proof fn scalar_doc(a: KdlDocument, b: KdlDocument, d: Data)
    ensures appended(a, b, d) && !(d is Null) ==> doc_done(a, b, Tree::Scalar(d), Ok(())),
{
    if appended(a, b, d) && bare_doc(a) { assert forall|k: int| 0 <= k < b.nodes@.len() implies bare_node(#[trigger] b.nodes@[k]) by { if k < a.nodes@.len() { assert(b.nodes@[k] == b.nodes@.drop_last()[k]); } } }
}
