// ---- Conversion between the versions (C16).
pub mod vx_cv {
use super::*;
use super::kdlv1;
// ---- What the property says.
/// This text is a KDL 2 string, read by itself, of these characters.
pub open spec fn str_text(t: Seq<char>, s: Seq<char>) -> bool { sp_string(t, 0) == Out::Ok(t.len() as int) && sv_string(t, 0) == s }
/// The kdl 4 crate reads this text as a name, and as an argument, of these characters.
pub open spec fn name1(t: Seq<char>, s: Seq<char>) -> bool { kdlv1::read_ident(t) matches Ok(i) && i.v@ == s }
pub open spec fn arg1(t: Seq<char>, s: Seq<char>) -> bool { kdlv1::read_entry(t) matches Ok(e) && e.name is None && str1(e.value, s) }
pub open spec fn str1(v: kdlv1::KdlValue, s: Seq<char>) -> bool { match v { kdlv1::KdlValue::String(x) => x@ == s, kdlv1::KdlValue::RawString(x) => x@ == s, _ => false } }
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] } }
pub open spec fn null_text() -> Seq<char> { seq!['n', 'u', 'l', 'l'] }
/// A name in KDL 2 form: the same name, written as KDL 2 reads it.
pub open spec fn name_to2(a: KdlIdentifier, b: KdlIdentifier) -> bool { b.value@ == a.value@ && (b.repr matches Some(r) ==> str_text(r@, b.value@)) }
pub open spec fn oname_to2(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => name_to2(x, y), _ => false } }
pub open spec fn name_to1(a: KdlIdentifier, b: KdlIdentifier) -> bool { b.value@ == a.value@ && (b.repr matches Some(r) && name1(r@, b.value@)) }
pub open spec fn oname_to1(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => name_to1(x, y), _ => false } }
/// The text of a value after conversion, given the text before.
pub open spec fn repr_to2(v: KdlValue, old: Seq<char>, new: Seq<char>) -> bool {
    match v { KdlValue::String(s) => str_text(new, s@), KdlValue::Integer(_) => new == old, KdlValue::Float(_) => new == old, _ => new == pr_value(v) }
}
pub open spec fn repr_to1(v: KdlValue, old: Option<Seq<char>>, new: Seq<char>) -> bool {
    match v {
        KdlValue::String(s) => arg1(new, s@),
        KdlValue::Bool(b) => new == bool_text(b),
        KdlValue::Null => new == null_text(),
        KdlValue::Integer(i) => match old { Some(o) => new == o, None => new == pr_int(i as int) },
        KdlValue::Float(_) => old matches Some(o) ==> new == o,
    }
}
pub open spec fn entry_to2(a: KdlEntry, b: KdlEntry) -> bool {
    &&& b.value == a.value && b.span == a.span && oname_to2(a.name, b.name) && oname_to2(a.ty, b.ty)
    &&& match (a.format, b.format) { (None, None) => true, (Some(f), Some(g)) => g == (KdlEntryFormat { value_repr: g.value_repr, ..f }) && repr_to2(a.value, f.value_repr@, g.value_repr@), _ => false }
}
/// The space around an entry stays; KDL 1 has none inside it.
pub open spec fn entry_space1(f: KdlEntryFormat, g: KdlEntryFormat) -> bool {
    &&& g.leading == f.leading && g.trailing == f.trailing && g.autoformat_keep == f.autoformat_keep
    &&& g.after_ty@.len() == 0 && g.before_ty_name@.len() == 0 && g.after_ty_name@.len() == 0 && g.after_key@.len() == 0 && g.after_eq@.len() == 0
}
/// The space around a node and its terminator stay; KDL 1 has no space inside its type annotation.
pub open spec fn node_space1(a: Option<KdlNodeFormat>, b: Option<KdlNodeFormat>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(f), Some(g)) => g == (KdlNodeFormat { before_ty_name: g.before_ty_name, after_ty_name: g.after_ty_name, after_ty: g.after_ty, ..f }) && no_ty_space(g),
        _ => false,
    }
}
pub open spec fn no_ty_space(g: KdlNodeFormat) -> bool { g.before_ty_name@.len() == 0 && g.after_ty_name@.len() == 0 && g.after_ty@.len() == 0 }
pub open spec fn entry_to1(a: KdlEntry, b: KdlEntry) -> bool {
    &&& b.value == a.value && b.span == a.span && oname_to1(a.name, b.name) && oname_to1(a.ty, b.ty)
    &&& match (a.format, b.format) {
        (None, Some(g)) => repr_to1(a.value, None, g.value_repr@) && g.leading@ == seq![' '] && g.trailing@.len() == 0 && g.after_ty@.len() == 0 && g.before_ty_name@.len() == 0 && g.after_ty_name@.len() == 0 && g.after_key@.len() == 0 && g.after_eq@.len() == 0,
        (Some(f), Some(g)) => entry_space1(f, g) && repr_to1(a.value, Some(f.value_repr@), g.value_repr@),
        _ => false,
    }
}
/// In KDL 2 form: what it holds stays, and every name and value reads in KDL 2 as what it is.
pub open spec fn node_to2(a: KdlNode, b: KdlNode) -> bool
    decreases a
{
    &&& oname_to2(a.ty, b.ty) && name_to2(a.name, b.name) && b.span == a.span && b.format == a.format
    &&& b.entries@.len() == a.entries@.len()
    &&& forall|i: int| 0 <= i < a.entries@.len() ==> entry_to2(a.entries@[i], #[trigger] b.entries@[i])
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc_to2(x, y), _ => false }
}
pub open spec fn doc_to2(a: KdlDocument, b: KdlDocument) -> bool
    decreases a
{
    &&& b.span == a.span && b.format == a.format
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|i: int| 0 <= i < a.nodes@.len() ==> node_to2(a.nodes@[i], #[trigger] b.nodes@[i])
}
/// In KDL 1 form: what it holds stays, and every name and value reads in KDL 1 as what it is.
pub open spec fn node_to1(a: KdlNode, b: KdlNode) -> bool
    decreases a
{
    &&& oname_to1(a.ty, b.ty) && name_to1(a.name, b.name) && b.span == a.span
    &&& b.entries@.len() == a.entries@.len()
    &&& forall|i: int| 0 <= i < a.entries@.len() ==> entry_to1(a.entries@[i], #[trigger] b.entries@[i])
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc_to1(x, y), _ => false }
}
/// The last node of a document gets a terminator when it had none.
pub open spec fn last_format(a: Option<KdlNodeFormat>, b: Option<KdlNodeFormat>) -> bool {
    match (a, b) {
        (Some(f), Some(g)) => node_space1(Some(KdlNodeFormat { terminator: g.terminator, ..f }), b) && g.terminator@ == (if f.terminator@.len() == 0 { seq![';'] } else { f.terminator@ }),
        (None, Some(g)) => no_ty_space(g) && g.before_children@.len() == 0 && g.before_terminator@.len() == 0 && g.terminator@ == seq!['\n'] && g.trailing@.len() == 0,
        _ => false,
    }
}
pub open spec fn doc_to1(a: KdlDocument, b: KdlDocument) -> bool
    decreases a
{
    &&& b.span == a.span && b.format == a.format
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|i: int| 0 <= i < a.nodes@.len() ==> node_to1(a.nodes@[i], #[trigger] b.nodes@[i])
    &&& forall|i: int| 0 <= i < a.nodes@.len() - 1 ==> node_space1(a.nodes@[i].format, (#[trigger] b.nodes@[i]).format)
    &&& a.nodes@.len() > 0 ==> last_format(a.nodes@.last().format, b.nodes@.last().format)
}
/// ... before the space inside its type annotation is left out.
pub open spec fn vx_last_mid(a: Option<KdlNodeFormat>, b: Option<KdlNodeFormat>) -> bool {
    match (a, b) {
        (Some(f), Some(g)) => g == (KdlNodeFormat { terminator: g.terminator, ..f }) && g.terminator@ == (if f.terminator@.len() == 0 { seq![';'] } else { f.terminator@ }),
        (None, Some(g)) => g.leading@.len() >= 0 && no_ty_space(g) && g.before_children@.len() == 0 && g.before_terminator@.len() == 0 && g.terminator@ == seq!['\n'] && g.trailing@.len() == 0,
        _ => false,
    }
}
// What the KDL 2 writer writes for a string is read as that string.
pub proof fn lemma_canonical(v: KdlValue)
    ensures v matches KdlValue::String(s) ==> str_text(pr_value(v), s@),
{
    hide(sp_string); hide(sv_string);
    if let KdlValue::String(s) = v {
        let t = pr_string(s@);
        assert(t.subrange(0, t.len() as int) =~= t);
        assert(is_at(t, 0, t));
        assert(sp_vterm(t, t.len() as int) is Ok);
        lemma_string_reads(t, 0, s@);
    }
}
// ---- What is assumed of the kdl 4 crate's writer: a string it writes in quotes, and what it writes for a name that
// KDL 2 would write bare, it reads back.
impl kdlv1::KdlIdentifier {
    #[verifier::external_body]
    pub fn vx_of(s: &str) -> (r: kdlv1::KdlIdentifier) ensures r.v@ == s@, r.repr is None, { unimplemented!() }
}
impl kdlv1::KdlValue {
    #[verifier::external_body]
    pub fn vx_text(&self) -> (r: String)
        ensures *self matches kdlv1::KdlValue::String(s) ==> arg1(r@, s@) && name1(r@, s@),
            *self matches kdlv1::KdlValue::Bool(b) ==> r@ == bool_text(b), *self is Null ==> r@ == null_text(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_string(&self) -> (r: Option<&str>) ensures r matches Some(x) ==> str1(*self, x@), { unimplemented!() }
}
// x.to_string(): of text, numbers and truth values as the standard library writes them, of the kdl 4 crate's types as above
pub trait VxOwn {
    spec fn text_is(&self, r: Seq<char>) -> bool;
    fn vx_own(&self) -> (r: String) ensures self.text_is(r@);
}
impl VxOwn for str { open spec fn text_is(&self, r: Seq<char>) -> bool { r == self@ } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
impl VxOwn for String { open spec fn text_is(&self, r: Seq<char>) -> bool { r == self@ } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
impl VxOwn for bool { open spec fn text_is(&self, r: Seq<char>) -> bool { r == bool_text(*self) } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
impl VxOwn for i128 { open spec fn text_is(&self, r: Seq<char>) -> bool { r == pr_int(*self as int) } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
impl VxOwn for kdlv1::KdlIdentifier {
    open spec fn text_is(&self, r: Seq<char>) -> bool { self.repr is None && plain(self.v@) ==> name1(r, self.v@) }
    #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() }
}
impl VxOwn for kdlv1::KdlValue {
    open spec fn text_is(&self, r: Seq<char>) -> bool {
        match *self { kdlv1::KdlValue::String(s) => arg1(r, s@) && name1(r, s@), kdlv1::KdlValue::Bool(b) => r == bool_text(b), kdlv1::KdlValue::Null => r == null_text(), _ => true }
    }
    #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() }
}
// what Display writes (unit print)
impl VxOwn for KdlDocument { open spec fn text_is(&self, r: Seq<char>) -> bool { r == pr_doc(*self, 0) } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
pub trait VxRef { spec fn of(self, r: Seq<char>) -> bool; fn vx_str(self) -> (r: String) ensures self.of(r@); }
impl<'a> VxRef for &'a str { open spec fn of(self, r: Seq<char>) -> bool { r == self@ } fn vx_str(self) -> (r: String) { self.vx_own() } }
impl VxRef for String { open spec fn of(self, r: Seq<char>) -> bool { r == self@ } fn vx_str(self) -> (r: String) { self } }
pub fn vx_string<T: VxRef>(s: T) -> (r: String) ensures s.of(r@), { s.vx_str() }
// ---- Text operations the heuristics use: nothing is assumed of their results.
pub trait VxHeur {
    fn vx_trim(&self) -> &str;
    fn vx_strip(&self, c: char) -> Option<&str>;
    fn vx_has_nl(&self) -> bool;
    fn vx_has(&self, p: &str) -> bool;
    fn vx_starts<P>(&self, p: P) -> bool;
    fn vx_sub(&self, a: &str, b: &str) -> String;
    fn vx_subc(&self, a: char, b: &str) -> String;
    fn vx_subn(&self, a: char, b: &str, n: usize) -> String;
    fn vx_backwards(&self) -> String;
    fn vx_last_indent(&self) -> String;
}
//@ macro op #[verifier::external_body] fn vx_trim(&self) -> &str { unimplemented!() } #[verifier::external_body] fn vx_strip(&self, c: char) -> Option<&str> { unimplemented!() } #[verifier::external_body] fn vx_has_nl(&self) -> bool { unimplemented!() } #[verifier::external_body] fn vx_has(&self, p: &str) -> bool { unimplemented!() } #[verifier::external_body] fn vx_starts<P>(&self, p: P) -> bool { unimplemented!() } #[verifier::external_body] fn vx_sub(&self, a: &str, b: &str) -> String { unimplemented!() } #[verifier::external_body] fn vx_subc(&self, a: char, b: &str) -> String { unimplemented!() } #[verifier::external_body] fn vx_subn(&self, a: char, b: &str, n: usize) -> String { unimplemented!() } #[verifier::external_body] fn vx_backwards(&self) -> String { unimplemented!() } #[verifier::external_body] fn vx_last_indent(&self) -> String { unimplemented!() }
impl VxHeur for str { @op()@ }
impl VxHeur for String { @op()@ }
// format!("r{s}") and format!("\"{val}\"")
#[verifier::external_body]
pub fn vx_glue(a: &str, b: &str, c: &str) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
// The last two elements, from the end.
#[verifier::external_body]
pub fn vx_last_two<'a>(v: &'a mut Vec<KdlNode>) -> (r: (Option<&'a mut KdlNode>, Option<&'a mut KdlNode>))
    ensures
        final(v)@.len() == old(v)@.len(),
        r.0 is Some <==> old(v)@.len() > 0, r.1 is Some <==> old(v)@.len() > 1,
        r.0 matches Some(x) ==> *x == old(v)@.last() && *final(x) == final(v)@.last(),
        r.1 matches Some(x) ==> *x == old(v)@[old(v)@.len() - 2] && *final(x) == final(v)@[old(v)@.len() - 2],
        forall|k: int| 0 <= k < old(v)@.len() - 2 ==> #[trigger] final(v)@[k] == old(v)@[k],
{ unimplemented!() }
pub fn vx_is_some(a: Option<&str>, b: &String) -> (r: bool) ensures r ==> (a matches Some(x) && x@ == b@), { match a { Some(x) => vx_same(x, b), None => false } }
#[verifier::external_body]
pub fn vx_newline_list() -> Vec<&'static str> { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_format(f: &Option<KdlEntryFormat>) -> (r: Option<KdlEntryFormat>) ensures r == *f, { unimplemented!() }
impl<'a> VxInto<String> for &'a String {
    open spec fn into_ens(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { self.clone() }
}
//@ comb on
//@ rewrite `.to_string()` => `.vx_own()`
//@ rewrite `..Default::default()` => `..VxDefault::vx_default()`
//@ source src/identifier.rs
//@ rewrite `v2_parser::try_parse(v2_parser::identifier, repr)` => `try_parse_identifier(repr)`
//@ rewrite `kdlv1::KdlIdentifier::from` => `kdlv1::KdlIdentifier::vx_of`
//@ rewrite `id.value == self.value` => `vx_same(&id.value, &self.value)`
//@ fn KdlIdentifier::value ret r
    ensures r@ == self.value@,
//@ end
//@ fn KdlIdentifier::ensure_v2
    ensures name_to2(*old(self), *final(self)), final(self).span == old(self).span,
//@ end
//@ fn KdlIdentifier::ensure_v1
    ensures name_to1(*old(self), *final(self)), final(self).span == old(self).span,
//@ end
//@ source src/entry.rs
//@ rewrite `.into()` => `.vx_into()`
//@ rewrite `self.format.clone()` => `vx_clone_format(&self.format)`
//@ rewrite `.trim()` => `.vx_trim()`
//@ rewrite `.strip_prefix` => `.vx_strip`
//@ rewrite `crate::value::is_plain_ident` => `is_plain_ident`
//@ rewrite `.find(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c))).is_some()` => `.vx_has_nl()`
//@ rewrite `.contains("\"\"\"")` => `.vx_has("\"\"\"")`
//@ rewrite `.starts_with` => `.vx_starts`
//@ rewrite `.replacen` => `.vx_subn`
//@ rewrite `.replace('/', "\\/")` => `.vx_subc('/', "\\/")`
//@ rewrite `.replace` => `.vx_sub`
//@ rewrite `.chars().rev().collect::<String>()` => `.vx_backwards()`
//@ rewrite `v2_parser::try_parse(v2_parser::string, &repr)` => `try_parse_string(&repr)`
//@ rewrite `s == *val` => `vx_same(&s, val)`
//@ fn KdlEntry::ensure_v2
    ensures entry_to2(*old(self), *final(self)),
//@ hint top
    hide(sp_string); hide(sv_string);
    proof { lemma_canonical(self.value); }
//@ end
//@ fn KdlEntry::value ret r
    ensures *r == self.value,
//@ end
//@ fn KdlEntry::ensure_v1
//@ rewrite `.chars().rev().skip_while(|c| c == &'"').take_while(|c| { v2_parser::NEWLINES.iter().any(|nl| nl.contains(*c)) }).collect::<String>()` => `.vx_last_indent()`
//@ rewrite `in v2_parser::NEWLINES` => `in vx_newline_list()`
//@ rewrite `repr.parse::<kdlv1::KdlEntry>()` => `kdlv1::vx_parse::<kdlv1::KdlEntry>(&repr)`
//@ rewrite `e.value().as_string() == Some(val)` => `vx_is_some(e.value().as_string(), val)`
    ensures entry_to1(*old(self), *final(self)),
//@ hint top
    hide(sp_string); hide(sv_string);
    proof { reveal_strlit("null"); assert("null"@ =~= null_text()); reveal_strlit(""); assert(""@ =~= Seq::empty()); reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@ end
//@ source src/node.rs
//@ rewrite `self.iter_mut()` => `&mut self.entries`
//@ fn KdlNode::ensure_v2
    ensures node_to2(*old(self), *final(self)),
    decreases *old(self),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == old(self).entries@.len(),
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *(#[trigger] it.snapshot@.remaining()[j]) == old(self).entries@[j],
        forall|j: int| 0 <= j < it.index@ ==> entry_to2(old(self).entries@[j], *final(#[trigger] it.snapshot@.remaining()[j])),
//@ hint `self.children = ..` before
    proof {
        assert(self.entries@.len() == old(self).entries@.len());
        assert forall|j: int| 0 <= j < self.entries@.len() implies entry_to2(old(self).entries@[j], #[trigger] self.entries@[j]) by {}
    }
//@ end
//@ fn KdlNode::ensure_v1
    ensures node_to1(*old(self), *final(self)), node_space1(old(self).format, final(self).format),
    decreases old(self).children,
//@ hint top
    proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); }
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == old(self).entries@.len(),
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *(#[trigger] it.snapshot@.remaining()[j]) == old(self).entries@[j],
        forall|j: int| 0 <= j < it.index@ ==> entry_to1(old(self).entries@[j], *final(#[trigger] it.snapshot@.remaining()[j])),
//@ hint `self.children = ..` before
    proof {
        assert(self.entries@.len() == old(self).entries@.len());
        assert forall|j: int| 0 <= j < self.entries@.len() implies entry_to1(old(self).entries@[j], #[trigger] self.entries@[j]) by {}
    }
//@ end
//@ fn KdlNode::format ret r
    ensures r == (match self.format { Some(f) => Some(&f), None => None }),
//@ end
//@ source src/document.rs
//@ rewrite `self.nodes_mut().iter_mut().rev()` => `vx_last_two(self.nodes_mut())`
//@ rewrite `let last = iter.next()` => `let last = iter.0`
//@ rewrite `let penult = iter.next()` => `let penult = iter.1`
//@ rewrite `self.nodes_mut().iter_mut()` => `&mut self.nodes`
//@ rewrite `fmt.trailing.contains(';')` => `fmt.trailing.vx_has(";")`
//@ rewrite `fmt.trailing.chars().any(|c| vx_any_has(vx_newlines(), c))` => `fmt.trailing.vx_has_nl()`
//@ fn KdlDocument::nodes_mut ret r
    ensures *r == old(self).nodes, *final(self) == (KdlDocument { nodes: *final(r), ..*old(self) }),
//@ end
//@ fn KdlDocument::ensure_v2
    ensures doc_to2(*old(self), *final(self)),
    decreases *old(self),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == old(self).nodes@.len(),
        final(self).nodes@.len() == old(self).nodes@.len(),
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *it.snapshot@.remaining()[j] == old(self).nodes@[j],
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).nodes@[j],
        forall|j: int| 0 <= j < it.index@ ==> node_to2(old(self).nodes@[j], final(self).nodes@[j]),
//@ hint `node.ensure_v2()` before
    proof { assert(*node == old(self).nodes@[it.index@ as int]); assert(decreases_to!(*old(self) => *node)); }
//@ end
//@ fn KdlDocument::ensure_v1
    ensures doc_to1(*old(self), *final(self)),
    decreases *old(self),
//@ hint top
    proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); reveal_strlit(";"); assert(";"@ =~= seq![';']); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == vx_mid.len(),
        final(self).nodes@.len() == vx_mid.len(),
        forall|j: int| 0 <= j < vx_mid.len() ==> *it.snapshot@.remaining()[j] == vx_mid[j],
        forall|j: int| 0 <= j < vx_mid.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).nodes@[j],
        forall|j: int| 0 <= j < it.index@ ==> node_to1(vx_mid[j], final(self).nodes@[j]) && node_space1(vx_mid[j].format, final(self).nodes@[j].format),
//@ hint `for node in ..` before
    let ghost vx_mid = self.nodes@;
    proof {
        assert(vx_mid.len() == old(self).nodes@.len());
        assert forall|j: int| 0 <= j < vx_mid.len() - 1 implies #[trigger] vx_mid[j] == old(self).nodes@[j] by { if j == vx_mid.len() - 2 {} }
        assert(vx_mid.len() > 0 ==> vx_mid.last() == (KdlNode { format: vx_mid.last().format, ..old(self).nodes@.last() }) && vx_last_mid(old(self).nodes@.last().format, vx_mid.last().format));
    }
//@ hint `node.ensure_v1()` before
    proof {
        let j = it.index@ as int;
        assert(*node == vx_mid[j]);
        assert(node.children == old(self).nodes@[j].children);
        assert(decreases_to!(*old(self) => old(self).nodes@[j]));
        assert(decreases_to!(old(self).nodes@[j] => old(self).nodes@[j].children));
    }
//@ end
}
pub use vx_cv::{doc_to2, node_to2, entry_to2, doc_to1, node_to1, entry_to1};
