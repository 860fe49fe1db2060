// ---- What the property says.
pub mod vx_fb {
use super::*;
use super::kdlv1;
/// `b` says what the KDL 1 value `a` says.
pub open spec fn value1(a: kdlv1::KdlValue, b: KdlValue) -> bool {
    match a {
        kdlv1::KdlValue::RawString(s) => b == KdlValue::String(s),
        kdlv1::KdlValue::String(s) => b == KdlValue::String(s),
        kdlv1::KdlValue::Base2(i) => b == KdlValue::Integer(i as i128),
        kdlv1::KdlValue::Base8(i) => b == KdlValue::Integer(i as i128),
        kdlv1::KdlValue::Base10(i) => b == KdlValue::Integer(i as i128),
        kdlv1::KdlValue::Base16(i) => b == KdlValue::Integer(i as i128),
        kdlv1::KdlValue::Base10Float(f) => b == KdlValue::Float(f),
        kdlv1::KdlValue::Bool(x) => b == KdlValue::Bool(x),
        kdlv1::KdlValue::Null => b == KdlValue::Null,
    }
}
pub open spec fn text1(o: Option<String>) -> Seq<char> { match o { Some(x) => x@, None => Seq::empty() } }
pub open spec fn ident1(a: kdlv1::KdlIdentifier, b: KdlIdentifier) -> bool { b.value@ == a.v@ && (a.repr is Some <==> b.repr is Some) && (a.repr matches Some(x) ==> b.repr matches Some(y) && x@ == y@) }
pub open spec fn oident1(a: Option<kdlv1::KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => ident1(x, y), _ => false } }
pub open spec fn entry1(a: kdlv1::KdlEntry, b: KdlEntry) -> bool { oident1(a.ty, b.ty) && oident1(a.name, b.name) && value1(a.value, b.value) && (b.format matches Some(f) && entry_format1(a, f)) }
/// The text of the value and around the entry is the KDL 1 entry's.
pub open spec fn entry_format1(a: kdlv1::KdlEntry, f: KdlEntryFormat) -> bool {
    &&& f.value_repr@ == text1(a.value_repr) && f.leading@ == text1(a.leading) && f.trailing@ == text1(a.trailing)
    &&& f.after_ty@.len() == 0 && f.before_ty_name@.len() == 0 && f.after_ty_name@.len() == 0 && f.after_key@.len() == 0 && f.after_eq@.len() == 0
}
/// The text around the node is the KDL 1 node's, with a line end where it had no end of its own.
pub open spec fn node_format1(a: kdlv1::KdlNode, f: KdlNodeFormat) -> bool {
    &&& f.leading@ == text1(a.leading) && f.before_children@ == text1(a.before_children)
    &&& f.before_ty_name@.len() == 0 && f.after_ty_name@.len() == 0 && f.after_ty@.len() == 0
    &&& f.before_terminator@ + f.terminator@ + f.trailing@ == text1(a.trailing) || f.before_terminator@ + f.terminator@ + f.trailing@ == text1(a.trailing) + seq!['\n']
}
pub open spec fn doc_format1(a: kdlv1::KdlDocument, f: KdlDocumentFormat) -> bool { f.leading@ == text1(a.leading) && f.trailing@ == text1(a.trailing) }
pub open spec fn node1(a: kdlv1::KdlNode, b: KdlNode) -> bool
    decreases a
{
    &&& oident1(a.ty, b.ty)
    &&& ident1(a.name, b.name) && (b.format matches Some(f) && node_format1(a, f))
    &&& b.entries@.len() == a.entries@.len()
    &&& forall|i: int| 0 <= i < a.entries@.len() ==> entry1(a.entries@[i], #[trigger] b.entries@[i])
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc1(x, y), _ => false }
}
/// The document has the nodes, types, names, entries, values and children the KDL 1 document has, in order.
pub open spec fn doc1(a: kdlv1::KdlDocument, b: KdlDocument) -> bool
    decreases a
{
    &&& b.format matches Some(f) && doc_format1(a, f)
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|i: int| 0 <= i < a.nodes@.len() ==> node1(a.nodes@[i], #[trigger] b.nodes@[i])
}
// The conversions written x.into().
impl kdlv1::KdlIdentifier { pub fn vx_into(self) -> (r: KdlIdentifier) ensures ident1(self, r), { KdlIdentifier::vx_from1(self) } }
impl kdlv1::KdlValue { pub fn vx_into(self) -> (r: KdlValue) ensures value1(self, r), { KdlValue::vx_from1(self) } }
impl kdlv1::KdlEntry { pub fn vx_into(self) -> (r: KdlEntry) ensures entry1(self, r), { KdlEntry::vx_from1(self) } }
impl kdlv1::KdlNode { pub fn vx_into(self) -> (r: KdlNode) ensures node1(self, r), decreases self, 1int, { KdlNode::vx_from1(self) } }
impl kdlv1::KdlDocument { pub fn vx_into(self) -> (r: KdlDocument) ensures doc1(self, r), decreases self, 1int, { KdlDocument::vx_from1(self) } }
impl kdlv1::KdlError { pub fn vx_into(self) -> (r: KdlError) ensures r.input@ == self.input@, r.diagnostics@.len() > 0, forall|k: int| 0 <= k < r.diagnostics@.len() ==> (#[trigger] r.diagnostics@[k]).input@ == self.input@, { KdlError::vx_from1(self) } }
impl VxInto<i128> for i64 { open spec fn into_ens(self, r: i128) -> bool { r == self } fn vx_into(self) -> (r: i128) { self as i128 } }
/// An error about this text.
pub open spec fn about(e: KdlError, t: Seq<char>) -> bool { e.input@ == t && e.diagnostics@.len() > 0 && forall|k: int| 0 <= k < e.diagnostics@.len() ==> (#[trigger] e.diagnostics@[k]).input@ == t }
// The heuristic that picks which error to give back; nothing here depends on what it says.
#[verifier::external_body]
pub fn vx_detect(s: &str) -> bool { unimplemented!() }
// Text operations on what is only formatting: nothing is assumed of their results.
/// How long the text is in bytes.
pub uninterp spec fn blen(s: Seq<char>) -> nat;
pub trait VxText {
    fn vx_contains<P>(&self, p: P) -> bool;
    fn vx_replace(&self, a: &str, b: &str) -> String;
    fn vx_replacen(&self, a: char, b: &str, n: usize) -> String;
    fn vx_without(&self, c: char) -> String;
    fn vx_ends_with<P>(&self, p: P) -> bool;
    fn vx_starts_with<P>(&self, p: P) -> bool;
}
//@ macro txt #[verifier::external_body] fn vx_contains<P>(&self, p: P) -> bool { unimplemented!() } #[verifier::external_body] fn vx_replace(&self, a: &str, b: &str) -> String { unimplemented!() } #[verifier::external_body] fn vx_replacen(&self, a: char, b: &str, n: usize) -> String { unimplemented!() } #[verifier::external_body] fn vx_without(&self, c: char) -> String { unimplemented!() } #[verifier::external_body] fn vx_ends_with<P>(&self, p: P) -> bool { unimplemented!() } #[verifier::external_body] fn vx_starts_with<P>(&self, p: P) -> bool { unimplemented!() }
impl VxText for str { @txt()@ }
impl VxText for String { @txt()@ }
pub trait VxCut {
    spec fn vx_chars(&self) -> Seq<char>;
    fn vx_trim_end(&self) -> (r: &str) ensures r@.is_prefix_of(self.vx_chars());
    fn vx_trim_end_matches<P>(&self, p: P) -> (r: &str) ensures r@.is_prefix_of(self.vx_chars());
    fn vx_blen(&self) -> (r: usize) ensures r == blen(self.vx_chars());
    fn vx_split_at(&self, at: usize) -> (r: (&str, &str)) requires exists|k: int| 0 <= k <= self.vx_chars().len() && at == #[trigger] blen(self.vx_chars().take(k)) ensures r.0@ + r.1@ == self.vx_chars();
}
impl VxCut for str {
    open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches<P>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_blen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, at: usize) -> (r: (&str, &str)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_newlines() -> &'static [&'static str] { unimplemented!() }
impl VxInto<SourceSpan> for (usize, usize) {
    open spec fn into_ens(self, r: SourceSpan) -> bool { r.offset == self.0 && r.length == self.1 }
    fn vx_into(self) -> (r: SourceSpan) { SourceSpan { offset: self.0, length: self.1 } }
}
impl VxInto<usize> for usize { open spec fn into_ens(self, r: usize) -> bool { r == self } fn vx_into(self) -> (r: usize) { self } }
// a string of these characters
pub trait VxCollected { fn vx_text(self) -> String; }
impl VxCollected for Vec<char> {
    #[verifier::external_body]
    fn vx_text(self) -> String { unimplemented!() }
}
//@ rewrite `.into()` => `.vx_into()`
//@ rewrite `.collect()` => `.vx_collect()`
//@ rewrite `.collect::<String>()` => `.vx_collect().vx_text()`
//@ rewrite `s.parse()` => `kdlv1::vx_parse(s)`
//@ rewrite `SourceSpan::new` => `SourceSpan::vx_new`
//@ rewrite `.offset()` => `.offset`

//@ source src/value.rs
//@ fn <From<kdlv1::KdlValue> for KdlValue>::from as vx_from1 ret r
    ensures value1(value, r),
//@ end
//@ source src/identifier.rs
//@ fn <From<kdlv1::KdlIdentifier> for KdlIdentifier>::from as vx_from1 ret r
    ensures ident1(value, r),
//@ end
//@ source src/entry.rs
//@ rewrite `Default::default()` => `VxDefault::vx_default()`
//@ fn <From<kdlv1::KdlEntry> for KdlEntry>::from as vx_from1 ret r
    ensures entry1(value, r),
//@ hint top
    proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); }
//@ end
//@ source src/node.rs
//@ rewrite `.contains` => `.vx_contains`
//@ rewrite `.replace(';', "")` => `.vx_without(';')`
//@ rewrite `.replace` => `.vx_replace`
//@ rewrite `.replacen` => `.vx_replacen`
//@ rewrite `.ends_with` => `.vx_ends_with`
//@ rewrite `.starts_with` => `.vx_starts_with`
//@ rewrite `.trim_end()` => `.vx_trim_end()`
//@ rewrite `.trim_end_matches` => `.vx_trim_end_matches`
//@ rewrite `.split_at` => `.vx_split_at`
//@ rewrite `before.len()` => `before.vx_blen()`
//@ rewrite `v2_parser::NEWLINES` => `vx_newlines()`
//@ fn <From<kdlv1::KdlNode> for KdlNode>::from as vx_from1 ret r
    ensures node1(value, r),
    decreases value, 0int,
//@ hint top
    proof { reveal_strlit(""); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); assert(""@ =~= Seq::empty()); }
//@ hint `let before = ..` before
    let ghost vx_t = text1(value.trailing);
//@ hint `let before = ..` after
    proof { assert(trailing@ =~= vx_t); assert(trailing@.take(before@.len() as int) =~= before@); assert(trailing.vx_chars() == trailing@); assert(blen(trailing.vx_chars().take(before@.len() as int)) == blen(before@)); }
//@ hint `let (before_terminator, terminator) = if..` after
    assert(before_terminator@ + terminator@ + ""@ =~= vx_t || before_terminator@ + terminator@ + ""@ =~= vx_t + seq!['\n']);
//@ loop `for vx_x in value.entries().iter()`
    invariant
        it.snapshot@.remaining().len() == value.entries@.len(),
        forall|j: int| 0 <= j < value.entries@.len() ==> *(#[trigger] it.snapshot@.remaining()[j]) == value.entries@[j],
        vx_out@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> entry1(value.entries@[j], #[trigger] vx_out@[j]),
//@ end
//@ source src/document.rs
//@ fn <From<kdlv1::KdlDocument> for KdlDocument>::from as vx_from1 ret r
    ensures doc1(value, r),
    decreases value, 0int,
//@ hint top
    proof { reveal_strlit(""); assert(""@ =~= Seq::empty()); }
//@ loop `for vx_x in value.nodes().iter()`
    invariant
        it.snapshot@.remaining().len() == value.nodes@.len(),
        forall|j: int| 0 <= j < value.nodes@.len() ==> *(#[trigger] it.snapshot@.remaining()[j]) == value.nodes@[j],
        vx_out@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> node1(value.nodes@[j], #[trigger] vx_out@[j]),
//@ hint `let vx_x = ..` before
    proof { assert(decreases_to!(value => value.nodes@[it.index@ as int])); }
//@ end
//@ source src/error.rs
//@ rewrite `format!("{}", value.kind)` => `value.kind.vx_show()`
//@ fn <From<kdlv1::KdlError> for KdlError>::from as vx_from1 ret r
    ensures r.input@ == value.input@, r.diagnostics@.len() > 0, forall|k: int| 0 <= k < r.diagnostics@.len() ==> (#[trigger] r.diagnostics@[k]).input@ == value.input@,
//@ end
//@ source src/identifier.rs
//@ fn KdlIdentifier::parse_v1 ret r
    ensures r is Ok <==> kdlv1::read_ident(s@) is Ok, r matches Ok(v) ==> ident1(kdlv1::read_ident(s@)->Ok_0, v), r matches Err(e) ==> about(e, s@),
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::parse_v1 ret r
    ensures r is Ok <==> kdlv1::read_entry(s@) is Ok, r matches Ok(v) ==> entry1(kdlv1::read_entry(s@)->Ok_0, v), r matches Err(e) ==> about(e, s@),
//@ end
//@ fn KdlEntry::parse ret r
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node_entry, s)` => `try_parse_padded_node_entry(s)`
//@ rewrite `detect_v1` => `vx_detect`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (entry_text(s@) is Some || kdlv1::read_entry(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        entry_text(s@) is Some ==> (r matches Ok(v) && entry_full(v, entry_text(s@)->Some_0, s@)),
        entry_text(s@) is None && kdlv1::read_entry(s@) is Ok ==> (r matches Ok(v) && entry1(kdlv1::read_entry(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
//@ fn <FromStr for KdlEntry>::from_str as vx_from_str2 ret r
//@ rewrite `Self::Err` => `KdlError`
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node_entry, s)` => `try_parse_padded_node_entry(s)`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (entry_text(s@) is Some || kdlv1::read_entry(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        entry_text(s@) is Some ==> (r matches Ok(v) && entry_full(v, entry_text(s@)->Some_0, s@)),
        entry_text(s@) is None && kdlv1::read_entry(s@) is Ok ==> (r matches Ok(v) && entry1(kdlv1::read_entry(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
//@ source src/node.rs
//@ fn KdlNode::parse_v1 ret r
    ensures r is Ok <==> kdlv1::read_node(s@) is Ok, r matches Ok(v) ==> node1(kdlv1::read_node(s@)->Ok_0, v), r matches Err(e) ==> about(e, s@),
//@ end
//@ fn KdlNode::parse ret r
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node, s)` => `try_parse_padded_node(s)`
//@ rewrite `detect_v1` => `vx_detect`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (node_text(s@) is Some || kdlv1::read_node(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        node_text(s@) is Some ==> (r matches Ok(v) && node_full(v, node_text(s@)->Some_0, s@)),
        node_text(s@) is None && kdlv1::read_node(s@) is Ok ==> (r matches Ok(v) && node1(kdlv1::read_node(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
//@ fn <FromStr for KdlNode>::from_str as vx_from_str2 ret r
//@ rewrite `Self::Err` => `KdlError`
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node, input)` => `try_parse_padded_node(input)`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (node_text(input@) is Some || kdlv1::read_node(input@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        node_text(input@) is Some ==> (r matches Ok(v) && node_full(v, node_text(input@)->Some_0, input@)),
        node_text(input@) is None && kdlv1::read_node(input@) is Ok ==> (r matches Ok(v) && node1(kdlv1::read_node(input@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, input@),
//@ end
//@ source src/document.rs
//@ fn KdlDocument::parse_v1 ret r
    ensures r is Ok <==> kdlv1::read_doc(s@) is Ok, r matches Ok(v) ==> doc1(kdlv1::read_doc(s@)->Ok_0, v), r matches Err(e) ==> about(e, s@),
//@ end
//@ fn KdlDocument::parse ret r
//@ rewrite `v2_parser::try_parse(v2_parser::document, s)` => `try_parse_document(s)`
//@ rewrite `detect_v1` => `vx_detect`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (doc_text(s@) is Some || kdlv1::read_doc(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        doc_text(s@) is Some ==> (r matches Ok(v) && doc_full(v, doc_text(s@)->Some_0, s@)),
        doc_text(s@) is None && kdlv1::read_doc(s@) is Ok ==> (r matches Ok(v) && doc1(kdlv1::read_doc(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
//@ fn <FromStr for KdlDocument>::from_str as vx_from_str2 ret r
//@ rewrite `Self::Err` => `KdlError`
//@ rewrite `v2_parser::try_parse(v2_parser::document, s)` => `try_parse_document(s)`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (doc_text(s@) is Some || kdlv1::read_doc(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        doc_text(s@) is Some ==> (r matches Ok(v) && doc_full(v, doc_text(s@)->Some_0, s@)),
        doc_text(s@) is None && kdlv1::read_doc(s@) is Ok ==> (r matches Ok(v) && doc1(kdlv1::read_doc(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
//@ source src/identifier.rs
//@ fn KdlIdentifier::parse ret r
//@ rewrite `v2_parser::try_parse(v2_parser::identifier, s)` => `try_parse_identifier(s)`
//@ rewrite `detect_v1` => `vx_detect`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (name_text(s@) is Some || kdlv1::read_ident(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        name_text(s@) is Some ==> (r matches Ok(v) && ident_full(v, name_text(s@)->Some_0, s@)),
        name_text(s@) is None && kdlv1::read_ident(s@) is Ok ==> (r matches Ok(v) && ident1(kdlv1::read_ident(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
//@ fn <FromStr for KdlIdentifier>::from_str as vx_from_str2 ret r
//@ rewrite `Self::Err` => `KdlError`
//@ rewrite `v2_parser::try_parse(v2_parser::identifier, s)` => `try_parse_identifier(s)`
    ensures
        // it succeeds exactly when the text is KDL 2 or KDL 1
        r is Ok <==> (name_text(s@) is Some || kdlv1::read_ident(s@) is Ok),
        // the KDL 2 reading when there is one, and otherwise the KDL 1 reading
        name_text(s@) is Some ==> (r matches Ok(v) && ident_full(v, name_text(s@)->Some_0, s@)),
        name_text(s@) is None && kdlv1::read_ident(s@) is Ok ==> (r matches Ok(v) && ident1(kdlv1::read_ident(s@)->Ok_0, v)),
        // otherwise an error about this very text
        r matches Err(e) ==> about(e, s@),
//@ end
