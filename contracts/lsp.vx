//@ include prelude_base.vx
use std::sync::Arc;
#[derive(Clone, Copy)]
pub struct SourceSpan { pub offset: usize, pub length: usize }
impl SourceSpan {
    pub fn offset(&self) -> (r: usize) ensures r == self.offset, { self.offset }
    pub fn len(&self) -> (r: usize) ensures r == self.length, { self.length }
}
// ---- Text: bytes, UTF-16 units and lines by character.
pub open spec fn u8len(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn u16len(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
/// Bytes before character n.
pub open spec fn bytes_to(t: Seq<char>, n: int) -> nat decreases n { if n <= 0 { 0 } else { bytes_to(t, n - 1) + u8len(t[n - 1]) } }
/// UTF-16 units before character n.
pub open spec fn units_to(t: Seq<char>, n: int) -> nat decreases n { if n <= 0 { 0 } else { units_to(t, n - 1) + u16len(t[n - 1]) } }
/// The character byte b belongs to, or the end.
pub open spec fn char_at(t: Seq<char>, b: int, k: int) -> bool {
    0 <= k <= t.len() && bytes_to(t, k) <= b && (k < t.len() ==> b < bytes_to(t, k + 1))
}
/// A line ends after character i: LF, CRLF or CR.
pub open spec fn ends_line(t: Seq<char>, i: int) -> bool { t[i] == '\n' || t[i] == '\r' && !(i + 1 < t.len() && t[i + 1] == '\n') }
/// Number of lines ended before character n, and where the line of n starts.
pub open spec fn lines_to(t: Seq<char>, n: int) -> nat decreases n { if n <= 0 { 0 } else if ends_line(t, n - 1) { lines_to(t, n - 1) + 1 } else { lines_to(t, n - 1) } }
pub open spec fn start_of(t: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else if ends_line(t, n - 1) { n } else { start_of(t, n - 1) } }
pub proof fn lemma_line(t: Seq<char>, n: int)
    requires 0 <= n,
    ensures 0 <= start_of(t, n) <= n, lines_to(t, n) <= n, n <= bytes_to(t, n), n <= units_to(t, n), units_to(t, n) <= bytes_to(t, n),
    decreases n
{ if n > 0 { lemma_line(t, n - 1) } }
pub proof fn lemma_mono(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= b,
    ensures units_to(t, a) <= units_to(t, b), bytes_to(t, a) + (b - a) <= bytes_to(t, b), bytes_to(t, a) <= bytes_to(t, b), lines_to(t, a) <= lines_to(t, b),
    decreases b
{ if a < b { lemma_mono(t, a, b - 1) } }
/// There is only one such character.
pub proof fn lemma_one(t: Seq<char>, b: int, j: int, k: int)
    requires char_at(t, b, j), char_at(t, b, k),
    ensures j == k,
{ if j < k { lemma_mono(t, j + 1, k) } else if k < j { lemma_mono(t, k + 1, j) } }
/// Past the end counts as the end.
pub open spec fn clamp(t: Seq<char>, b: int) -> int { if b <= bytes_to(t, t.len() as int) { b } else { bytes_to(t, t.len() as int) as int } }
/// The position of byte offset b as the protocol counts: lines ended before it, UTF-16 units since the line's start.
pub open spec fn lsp_position(t: Seq<char>, b: int, p: Position) -> bool {
    exists|k: int| #[trigger] char_at(t, clamp(t, b), k)
        && p.line == lines_to(t, k) && p.character == units_to(t, k) - units_to(t, start_of(t, k))
}
/// Texts whose lines and columns a position can number.
pub open spec fn small(t: Seq<char>) -> bool { bytes_to(t, t.len() as int) <= u32::MAX }
// ---- ropey: a text.
#[verifier::external_body]
pub struct Rope { r: u8 }
impl View for Rope { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Rope {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Rope) ensures r@ == s@, { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: Rope) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize) ensures r == bytes_to(self@, self@.len() as int), { unimplemented!() }
    /// Panics past the end.
    #[verifier::external_body]
    pub fn byte_to_char(&self, b: usize) -> (r: usize) requires b <= bytes_to(self@, self@.len() as int), ensures char_at(self@, b as int, r as int), { unimplemented!() }
    /// Panics past the end.
    #[verifier::external_body]
    pub fn char_to_utf16_cu(&self, c: usize) -> (r: usize) requires c <= self@.len(), ensures r == units_to(self@, c as int), { unimplemented!() }
    #[verifier::external_body]
    pub fn get_char(&self, i: usize) -> (r: Option<char>) ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None }), { unimplemented!() }
    /// `chars().take(n).enumerate()`, collected.
    #[verifier::external_body]
    pub fn vx_chars(&self, n: usize) -> (r: Vec<(usize, char)>)
        ensures r@.len() == (if n <= self@.len() { n as int } else { self@.len() as int }), forall|j: int| 0 <= j < r@.len() ==> r@[j] == ((j as usize), self@[j]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_string(&self) -> (r: String) ensures r@ == self@, { unimplemented!() }
}
// ---- dashmap: a map. Its interior mutability is written as `&mut`.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DashMap<K, V> { k: K, v: V }
impl View for DashMap<String, Rope> { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl DashMap<String, Rope> {
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Rope) ensures final(self)@ == old(self)@.insert(k@, v@), { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &String) ensures final(self)@ == old(self)@.remove(k@), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&Rope>)
        ensures r is Some <==> self@.contains_key(k@), r matches Some(x) ==> x@ == self@[k@],
    { unimplemented!() }
}
// ---- lsp-types: plain data, and what the server is sent.
#[verifier::external_body]
pub struct Url { u: u8 }
impl Url {
    pub uninterp spec fn key(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_string(&self) -> (r: String) ensures r@ == self.key(), { unimplemented!() }
}
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub fn new(line: u32, character: u32) -> (r: Position) ensures r == (Position { line, character }), { Position { line, character } } }
pub struct Range { pub start: Position, pub end: Position }
impl Range { pub fn new(start: Position, end: Position) -> (r: Range) ensures r == (Range { start, end }), { Range { start, end } } }
#[derive(Clone, Copy)]
pub enum DiagnosticSeverity { ERROR, WARNING, INFORMATION, HINT }
pub enum NumberOrString { Number(i32), String(String) }
pub struct Diagnostic { pub range: Range, pub severity: Option<DiagnosticSeverity>, pub code: Option<NumberOrString>, pub source: Option<String>, pub message: String }
impl Diagnostic {
    pub fn new(range: Range, severity: Option<DiagnosticSeverity>, code: Option<NumberOrString>, source: Option<String>, message: String, related: Option<()>, tags: Option<()>) -> (r: Diagnostic)
        ensures r == (Diagnostic { range, severity, code, source, message }),
    { Diagnostic { range, severity, code, source, message } }
}
pub struct TextDocumentItem { pub uri: Url, pub text: String }
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct TextDocumentContentChangeEvent { pub text: String }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct DidChangeTextDocumentParams { pub text_document: TextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
pub struct DidSaveTextDocumentParams { pub text_document: TextDocumentIdentifier, pub text: Option<String> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
pub struct DocumentDiagnosticParams { pub text_document: TextDocumentIdentifier }
pub struct FullDocumentDiagnosticReport { pub result_id: Option<String>, pub items: Vec<Diagnostic> }
pub struct RelatedFullDocumentDiagnosticReport { pub related_documents: Option<()>, pub full_document_diagnostic_report: FullDocumentDiagnosticReport }
impl RelatedFullDocumentDiagnosticReport {
    /// Derived: every field empty.
    pub fn default() -> (r: RelatedFullDocumentDiagnosticReport) ensures r.full_document_diagnostic_report.items@.len() == 0,
    { RelatedFullDocumentDiagnosticReport { related_documents: None, full_document_diagnostic_report: FullDocumentDiagnosticReport { result_id: None, items: Vec::new() } } }
}
pub enum DocumentDiagnosticReport { Full(RelatedFullDocumentDiagnosticReport), Unchanged }
pub enum DocumentDiagnosticReportResult { Report(DocumentDiagnosticReport), Partial }
pub struct RpcError { pub code: i64 }
pub type Result<T> = std::result::Result<T, RpcError>;
// ---- kdl: the parser's diagnostics of a text. That their spans lie in it is C05's postcondition.
pub enum Severity { Advice, Warning, Error }
//@ source src/error.rs
//@ struct KdlDiagnostic
pub struct KdlDocument { d: u8 }
//@ struct KdlError
pub uninterp spec fn diagnostics_of(t: Seq<char>) -> Option<Seq<KdlDiagnostic>>;
pub uninterp spec fn message_of(d: KdlDiagnostic) -> Seq<char>;
pub uninterp spec fn code_of(d: KdlDiagnostic) -> Option<Seq<char>>;
pub uninterp spec fn severity_of(d: KdlDiagnostic) -> Option<Severity>;
impl KdlDiagnostic {
    #[verifier::external_body]
    pub fn severity(&self) -> (r: Option<Severity>) ensures r == severity_of(*self), { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_code(&self) -> (r: Option<String>) ensures (r is Some <==> code_of(*self) is Some), r matches Some(c) ==> code_of(*self) == Some(c@), { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_string(&self) -> (r: String) ensures r@ == message_of(*self), { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_parse(s: String) -> (r: std::result::Result<KdlDocument, KdlError>)
    ensures r is Ok <==> diagnostics_of(s@) is None,
        r matches Err(e) ==> diagnostics_of(s@) == Some(e.diagnostics@) && forall|i: int| 0 <= i < e.diagnostics@.len() ==> (#[trigger] e.diagnostics@[i]).span.offset + e.diagnostics@[i].span.length <= bytes_to(s@, s@.len() as int),
{ unimplemented!() }
pub open spec fn sev_lsp(s: Severity) -> DiagnosticSeverity { match s { Severity::Advice => DiagnosticSeverity::HINT, Severity::Warning => DiagnosticSeverity::WARNING, Severity::Error => DiagnosticSeverity::ERROR } }
/// What a diagnostic of text t is reported as.
pub open spec fn reported(t: Seq<char>, d: KdlDiagnostic, r: Diagnostic) -> bool {
    &&& lsp_position(t, d.span.offset as int, r.range.start) && lsp_position(t, d.span.offset + d.span.length, r.range.end)
    &&& match severity_of(d) { Some(s) => r.severity == Some(sev_lsp(s)), None => r.severity is None }
    &&& match code_of(d) { Some(c) => r.code matches Some(NumberOrString::String(x)) && x@ == c, None => r.code is None }
    &&& r.message@ == message_of(d)
}
/// Every diagnostic of the text, in order, and nothing else.
pub open spec fn reports(t: Seq<char>, r: Seq<Diagnostic>) -> bool {
    match diagnostics_of(t) {
        None => r.len() == 0,
        Some(ds) => r.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> reported(t, ds[i], #[trigger] r[i]),
    }
}
pub open spec fn items(r: DocumentDiagnosticReportResult) -> Option<Seq<Diagnostic>> {
    match r { DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(x)) => Some(x.full_document_diagnostic_report.items@), _ => None }
}
#[verifier::external_body]
pub struct Client { c: u8 }
//@ source tools/kdl-lsp/src/main.rs
//@ rewrite `miette::Severity` => `Severity`
//@ struct Backend
//@ rewrite `async fn` => `fn`
//@ rewrite `.await` => ` `
//@ rewrite `&self` => `&mut self`
//@ rewrite `ropey::Rope` => `Rope`
//@ rewrite `rope.clone()` => `rope.vx_clone()`
//@ rewrite `rope.chars().take(char_idx).enumerate()` => `rope.vx_chars(char_idx)`
//@ rewrite `rope.get_char(i + 1) != Some('\n')` => `!vx_is(rope.get_char(i + 1), '\n')`
//@ rewrite `byte_idx.min(rope.len_bytes())` => `vx_min(byte_idx, rope.len_bytes())`
//@ rewrite `.collect()` => `.vx_collect()`
//@ rewrite `uri.to_string()` => `uri.vx_string()`
//@ rewrite `diag.to_string()` => `diag.vx_string()`
//@ rewrite `diag.code().map(|c| NumberOrString::String(c.to_string()))` => `diag.vx_code().map(|c| NumberOrString::String(c))`
//@ rewrite `doc.to_string().parse()` => `vx_parse(doc.vx_string())`
//@ rewrite `tracing::debug!($a)` => `()`
//@ rewrite `tracing::debug! $a` => `()`
pub fn vx_is(o: Option<char>, c: char) -> (r: bool) ensures r == (o == Some(c)), { match o { Some(x) => x == c, None => false } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }), { if a <= b { a } else { b } }
//@ fn to_lsp_sev ret r
    ensures r == sev_lsp(sev),
//@ end
//@ fn byte_to_position ret r
    requires small(rope@),
    ensures lsp_position(rope@, byte_idx as int, r),
//@ hint `let char_idx = ..` after
    proof { lemma_mono(rope@, 0, rope@.len() as int); lemma_line(rope@, rope@.len() as int); }
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == char_idx, char_idx <= rope@.len(), small(rope@), rope@.len() <= bytes_to(rope@, rope@.len() as int),
        forall|j: int| 0 <= j < char_idx ==> it.snapshot@.remaining()[j] == ((j as usize), rope@[j]),
        line_idx == lines_to(rope@, it.index@), line_start == start_of(rope@, it.index@), lines_to(rope@, it.index@) <= it.index@, 0 <= line_start <= it.index@,
//@ hint top
    let ghost b0 = byte_idx as int;
//@ hint `let col_idx = ..` after
    proof { assert(char_at(rope@, clamp(rope@, b0), char_idx as int)); assert(col_idx <= u32::MAX); assert(col_idx == units_to(rope@, char_idx as int) - units_to(rope@, start_of(rope@, char_idx as int))); }
//@ hint `let col_idx = ..` before
    proof { assert(byte_idx as int == clamp(rope@, b0)); assert(line_start == start_of(rope@, char_idx as int)); assert(line_idx == lines_to(rope@, char_idx as int)); }
    proof { lemma_line(rope@, char_idx as int); lemma_mono(rope@, line_start as int, char_idx as int); lemma_mono(rope@, char_idx as int, rope@.len() as int); lemma_line(rope@, rope@.len() as int); assert(char_at(rope@, clamp(rope@, byte_idx as int), char_idx as int)); }
//@ end
//@ fn Backend::on_change
    ensures final(self).document_map@ == old(self).document_map@.insert(uri.key(), text@),
//@ end
//@ fn <LanguageServer for Backend>::did_open
    ensures final(self).document_map@ == old(self).document_map@.insert(params.text_document.uri.key(), params.text_document.text@),
//@ end
//@ fn <LanguageServer for Backend>::did_change
    ensures final(self).document_map@ == if params.content_changes@.len() > 0 { old(self).document_map@.insert(params.text_document.uri.key(), params.content_changes@.last().text@) } else { old(self).document_map@ },
//@ end
//@ fn <LanguageServer for Backend>::did_save
    ensures final(self).document_map@ == match params.text { Some(t) => old(self).document_map@.insert(params.text_document.uri.key(), t@), None => old(self).document_map@ },
//@ end
//@ fn <LanguageServer for Backend>::did_close
    ensures final(self).document_map@ == old(self).document_map@.remove(params.text_document.uri.key()),
//@ end
//@ fn <LanguageServer for Backend>::diagnostic ret r
    requires old(self).document_map@.contains_key(params.text_document.uri.key()) ==> small(old(self).document_map@[params.text_document.uri.key()]),
    ensures final(self).document_map@ == old(self).document_map@,
        r is Ok && items(r->Ok_0) is Some,
        old(self).document_map@.contains_key(params.text_document.uri.key()) ==> reports(old(self).document_map@[params.text_document.uri.key()], items(r->Ok_0)->Some_0),
        !old(self).document_map@.contains_key(params.text_document.uri.key()) ==> items(r->Ok_0)->Some_0.len() == 0,
//@ loop #0
    invariant
        it.snapshot@.remaining() == kdl_err.diagnostics@, diagnostics_of(doc@) == Some(kdl_err.diagnostics@), small(doc@),
        forall|i: int| 0 <= i < kdl_err.diagnostics@.len() ==> (#[trigger] kdl_err.diagnostics@[i]).span.offset + kdl_err.diagnostics@[i].span.length <= bytes_to(doc@, doc@.len() as int),
        vx_out@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> reported(doc@, kdl_err.diagnostics@[i], #[trigger] vx_out@[i]),
//@ end
} // verus!
fn main() {}
