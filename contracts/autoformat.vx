//@ include tok_pre.vx
//@ include print_spec.vx
//@ include neat_spec.vx
//@ source src/fmt.rs
//@ struct FormatConfig
//@ struct FormatConfigBuilder
pub mod vx_af {
use super::*;
use super::vx_fmt::*;
use super::vx_fmt::Result;
// ---- What is assumed of the standard library: which characters are white space, what trimming, searching and
// splitting into lines give. Only what is stated here is used of them.
pub uninterp spec fn white(c: char) -> bool;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn has(s: Seq<char>, p: Seq<char>) -> bool;
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn axiom_trimmed(s: Seq<char>)
    ensures (#[trigger] trimmed(s)).len() <= s.len(), trimmed(s).len() > 0 ==> !white(trimmed(s)[0]) && !white(trimmed(s).last()), gap(s) ==> trimmed(s).len() == 0;
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.tv());
    fn vx_trim_start(&self) -> (r: &str) ensures self.tv().len() == 0 || !white(self.tv()[0]) ==> r@ == self.tv();
    fn vx_has(&self, p: &str) -> (r: bool) ensures r == has(self.tv(), p@);
    fn vx_strip(&self, c: char) -> (r: Option<&str>) ensures r is Some <==> self.tv().len() > 0 && self.tv()[0] == c, r matches Some(x) ==> x@ == self.tv().skip(1);
    fn vx_starts(&self, c: char) -> (r: bool) ensures r == (self.tv().len() > 0 && self.tv()[0] == c);
    fn vx_lines(&self) -> (r: Vec<&str>) ensures r@.len() == lines_of(self.tv()).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == lines_of(self.tv())[k];
    fn vx_first(&self) -> (r: Option<char>) ensures r == (if self.tv().len() > 0 { Some(self.tv()[0]) } else { None });
    fn vx_none(&self) -> (r: bool) ensures r == (self.tv().len() == 0);
    fn vx_str(&self) -> (r: &str) ensures r@ == self.tv();
    fn vx_own(&self) -> (r: String) ensures r@ == self.tv();
}
//@ macro txt #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() } #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() } #[verifier::external_body] fn vx_has(&self, p: &str) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_strip(&self, c: char) -> (r: Option<&str>) { unimplemented!() } #[verifier::external_body] fn vx_starts(&self, c: char) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_lines(&self) -> (r: Vec<&str>) { unimplemented!() } #[verifier::external_body] fn vx_first(&self) -> (r: Option<char>) { unimplemented!() } #[verifier::external_body] fn vx_none(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_str(&self) -> (r: &str) { unimplemented!() } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() }
impl VxText for str { open spec fn tv(&self) -> Seq<char> { self@ } @txt()@ }
impl VxText for String { open spec fn tv(&self) -> Seq<char> { self@ } @txt()@ }
impl<'a> VxShow for &'a mut String { open spec fn shown(&self) -> Seq<char> { (**self)@ } fn vx_show(&self, f: &mut Formatter<'_>) -> (r: Result) { f.vx_put(self.as_str()) } }
#[verifier::external_body]
pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@), { a == b }
// c.is_whitespace()
#[verifier::external_body]
pub fn vx_white(c: char) -> (r: bool) ensures r == white(c), { c.is_whitespace() }
// s.insert(0, c)
#[verifier::external_body]
pub fn vx_insert(s: &mut String, k: usize, c: char)
    requires k == 0,
    ensures final(s)@ == seq![c] + old(s)@,
{ s.insert(k, c) }

// ---- What the property says: where the new formatting comes from. Names, types, values, entries and children stay.
pub open spec fn four() -> Seq<char> { seq![' ', ' ', ' ', ' '] }
impl<'a> VxDefault for FormatConfig<'a> {
    open spec fn is_default(self) -> bool { self.indent_level == 0 && self.indent@ == four() && !self.no_comments && !self.entry_autoformate_keep }
    fn vx_default() -> (r: Self) { FormatConfig::default() }
}
pub open spec fn rep(s: Seq<char>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { seq![] } else { rep(s, n - 1) + s } }
pub open spec fn lined(ls: Seq<Seq<char>>, ind: Seq<char>) -> Seq<char>
    decreases ls.len(),
{ if ls.len() == 0 { seq![] } else { let l = trimmed(ls.last()); lined(ls.drop_last(), ind) + (if l.len() == 0 { seq![] } else { ind + l + seq!['\n'] }) } }
pub open spec fn ls_ok(b: Seq<char>, s: Seq<char>, ind: Seq<char>, nc: bool) -> bool { b == before_text(s, ind, nc) }
/// Comments and the like in front of a node, one to a line; where lines carry meaning, all of it followed by a blank line.
pub open spec fn decor(s: Seq<char>, ind: Seq<char>) -> Seq<char> {
    if sensitive(s) { ind + s + seq!['\n', '\n'] } else { lined(lines_of(s), ind) }
}
pub open spec fn sensitive(s: Seq<char>) -> bool { has(s, seq!['/', '-']) && (has(s, seq!['\\']) || has(s, seq!['"', '"', '"'])) }
pub open spec fn before_text(s: Seq<char>, ind: Seq<char>, nc: bool) -> Seq<char> {
    let t = trimmed(s);
    if nc { seq![] } else if t.len() > 0 && t[0] == '\u{FEFF}' { seq!['\u{FEFF}'] + decor2(trimmed(t.skip(1)), ind) } else { decor2(t, ind) }
}
pub open spec fn decor2(s: Seq<char>, ind: Seq<char>) -> Seq<char> { if !sensitive(s) && s.len() == 0 { seq![] } else { decor(s, ind) } }
pub open spec fn lead_text(s: Seq<char>, ind: Seq<char>, nc: bool) -> Seq<char> { before_text(s, ind, nc) + ind }
pub open spec fn trail_text(s: Seq<char>, nc: bool) -> Seq<char> { if nc || trimmed(s).len() == 0 { seq![] } else { seq![' '] + trimmed(s) + seq!['\n'] } }
pub open spec fn node_trail(s: Seq<char>, nc: bool) -> Seq<char> { let t = trimmed(trail_text(s, nc)); if t.len() > 0 && !white(t[0]) { seq![' '] + t + seq!['\n'] } else { t } }
pub open spec fn ident_plain(a: KdlIdentifier, b: KdlIdentifier) -> bool { b == (KdlIdentifier { repr: None, ..a }) }
pub open spec fn oident_plain(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => ident_plain(x, y), _ => false } }
pub open spec fn entry_laid(a: KdlEntry, b: KdlEntry, keep: bool) -> bool {
    &&& b.value == a.value && b.ty == a.ty && b.span == a.span && oident_plain(a.name, b.name)
    &&& match (a.format, b.format) {
        (Some(f), Some(g)) => (keep || f.autoformat_keep) && g.value_repr@ == f.value_repr@ && g.leading@ == f.leading@ && g.trailing@.len() == 0 && g.after_ty@.len() == 0 && g.before_ty_name@.len() == 0 && g.after_ty_name@.len() == 0 && g.after_key@.len() == 0 && g.after_eq@.len() == 0,
        (Some(f), None) => !(keep || f.autoformat_keep),
        (None, None) => true,
        _ => false,
    }
}
pub open spec fn node_format_laid(a: Option<KdlNodeFormat>, b: Option<KdlNodeFormat>, ind: Seq<char>, nc: bool) -> bool {
    b matches Some(g) && {
        &&& g.before_ty_name@.len() == 0 && g.after_ty_name@.len() == 0 && g.after_ty@.len() == 0
        &&& match a {
            Some(f) => {
                &&& g.leading@ == lead_text(f.leading@, ind, nc)
                &&& g.before_terminator@ == trail_text(f.before_terminator@, nc)
                &&& g.terminator@ == (if f.terminator@.len() > 0 && f.terminator@[0] == '\n' { f.terminator@ } else { seq!['\n'] })
                &&& g.trailing@ == node_trail(f.trailing@, nc)
                &&& g.before_children@ == seq![' ']
            }
            None => g.leading@.len() == 0 && g.before_terminator@.len() == 0 && g.terminator@ == seq!['\n'] && g.trailing@.len() == 0 && g.before_children@.len() == 0,
        }
    }
}
/// A document's own formatting; `inside` is the indentation of the closing brace for what is between braces.
pub open spec fn doc_format_laid(a: Option<KdlDocumentFormat>, b: Option<KdlDocumentFormat>, ind: Seq<char>, nc: bool, nodes: bool, inside: Option<Seq<char>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(f), Some(g)) => {
            let l = lead_text(f.leading@, ind, nc);
            let t = trail_text(f.trailing@, nc) + (if nodes { seq![] } else { seq!['\n'] });
            match inside { None => g.leading@ == l && g.trailing@ == t, Some(i) => g.leading@ == trimmed(l) + seq!['\n'] && g.trailing@ == t + i }
        }
        _ => false,
    }
}
pub open spec fn node_laid(a: KdlNode, b: KdlNode, indent: Seq<char>, level: int, nc: bool, keep: bool) -> bool
    decreases a, 0int,
{
    &&& node_format_laid(a.format, b.format, rep(indent, level), nc)
    &&& b.span == a.span && ident_plain(a.name, b.name) && oident_plain(a.ty, b.ty)
    &&& b.entries@.len() == a.entries@.len()
    &&& forall|k: int| 0 <= k < a.entries@.len() ==> entry_laid(a.entries@[k], #[trigger] b.entries@[k], keep)
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc_laid(x, y, indent, level + 1, nc, keep, Some(rep(indent, level))), _ => false }
}
pub open spec fn doc_laid(a: KdlDocument, b: KdlDocument, indent: Seq<char>, level: int, nc: bool, keep: bool, inside: Option<Seq<char>>) -> bool
    decreases a, 1int,
{
    &&& doc_format_laid(a.format, b.format, rep(indent, level), nc, a.nodes@.len() > 0, inside)
    &&& b.span == a.span
    &&& nodes_laid(a, b, indent, level, nc, keep)
}
pub open spec fn nodes_laid(a: KdlDocument, b: KdlDocument, indent: Seq<char>, level: int, nc: bool, keep: bool) -> bool
    decreases a, 0int,
{
    &&& b.nodes@.len() == a.nodes@.len()
    &&& forall|k: int| 0 <= k < a.nodes@.len() ==> node_laid(a.nodes@[k], #[trigger] b.nodes@[k], indent, level, nc, keep)
}
// How deep children are nested: the indentation level has to stay a number.
pub open spec fn tall_doc(d: KdlDocument, h: int) -> bool
    decreases d,
{ forall|k: int| 0 <= k < d.nodes@.len() ==> tall(#[trigger] d.nodes@[k], h) }
pub open spec fn tall(n: KdlNode, h: int) -> bool
    decreases n,
{ h >= 0 && (n.children matches Some(c) ==> h >= 1 && tall_doc(c, h - 1)) }

// ---- With comments left out, what remains says nothing: with lemma_neat (built_spec), its text is read back as the same content.
pub proof fn lemma_gap_rep(s: Seq<char>, n: int)
    requires gap(s),
    ensures gap(rep(s, n)),
    decreases n,
{ if n > 0 { lemma_gap_rep(s, n - 1); } }
pub proof fn lemma_entry_neat(a: KdlEntry, b: KdlEntry)
    requires fit_entry(a), entry_laid(a, b, false),
    ensures neat_entry(b),
{ }
pub proof fn lemma_node_neat(a: KdlNode, b: KdlNode, indent: Seq<char>, level: int)
    requires fit_node(a), node_laid(a, b, indent, level, true, false), gap(indent),
    ensures neat_node(b),
    decreases a,
{
    broadcast use axiom_trimmed;
    lemma_gap_rep(indent, level);
    assert forall|k: int| 0 <= k < b.entries@.len() implies neat_entry(#[trigger] b.entries@[k]) by { assert(fit_entry(a.entries@[k])); lemma_entry_neat(a.entries@[k], b.entries@[k]); }
    let g = b.format->0;
    assert(g.terminator@ == seq!['\n']);
    assert(g.trailing@ =~= seq![]);
    assert(g.before_terminator@ + g.terminator@ + g.trailing@ =~= seq!['\n']);
    assert(neat_format(b.format)) by { if a.format is Some { assert(lead_text(a.format->0.leading@, rep(indent, level), true) =~= rep(indent, level)); } }
    if a.children is Some {
        let (x, y) = (a.children->0, b.children->0);
        lemma_doc_neat(x, y, indent, level + 1, Some(rep(indent, level)));
        if x.format is Some {
            lemma_gap_rep(indent, level + 1);
            assert(lead_text(x.format->0.leading@, rep(indent, level + 1), true) =~= rep(indent, level + 1));
            assert(y.format->0.leading@ =~= seq!['\n']);
        }
    }
}
/// A parsed document autoformatted with comments left out.
pub proof fn lemma_doc_neat(a: KdlDocument, b: KdlDocument, indent: Seq<char>, level: int, inside: Option<Seq<char>>)
    requires fit_doc(a), doc_laid(a, b, indent, level, true, false, inside), gap(indent), inside matches Some(i) ==> gap(i),
    ensures neat_doc(b), inside is None ==> neat_top(b),
    decreases a,
{
    broadcast use axiom_trimmed;
    assert forall|k: int| 0 <= k < b.nodes@.len() implies neat_node(#[trigger] b.nodes@[k]) by { assert(fit_node(a.nodes@[k])); lemma_node_neat(a.nodes@[k], b.nodes@[k], indent, level); }
    if a.format is Some {
        let f = a.format->0; let g = b.format->0;
        lemma_gap_rep(indent, level);
        assert(lead_text(f.leading@, rep(indent, level), true) =~= rep(indent, level));
        let i: Seq<char> = match inside { Some(i) => i, None => seq![] };
        if a.nodes@.len() > 0 { assert(g.trailing@ =~= i); } else { assert(g.trailing@ =~= seq!['\n'] + i); assert(g.trailing@.skip(1) =~= i); }
    }
}
// ---- What that says of the data, and of formatting twice.
/// The same names, types, values, entries and children, however formatted.
pub open spec fn oname_same(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.value@ == y.value@, _ => false } }
pub open spec fn entry_data(a: KdlEntry, b: KdlEntry) -> bool { b.value == a.value && oname_same(a.ty, b.ty) && oname_same(a.name, b.name) }
pub open spec fn node_data(a: KdlNode, b: KdlNode) -> bool
    decreases a,
{
    &&& a.name.value@ == b.name.value@ && oname_same(a.ty, b.ty)
    &&& a.entries@.len() == b.entries@.len() && forall|k: int| 0 <= k < a.entries@.len() ==> entry_data(a.entries@[k], #[trigger] b.entries@[k])
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc_data(x, y), _ => false }
}
pub open spec fn doc_data(a: KdlDocument, b: KdlDocument) -> bool
    decreases a,
{ a.nodes@.len() == b.nodes@.len() && forall|k: int| 0 <= k < a.nodes@.len() ==> node_data(a.nodes@[k], #[trigger] b.nodes@[k]) }
pub proof fn lemma_node_kept(a: KdlNode, b: KdlNode, indent: Seq<char>, level: int, nc: bool, keep: bool)
    requires node_laid(a, b, indent, level, nc, keep),
    ensures node_data(a, b),
    decreases a,
{
    if a.children is Some { lemma_doc_kept(a.children->0, b.children->0, indent, level + 1, nc, keep, Some(rep(indent, level))); }
}
/// Whatever the configuration, the data stays.
pub proof fn lemma_doc_kept(a: KdlDocument, b: KdlDocument, indent: Seq<char>, level: int, nc: bool, keep: bool, inside: Option<Seq<char>>)
    requires doc_laid(a, b, indent, level, nc, keep, inside),
    ensures doc_data(a, b),
    decreases a,
{
    assert forall|k: int| 0 <= k < a.nodes@.len() implies node_data(a.nodes@[k], #[trigger] b.nodes@[k]) by { lemma_node_kept(a.nodes@[k], b.nodes@[k], indent, level, nc, keep); }
}
/// Formatting that is the same text.
pub open spec fn entry_layout(a: KdlEntry, b: KdlEntry) -> bool {
    &&& match (a.format, b.format) {
        (None, None) => true,
        (Some(f), Some(g)) => g.value_repr@ == f.value_repr@ && g.leading@ == f.leading@ && g.trailing@ == f.trailing@ && g.after_ty@ == f.after_ty@ && g.before_ty_name@ == f.before_ty_name@ && g.after_ty_name@ == f.after_ty_name@ && g.after_key@ == f.after_key@ && g.after_eq@ == f.after_eq@,
        _ => false,
    }
    &&& b.ty == a.ty && b.name == a.name && b.value == a.value
}
pub open spec fn node_layout(a: KdlNode, b: KdlNode) -> bool
    decreases a,
{
    &&& match (a.format, b.format) {
        (None, None) => true,
        (Some(f), Some(g)) => g.leading@ == f.leading@ && g.before_ty_name@ == f.before_ty_name@ && g.after_ty_name@ == f.after_ty_name@ && g.after_ty@ == f.after_ty@ && g.before_children@ == f.before_children@ && g.before_terminator@ == f.before_terminator@ && g.terminator@ == f.terminator@ && g.trailing@ == f.trailing@,
        _ => false,
    }
    &&& a.name == b.name && a.ty == b.ty
    &&& a.entries@.len() == b.entries@.len() && forall|k: int| 0 <= k < a.entries@.len() ==> entry_layout(a.entries@[k], #[trigger] b.entries@[k])
    &&& match (a.children, b.children) { (None, None) => true, (Some(x), Some(y)) => doc_layout(x, y), _ => false }
}
pub open spec fn doc_layout(a: KdlDocument, b: KdlDocument) -> bool
    decreases a,
{
    &&& match (a.format, b.format) { (None, None) => true, (Some(f), Some(g)) => g.leading@ == f.leading@ && g.trailing@ == f.trailing@, _ => false }
    &&& a.nodes@.len() == b.nodes@.len() && forall|k: int| 0 <= k < a.nodes@.len() ==> node_layout(a.nodes@[k], #[trigger] b.nodes@[k])
}
pub proof fn lemma_node_twice(a: KdlNode, b: KdlNode, c: KdlNode, indent: Seq<char>, level: int, keep: bool)
    requires node_laid(a, b, indent, level, true, keep), node_laid(b, c, indent, level, true, keep), a.format is Some,
        deep_formats(a),
    ensures node_layout(b, c),
    decreases a,
{
    broadcast use axiom_trimmed;
    if a.children is Some { lemma_doc_twice(a.children->0, b.children->0, c.children->0, indent, level + 1, keep, Some(rep(indent, level))); }
    assert forall|k: int| 0 <= k < b.entries@.len() implies entry_layout(b.entries@[k], #[trigger] c.entries@[k]) by { lemma_entry_twice(a.entries@[k], b.entries@[k], c.entries@[k], keep); }
    let f = a.format->0; let g = b.format->0; let h = c.format->0;
    assert(g.trailing@ =~= seq![]); assert(h.trailing@ =~= seq![]);
    assert(g.before_ty_name@ =~= h.before_ty_name@); assert(g.after_ty_name@ =~= h.after_ty_name@); assert(g.after_ty@ =~= h.after_ty@);
}
pub proof fn lemma_entry_twice(a: KdlEntry, b: KdlEntry, c: KdlEntry, keep: bool)
    requires entry_laid(a, b, keep), entry_laid(b, c, keep), a.format matches Some(f) ==> !f.autoformat_keep,
    ensures entry_layout(b, c),
{
    if b.format is Some {
        let g = b.format->0; let h = c.format->0;
        assert(g.trailing@ =~= h.trailing@); assert(g.after_ty@ =~= h.after_ty@); assert(g.before_ty_name@ =~= h.before_ty_name@); assert(g.after_ty_name@ =~= h.after_ty_name@); assert(g.after_key@ =~= h.after_key@); assert(g.after_eq@ =~= h.after_eq@);
    }
}
/// With comments left out, formatting what was just formatted gives the same text throughout.
pub proof fn lemma_doc_twice(a: KdlDocument, b: KdlDocument, c: KdlDocument, indent: Seq<char>, level: int, keep: bool, inside: Option<Seq<char>>)
    requires doc_laid(a, b, indent, level, true, keep, inside), doc_laid(b, c, indent, level, true, keep, inside), deep_doc(a),
    ensures doc_layout(b, c),
    decreases a,
{
    broadcast use axiom_trimmed;
    assert forall|k: int| 0 <= k < b.nodes@.len() implies node_layout(b.nodes@[k], #[trigger] c.nodes@[k]) by { lemma_node_twice(a.nodes@[k], b.nodes@[k], c.nodes@[k], indent, level, keep); }
}
// Every node brings formatting of its own and no entry is marked to be kept: what parsing gives.
pub open spec fn deep_formats(n: KdlNode) -> bool
    decreases n,
{ n.format is Some && (forall|k: int| 0 <= k < n.entries@.len() ==> ((#[trigger] n.entries@[k]).format is Some ==> !n.entries@[k].format->0.autoformat_keep)) && (n.children is Some ==> deep_doc(n.children->0)) }
pub open spec fn deep_doc(d: KdlDocument) -> bool
    decreases d,
{ forall|k: int| 0 <= k < d.nodes@.len() ==> deep_formats(#[trigger] d.nodes@[k]) }

//@ source src/identifier.rs
//@ fn KdlIdentifier::clear_format
    ensures ident_plain(*old(self), *final(self)),
//@ end
//@ fn KdlIdentifier::autoformat
    ensures ident_plain(*old(self), *final(self)),
//@ end
//@ source src/entry.rs
//@ rewrite `Default::default()` => `VxDefault::vx_default()`
//@ fn KdlEntry::format_mut ret r
    ensures r matches Some(m) ==> old(self).format == Some(*m) && *final(self) == (KdlEntry { format: Some(*final(m)), ..*old(self) }), r is None ==> old(self).format is None && *final(self) == *old(self),
//@ end
//@ fn KdlEntry::keep_format
    ensures final(self).value == old(self).value, final(self).ty == old(self).ty, final(self).name == old(self).name, final(self).span == old(self).span,
        match (old(self).format, final(self).format) { (None, None) => true, (Some(a), Some(b)) => b == (KdlEntryFormat { autoformat_keep: true, ..a }), _ => false },
//@ end
//@ fn KdlEntry::autoformat
    ensures entry_laid(*old(self), *final(self), false),
//@ end
//@ source src/fmt.rs
//@ rewrite `.trim()` => `.vx_trim()`
//@ rewrite `.trim_start()` => `.vx_trim_start()`
//@ rewrite `.is_empty()` => `.vx_none()`
//@ rewrite `.to_string()` => `.vx_own()`
//@ rewrite `.strip_prefix` => `.vx_strip`
//@ rewrite `.lines()` => `.vx_lines()`
//@ rewrite `.contains('\\')` => `.vx_has("\\")`
//@ rewrite `.contains` => `.vx_has`
//@ rewrite `decor.vx_trim_start() == &decor[..]` => `vx_same(decor.vx_trim_start(), decor.vx_str())`
//@ rewrite `.chars().next()` => `.vx_first()`
//@ rewrite `c.is_whitespace()` => `vx_white(c)`
//@ rewrite `.starts_with` => `.vx_starts`
//@ rewrite `.into()` => `.vx_into()`
//@ rewrite `trailing.insert(0, ' ')` => `vx_insert(trailing, 0, ' ')`
//@ rewrite `crate::fmt::autoformat_leading` => `autoformat_leading`
//@ rewrite `crate::fmt::autoformat_trailing` => `autoformat_trailing`
//@ fn FormatConfigBuilder::new ret r
    ensures r.0.indent_level == 0, r.0.indent@ == four(), !r.0.no_comments, !r.0.entry_autoformate_keep,
//@ hint top
    proof { reveal_strlit("    "); assert("    "@ =~= four()); }
//@ end
//@ fn FormatConfigBuilder::indent ret r
    ensures r.0.indent == indent, r.0.indent_level == self.0.indent_level, r.0.no_comments == self.0.no_comments, r.0.entry_autoformate_keep == self.0.entry_autoformate_keep,
//@ end
//@ fn FormatConfigBuilder::build ret r
    ensures r == self.0,
//@ end
//@ fn FormatConfig::builder ret r
    ensures r.0.indent_level == 0, r.0.indent@ == four(), !r.0.no_comments, !r.0.entry_autoformate_keep,
//@ end
//@ fn <Default for FormatConfig>::default ret r
    ensures r.is_default(),
//@ end
//@ fn is_line_sensitive ret r
    ensures r == sensitive(decor@),
//@ hint top
    proof { reveal_strlit("/-"); assert("/-"@ =~= seq!['/', '-']); reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']); reveal_strlit("\"\"\""); assert("\"\"\""@ =~= seq!['"', '"', '"']); }
//@ end
//@ fn autoformat_trailing
    ensures final(decor)@ == trail_text(old(decor)@, no_comments),
//@ hint top
    broadcast use axiom_trimmed;
    let ghost d0 = decor@;
//@ hint `*decor = result` after
    proof { assert(decor@ =~= trail_text(d0, no_comments)); }
//@ end
//@ fn autoformat_leading
    ensures final(leading)@ == lead_text(old(leading)@, rep(config.indent@, config.indent_level as int), config.no_comments),
//@ hint top
    let ghost s0 = leading@;
    let ghost ind = rep(config.indent@, config.indent_level as int);
//@ hint `if is_line_sensitive(input) {..` before
    let ghost b9 = result@;
    let ghost t = trimmed(s0);
    let ghost bom = t.len() > 0 && t[0] == '\u{FEFF}';
    let ghost pre = if bom { seq!['\u{FEFF}'] } else { seq![] };
    let ghost x = if bom { trimmed(t.skip(1)) } else { t };
    proof { assert(b9 =~= pre); assert(input@ == x); }
//@ hint `result.push_str("\n\n")` after
    proof { reveal_strlit("\n\n"); assert("\n\n"@ =~= seq!['\n', '\n']); assert(result@ =~= pre + (ind + x + seq!['\n', '\n'])); }
//@ hint `for line in ..` after
    proof { assert(lines_of(x).take(lines_of(x).len() as int) =~= lines_of(x)); assert(result@ =~= pre + lined(lines_of(x), ind)); }
//@ hint `for _ in ..` #0 before
    let ghost b0 = result@;
    proof { assert(b0 + rep(config.indent@, 0) =~= b0); }
//@ loop #0
    invariant result@ == b0 + rep(config.indent@, it.index@ as int),
//@ hint `for line in ..` before
    let ghost b1 = result@;
    let ghost ls = lines_of(input@);
    proof { assert(ls.take(0) =~= seq![]); assert(b1 + lined(ls.take(0), ind) =~= b1); }
//@ loop #1
    invariant
        ls == lines_of(input@), ind == rep(config.indent@, config.indent_level as int),
        it.snapshot@.remaining().len() == ls.len(), forall|k: int| 0 <= k < ls.len() ==> (#[trigger] it.snapshot@.remaining()[k])@ == ls[k],
        result@ == b1 + lined(ls.take(it.index@ as int), ind),
//@ hint `let trimmed = ..` before
    let ghost r0 = result@;
    let ghost kk = it.index@ as int;
    proof { assert(ls.take(kk + 1).drop_last() =~= ls.take(kk)); assert(ls.take(kk + 1).last() == ls[kk]); }
//@ hint `for _ in ..` #1 before
    let ghost b2 = result@;
    proof { assert(b2 + rep(config.indent@, 0) =~= b2); }
//@ loop #2
    invariant result@ == b2 + rep(config.indent@, it.index@ as int),
//@ hint `for _ in ..` #2 before
    let ghost b3 = result@;
    proof {
        if !config.no_comments {
            let t = trimmed(s0);
            let bom = t.len() > 0 && t[0] == '\u{FEFF}';
            let pre = if bom { seq!['\u{FEFF}'] } else { seq![] };
            let x = if bom { trimmed(t.skip(1)) } else { t };
            assert(b3 =~= pre + decor2(x, ind));
            if !bom { assert(pre + decor2(x, ind) =~= decor2(x, ind)); }
        } else { assert(b3 =~= seq![]); }
        assert(b3 =~= before_text(s0, ind, config.no_comments));
    }
    proof { assert(b3 + rep(config.indent@, 0) =~= b3); }
//@ loop #3
    invariant result@ == b3 + rep(config.indent@, it.index@ as int),
//@ end
//@ source src/node.rs
//@ fn KdlNode::format_mut ret r
    ensures r matches Some(m) ==> old(self).format == Some(*m) && *final(self) == (KdlNode { format: Some(*final(m)), ..*old(self) }), r is None ==> old(self).format is None && *final(self) == *old(self),
//@ end
//@ fn KdlNode::set_format
    ensures *final(self) == (KdlNode { format: Some(format), ..*old(self) }),
//@ end
//@ fn KdlNode::autoformat_config
    requires tall(*old(self), usize::MAX - config.indent_level),
    ensures node_laid(*old(self), *final(self), config.indent@, config.indent_level as int, config.no_comments, config.entry_autoformate_keep),
    decreases *old(self),
//@ hint top
    broadcast use axiom_trimmed;
    let ghost s0 = *self;
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@ hint `self.name.clear_format()` before
    let ghost s1 = *self;
    proof {
        if s0.format is Some {
            let f = s0.format->0; let g = s1.format->0; let ind = rep(config.indent@, config.indent_level as int); let nc = config.no_comments;
            assert(g.leading@ == lead_text(f.leading@, ind, nc));
            assert(g.before_terminator@ == trail_text(f.before_terminator@, nc));
            assert(g.terminator@ == (if f.terminator@.len() > 0 && f.terminator@[0] == '\n' { f.terminator@ } else { seq!['\n'] }));
            assert(g.trailing@ =~= node_trail(f.trailing@, nc));
            assert(g.before_children@ == seq![' ']);
        }
        assert(node_format_laid(s0.format, s1.format, rep(config.indent@, config.indent_level as int), config.no_comments));
        assert(s1 == (KdlNode { format: s1.format, ..s0 }));
    }
//@ loop `for entry in &mut self.entries`
    invariant
        it.snapshot@.remaining().len() == old(self).entries@.len(),
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *(#[trigger] it.snapshot@.remaining()[j]) == old(self).entries@[j],
        forall|j: int| 0 <= j < it.index@ ==> entry_laid(old(self).entries@[j], *final(#[trigger] it.snapshot@.remaining()[j]), config.entry_autoformate_keep),
//@ hint `if let Some(children) = ..` before
    proof { assert(self.entries@.len() == old(self).entries@.len()); assert(forall|k: int| 0 <= k < old(self).entries@.len() ==> entry_laid(old(self).entries@[k], #[trigger] self.entries@[k], config.entry_autoformate_keep)); }
//@ hint `children.autoformat_config..` before
    proof { assert(decreases_to!(*old(self) => old(self).children->0)); }
    let ghost c0 = *children;
//@ hint `children.autoformat_config..` after
    let ghost c1 = *children;
    proof { assert(doc_laid(c0, c1, config.indent@, config.indent_level + 1, config.no_comments, config.entry_autoformate_keep, None)); }
//@ hint `for _ in ..` before
    let ghost t0 = trailing@;
    proof { assert(t0 + rep(config.indent@, 0) =~= t0); }
//@ loop #1
    invariant trailing@ == t0 + rep(config.indent@, it.index@ as int),
//@ hint `for _ in ..` after
    proof {
        assert(trailing@ =~= t0 + rep(config.indent@, config.indent_level as int));
        assert(leading@ =~= trimmed(c1.format->0.leading@) + seq!['\n']);
    }
//@ hint `if let Some(KdlDocumentFormat { leading, trailing }) = ..` after
    proof {
        let c2 = *children; let ind = rep(config.indent@, config.indent_level as int); let nc = config.no_comments; let keep = config.entry_autoformate_keep;
        assert(c2 == (KdlDocument { format: c2.format, ..c1 }));
        assert(doc_format_laid(c0.format, c2.format, rep(config.indent@, config.indent_level + 1), nc, c0.nodes@.len() > 0, Some(ind)));
        assert(nodes_laid(c0, c1, config.indent@, config.indent_level + 1, nc, keep));
        assert(nodes_laid(c0, c2, config.indent@, config.indent_level + 1, nc, keep));
        assert(doc_laid(c0, c2, config.indent@, config.indent_level + 1, nc, keep, Some(ind)));
    }
//@ end
//@ fn KdlNode::autoformat
    requires tall(*old(self), usize::MAX as int),
    ensures node_laid(*old(self), *final(self), four(), 0, false, false),
//@ end
//@ fn KdlNode::autoformat_no_comments
    requires tall(*old(self), usize::MAX as int),
    ensures node_laid(*old(self), *final(self), four(), 0, true, false),
//@ end
//@ source src/document.rs
//@ fn KdlDocument::format_mut ret r
    ensures r matches Some(m) ==> old(self).format == Some(*m) && *final(self) == (KdlDocument { format: Some(*final(m)), ..*old(self) }), r is None ==> old(self).format is None && *final(self) == *old(self),
//@ end
//@ fn KdlDocument::autoformat_config
    requires tall_doc(*old(self), usize::MAX - config.indent_level),
    ensures doc_laid(*old(self), *final(self), config.indent@, config.indent_level as int, config.no_comments, config.entry_autoformate_keep, None),
    decreases *old(self),
//@ hint top
    let ghost s0 = *self;
//@ loop #0
    invariant
        tall_doc(*old(self), usize::MAX - config.indent_level),
        it.snapshot@.remaining().len() == old(self).nodes@.len(),
        forall|j: int| 0 <= j < old(self).nodes@.len() ==> *(#[trigger] it.snapshot@.remaining()[j]) == old(self).nodes@[j],
        forall|j: int| 0 <= j < it.index@ ==> node_laid(old(self).nodes@[j], *final(#[trigger] it.snapshot@.remaining()[j]), config.indent@, config.indent_level as int, config.no_comments, config.entry_autoformate_keep),
        has_nodes == (it.index@ > 0),
//@ hint `if let Some(KdlDocumentFormat { trailing, .. }) = ..` before
    let ghost s1 = *self;
    proof { assert(s1.format is Some == s0.format is Some && s1.span == s0.span); assert(s1.format is Some ==> s1.format->0.leading@ == lead_text(s0.format->0.leading@, rep(config.indent@, config.indent_level as int), config.no_comments) && s1.format->0.trailing@ == s0.format->0.trailing@); }
    proof { assert(self.nodes@.len() == old(self).nodes@.len()); assert(forall|k: int| 0 <= k < old(self).nodes@.len() ==> node_laid(old(self).nodes@[k], #[trigger] self.nodes@[k], config.indent@, config.indent_level as int, config.no_comments, config.entry_autoformate_keep)); }
//@ hint `node.autoformat_config(config)` before
    proof { assert(*node == old(self).nodes@[it.index@ as int]); assert(decreases_to!(*old(self) => *node)); }
//@ hint `if let Some(KdlDocumentFormat { trailing, .. }) = ..` after
    proof {
        let s2 = *self;
        if s2.format is Some { let l = s2.format->0.trailing@; assert(l =~= trail_text(s0.format->0.trailing@, config.no_comments) + (if s0.nodes@.len() > 0 { seq![] } else { seq!['\n'] })); }
        assert(doc_format_laid(s0.format, s2.format, rep(config.indent@, config.indent_level as int), config.no_comments, s0.nodes@.len() > 0, None));
        assert(s2.nodes == s1.nodes);
        assert(nodes_laid(s0, s2, config.indent@, config.indent_level as int, config.no_comments, config.entry_autoformate_keep));
    }
//@ end
//@ fn KdlDocument::autoformat
    requires tall_doc(*old(self), usize::MAX as int),
    ensures doc_laid(*old(self), *final(self), four(), 0, false, false, None),
//@ end
//@ fn KdlDocument::autoformat_no_comments
    requires tall_doc(*old(self), usize::MAX as int),
    ensures doc_laid(*old(self), *final(self), four(), 0, true, false, None),
//@ end
}
pub use vx_af::*;
} // verus!
fn main() {}
