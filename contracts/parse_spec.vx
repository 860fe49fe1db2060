// ---- Documents of KDL 2.0: the grammar as functions of a text and a position.
// Each gives where the construct ends and what it denotes, with positions.
pub mod vx_gram {
use super::*;
pub enum Ov<V> { Ok(int, V), Bt, Cut }
pub struct SName { pub value: Seq<char>, pub lo: int, pub hi: int }
pub enum SVal { Str(Seq<char>), Int(i128), Float(f64), Bool(bool), Null }
pub struct SEntry { pub name: Option<SName>, pub ty: Option<SName>, pub val: SVal, pub lo: int, pub hi: int }
pub struct SNode { pub ty: Option<SName>, pub name: SName, pub entries: Seq<SEntry>, pub children: Option<Seq<SNode>>, pub lo: int, pub hi: int }

pub open spec fn alt_o(a: Out, b: Out) -> Out { match a { Out::Bt => b, o => o } }
// slashdash := '/-' (line-space | node-space)*
pub open spec fn sp_anyspace(t: Seq<char>, i: int) -> Out { alt_o(sp_node_space(t, i), sp_line_space(t, i)) }
pub open spec fn sp_as0(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{ match sp_anyspace(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_as0(t, j) } else { Out::Cut }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut } }
pub open spec fn sp_sd(t: Seq<char>, i: int) -> Out { if is2(t, i, '/', '-') { sp_as0(t, i + 2) } else { Out::Bt } }
// a name: any string
pub open spec fn name_at(t: Seq<char>, i: int, j: int) -> SName { SName { value: sv_string(t, i), lo: i, hi: j } }
// type := '(' node-space* string node-space* ')'
pub open spec fn sp_ty(t: Seq<char>, i: int) -> Ov<SName> {
    if !is1(t, i, '(') { Ov::Bt } else {
        match sp_ns0(t, i + 1) {
            Out::Ok(a) => match sp_string(t, a) {
                Out::Ok(b) => if sp_node_space(t, b) is Ok || (sp_node_space(t, b) is Bt && is1(t, b, ')')) {
                    match sp_ns0(t, b) { Out::Ok(c) => if is1(t, c, ')') { Ov::Ok(c + 1, name_at(t, a, b)) } else { Ov::Bt }, Out::Bt => Ov::Bt, Out::Cut => Ov::Cut }
                } else { Ov::Cut },
                _ => Ov::Cut,
            },
            Out::Bt => Ov::Bt, Out::Cut => Ov::Cut,
        }
    }
}
// optional type
pub open spec fn sp_tyo(t: Seq<char>, i: int) -> Ov<Option<SName>> { match sp_ty(t, i) { Ov::Ok(j, n) => Ov::Ok(j, Some(n)), Ov::Bt => Ov::Ok(i, None), Ov::Cut => Ov::Cut } }
pub open spec fn sval_of(v: KdlValue) -> SVal {
    match v { KdlValue::String(s) => SVal::Str(s@), KdlValue::Integer(n) => SVal::Int(n), KdlValue::Float(f) => SVal::Float(f), KdlValue::Bool(b) => SVal::Bool(b), KdlValue::Null => SVal::Null }
}
// value := (type node-space*)? (keyword | number | string)
pub open spec fn sp_val(t: Seq<char>, i: int) -> Ov<SVal> {
    match sp_keyword(t, i) {
        Out::Ok(j) => Ov::Ok(j, sval_of(kw_at(t, i + 1)->Some_0)),
        Out::Cut => Ov::Cut,
        Out::Bt => match sp_number(t, i) {
            Out::Ok(j) => Ov::Ok(j, sval_of(sv_number(t, i, j)->Some_0)),
            Out::Cut => Ov::Cut,
            Out::Bt => match sp_string(t, i) { Out::Ok(j) => Ov::Ok(j, SVal::Str(sv_string(t, i))), Out::Cut => Ov::Cut, Out::Bt => Ov::Bt },
        },
    }
}
// where the value itself starts, after its type
pub open spec fn sp_vty(t: Seq<char>, i: int) -> Ov<Option<SName>> {
    match sp_ty(t, i) { Ov::Ok(j, n) => match sp_ns0(t, j) { Out::Ok(k) => Ov::Ok(k, Some(n)), Out::Bt => Ov::Ok(i, None), Out::Cut => Ov::Cut }, Ov::Bt => Ov::Ok(i, None), Ov::Cut => Ov::Cut }
}
pub open spec fn sp_value(t: Seq<char>, i: int) -> Ov<(Option<SName>, SVal)> {
    match sp_vty(t, i) {
        Ov::Ok(k, ty) => match sp_val(t, k) { Ov::Ok(j, v) => Ov::Ok(j, (ty, v)), Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut },
        Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
    }
}
// node-prop-or-arg, without what leads it
pub open spec fn sp_arg(t: Seq<char>, k: int) -> Ov<SEntry> {
    match sp_value(t, k) { Ov::Ok(o, v) => Ov::Ok(o, SEntry { name: None, ty: v.0, val: v.1, lo: k, hi: o }), Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut }
}
pub open spec fn sp_prop(t: Seq<char>, k: int, l: int, m: int) -> Ov<SEntry> {
    match sp_ns0(t, m + 1) {
        Out::Ok(n) => match sp_value(t, n) { Ov::Ok(o, v) => Ov::Ok(o, SEntry { name: Some(name_at(t, k, l)), ty: v.0, val: v.1, lo: k, hi: o }), _ => Ov::Cut },
        Out::Bt => Ov::Bt, Out::Cut => Ov::Cut,
    }
}
pub open spec fn sp_bare(t: Seq<char>, k: int) -> Ov<SEntry> {
    match sp_string(t, k) {
        Out::Ok(l) => match sp_ns0(t, l) {
            Out::Ok(m) => if is1(t, m, '=') { sp_prop(t, k, l, m) } else { Ov::Ok(l, SEntry { name: None, ty: None, val: SVal::Str(sv_string(t, k)), lo: k, hi: l }) },
            Out::Bt => Ov::Ok(l, SEntry { name: None, ty: None, val: SVal::Str(sv_string(t, k)), lo: k, hi: l }), Out::Cut => Ov::Cut,
        },
        Out::Bt => sp_arg(t, k),
        Out::Cut => Ov::Cut,
    }
}
// what leads an entry: space and slashdashed entries
pub open spec fn sp_elead(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 2int,
{
    match sp_ns0(t, i) {
        Out::Ok(j) => if i <= j <= t.len() { match sp_sdentries(t, j) {
            Out::Ok(k) => match sp_ns1(t, k) { Out::Ok(l) => Out::Ok(l), Out::Bt => Out::Ok(j), Out::Cut => Out::Cut },
            Out::Bt => Out::Ok(j), Out::Cut => Out::Cut,
        } } else { Out::Cut },
        o => o,
    }
}
pub open spec fn sp_entry(t: Seq<char>, i: int) -> Ov<SEntry>
    decreases t.len() - i, 3int,
{ match sp_elead(t, i) { Out::Ok(k) => sp_bare(t, k), Out::Bt => Ov::Bt, Out::Cut => Ov::Cut } }
pub open spec fn sp_sdentry(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 0int,
{
    match sp_sd(t, i) {
        Out::Ok(j) => if is2(t, j, '/', '-') { Out::Bt } else if i < j <= t.len() { match sp_entry(t, j) { Ov::Ok(k, _) => Out::Ok(k), Ov::Bt => Out::Bt, Ov::Cut => Out::Cut } } else { Out::Cut },
        o => o,
    }
}
pub open spec fn sp_sdentries(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 1int,
{ match sp_sdentry(t, i) { Out::Ok(k) => if i < k <= t.len() { sp_sdentries1(t, k) } else { Out::Cut }, o => o } }
pub open spec fn sp_sdentries1(t: Seq<char>, k: int) -> Out
    decreases t.len() - k, 1int,
{
    match sp_ns1(t, k) {
        Out::Ok(m) => if k < m <= t.len() { match sp_sdentry(t, m) { Out::Ok(n) => if m < n <= t.len() { sp_sdentries1(t, n) } else { Out::Cut }, Out::Bt => Out::Ok(k), Out::Cut => Out::Cut } } else { Out::Cut },
        Out::Bt => Out::Ok(k), Out::Cut => Out::Cut,
    }
}
pub open spec fn sp_entries(t: Seq<char>, i: int, a: Seq<SEntry>) -> Ov<Seq<SEntry>>
    decreases t.len() - i, 4int,
{
    match sp_ns1(t, i) {
        Out::Ok(_) => match sp_entry(t, i) { Ov::Ok(j, e) => if i < j <= t.len() { sp_entries(t, j, a.push(e)) } else { Ov::Cut }, Ov::Bt => Ov::Ok(i, a), Ov::Cut => Ov::Cut },
        Out::Bt => Ov::Ok(i, a), Out::Cut => Ov::Cut,
    }
}
// nodes
pub open spec fn sp_lead(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 13int,
{
    match sp_line_space(t, i) {
        Out::Ok(j) => if i < j <= t.len() { sp_lead(t, j) } else { Out::Cut },
        Out::Bt => match sp_sdnode(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_lead(t, j) } else { Out::Cut }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut },
        Out::Cut => Out::Cut,
    }
}
pub open spec fn sp_sdnode(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 12int,
{
    match sp_sd(t, i) {
        Out::Ok(j) => if i < j <= t.len() { match sp_base(t, j) {
            Ov::Ok(k, _) => match sp_terminator(t, k) { Out::Bt => if is1(t, k, '}') || k == t.len() { Out::Ok(k) } else { Out::Bt }, o => o },
            Ov::Bt => Out::Bt, Ov::Cut => Out::Cut,
        } } else { Out::Cut },
        o => o,
    }
}
// type and name
pub open spec fn sp_nhead(t: Seq<char>, i: int) -> Ov<(Option<SName>, SName)> {
    match sp_tyo(t, i) {
        Ov::Ok(j, ty) => match sp_ns0(t, j) {
            Out::Ok(k) => match sp_string(t, k) { Out::Ok(l) => Ov::Ok(l, (ty, name_at(t, k, l))), _ => Ov::Cut },
            Out::Bt => Ov::Bt, Out::Cut => Ov::Cut,
        },
        Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
    }
}
pub open spec fn sp_base(t: Seq<char>, i: int) -> Ov<SNode>
    decreases t.len() - i, 11int,
{
    if is1(t, i, '}') || i >= t.len() { Ov::Bt } else if is1(t, i, '{') { Ov::Cut } else {
        match sp_nhead(t, i) {
            Ov::Ok(l, h) => if i < l <= t.len() { match sp_entries(t, l, seq![]) {
                Ov::Ok(m, es) => if l <= m <= t.len() { match sp_ntail(t, m) {
                    Ov::Ok(d, c) => if sp_terminator(t, d) is Cut { Ov::Cut } else { Ov::Ok(d, SNode { ty: h.0, name: h.1, entries: es, children: c, lo: i, hi: d }) },
                    Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
                } } else { Ov::Cut },
                Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
            } } else { Ov::Cut },
            Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
        }
    }
}
// children and what surrounds them
pub open spec fn sp_ntail(t: Seq<char>, m: int) -> Ov<Option<Seq<SNode>>>
    decreases t.len() - m, 9int,
{
    match sp_bnc(t, m) {
        Out::Ok(a) => if m <= a <= t.len() { match sp_children(t, a) {
            Ov::Ok(b, ns) => if a < b <= t.len() { match sp_sdchildren(t, b) {
                Out::Ok(c) => match sp_ns0(t, c) { Out::Ok(d) => Ov::Ok(d, Some(ns)), Out::Bt => Ov::Bt, Out::Cut => Ov::Cut },
                Out::Bt => match sp_ns0(t, b) { Out::Ok(d) => Ov::Ok(d, Some(ns)), Out::Bt => Ov::Bt, Out::Cut => Ov::Cut },
                Out::Cut => Ov::Cut,
            } } else { Ov::Cut },
            Ov::Bt => Ov::Ok(a, None),
            Ov::Cut => Ov::Cut,
        } } else { Ov::Cut },
        Out::Bt => Ov::Bt,
        Out::Cut => Ov::Cut,
    }
}
pub open spec fn then_ns0(t: Seq<char>, o: Out) -> Out { match o { Out::Ok(j) => sp_ns0(t, j), o => o } }
// (node-space+ slashdashed entries)? (node-space+ slashdashed children)? node-space*
pub open spec fn sp_bnc(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 8int,
{
    match sp_ns1(t, i) {
        Out::Ok(a) => if i < a <= t.len() { match sp_sdentries(t, a) {
            Out::Ok(b) => if a < b <= t.len() { match sp_ns1(t, b) {
                Out::Ok(c) => if b < c <= t.len() { match sp_sdchildren(t, c) { Out::Ok(d) => sp_ns0(t, d), Out::Bt => sp_ns0(t, b), Out::Cut => Out::Cut } } else { Out::Cut },
                Out::Bt => sp_ns0(t, b), Out::Cut => Out::Cut,
            } } else { Out::Cut },
            Out::Bt => match sp_sdchildren(t, a) { Out::Ok(d) => sp_ns0(t, d), Out::Bt => then_ns0(t, sp_ns0(t, i)), Out::Cut => Out::Cut },
            Out::Cut => Out::Cut,
        } } else { Out::Cut },
        Out::Bt => then_ns0(t, sp_ns0(t, i)),
        Out::Cut => Out::Cut,
    }
}
pub open spec fn sp_sdchild(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 5int,
{
    match sp_sd(t, i) { Out::Ok(j) => if i < j <= t.len() { match sp_children(t, j) { Ov::Ok(k, _) => Out::Ok(k), Ov::Bt => Out::Bt, Ov::Cut => Out::Cut } } else { Out::Cut }, o => o }
}
pub open spec fn sp_sdchildren(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 7int,
{
    match sp_ns0(t, i) {
        Out::Ok(j) => if i <= j <= t.len() { match sp_sdchild(t, j) { Out::Ok(k) => if j < k <= t.len() { sp_sdchildren1(t, k) } else { Out::Cut }, o => o } } else { Out::Cut },
        o => o,
    }
}
pub open spec fn sp_sdchildren1(t: Seq<char>, k: int) -> Out
    decreases t.len() - k, 6int,
{
    match sp_ns1(t, k) {
        Out::Ok(m) => if k < m <= t.len() { match sp_sdchild(t, m) { Out::Ok(n) => if m < n <= t.len() { sp_sdchildren1(t, n) } else { Out::Cut }, Out::Bt => Out::Ok(k), Out::Cut => Out::Cut } } else { Out::Cut },
        Out::Bt => Out::Ok(k), Out::Cut => Out::Cut,
    }
}
// node-children := '{' nodes '}'
pub open spec fn sp_children(t: Seq<char>, i: int) -> Ov<Seq<SNode>>
    decreases t.len() - i, 4int,
{
    if is1(t, i, '{') { match sp_nodes(t, i + 1) { Ov::Ok(j, ns) => if is1(t, j, '}') { Ov::Ok(j + 1, ns) } else { Ov::Cut }, o => o } } else { Ov::Bt }
}
pub open spec fn sp_node(t: Seq<char>, i: int) -> Ov<SNode>
    decreases t.len() - i, 14int,
{ match sp_lead(t, i) { Out::Ok(j) => if i <= j <= t.len() { sp_base(t, j) } else { Ov::Cut }, Out::Bt => Ov::Bt, Out::Cut => Ov::Cut } }
pub open spec fn sp_seps(t: Seq<char>, i: int) -> Ov<Seq<SNode>>
    decreases t.len() - i, 15int,
{ match sp_node(t, i) { Ov::Ok(j, n) => if i < j <= t.len() { sp_seps1(t, j, seq![n]) } else { Ov::Cut }, Ov::Bt => Ov::Ok(i, seq![]), Ov::Cut => Ov::Cut } }
pub open spec fn sp_seps1(t: Seq<char>, j: int, a: Seq<SNode>) -> Ov<Seq<SNode>>
    decreases t.len() - j, 15int,
{
    match sp_terminator(t, j) {
        Out::Ok(k) => if j < k <= t.len() { match sp_node(t, k) { Ov::Ok(l, n) => if k < l <= t.len() { sp_seps1(t, l, a.push(n)) } else { Ov::Cut }, Ov::Bt => Ov::Ok(j, a), Ov::Cut => Ov::Cut } } else { Ov::Cut },
        Out::Bt => Ov::Ok(j, a), Out::Cut => Ov::Cut,
    }
}
pub open spec fn lead_then(t: Seq<char>, o: Out, ns: Seq<SNode>) -> Ov<Seq<SNode>> { match o { Out::Ok(d) => Ov::Ok(d, ns), Out::Bt => Ov::Bt, Out::Cut => Ov::Cut } }
pub open spec fn sp_nodes(t: Seq<char>, i: int) -> Ov<Seq<SNode>>
    decreases t.len() - i, 16int,
{
    match sp_lead(t, i) {
        Out::Ok(a) => if i <= a <= t.len() { match sp_seps(t, a) {
            Ov::Ok(b, ns) => if a <= b <= t.len() { match sp_terminator(t, b) {
                Out::Ok(c) => if b < c <= t.len() { lead_then(t, sp_lead(t, c), ns) } else { Ov::Cut },
                Out::Bt => if ns.len() == 0 { lead_then(t, sp_lead(t, b), ns) } else { Ov::Ok(b, ns) },
                Out::Cut => Ov::Cut,
            } } else { Ov::Cut },
            o => o,
        } } else { Ov::Cut },
        Out::Bt => Ov::Bt, Out::Cut => Ov::Cut,
    }
}
pub open spec fn sp_bom(t: Seq<char>, i: int) -> Out { if is1(t, i, '\u{feff}') { Out::Ok(i + 1) } else { Out::Bt } }
pub open spec fn bom_end(t: Seq<char>, i: int) -> int { if is1(t, i, '\u{feff}') { i + 1 } else { i } }
// document := bom? nodes, to the end of the text
pub open spec fn sp_document(t: Seq<char>, i: int) -> Ov<Seq<SNode>> {
    match sp_nodes(t, bom_end(t, i)) { Ov::Ok(j, ns) => if j == t.len() { Ov::Ok(j, ns) } else { Ov::Cut }, o => o }
}
// ---- What a parsed item has to be.
pub open spec fn outv<T, V>(r: PResult<T>, o: Input, n: Input, x: Ov<V>) -> bool {
    match x {
        Ov::Ok(j, _) => r.is_ok() && n.nerr() == o.nerr() && n.pos() == j,
        Ov::Bt => is_bt(r) && n.nerr() == o.nerr(),
        Ov::Cut => is_cut(r) || n.nerr() > o.nerr(),
    }
}
pub open spec fn span_is(s: SourceSpan, t: Seq<char>, lo: int, hi: int) -> bool { s.offset == off(t, lo) && s.offset + s.length == off(t, hi) }
// text printed by a parsed item (C01)
pub open spec fn ident_text(k: KdlIdentifier, s: SName, t: Seq<char>) -> bool { k.repr matches Some(r) && r@ =~= subs(t, s.lo, s.hi) }
pub open spec fn ident_full(k: KdlIdentifier, s: SName, t: Seq<char>) -> bool { ident_is(k, s) && ident_at(k, s, t) && ident_text(k, s, t) }
pub open spec fn oident_full(k: Option<KdlIdentifier>, s: Option<SName>, t: Seq<char>) -> bool { match (k, s) { (None, None) => true, (Some(a), Some(b)) => ident_full(a, b, t), _ => false } }
pub open spec fn pr_typart(b: Seq<char>, k: KdlIdentifier, a: Seq<char>) -> Seq<char> { seq!['('] + b + pr_ident(k) + a + seq![')'] }
// type and value, as an entry prints them
pub open spec fn pr_tyval(e: KdlEntry) -> Seq<char> {
    match e.format { Some(f) => (match e.ty { Some(k) => pr_typart(f.before_ty_name@, k, f.after_ty_name@), None => seq![] }) + f.after_ty@ + f.value_repr@, None => seq![] }
}
// what is around the type and value of a value
pub open spec fn plain_value(e: KdlEntry) -> bool { e.name is None && (e.format matches Some(f) && f.leading@.len() == 0 && f.trailing@.len() == 0 && f.after_key@.len() == 0 && f.after_eq@.len() == 0) }
pub open spec fn entry_full(e: KdlEntry, s: SEntry, t: Seq<char>) -> bool {
    oident_full(e.name, s.name, t) && oident_full(e.ty, s.ty, t) && sval_of(e.value) == s.val && span_is(e.span, t, s.lo, s.hi) && e.format is Some
}
// content (C07)
pub open spec fn ident_is(k: KdlIdentifier, s: SName) -> bool { k.value@ == s.value }
pub open spec fn oident_is(k: Option<KdlIdentifier>, s: Option<SName>) -> bool { match (k, s) { (None, None) => true, (Some(a), Some(b)) => ident_is(a, b), _ => false } }
pub open spec fn entry_is(e: KdlEntry, s: SEntry) -> bool { oident_is(e.name, s.name) && oident_is(e.ty, s.ty) && sval_of(e.value) == s.val }
pub open spec fn entries_are(e: Seq<KdlEntry>, s: Seq<SEntry>) -> bool { e.len() == s.len() && forall|k: int| 0 <= k < e.len() ==> entry_is(#[trigger] e[k], s[k]) }
pub open spec fn node_is(n: KdlNode, s: SNode) -> bool
    decreases n,
{
    ident_is(n.name, s.name) && oident_is(n.ty, s.ty) && entries_are(n.entries@, s.entries)
    && match (n.children, s.children) { (None, None) => true, (Some(d), Some(ss)) => doc_is(d, ss), _ => false }
}
pub open spec fn doc_is(d: KdlDocument, s: Seq<SNode>) -> bool
    decreases d,
{ d.nodes@.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> node_is(#[trigger] d.nodes@[k], s[k]) }
// spans (C06)
pub open spec fn ident_at(k: KdlIdentifier, s: SName, t: Seq<char>) -> bool { span_is(k.span, t, s.lo, s.hi) }
pub open spec fn oident_at(k: Option<KdlIdentifier>, s: Option<SName>, t: Seq<char>) -> bool { match (k, s) { (None, None) => true, (Some(a), Some(b)) => ident_at(a, b, t), _ => false } }
pub open spec fn entry_at(e: KdlEntry, s: SEntry, t: Seq<char>) -> bool { oident_at(e.name, s.name, t) && oident_at(e.ty, s.ty, t) && span_is(e.span, t, s.lo, s.hi) }
pub open spec fn entries_at(e: Seq<KdlEntry>, s: Seq<SEntry>, t: Seq<char>) -> bool { e.len() == s.len() && forall|k: int| 0 <= k < e.len() ==> entry_at(#[trigger] e[k], s[k], t) }
pub open spec fn node_at(n: KdlNode, s: SNode, t: Seq<char>) -> bool
    decreases n,
{
    ident_at(n.name, s.name, t) && oident_at(n.ty, s.ty, t) && entries_at(n.entries@, s.entries, t) && span_is(n.span, t, s.lo, s.hi)
    && match (n.children, s.children) { (None, None) => true, (Some(d), Some(ss)) => doc_at(d, ss, t), _ => false }
}
pub open spec fn doc_at(d: KdlDocument, s: Seq<SNode>, t: Seq<char>) -> bool
    decreases d,
{ span_in(t, d.span) && d.nodes@.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> node_at(#[trigger] d.nodes@[k], s[k], t) }
pub open spec fn doc_full(d: KdlDocument, s: Seq<SNode>, t: Seq<char>) -> bool { doc_is(d, s) && doc_at(d, s, t) && d.format is Some }
pub open spec fn node_full(n: KdlNode, s: SNode, t: Seq<char>) -> bool { node_is(n, s) && node_at(n, s, t) && n.format is Some }
// ---- Where they end.
pub broadcast proof fn lemma_keyword(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_keyword(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ }
pub proof fn lemma_digs(t: Seq<char>, i: int, radix: int)
    requires 0 <= i <= t.len(),
    ensures sp_digs(t, i, radix) matches Out::Ok(j) ==> i < j <= t.len(),
{ broadcast use vx_tok::lemma_us_end; }
pub broadcast proof fn lemma_number(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_number(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ broadcast use vx_tok::lemma_us_end; }
pub broadcast proof fn lemma_string(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_string(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ broadcast use {vx_tok::lemma_idstring, vx_tok::lemma_mlbody, vx_tok::lemma_mlscan, vx_tok::lemma_sl, vx_tok::lemma_rsl, vx_tok::lemma_rbody, vx_tok::lemma_hash_end, vx_tok::lemma_rscan}; }
pub broadcast proof fn lemma_line_space(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_line_space(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ broadcast use {vx_lex::lemma_node_space, vx_lex::lemma_line}; }
pub broadcast proof fn lemma_term(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_terminator(t, i) matches Out::Ok(j) ==> i < j <= t.len(), !(sp_terminator(t, i) is Cut),
{ broadcast use {vx_lex::lemma_node_space, vx_lex::lemma_line}; }
// slashdashed children, after the space
pub open spec fn vx_sdc0(t: Seq<char>, j: int) -> Out { match sp_sdchild(t, j) { Out::Ok(k) => if j < k <= t.len() { sp_sdchildren1(t, k) } else { Out::Cut }, o => o } }
pub proof fn lemma_sdchild(t: Seq<char>, i: int)
    ensures sp_sdchild(t, i) == match sp_sd(t, i) { Out::Ok(j) => if i < j <= t.len() { match sp_children(t, j) { Ov::Ok(k, _) => Out::Ok(k), Ov::Bt => Out::Bt, Ov::Cut => Out::Cut } } else { Out::Cut }, o => o },
{}
pub proof fn lemma_sdchildren(t: Seq<char>, i: int)
    ensures sp_sdchildren(t, i) == match sp_ns0(t, i) { Out::Ok(j) => if i <= j <= t.len() { vx_sdc0(t, j) } else { Out::Cut }, o => o },
{}
pub proof fn lemma_sdchildren1(t: Seq<char>, k: int)
    ensures sp_sdchildren1(t, k) == match sp_ns1(t, k) {
        Out::Ok(m) => if k < m <= t.len() { match sp_sdchild(t, m) { Out::Ok(n) => if m < n <= t.len() { sp_sdchildren1(t, n) } else { Out::Cut }, Out::Bt => Out::Ok(k), Out::Cut => Out::Cut } } else { Out::Cut },
        Out::Bt => Out::Ok(k), Out::Cut => Out::Cut,
    },
{}
// one step of each
pub proof fn lemma_sdnode(t: Seq<char>, i: int)
    ensures sp_sdnode(t, i) == match sp_sd(t, i) {
        Out::Ok(j) => if i < j <= t.len() { match sp_base(t, j) {
            Ov::Ok(k, _) => match sp_terminator(t, k) { Out::Bt => if is1(t, k, '}') || k == t.len() { Out::Ok(k) } else { Out::Bt }, o => o },
            Ov::Bt => Out::Bt, Ov::Cut => Out::Cut,
        } } else { Out::Cut },
        o => o,
    },
{}
pub proof fn lemma_entries1(t: Seq<char>, i: int, a: Seq<SEntry>)
    ensures sp_entries(t, i, a) == match sp_ns1(t, i) {
        Out::Ok(_) => match sp_entry(t, i) { Ov::Ok(j, e) => if i < j <= t.len() { sp_entries(t, j, a.push(e)) } else { Ov::Cut }, Ov::Bt => Ov::Ok(i, a), Ov::Cut => Ov::Cut },
        Out::Bt => Ov::Ok(i, a), Out::Cut => Ov::Cut,
    },
{}
pub proof fn lemma_ntail(t: Seq<char>, m: int)
    ensures sp_ntail(t, m) == match sp_bnc(t, m) {
        Out::Ok(a) => if m <= a <= t.len() { match sp_children(t, a) {
            Ov::Ok(b, ns) => if a < b <= t.len() { match sp_sdchildren(t, b) {
                Out::Ok(c) => match sp_ns0(t, c) { Out::Ok(d) => Ov::Ok(d, Some(ns)), Out::Bt => Ov::Bt, Out::Cut => Ov::Cut },
                Out::Bt => match sp_ns0(t, b) { Out::Ok(d) => Ov::Ok(d, Some(ns)), Out::Bt => Ov::Bt, Out::Cut => Ov::Cut },
                Out::Cut => Ov::Cut,
            } } else { Ov::Cut },
            Ov::Bt => Ov::Ok(a, None),
            Ov::Cut => Ov::Cut,
        } } else { Ov::Cut },
        Out::Bt => Ov::Bt,
        Out::Cut => Ov::Cut,
    },
{}
pub open spec fn vx_bnode(t: Seq<char>, i: int, l: int, h: (Option<SName>, SName)) -> Ov<SNode> {
    if i < l <= t.len() { match sp_entries(t, l, seq![]) {
        Ov::Ok(m, es) => if l <= m <= t.len() { vx_bntail(t, i, m, h, es) } else { Ov::Cut },
        Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
    } } else { Ov::Cut }
}
pub open spec fn vx_bntail(t: Seq<char>, i: int, m: int, h: (Option<SName>, SName), es: Seq<SEntry>) -> Ov<SNode> {
    match sp_ntail(t, m) {
        Ov::Ok(d, c) => if sp_terminator(t, d) is Cut { Ov::Cut } else { Ov::Ok(d, SNode { ty: h.0, name: h.1, entries: es, children: c, lo: i, hi: d }) },
        Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut,
    }
}
pub proof fn lemma_base1(t: Seq<char>, i: int)
    ensures sp_base(t, i) == if is1(t, i, '}') || i >= t.len() { Ov::Bt } else if is1(t, i, '{') { Ov::Cut } else {
        match sp_nhead(t, i) { Ov::Ok(l, h) => vx_bnode(t, i, l, h), Ov::Bt => Ov::Bt, Ov::Cut => Ov::Cut }
    },
{}
// ---- Text put together.
pub proof fn lemma_cat(t: Seq<char>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= t.len(),
    ensures subs(t, a, b) + subs(t, b, c) == subs(t, a, c),
{ assert(subs(t, a, b) + subs(t, b, c) =~= subs(t, a, c)); }
pub proof fn lemma_pr_arg(e: KdlEntry, t: Seq<char>, i: int, k: int, j: int)
    requires 0 <= i <= k <= j <= t.len(), e.name is None, e.format matches Some(f) && f.leading@ =~= subs(t, i, k) && f.trailing@.len() == 0, pr_tyval(e) =~= subs(t, k, j),
    ensures pr_entry(e) =~= subs(t, i, j),
{ lemma_cat(t, i, k, j); let f = e.format->Some_0; assert(pr_entry(e) =~= f.leading@ + pr_tyval(e)); }
pub proof fn lemma_pr_prop(e: KdlEntry, t: Seq<char>, i: int, k: int, l: int, m: int, n: int, j: int)
    requires 0 <= i <= k <= l <= m < n <= j <= t.len(), e.name is Some, e.format matches Some(f) && f.leading@ =~= subs(t, i, k) && f.trailing@.len() == 0 && f.after_key@ =~= subs(t, l, m) && f.after_eq@ =~= subs(t, m + 1, n),
        is1(t, m, '='), pr_ident(e.name->Some_0) =~= subs(t, k, l), pr_tyval(e) =~= subs(t, n, j),
    ensures pr_entry(e) =~= subs(t, i, j),
{
    let f = e.format->Some_0;
    let nm = pr_ident(e.name->Some_0) + f.after_key@ + seq!['='] + f.after_eq@;
    assert(subs(t, m, m + 1) =~= seq!['=']);
    lemma_cat(t, k, l, m); lemma_cat(t, k, m, m + 1); lemma_cat(t, k, m + 1, n); lemma_cat(t, k, n, j); lemma_cat(t, i, k, j);
    assert(nm =~= subs(t, k, n));
    assert(pr_entry(e) =~= f.leading@ + (nm + pr_tyval(e)));
}
// where a terminator at d ends, or d
pub open spec fn term_end(t: Seq<char>, d: int) -> int { match sp_terminator(t, d) { Out::Ok(e) => e, _ => d } }
// the text of what a repetition of entries gives
pub open spec fn pr_oentries(s: Seq<Option<KdlEntry>>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { pr_oentries(s.drop_last()) + (match s.last() { Some(e) => pr_entry(e), None => seq![] }) } }
pub open spec fn oentries_full(a: Seq<Option<KdlEntry>>, g: Seq<SEntry>, t: Seq<char>) -> bool { a.len() == g.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k] matches Some(e) && entry_full(e, g[k], t)) }
pub open spec fn entries_full(a: Seq<KdlEntry>, g: Seq<SEntry>, t: Seq<char>) -> bool { a.len() == g.len() && forall|k: int| 0 <= k < a.len() ==> entry_full(#[trigger] a[k], g[k], t) }
pub proof fn lemma_oentries_push(a: Seq<Option<KdlEntry>>, e: KdlEntry, g: Seq<SEntry>, s: SEntry, t: Seq<char>, i: int, j: int, k: int)
    requires oentries_full(a, g, t), entry_full(e, s, t), 0 <= i <= j <= k <= t.len(), pr_oentries(a) =~= subs(t, i, j), pr_entry(e) =~= subs(t, j, k),
    ensures oentries_full(a.push(Some(e)), g.push(s), t), pr_oentries(a.push(Some(e))) =~= subs(t, i, k),
{
    assert(a.push(Some(e)).drop_last() =~= a);
    lemma_cat(t, i, j, k);
}
pub proof fn lemma_oentries(a: Seq<Option<KdlEntry>>, v: Seq<KdlEntry>, g: Seq<SEntry>, t: Seq<char>)
    requires oentries_full(a, g, t), v == somes(a),
    ensures entries_full(v, g, t), pr_entries(v) =~= pr_oentries(a),
    decreases a.len(),
{
    if a.len() > 0 {
        let (a0, g0) = (a.drop_last(), g.drop_last());
        assert(oentries_full(a0, g0, t));
        lemma_oentries(a0, somes(a0), g0, t);
        assert(a.last() is Some);
        assert(v =~= somes(a0).push(a.last()->Some_0));
        assert(v.drop_last() =~= somes(a0));
        assert forall|k: int| 0 <= k < v.len() implies entry_full(#[trigger] v[k], g[k], t) by {
            if k < a0.len() { assert(somes(a0)[k] == v[k]); assert(g0[k] == g[k]); } else { assert(v[k] == a.last()->Some_0); assert(a[k] == a.last()); }
        }
    }
}
pub proof fn lemma_entries_full(a: Seq<KdlEntry>, g: Seq<SEntry>, t: Seq<char>)
    requires entries_full(a, g, t),
    ensures entries_are(a, g), entries_at(a, g, t),
{
    assert forall|k: int| 0 <= k < a.len() implies entry_is(#[trigger] a[k], g[k]) && entry_at(a[k], g[k], t) by { assert(entry_full(a[k], g[k], t)); }
}
// The text of a node from its parts: type i-j, space j-k, name k-l, entries l-m,
// space m-a, children a-b, space b-d, terminator d-e.
pub proof fn lemma_pr_node(n: KdlNode, x: nat, t: Seq<char>, i: int, j: int, k: int, l: int, m: int, a: int, b: int, d: int, e: int)
    requires 0 <= i <= j <= k <= l <= m <= a <= b <= d <= e <= t.len(),
        n.format matches Some(f) && f.leading@.len() == 0 && f.trailing@.len() == 0 && f.after_ty@ =~= subs(t, j, k) && f.before_terminator@ =~= subs(t, b, d) && f.terminator@ =~= subs(t, d, e)
            && (match n.ty { Some(y) => pr_typart(f.before_ty_name@, y, f.after_ty_name@), None => seq![] }) =~= subs(t, i, j)
            && (match n.children { Some(c) => f.before_children@ =~= subs(t, m, a) && a + 2 <= b && is1(t, a, '{') && is1(t, b - 1, '}') && c.format is Some && pr_doc(c, x + 4) =~= subs(t, a + 1, b - 1), None => m == a == b }),
        pr_ident(n.name) =~= subs(t, k, l), pr_entries(n.entries@) =~= subs(t, l, m),
    ensures pr_node(n, x) =~= subs(t, i, e),
{
    let f = n.format->Some_0;
    lemma_cat(t, i, j, k); lemma_cat(t, i, k, l); lemma_cat(t, i, l, m);
    let ty = match n.ty { Some(y) => seq!['('] + f.before_ty_name@ + pr_ident(y) + f.after_ty_name@ + seq![')'], None => seq![] };
    assert(ty =~= subs(t, i, j));
    assert(pr_head(n, x) =~= ty + f.after_ty@ + pr_ident(n.name) + pr_entries(n.entries@));
    assert(pr_head(n, x) =~= subs(t, i, m));
    lemma_cat(t, b, d, e);
    assert(pr_tail(n) =~= subs(t, b, e));
    match n.children {
        Some(c) => {
            assert(subs(t, a, a + 1) =~= seq!['{']); assert(subs(t, b - 1, b) =~= seq!['}']);
            lemma_cat(t, m, a, a + 1); lemma_cat(t, m, a + 1, b - 1); lemma_cat(t, m, b - 1, b); lemma_cat(t, i, m, b); lemma_cat(t, i, b, e);
            let ch = f.before_children@ + seq!['{'] + Seq::<char>::empty() + pr_doc(c, x + 4) + Seq::<char>::empty() + seq!['}'];
            assert(ch =~= subs(t, m, b));
            assert(pr_node(n, x) =~= pr_head(n, x) + ch + pr_tail(n));
        }
        None => { lemma_cat(t, i, m, e); assert(pr_node(n, x) =~= pr_head(n, x) + Seq::<char>::empty() + pr_tail(n)); }
    }
}
pub proof fn lemma_node_full(n: KdlNode, s: SNode, t: Seq<char>)
    requires ident_full(n.name, s.name, t), oident_full(n.ty, s.ty, t), entries_are(n.entries@, s.entries), entries_at(n.entries@, s.entries, t), span_is(n.span, t, s.lo, s.hi), n.format is Some,
        match (n.children, s.children) { (None, None) => true, (Some(d), Some(ss)) => doc_full(d, ss, t), _ => false },
    ensures node_full(n, s, t),
{}
pub proof fn lemma_oentries_none()
    ensures pr_oentries(Seq::<Option<KdlEntry>>::empty()).len() == 0,
{}
pub proof fn lemma_lead1(t: Seq<char>, i: int)
    ensures sp_lead(t, i) == match sp_line_space(t, i) {
        Out::Ok(j) => if i < j <= t.len() { sp_lead(t, j) } else { Out::Cut },
        Out::Bt => match sp_sdnode(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_lead(t, j) } else { Out::Cut }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut },
        Out::Cut => Out::Cut,
    },
{}
// what leads has nothing more leading after it
pub proof fn lemma_lead_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_lead(t, i) matches Out::Ok(j) ==> i <= j <= t.len() && sp_lead(t, j) == Out::Ok(j), !(sp_lead(t, i) is Bt),
    decreases t.len() - i,
{
    hide(sp_line_space);
    lemma_lead1(t, i);
    match sp_line_space(t, i) {
        Out::Ok(j) => if i < j <= t.len() { lemma_lead_end(t, j) },
        Out::Bt => match sp_sdnode(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_lead_end(t, j) }, _ => {} },
        _ => {},
    }
}
pub proof fn lemma_node1(t: Seq<char>, i: int)
    ensures sp_node(t, i) == match sp_lead(t, i) { Out::Ok(j) => if i <= j <= t.len() { sp_base(t, j) } else { Ov::Cut }, Out::Bt => Ov::Bt, Out::Cut => Ov::Cut },
{}
pub proof fn lemma_seps(t: Seq<char>, i: int)
    ensures sp_seps(t, i) == match sp_node(t, i) { Ov::Ok(j, n) => if i < j <= t.len() { sp_seps1(t, j, seq![n]) } else { Ov::Cut }, Ov::Bt => Ov::Ok(i, seq![]), Ov::Cut => Ov::Cut },
{}
pub proof fn lemma_seps1(t: Seq<char>, j: int, a: Seq<SNode>)
    ensures sp_seps1(t, j, a) == match sp_terminator(t, j) {
        Out::Ok(k) => if j < k <= t.len() { match sp_node(t, k) { Ov::Ok(l, n) => if k < l <= t.len() { sp_seps1(t, l, a.push(n)) } else { Ov::Cut }, Ov::Bt => Ov::Ok(j, a), Ov::Cut => Ov::Cut } } else { Ov::Cut },
        Out::Bt => Ov::Ok(j, a), Out::Cut => Ov::Cut,
    },
{}
pub proof fn lemma_nodes1(t: Seq<char>, i: int)
    ensures sp_nodes(t, i) == match sp_lead(t, i) {
        Out::Ok(a) => if i <= a <= t.len() { match sp_seps(t, a) {
            Ov::Ok(b, ns) => if a <= b <= t.len() { match sp_terminator(t, b) {
                Out::Ok(c) => if b < c <= t.len() { lead_then(t, sp_lead(t, c), ns) } else { Ov::Cut },
                Out::Bt => if ns.len() == 0 { lead_then(t, sp_lead(t, b), ns) } else { Ov::Ok(b, ns) },
                Out::Cut => Ov::Cut,
            } } else { Ov::Cut },
            o => o,
        } } else { Ov::Cut },
        Out::Bt => Ov::Bt, Out::Cut => Ov::Cut,
    },
{}
// Where no node starts, a block or the text ends, so no terminator is there.
pub proof fn lemma_sdchildren_pos(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_sdchildren(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
{
    hide(sp_ns0); hide(sp_sdchild); hide(sp_sdchildren1); hide(sp_sdchildren);
    lemma_sdchildren(t, i); vx_lex::lemma_ns0(t, i);
    match sp_ns0(t, i) { Out::Ok(j) => match sp_sdchild(t, j) { Out::Ok(k) => if j < k <= t.len() { lemma_sdchildren1_pos(t, k) }, _ => {} }, _ => {} }
}
pub proof fn lemma_sdchildren1_pos(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_sdchildren1(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
    decreases t.len() - i,
{
    hide(sp_ns1); hide(sp_sdchild); hide(sp_sdchildren1);
    lemma_sdchildren1(t, i);
    match sp_ns1(t, i) { Out::Ok(m) => match sp_sdchild(t, m) { Out::Ok(n) => if i < m < n <= t.len() { lemma_sdchildren1_pos(t, n) }, _ => {} }, _ => {} }
}
pub proof fn lemma_bnc1(t: Seq<char>, i: int)
    ensures sp_bnc(t, i) == match sp_ns1(t, i) {
        Out::Ok(a) => if i < a <= t.len() { match sp_sdentries(t, a) {
            Out::Ok(b) => if a < b <= t.len() { match sp_ns1(t, b) {
                Out::Ok(c) => if b < c <= t.len() { match sp_sdchildren(t, c) { Out::Ok(d) => sp_ns0(t, d), Out::Bt => sp_ns0(t, b), Out::Cut => Out::Cut } } else { Out::Cut },
                Out::Bt => sp_ns0(t, b), Out::Cut => Out::Cut,
            } } else { Out::Cut },
            Out::Bt => match sp_sdchildren(t, a) { Out::Ok(d) => sp_ns0(t, d), Out::Bt => then_ns0(t, sp_ns0(t, i)), Out::Cut => Out::Cut },
            Out::Cut => Out::Cut,
        } } else { Out::Cut },
        Out::Bt => then_ns0(t, sp_ns0(t, i)),
        Out::Cut => Out::Cut,
    },
{ hide(sp_ns0); hide(sp_ns1); hide(sp_sdentries); }
pub proof fn lemma_bnc_not_bt(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures !(sp_bnc(t, i) is Bt),
{
    hide(sp_ns0); hide(sp_ns1); hide(sp_sdentries); hide(sp_sdchildren); hide(sp_bnc);
    lemma_bnc1(t, i); vx_lex::lemma_ns0(t, i);
    match sp_ns0(t, i) { Out::Ok(a) => { vx_lex::lemma_ns0(t, a) }, _ => {} }
    match sp_ns1(t, i) {
        Out::Ok(a) => if i < a <= t.len() {
            lemma_sdchildren_pos(t, a);
            match sp_sdchildren(t, a) { Out::Ok(d) => vx_lex::lemma_ns0(t, d), _ => {} }
            match sp_sdentries(t, a) {
                Out::Ok(b) => if a < b <= t.len() {
                    vx_lex::lemma_ns0(t, b);
                    match sp_ns1(t, b) { Out::Ok(c) => if b < c <= t.len() { lemma_sdchildren_pos(t, c); match sp_sdchildren(t, c) { Out::Ok(d) => vx_lex::lemma_ns0(t, d), _ => {} } }, _ => {} }
                },
                _ => {},
            }
        },
        _ => {},
    }
}
pub proof fn lemma_entries_not_bt(t: Seq<char>, i: int, a: Seq<SEntry>)
    requires 0 <= i <= t.len(),
    ensures !(sp_entries(t, i, a) is Bt),
    decreases t.len() - i,
{
    hide(sp_ns1); hide(sp_entry);
    lemma_entries1(t, i, a);
    match sp_ns1(t, i) { Out::Ok(_) => match sp_entry(t, i) { Ov::Ok(j, e) => if i < j <= t.len() { lemma_entries_not_bt(t, j, a.push(e)) }, _ => {} }, _ => {} }
}
pub proof fn lemma_base_bt(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_base(t, i) is Bt ==> is1(t, i, '}') || i == t.len(),
{
    hide(sp_entries); hide(sp_ntail); hide(sp_bnc); hide(sp_children); hide(sp_sdchildren); hide(sp_ns0); hide(sp_ty); hide(sp_string); hide(sp_terminator);
    lemma_base1(t, i);
    if !(is1(t, i, '}') || i >= t.len() || is1(t, i, '{')) {
        let j = match sp_tyo(t, i) { Ov::Ok(j, _) => j, _ => i };
        lemma_ty_pos(t, i);
        vx_lex::lemma_ns0(t, j);
        match sp_nhead(t, i) {
            Ov::Ok(l, h) => if i < l <= t.len() {
                lemma_entries_not_bt(t, l, seq![]);
                match sp_entries(t, l, seq![]) {
                    Ov::Ok(m, es) => if l <= m <= t.len() {
                        lemma_ntail(t, m); lemma_bnc_not_bt(t, m);
                        match sp_bnc(t, m) {
                            Out::Ok(a) => if m <= a <= t.len() { match sp_children(t, a) {
                                Ov::Ok(b, ns) => if a < b <= t.len() {
                                    lemma_sdchildren_pos(t, b); vx_lex::lemma_ns0(t, b);
                                    match sp_sdchildren(t, b) { Out::Ok(c) => vx_lex::lemma_ns0(t, c), _ => {} }
                                },
                                _ => {},
                            } },
                            _ => {},
                        }
                    },
                    _ => {},
                }
            },
            _ => {},
        }
    }
}
pub proof fn lemma_ty_pos(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_ty(t, i) matches Ov::Ok(j, _) ==> i < j <= t.len(),
{
    hide(sp_ns0); hide(sp_node_space); hide(sp_string);
    if i < t.len() {
        vx_lex::lemma_ns0(t, i + 1);
        match sp_ns0(t, i + 1) { Out::Ok(a) => { lemma_string(t, a); match sp_string(t, a) { Out::Ok(b) => vx_lex::lemma_ns0(t, b), _ => {} } }, _ => {} }
    }
}
pub proof fn lemma_no_term(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), is1(t, i, '}') || i == t.len(),
    ensures sp_terminator(t, i) is Bt,
{}
// A node with another leading text.
pub open spec fn same_but_leading(n: KdlNode, o: KdlNode) -> bool {
    n.ty == o.ty && n.name == o.name && n.entries == o.entries && n.children == o.children && n.span == o.span
    && (n.format matches Some(f) && (o.format matches Some(g) && f.before_ty_name == g.before_ty_name && f.after_ty_name == g.after_ty_name && f.after_ty == g.after_ty && f.before_children == g.before_children && f.before_terminator == g.before_terminator && f.terminator == g.terminator && f.trailing == g.trailing))
}
pub proof fn lemma_set_leading(n: KdlNode, o: KdlNode, x: nat)
    requires same_but_leading(n, o), o.format->Some_0.leading@.len() == 0,
    ensures pr_node(n, x) =~= n.format->Some_0.leading@ + pr_node(o, x),
{
    let (f, g) = (n.format->Some_0, o.format->Some_0);
    assert(pr_head(n, x) =~= f.leading@ + pr_head(o, x));
    assert(pr_tail(n) == pr_tail(o));
    let ch = match n.children {
        Some(c) => f.before_children@ + seq!['{'] + (if c.format.is_none() { seq!['\n'] } else { seq![] }) + pr_doc(c, x + 4) + (if c.format.is_none() { vx_fmt::spaces(x as int) } else { seq![] }) + seq!['}'],
        None => seq![],
    };
    assert(pr_node(n, x) =~= pr_head(n, x) + ch + pr_tail(n));
    assert(pr_node(o, x) =~= pr_head(o, x) + ch + pr_tail(o));
}
pub proof fn lemma_lead_full(n: KdlNode, o: KdlNode, s: SNode, t: Seq<char>)
    requires same_but_leading(n, o), node_full(o, s, t),
    ensures node_full(n, s, t),
{ }
pub proof fn lemma_lead_node(n: KdlNode, o: KdlNode, t: Seq<char>, i: int, j: int, e: int)
    requires same_but_leading(n, o), o.format->Some_0.leading@.len() == 0, 0 <= i <= j <= e <= t.len(), n.format->Some_0.leading@ =~= subs(t, i, j), forall|k: nat| #[trigger] pr_node(o, k) =~= subs(t, j, e),
    ensures forall|k: nat| #[trigger] pr_node(n, k) =~= subs(t, i, e),
{
    assert forall|k: nat| #[trigger] pr_node(n, k) =~= subs(t, i, e) by { lemma_set_leading(n, o, k); lemma_cat(t, i, j, e); assert(pr_node(o, k) =~= subs(t, j, e)); }
}
// a sequence of nodes
pub open spec fn nodes_full(a: Seq<KdlNode>, g: Seq<SNode>, t: Seq<char>) -> bool { a.len() == g.len() && forall|k: int| 0 <= k < a.len() ==> node_full(#[trigger] a[k], g[k], t) }
pub open spec fn nodes_text(a: Seq<KdlNode>, t: Seq<char>, i: int, j: int) -> bool { forall|k: nat| #[trigger] pr_seq(a, k) =~= subs(t, i, j) }
pub proof fn lemma_nodes_push(a: Seq<KdlNode>, n: KdlNode, g: Seq<SNode>, s: SNode, t: Seq<char>, i: int, j: int, e: int)
    requires nodes_full(a, g, t), node_full(n, s, t), 0 <= i <= j <= e <= t.len(), nodes_text(a, t, i, j), forall|k: nat| #[trigger] pr_node(n, k) =~= subs(t, j, e),
    ensures nodes_full(a.push(n), g.push(s), t), nodes_text(a.push(n), t, i, e),
{
    hide(node_full);
    assert forall|k: nat| #[trigger] pr_seq(a.push(n), k) =~= subs(t, i, e) by {
        assert(a.push(n).drop_last() =~= a); lemma_cat(t, i, j, e);
        assert(pr_seq(a, k) =~= subs(t, i, j)); assert(pr_node(n, k) =~= subs(t, j, e));
    }
}
pub proof fn lemma_nodes_none(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures nodes_full(seq![], seq![], t), nodes_text(seq![], t, i, i),
{}
// the first node given what leads the document
pub proof fn lemma_first_leading(a: Seq<KdlNode>, b: Seq<KdlNode>, x: nat)
    requires a.len() > 0, a.len() == b.len(), same_but_leading(b[0], a[0]), a[0].format->Some_0.leading@.len() == 0, forall|k: int| 0 < k < a.len() ==> #[trigger] b[k] == a[k],
    ensures pr_seq(b, x) =~= b[0].format->Some_0.leading@ + pr_seq(a, x),
    decreases a.len(),
{
    if a.len() == 1 {
        lemma_set_leading(b[0], a[0], x);
        assert(a.drop_last() =~= seq![]); assert(b.drop_last() =~= seq![]);
    } else {
        lemma_first_leading(a.drop_last(), b.drop_last(), x);
        assert(b.last() == a.last());
    }
}
pub proof fn lemma_doc_text(d: KdlDocument, x: nat)
    ensures d.format matches Some(f) ==> pr_doc(d, x) =~= f.leading@ + pr_seq(d.nodes@, x) + f.trailing@,
{
    lemma_pr_seq(d.nodes, d.nodes@.len(), x);
    assert(d.nodes@.take(d.nodes@.len() as int) =~= d.nodes@);
}
pub proof fn lemma_doc_full(d: KdlDocument, g: Seq<SNode>, t: Seq<char>)
    requires nodes_full(d.nodes@, g, t), span_in(t, d.span), d.format is Some,
    ensures doc_full(d, g, t),
{
    assert forall|k: int| 0 <= k < g.len() implies node_is(#[trigger] d.nodes@[k], g[k]) && node_at(d.nodes@[k], g[k], t) by { assert(node_full(d.nodes@[k], g[k], t)); }
}
pub proof fn lemma_doc_of(d: KdlDocument, ns: Seq<KdlNode>, g: Seq<SNode>, t: Seq<char>, i: int, a: int, e: int, j: int)
    requires d.format is Some, nodes_full(ns, g, t), nodes_text(ns, t, a, e), 0 <= i <= a <= e <= j <= t.len(), span_in(t, d.span), d.format->Some_0.trailing@ =~= subs(t, e, j),
        ns.len() == 0 ==> d.nodes@ == ns && d.format->Some_0.leading@ =~= subs(t, i, a),
        ns.len() > 0 ==> d.format->Some_0.leading@.len() == 0 && d.nodes@.len() == ns.len() && same_but_leading(d.nodes@[0], ns[0]) && ns[0].format->Some_0.leading@.len() == 0 && d.nodes@[0].format->Some_0.leading@ =~= subs(t, i, a)
            && forall|k: int| 0 < k < ns.len() ==> #[trigger] d.nodes@[k] == ns[k],
    ensures doc_full(d, g, t), forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(t, i, j),
{
    hide(pr_doc); hide(pr_seq); hide(pr_node); hide(node_full);
    assert forall|k: int| 0 <= k < d.nodes@.len() implies node_full(#[trigger] d.nodes@[k], g[k], t) by { assert(node_full(ns[k], g[k], t)); if k == 0 { lemma_lead_full(d.nodes@[0], ns[0], g[0], t); } }
    lemma_doc_full(d, g, t);
    assert forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(t, i, j) by {
        lemma_doc_text(d, k);
        assert(pr_seq(ns, k) =~= subs(t, a, e));
        if ns.len() > 0 { lemma_first_leading(ns, d.nodes@, k); }
        lemma_cat(t, i, a, e); lemma_cat(t, i, e, j);
    }
}
pub proof fn lemma_doc_bom(d: KdlDocument, o: KdlDocument, g: Seq<SNode>, t: Seq<char>, i: int, a: int, j: int)
    requires d.nodes == o.nodes, d.span == o.span, (d.format matches Some(f) && (o.format matches Some(h) && f.leading@ =~= subs(t, i, a) + h.leading@ && f.trailing == h.trailing)), 0 <= i <= a <= j <= t.len(),
        doc_full(o, g, t), forall|k: nat| #[trigger] pr_doc(o, k) =~= subs(t, a, j),
    ensures doc_full(d, g, t), forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(t, i, j),
{
    hide(pr_nodes);
    assert forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(t, i, j) by { lemma_cat(t, i, a, j); assert(pr_doc(o, k) =~= subs(t, a, j)); assert(pr_doc(d, k) =~= subs(t, i, a) + pr_doc(o, k)); }
}
// ---- One node, entry or name on its own.
// node terminator? line-space*, and line-space* entry line-space*
pub open spec fn sp_ls0(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    match sp_line_space(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_ls0(t, j) } else { Out::Cut }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut }
}
pub open spec fn sp_pnode(t: Seq<char>, i: int) -> Ov<SNode> {
    match sp_node(t, i) { Ov::Ok(j, n) => match sp_ls0(t, term_end(t, j)) { Out::Ok(k) => Ov::Ok(k, SNode { lo: i, hi: k, ..n }), _ => Ov::Cut }, o => o }
}
pub open spec fn sp_pentry(t: Seq<char>, i: int) -> Ov<SEntry> {
    match sp_ls0(t, i) {
        Out::Ok(a) => match sp_entry(t, a) { Ov::Ok(b, e) => match sp_ls0(t, b) { Out::Ok(k) => Ov::Ok(k, SEntry { lo: i, hi: k, ..e }), _ => Ov::Cut }, o => o },
        _ => Ov::Cut,
    }
}
pub proof fn lemma_ls0(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_ls0(t, i) matches Out::Ok(j) ==> i <= j <= t.len(), !(sp_ls0(t, i) is Bt), sp_line_space(t, i) is Bt ==> sp_node_space(t, i) is Bt,
    decreases t.len() - i,
{ match sp_line_space(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_ls0(t, j); }, _ => {} } }
pub open spec fn same_but_trailing(n: KdlNode, o: KdlNode) -> bool {
    n.ty == o.ty && n.name == o.name && n.entries == o.entries && n.children == o.children
    && (n.format matches Some(f) && (o.format matches Some(g) && f.before_ty_name == g.before_ty_name && f.after_ty_name == g.after_ty_name && f.after_ty == g.after_ty && f.before_children == g.before_children && f.before_terminator == g.before_terminator && f.terminator == g.terminator && f.leading == g.leading))
}
pub proof fn lemma_set_trailing(n: KdlNode, o: KdlNode, x: nat)
    requires same_but_trailing(n, o), o.format->Some_0.trailing@.len() == 0,
    ensures pr_node(n, x) =~= pr_node(o, x) + n.format->Some_0.trailing@,
{
    let (f, g) = (n.format->Some_0, o.format->Some_0);
    assert(pr_head(n, x) == pr_head(o, x));
    assert(pr_tail(n) =~= pr_tail(o) + f.trailing@);
    let ch = match n.children {
        Some(c) => f.before_children@ + seq!['{'] + (if c.format.is_none() { seq!['\n'] } else { seq![] }) + pr_doc(c, x + 4) + (if c.format.is_none() { vx_fmt::spaces(x as int) } else { seq![] }) + seq!['}'],
        None => seq![],
    };
    assert(pr_node(n, x) =~= pr_head(n, x) + ch + pr_tail(n));
    assert(pr_node(o, x) =~= pr_head(o, x) + ch + pr_tail(o));
}
pub proof fn lemma_pad_node(n: KdlNode, o: KdlNode, s: SNode, t: Seq<char>, i: int, j: int, e: int)
    requires same_but_trailing(n, o), o.format->Some_0.trailing@.len() == 0, 0 <= i <= j <= e <= t.len(), n.format->Some_0.trailing@ =~= subs(t, j, e), forall|k: nat| #[trigger] pr_node(o, k) =~= subs(t, i, j), node_full(o, s, t), span_is(n.span, t, i, e),
    ensures forall|k: nat| #[trigger] pr_node(n, k) =~= subs(t, i, e), node_full(n, SNode { lo: i, hi: e, ..s }, t),
{
    assert forall|k: nat| #[trigger] pr_node(n, k) =~= subs(t, i, e) by { lemma_set_trailing(n, o, k); lemma_cat(t, i, j, e); assert(pr_node(o, k) =~= subs(t, i, j)); }
}
pub proof fn lemma_pad_entry(e: KdlEntry, o: KdlEntry, s: SEntry, t: Seq<char>, i: int, a: int, b: int, j: int)
    requires e.name == o.name, e.ty == o.ty, e.value == o.value, 0 <= i <= a <= b <= j <= t.len(), entry_full(o, s, t), pr_entry(o) =~= subs(t, a, b), span_is(e.span, t, i, j),
        (e.format matches Some(f) && (o.format matches Some(g) && f.leading@ =~= subs(t, i, a) + g.leading@ && f.trailing@ =~= g.trailing@ + subs(t, b, j) && f.value_repr == g.value_repr && f.after_ty == g.after_ty && f.before_ty_name == g.before_ty_name && f.after_ty_name == g.after_ty_name && f.after_key == g.after_key && f.after_eq == g.after_eq)),
    ensures pr_entry(e) =~= subs(t, i, j), entry_full(e, SEntry { lo: i, hi: j, ..s }, t),
{
    lemma_cat(t, i, a, b); lemma_cat(t, i, b, j);
    assert(pr_entry(e) =~= subs(t, i, a) + pr_entry(o) + subs(t, b, j));
}
// A text that is one such thing from beginning to end.
pub open spec fn whole<V>(o: Ov<V>, t: Seq<char>) -> Option<V> { match o { Ov::Ok(j, v) => if j == t.len() { Some(v) } else { None }, _ => None } }
pub open spec fn doc_text(t: Seq<char>) -> Option<Seq<SNode>> { whole(sp_document(t, 0), t) }
pub open spec fn node_text(t: Seq<char>) -> Option<SNode> { whole(sp_pnode(t, 0), t) }
pub open spec fn entry_text(t: Seq<char>) -> Option<SEntry> { whole(sp_pentry(t, 0), t) }
pub open spec fn name_text(t: Seq<char>) -> Option<SName> { match sp_string(t, 0) { Out::Ok(j) => if j == t.len() { Some(name_at(t, 0, j)) } else { None }, _ => None } }
pub open spec fn diags_in(v: Vec<KdlDiagnostic>, t: Seq<char>, n: int) -> bool { v@.len() == n && forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).input@ =~= t && span_in(t, v@[k].span) }
// what a rejection says: the text itself, and at least one place inside it
pub open spec fn diagnosed(e: KdlError, t: Seq<char>) -> bool {
    e.input@ =~= t && e.diagnostics@.len() > 0 && forall|k: int| 0 <= k < e.diagnostics@.len() ==> (#[trigger] e.diagnostics@[k]).input@ =~= t && span_in(t, e.diagnostics@[k].span)
}
// ---- Where things are: siblings apart and in order, parts inside the whole.
pub open spec fn ord_name(n: SName, lo: int, hi: int) -> bool { lo <= n.lo < n.hi <= hi }
pub open spec fn ord_entry(e: SEntry, lo: int, hi: int) -> bool {
    lo <= e.lo < e.hi <= hi && (e.name matches Some(n) ==> ord_name(n, e.lo, e.hi)) && (e.ty matches Some(n) ==> ord_name(n, e.lo, e.hi)) && (e.name matches Some(n) ==> (e.ty matches Some(m) ==> n.hi < m.lo))
}
pub open spec fn ord_entries(s: Seq<SEntry>, lo: int, hi: int) -> bool {
    lo <= hi && (forall|k: int| 0 <= k < s.len() ==> ord_entry(#[trigger] s[k], lo, hi)) && forall|k: int, l: int| 0 <= k < l < s.len() ==> (#[trigger] s[k]).hi <= (#[trigger] s[l]).lo
}
pub open spec fn ord_node(n: SNode, lo: int, hi: int) -> bool
    decreases n,
{
    lo <= n.lo < n.hi <= hi && (n.ty matches Some(m) ==> ord_name(m, n.lo, n.name.lo)) && ord_name(n.name, n.lo, n.hi) && ord_entries(n.entries, n.name.hi, n.hi)
    && match n.children { Some(c) => ord_nodes(c, n.name.hi, n.hi) && forall|k: int, l: int| 0 <= k < n.entries.len() && 0 <= l < c.len() ==> (#[trigger] n.entries[k]).hi < (#[trigger] c[l]).lo, None => true }
}
pub open spec fn ord_nodes(s: Seq<SNode>, lo: int, hi: int) -> bool
    decreases s,
{
    lo <= hi && (forall|k: int| 0 <= k < s.len() ==> ord_node(#[trigger] s[k], lo, hi)) && forall|k: int, l: int| 0 <= k < l < s.len() ==> (#[trigger] s[k]).hi < (#[trigger] s[l]).lo
}
pub proof fn ord_ty(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_ty(t, i) matches Ov::Ok(j, n) ==> j <= t.len() && ord_name(n, i + 1, j - 1),
{ if is1(t, i, '(') { vx_lex::lemma_ns0(t, i + 1); match sp_ns0(t, i + 1) { Out::Ok(a) => { lemma_string(t, a); match sp_string(t, a) { Out::Ok(b) => vx_lex::lemma_ns0(t, b), _ => {} } }, _ => {} } } }
pub proof fn ord_value(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_value(t, i) matches Ov::Ok(j, v) ==> i < j <= t.len() && (v.0 matches Some(n) ==> ord_name(n, i, j)),
{
    ord_ty(t, i);
    match sp_ty(t, i) { Ov::Ok(j, _) => vx_lex::lemma_ns0(t, j), _ => {} }
    match sp_vty(t, i) { Ov::Ok(k, _) => { lemma_keyword(t, k); lemma_number(t, k); lemma_string(t, k); }, _ => {} }
}
pub proof fn ord_bare(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures sp_bare(t, k) matches Ov::Ok(j, e) ==> j <= t.len() && ord_entry(e, k, j) && e.lo == k && e.hi == j,
{
    lemma_string(t, k);
    ord_value(t, k);
    match sp_string(t, k) { Out::Ok(l) => { vx_lex::lemma_ns0(t, l); match sp_ns0(t, l) { Out::Ok(m) => if is1(t, m, '=') { vx_lex::lemma_ns0(t, m + 1); match sp_ns0(t, m + 1) { Out::Ok(n) => ord_value(t, n), _ => {} } }, _ => {} } }, _ => {} }
}
pub proof fn ord_ns1(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_ns1(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ vx_lex::lemma_node_space(t, i); match sp_node_space(t, i) { Out::Ok(j) => vx_lex::lemma_ns0(t, j), _ => {} } }
pub proof fn ord_as0(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_as0(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
    decreases t.len() - i,
{ match sp_anyspace(t, i) { Out::Ok(j) => if i < j <= t.len() { ord_as0(t, j); }, _ => {} } }
pub proof fn ord_elead(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_elead(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
    decreases t.len() - i, 2int,
{
    vx_lex::lemma_ns0(t, i);
    match sp_ns0(t, i) { Out::Ok(j) => if i <= j <= t.len() { ord_sdentries(t, j); match sp_sdentries(t, j) { Out::Ok(k) => ord_ns1(t, k), _ => {} } }, _ => {} }
}
pub proof fn ord_entry_at(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_entry(t, i) matches Ov::Ok(j, e) ==> i < j <= t.len() && ord_entry(e, i, j) && e.hi == j,
    decreases t.len() - i, 3int,
{ ord_elead(t, i); match sp_elead(t, i) { Out::Ok(k) => ord_bare(t, k), _ => {} } }
pub proof fn ord_sdentry(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_sdentry(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
    decreases t.len() - i, 0int,
{
    if is2(t, i, '/', '-') { ord_as0(t, i + 2); }
    match sp_sd(t, i) { Out::Ok(j) => if i < j <= t.len() { ord_entry_at(t, j); }, _ => {} }
}
pub proof fn ord_sdentries(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_sdentries(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
    decreases t.len() - i, 1int,
{ ord_sdentry(t, i); match sp_sdentry(t, i) { Out::Ok(k) => if i < k <= t.len() { ord_sdentries1(t, k); }, _ => {} } }
pub proof fn ord_sdentries1(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures sp_sdentries1(t, k) matches Out::Ok(j) ==> k <= j <= t.len(),
    decreases t.len() - k, 1int,
{
    ord_ns1(t, k);
    match sp_ns1(t, k) { Out::Ok(m) => if k < m <= t.len() { ord_sdentry(t, m); match sp_sdentry(t, m) { Out::Ok(n) => if m < n <= t.len() { ord_sdentries1(t, n); }, _ => {} } }, _ => {} }
}
pub proof fn ord_entries_at(t: Seq<char>, lo: int, i: int, a: Seq<SEntry>)
    requires 0 <= i <= t.len(), ord_entries(a, lo, i),
    ensures sp_entries(t, i, a) matches Ov::Ok(j, s) ==> i <= j <= t.len() && ord_entries(s, lo, j),
    decreases t.len() - i, 4int,
{
    ord_entry_at(t, i);
    match sp_ns1(t, i) { Out::Ok(_) => match sp_entry(t, i) { Ov::Ok(j, e) => if i < j <= t.len() {
        let b = a.push(e);
        assert forall|k: int| 0 <= k < b.len() implies ord_entry(#[trigger] b[k], lo, j) by { if k < a.len() { assert(ord_entry(a[k], lo, i)); } }
        assert forall|k: int, l: int| 0 <= k < l < b.len() implies (#[trigger] b[k]).hi <= (#[trigger] b[l]).lo by { assert(ord_entry(a[k], lo, i)); }
        ord_entries_at(t, lo, j, b);
    }, _ => {} }, _ => {} }
}
pub proof fn ord_base(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_base(t, i) matches Ov::Ok(j, n) ==> i < j <= t.len() && ord_node(n, i, j) && n.lo == i && n.hi == j,
    decreases t.len() - i, 11int,
{
    hide(sp_entries); hide(sp_string); hide(sv_string); hide(sp_ns0); hide(sp_ntail); hide(sp_terminator); hide(sp_ty); hide(sp_base);
    lemma_base1(t, i);
    if !(is1(t, i, '}') || i >= t.len() || is1(t, i, '{')) {
        ord_ty(t, i);
        match sp_tyo(t, i) { Ov::Ok(j, ty) => { vx_lex::lemma_ns0(t, j); match sp_ns0(t, j) { Out::Ok(k) => lemma_string(t, k), _ => {} } }, _ => {} }
        match sp_nhead(t, i) {
            Ov::Ok(l, h) => if i < l <= t.len() {
                ord_entries_at(t, l, l, seq![]);
                match sp_entries(t, l, seq![]) { Ov::Ok(m, es) => if l <= m <= t.len() {
                    ord_ntail(t, m);
                    match sp_ntail(t, m) { Ov::Ok(d, Some(c)) => { ord_wider(c, m, l, d, d); }, _ => {} }
                }, _ => {} }
            },
            _ => {}
        }
    }
}
// (children are strictly after the entries: past an opening brace)
pub proof fn ord_ntail(t: Seq<char>, m: int)
    requires 0 <= m <= t.len(),
    ensures sp_ntail(t, m) matches Ov::Ok(d, c) ==> m <= d <= t.len() && (c matches Some(ns) ==> ord_nodes(ns, m + 1, d)),
    decreases t.len() - m, 9int,
{
    hide(sp_bnc); hide(sp_children); hide(sp_sdchildren); hide(sp_ns0); hide(ord_nodes); hide(sp_ntail);
    lemma_ntail(t, m);
    match sp_bnc(t, m) { Out::Ok(a) => if m <= a <= t.len() {
        ord_children(t, a);
        match sp_children(t, a) { Ov::Ok(b, ns) => if a < b <= t.len() {
            lemma_sdchildren_pos(t, b); vx_lex::lemma_ns0(t, b);
            match sp_sdchildren(t, b) { Out::Ok(c) => vx_lex::lemma_ns0(t, c), _ => {} }
            match sp_ntail(t, m) { Ov::Ok(d, _) => ord_wider(ns, a + 1, m + 1, b, d), _ => {} }
        }, _ => {} }
    }, _ => {} }
}
pub proof fn ord_wider(s: Seq<SNode>, lo: int, lo2: int, hi: int, hi2: int)
    requires ord_nodes(s, lo, hi), lo2 <= lo, hi <= hi2,
    ensures ord_nodes(s, lo2, hi2),
{ assert forall|k: int| 0 <= k < s.len() implies ord_node(#[trigger] s[k], lo2, hi2) by { assert(ord_node(s[k], lo, hi)); } }
pub proof fn ord_children(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_children(t, i) matches Ov::Ok(j, s) ==> i < j <= t.len() && ord_nodes(s, i + 1, j),
    decreases t.len() - i, 4int,
{ if is1(t, i, '{') { ord_nodes_at(t, i + 1); match sp_nodes(t, i + 1) { Ov::Ok(j, s) => if is1(t, j, '}') { ord_wider(s, i + 1, i + 1, j, j + 1); }, _ => {} } } }
pub proof fn ord_node_at(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_node(t, i) matches Ov::Ok(j, n) ==> i < j <= t.len() && ord_node(n, i, j) && n.hi == j,
    decreases t.len() - i, 14int,
{ match sp_lead(t, i) { Out::Ok(j) => if i <= j <= t.len() { ord_base(t, j); }, _ => {} } }
pub proof fn ord_seps(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_seps(t, i) matches Ov::Ok(j, s) ==> i <= j <= t.len() && ord_nodes(s, i, j),
    decreases t.len() - i, 15int,
{ ord_node_at(t, i); match sp_node(t, i) { Ov::Ok(j, n) => if i < j <= t.len() { ord_seps1(t, i, j, seq![n]); }, _ => {} } }
pub proof fn ord_seps1(t: Seq<char>, lo: int, j: int, a: Seq<SNode>)
    requires 0 <= j <= t.len(), ord_nodes(a, lo, j),
    ensures sp_seps1(t, j, a) matches Ov::Ok(e, s) ==> j <= e <= t.len() && ord_nodes(s, lo, e),
    decreases t.len() - j, 15int,
{
    match sp_terminator(t, j) { Out::Ok(k) => if j < k <= t.len() {
        ord_node_at(t, k);
        match sp_node(t, k) { Ov::Ok(l, n) => if k < l <= t.len() {
            let b = a.push(n);
            assert forall|x: int| 0 <= x < b.len() implies ord_node(#[trigger] b[x], lo, l) by { if x < a.len() { assert(ord_node(a[x], lo, j)); } }
            assert forall|x: int, y: int| 0 <= x < y < b.len() implies (#[trigger] b[x]).hi < (#[trigger] b[y]).lo by { assert(ord_node(a[x], lo, j)); }
            ord_seps1(t, lo, l, b);
        }, _ => {} }
    }, _ => {} }
}
pub proof fn ord_nodes_at(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures sp_nodes(t, i) matches Ov::Ok(j, s) ==> i <= j <= t.len() && ord_nodes(s, i, j),
    decreases t.len() - i, 16int,
{
    lemma_lead_end(t, i);
    match sp_lead(t, i) { Out::Ok(a) => if i <= a <= t.len() {
        ord_seps(t, a);
        match sp_seps(t, a) { Ov::Ok(b, ns) => if a <= b <= t.len() {
            lemma_lead_end(t, b);
            match sp_terminator(t, b) { Out::Ok(c) => if b < c <= t.len() { lemma_lead_end(t, c); }, _ => {} }
            match sp_nodes(t, i) { Ov::Ok(d, _) => ord_wider(ns, a, i, b, d), _ => {} }
        }, _ => {} }
    }, _ => {} }
}
pub proof fn ord_document(t: Seq<char>)
    ensures doc_text(t) matches Some(s) ==> ord_nodes(s, 0, t.len() as int),
{ ord_nodes_at(t, bom_end(t, 0)); match doc_text(t) { Some(s) => ord_wider(s, bom_end(t, 0), 0, t.len() as int, t.len() as int), None => {} } }
// Every function whose definition some proof hides: the verifier leaves out of
// a module what nothing in it mentions, and then cannot hide it.
pub open spec fn vx_mentions(t: Seq<char>, i: int, n: KdlNode, d: KdlDocument, e: KdlEntry, s: SNode, c: Seq<char>) -> bool {
    sp_string(t, i) == sp_keyword(t, i) && sv_string(t, i) == t && kw_at(t, i) is Some && kw_end(t, i) > 0 && sv_number(t, i, i) is Some && sp_number(t, i) is Ok && sp_terminator(t, i) is Ok && sp_line_space(t, i) is Ok && sp_newline(t, i) is Ok && sp_slc(t, i) is Ok && sp_ns0(t, i) is Ok && sp_node_space(t, i) is Ok
    && plain_value(e) && entries_full(n.entries@, s.entries, t) && entries_are(n.entries@, s.entries) && entries_at(n.entries@, s.entries, t) && node_full(n, s, t) && node_is(n, s) && node_at(n, s, t) && doc_full(d, seq![s], t) && doc_is(d, seq![s]) && doc_at(d, seq![s], t)
    && nodes_full(d.nodes@, seq![s], t) && nodes_text(d.nodes@, t, i, i) && pr_seq(d.nodes@, 0) == t && pr_node(n, 0) == pr_doc(d, 0) && pr_entries(n.entries@) == pr_entry(e) && entry_full(e, s.entries[0], t) && pr_oentries(seq![None]) == somes(seq![Some('a')])
    && sp_base(t, i) is Ok && sp_entries(t, i, seq![]) is Ok && sp_entry(t, i) is Ok && sp_ntail(t, i) is Ok && sp_bnc(t, i) is Ok && sp_sdchildren(t, i) is Ok && sp_children(t, i) is Ok && sp_ty(t, i) is Ok && sp_node(t, i) is Ok && sp_lead(t, i) is Ok && sp_sdnode(t, i) is Ok && sp_nodes(t, i) is Ok && sp_seps(t, i) is Ok && sp_seps1(t, i, seq![]) is Ok
    && sp_document(t, i) is Ok && sp_pnode(t, i) is Ok && sp_pentry(t, i) is Ok
}
}
pub use vx_gram::*;
