// ---- The white space, line break and comment tokens of KDL 2.0, written from the
// specification's grammar as functions of a text and a position.
pub mod vx_lex {
use super::*;
pub enum Out { Ok(int), Bt, Cut }
pub open spec fn out_is<T>(r: PResult<T>, pos: int, o: Out) -> bool {
    match o { Out::Ok(j) => r.is_ok() && pos == j, Out::Bt => is_bt(r), Out::Cut => is_cut(r) }
}
pub open spec fn uspace(c: char) -> bool {
    c == '\u{9}' || c == '\u{20}' || c == '\u{a0}' || c == '\u{1680}' || '\u{2000}' <= c <= '\u{200a}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn nlchar(c: char) -> bool {
    c == '\u{d}' || c == '\u{a}' || c == '\u{85}' || c == '\u{b}' || c == '\u{c}' || c == '\u{2028}' || c == '\u{2029}'
}
// newline := CRLF | CR | LF | NEL | VT | FF | LS | PS
pub open spec fn sp_newline(t: Seq<char>, i: int) -> Out {
    if is2(t, i, '\u{d}', '\u{a}') { Out::Ok(i + 2) } else if 0 <= i < t.len() && nlchar(t[i]) { Out::Ok(i + 1) } else { Out::Bt }
}
pub open spec fn sp_uspace(t: Seq<char>, i: int) -> Out { if 0 <= i < t.len() && uspace(t[i]) { Out::Ok(i + 1) } else { Out::Bt } }
// multi-line-comment := '/*' commented-block
pub open spec fn sp_mlc(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 0int,
{
    if is2(t, i, '/', '*') { match sp_block(t, i + 2) { Out::Ok(j) => Out::Ok(j), _ => Out::Cut } } else { Out::Bt }
}
// commented-block := '*/' | (multi-line-comment | any character) commented-block
pub open spec fn sp_block(t: Seq<char>, i: int) -> Out
    decreases t.len() - i, 1int,
{
    if i < 0 || i >= t.len() { Out::Bt }
    else if is2(t, i, '*', '/') { Out::Ok(i + 2) }
    else { match sp_mlc(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_block(t, j) } else { Out::Bt }, Out::Cut => Out::Cut, Out::Bt => sp_block(t, i + 1) } }
}
// ws := unicode-space | multi-line-comment
pub open spec fn sp_ws(t: Seq<char>, i: int) -> Out { match sp_uspace(t, i) { Out::Bt => sp_mlc(t, i), o => o } }
pub open spec fn sp_wss(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    match sp_ws(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_wss(t, j) } else { Out::Bt }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut }
}
pub open spec fn sp_wsp(t: Seq<char>, i: int) -> Out { match sp_ws(t, i) { Out::Ok(j) => sp_wss(t, j), o => o } }
// single-line-comment := '//' ^newline* (newline | eof)
pub open spec fn sp_line(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    if i < 0 || i > t.len() { Out::Bt } else { match sp_newline(t, i) { Out::Ok(j) => Out::Ok(j), _ => if i == t.len() { Out::Ok(i) } else { sp_line(t, i + 1) } } }
}
pub open spec fn sp_slc(t: Seq<char>, i: int) -> Out { if is2(t, i, '/', '/') { sp_line(t, i + 2) } else { Out::Bt } }
// escline := '\' ws* (single-line-comment | newline | eof) ws*
pub open spec fn sp_escline(t: Seq<char>, i: int) -> Out {
    if !is1(t, i, '\\') { Out::Bt } else {
        match sp_wss(t, i + 1) {
            Out::Ok(j) => { let e = match sp_slc(t, j) { Out::Bt => match sp_newline(t, j) { Out::Bt => if j == t.len() { Out::Ok(j) } else { Out::Bt }, o => o }, o => o };
                match e { Out::Ok(k) => sp_wss(t, k), o => o } }
            o => o,
        }
    }
}
// node-space := ws* escline ws* | ws+
pub open spec fn sp_node_space(t: Seq<char>, i: int) -> Out {
    let a = match sp_wss(t, i) { Out::Ok(j) => match sp_escline(t, j) { Out::Ok(k) => sp_wss(t, k), o => o }, o => o };
    match a { Out::Bt => sp_wsp(t, i), o => o }
}
pub open spec fn sp_ns0(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    match sp_node_space(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_ns0(t, j) } else { Out::Bt }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut }
}
pub open spec fn sp_ns1(t: Seq<char>, i: int) -> Out { match sp_node_space(t, i) { Out::Ok(j) => sp_ns0(t, j), o => o } }
// line-space := newline | ws | single-line-comment
pub open spec fn sp_line_space(t: Seq<char>, i: int) -> Out {
    match sp_node_space(t, i) { Out::Bt => match sp_newline(t, i) { Out::Bt => sp_slc(t, i), o => o }, o => o }
}
pub open spec fn sp_terminator(t: Seq<char>, i: int) -> Out {
    if is1(t, i, ';') { Out::Ok(i + 1) } else { match sp_newline(t, i) { Out::Bt => sp_slc(t, i), o => o } }
}
// Tokens end inside the text, and those that have to consume do.
pub broadcast proof fn lemma_mlc(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_mlc(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
    decreases t.len() - i, 0int,
{ if is2(t, i, '/', '*') { lemma_block(t, i + 2); } }
pub broadcast proof fn lemma_block(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_block(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
    decreases t.len() - i, 1int,
{
    if i < t.len() && !is2(t, i, '*', '/') {
        lemma_mlc(t, i);
        match sp_mlc(t, i) { Out::Ok(j) => lemma_block(t, j), Out::Cut => {}, Out::Bt => lemma_block(t, i + 1) }
    }
}
pub broadcast proof fn lemma_ws(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_ws(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ lemma_mlc(t, i); }
pub broadcast proof fn lemma_wss(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_wss(t, i) != Out::Bt, sp_wss(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
    decreases t.len() - i,
{ lemma_ws(t, i); match sp_ws(t, i) { Out::Ok(j) => lemma_wss(t, j), _ => {} } }
pub broadcast proof fn lemma_line(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_line(t, i) matches Out::Ok(j) && i <= j <= t.len(),
    decreases t.len() - i,
{ match sp_newline(t, i) { Out::Ok(j) => {}, _ => if i < t.len() { lemma_line(t, i + 1) } } }
pub broadcast proof fn lemma_node_space(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_node_space(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{
    lemma_wss(t, i); lemma_ws(t, i);
    match sp_wss(t, i) { Out::Ok(j) => { if is1(t, j, '\\') { lemma_wss(t, j + 1); match sp_wss(t, j + 1) { Out::Ok(k) => {
        if is2(t, k, '/', '/') { lemma_line(t, k + 2); }
        match sp_escline(t, j) { Out::Ok(m) => {
            let e = match sp_slc(t, k) { Out::Bt => match sp_newline(t, k) { Out::Bt => if k == t.len() { Out::Ok(k) } else { Out::Bt }, o => o }, o => o };
            match e { Out::Ok(q) => { lemma_wss(t, q); lemma_wss(t, m); } _ => {} }
        } _ => {} }
    } _ => {} } } } _ => {} }
    match sp_ws(t, i) { Out::Ok(j) => lemma_wss(t, j), _ => {} }
}
pub broadcast proof fn lemma_ns0(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_ns0(t, i) != Out::Bt, sp_ns0(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
    decreases t.len() - i,
{ lemma_node_space(t, i); match sp_node_space(t, i) { Out::Ok(j) => lemma_ns0(t, j), _ => {} } }
}
pub use vx_lex::*;
