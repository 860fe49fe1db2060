// ---- Identifiers, strings, keywords and numbers of KDL 2.0, written from the
// specification's grammar, as functions of a text and a position: where the token
// ends, and what it denotes.
pub mod vx_tok {
use super::*;
pub open spec fn subs(t: Seq<char>, i: int, j: int) -> Seq<char> { t.subrange(i, j) }
pub open spec fn disallowed(c: char) -> bool {
    '\u{0}' <= c <= '\u{8}' || '\u{e}' <= c <= '\u{1f}' || c == '\u{7f}' || '\u{200e}' <= c <= '\u{200f}' || '\u{202a}' <= c <= '\u{202e}' || '\u{2066}' <= c <= '\u{2069}' || c == '\u{feff}'
}
pub open spec fn sp_is_disallowed_unicode(c: char) -> bool { disallowed(c) }
pub open spec fn run_is_disallowed_unicode(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && disallowed(t[i]) { run_is_disallowed_unicode(t, i + 1) } else { i } }
pub open spec fn run_is_dec_digit(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && sp_is_dec_digit(t[i]) { run_is_dec_digit(t, i + 1) } else { i } }
pub open spec fn run_is_hex_digit(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && sp_is_hex_digit(t[i]) { run_is_hex_digit(t, i + 1) } else { i } }
pub open spec fn run_is_oct_digit(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && sp_is_oct_digit(t[i]) { run_is_oct_digit(t, i + 1) } else { i } }
pub open spec fn runn_is_hex_digit(t: Seq<char>, i: int, n: int) -> int
    decreases t.len() - i,
{ if n > 0 && 0 <= i < t.len() && sp_is_hex_digit(t[i]) { runn_is_hex_digit(t, i + 1, n - 1) } else { i } }
pub open spec fn dec_at(t: Seq<char>, i: int) -> bool { 0 <= i < t.len() && sp_is_dec_digit(t[i]) }

// identifier-char
pub open spec fn ident_punct(c: char) -> bool {
    c == '\\' || c == '/' || c == '(' || c == ')' || c == '{' || c == '}' || c == '[' || c == ']' || c == ';' || c == '"' || c == '#'
}
pub open spec fn identchar(c: char) -> bool { !uspace(c) && !nlchar(c) && !disallowed(c) && c != '=' && !ident_punct(c) }
pub open spec fn sp_identchar(t: Seq<char>, i: int) -> Out { if 0 <= i < t.len() && identchar(t[i]) { Out::Ok(i + 1) } else { Out::Bt } }
pub open spec fn ident_end(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && identchar(t[i]) { ident_end(t, i + 1) } else { i } }
pub open spec fn is_kw(s: Seq<char>) -> bool {
    s =~= seq!['t', 'r', 'u', 'e'] || s =~= seq!['f', 'a', 'l', 's', 'e'] || s =~= seq!['n', 'u', 'l', 'l'] || s =~= seq!['i', 'n', 'f'] || s =~= seq!['-', 'i', 'n', 'f'] || s =~= seq!['n', 'a', 'n']
}
pub open spec fn sign_end(t: Seq<char>, i: int) -> int { if is1(t, i, '+') || is1(t, i, '-') { i + 1 } else { i } }
pub open spec fn sp_unambiguous(t: Seq<char>, i: int) -> Out {
    if dec_at(t, i) || is1(t, i, '-') || is1(t, i, '+') || is1(t, i, '.') { Out::Bt }
    else if !(sp_identchar(t, i) is Ok) { Out::Bt }
    else if is_kw(subs(t, i, ident_end(t, i))) { Out::Cut }
    else { Out::Ok(ident_end(t, i)) }
}
pub open spec fn sp_signed(t: Seq<char>, i: int) -> Out {
    if !(is1(t, i, '+') || is1(t, i, '-')) { Out::Bt } else if dec_at(t, i + 1) || is1(t, i + 1, '.') { Out::Bt } else { Out::Ok(ident_end(t, i + 1)) }
}
pub open spec fn sp_dotted(t: Seq<char>, i: int) -> Out {
    let k = sign_end(t, i);
    if !is1(t, k, '.') || dec_at(t, k + 1) { Out::Bt } else { Out::Ok(ident_end(t, k + 1)) }
}
pub open spec fn sp_idstring(t: Seq<char>, i: int) -> Out {
    match sp_unambiguous(t, i) { Out::Bt => match sp_signed(t, i) { Out::Bt => sp_dotted(t, i), o => o }, o => o }
}
// what has to follow a value
pub open spec fn sp_vterm(t: Seq<char>, i: int) -> Out {
    if i == t.len() { Out::Ok(i) } else if is1(t, i, '=') || is1(t, i, ')') || is1(t, i, '{') || is1(t, i, '}') { Out::Ok(i + 1) }
    else { match sp_node_space(t, i) { Out::Bt => sp_terminator(t, i), o => o } }
}
pub open spec fn sp_vtc(t: Seq<char>, i: int) -> Out { if sp_vterm(t, i) is Ok { Out::Ok(i) } else { Out::Cut } }
pub open spec fn checked(t: Seq<char>, o: Out) -> Out { match o { Out::Ok(j) => sp_vtc(t, j), o => o } }

// ---- escapes
pub open spec fn sp_wsn(t: Seq<char>, i: int) -> Out { match sp_uspace(t, i) { Out::Bt => sp_newline(t, i), o => o } }
pub open spec fn sp_wsn0(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ match sp_wsn(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_wsn0(t, j) } else { i }, _ => i } }
// '\' (unicode-space | newline)+
pub open spec fn sp_wsesc(t: Seq<char>, i: int) -> Out {
    if is1(t, i, '\\') { match sp_wsn(t, i + 1) { Out::Ok(j) => Out::Ok(sp_wsn0(t, j)), o => o } } else { Out::Bt }
}
pub open spec fn digit_val(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { 0 }
}
pub open spec fn num_val(s: Seq<char>, radix: int) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { num_val(s.drop_last(), radix) * radix + digit_val(s.last()) } }
pub open spec fn is_scalar(v: int) -> bool { 0 <= v < 0xd800 || 0xe000 <= v <= 0x10ffff }
pub open spec fn simple_escape(c: char) -> Option<char> {
    if c == '\\' { Some('\\') } else if c == '"' { Some('"') } else if c == 'b' { Some('\u{8}') } else if c == 'f' { Some('\u{c}') } else if c == 'n' { Some('\u{a}') } else if c == 'r' { Some('\u{d}') } else if c == 't' { Some('\u{9}') } else if c == 's' { Some(' ') } else { None }
}
pub open spec fn sp_esc(t: Seq<char>, i: int) -> Out {
    if !is1(t, i, '\\') { Out::Bt }
    else if i + 1 < t.len() && simple_escape(t[i + 1]) is Some { Out::Ok(i + 2) }
    else if is2(t, i + 1, 'u', '{') {
        let k = runn_is_hex_digit(t, i + 3, 6);
        if k == i + 3 || !is1(t, k, '}') { Out::Cut } else if is_scalar(num_val(subs(t, i + 3, k), 16)) { Out::Ok(k + 1) } else { Out::Bt }
    } else { Out::Bt }
}
pub open spec fn sv_esc(t: Seq<char>, i: int) -> int {
    match simple_escape(t[i + 1]) { Some(c) => c as int, None => num_val(subs(t, i + 3, runn_is_hex_digit(t, i + 3, 6)), 16) }
}
pub open spec fn sp_schar(t: Seq<char>, i: int) -> Out {
    match sp_esc(t, i) { Out::Bt => if 0 <= i < t.len() && !disallowed(t[i]) && t[i] != '\\' && t[i] != '"' { Out::Ok(i + 1) } else { Out::Bt }, o => o }
}
pub open spec fn sv_schar(t: Seq<char>, i: int) -> char { if is1(t, i, '\\') { sv_esc(t, i) as char } else { t[i] } }

// ---- quoted strings on one line: '"' (string-character - newline)* '"'
pub open spec fn sp_sl(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    if i < 0 || i > t.len() { Out::Bt } else if is1(t, i, '"') { Out::Ok(i) } else if sp_newline(t, i) is Ok { Out::Cut }
    else { match sp_wsesc(t, i) {
        Out::Ok(j) => if i < j <= t.len() { sp_sl(t, j) } else { Out::Bt },
        _ => match sp_schar(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_sl(t, j) } else { Out::Bt }, o => o },
    } }
}
pub open spec fn sv_sl(t: Seq<char>, i: int) -> Seq<char>
    decreases t.len() - i,
{
    if i < 0 || i > t.len() || is1(t, i, '"') { seq![] }
    else { match sp_wsesc(t, i) {
        Out::Ok(j) => if i < j <= t.len() { sv_sl(t, j) } else { seq![] },
        _ => match sp_schar(t, i) { Out::Ok(j) => if i < j <= t.len() { seq![sv_schar(t, i)] + sv_sl(t, j) } else { seq![] }, _ => seq![] },
    } }
}
// ---- multi-line quoted strings
// one string character of a multi-line body: up to two quotes may stand alone
pub open spec fn sp_mlq(t: Seq<char>, i: int) -> Out {
    if is1(t, i, '"') && !is2(t, i + 1, '"', '"') { Out::Ok(i + 1) } else { sp_schar(t, i) }
}
pub open spec fn sp_mlchar(t: Seq<char>, i: int) -> Out { match sp_wsesc(t, i) { Out::Bt => sp_mlq(t, i), o => o } }
pub open spec fn sv_mlchar(t: Seq<char>, i: int) -> Seq<char> {
    match sp_wsesc(t, i) { Out::Bt => if is1(t, i, '"') { seq!['"'] } else { seq![sv_schar(t, i)] }, _ => seq![] }
}
// the characters of a line, up to its line break
pub open spec fn sp_mlchars(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    if sp_newline(t, i) is Ok { Out::Ok(i) } else { match sp_mlchar(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_mlchars(t, j) } else { Out::Bt }, Out::Bt => Out::Ok(i), Out::Cut => Out::Cut } }
}
// (white space | escaped white space)*
pub open spec fn sp_wsx(t: Seq<char>, i: int) -> Out { match sp_wsesc(t, i) { Out::Bt => sp_uspace(t, i), o => o } }
pub open spec fn sp_wsx0(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ match sp_wsx(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_wsx0(t, j) } else { i }, _ => i } }
// its unescaped part
pub open spec fn sv_wsx0(t: Seq<char>, i: int) -> Seq<char>
    decreases t.len() - i,
{ match sp_wsx(t, i) { Out::Ok(j) => if i < j <= t.len() { (if is1(t, i, '\\') { seq![] } else { seq![t[i]] }) + sv_wsx0(t, j) } else { seq![] }, _ => seq![] } }
pub open spec fn sp_wsesc0(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ match sp_wsesc(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_wsesc0(t, j) } else { i }, _ => i } }
// where the last line (white space before the closing quotes) begins
pub open spec fn sp_mlscan(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    if i < 0 || i > t.len() { Out::Bt } else if is3(t, sp_wsx0(t, i), '"', '"', '"') { Out::Ok(i) }
    else { match sp_mlchars(t, i) { Out::Ok(j) => match sp_newline(t, j) { Out::Ok(k) => if i < k <= t.len() { sp_mlscan(t, k) } else { Out::Bt }, o => o }, o => o } }
}
// a line of white space only
pub open spec fn sp_empty_line(t: Seq<char>, i: int) -> Out { sp_newline(t, sp_wsx0(t, i)) }
// the rest of a line and its line break
pub open spec fn sp_mlrest(t: Seq<char>, i: int) -> Out
    decreases t.len() - i,
{
    match sp_newline(t, i) { Out::Ok(j) => Out::Ok(j), _ => match sp_mlchar(t, i) { Out::Ok(j) => if i < j <= t.len() { sp_mlrest(t, j) } else { Out::Bt }, o => o } }
}
pub open spec fn sv_mlrest(t: Seq<char>, i: int) -> Seq<char>
    decreases t.len() - i,
{
    match sp_newline(t, i) { Out::Ok(j) => seq!['\n'], _ => match sp_mlchar(t, i) { Out::Ok(j) => if i < j <= t.len() { sv_mlchar(t, i) + sv_mlrest(t, j) } else { seq![] }, _ => seq![] } }
}
// a line: prefix then text, or white space only; the text of a white-space-only line is empty
pub open spec fn ml_start(t: Seq<char>, i: int, p: Seq<char>) -> Out {
    if is_at(t, i, p) { Out::Ok(i + p.len()) } else if sp_empty_line(t, i) is Ok { Out::Ok(i) } else { Out::Cut }
}
pub open spec fn sp_mlline(t: Seq<char>, i: int, p: Seq<char>) -> Out {
    match ml_start(t, i, p) { Out::Ok(j) => match sp_empty_line(t, j) { Out::Bt => sp_mlrest(t, j), o => o }, o => o }
}
pub open spec fn sv_mlline(t: Seq<char>, i: int, p: Seq<char>) -> Seq<char> {
    match ml_start(t, i, p) { Out::Ok(j) => if sp_empty_line(t, j) is Ok { seq!['\n'] } else { sv_mlrest(t, j) }, o => seq![] }
}
pub open spec fn ml_end(t: Seq<char>, i: int, p: Seq<char>) -> bool { is_at(t, i, p) && is3(t, sp_wsesc0(t, i + p.len()), '"', '"', '"') }
pub open spec fn sp_mlbody(t: Seq<char>, i: int, p: Seq<char>) -> Out
    decreases t.len() - i,
{
    if i < 0 || i > t.len() { Out::Bt } else if ml_end(t, i, p) { Out::Ok(sp_wsesc0(t, i + p.len())) }
    else { match sp_mlline(t, i, p) { Out::Ok(j) => if i < j <= t.len() { sp_mlbody(t, j, p) } else { Out::Bt }, o => o } }
}
pub open spec fn sv_mlbody(t: Seq<char>, i: int, p: Seq<char>) -> Seq<char>
    decreases t.len() - i,
{
    if i < 0 || i > t.len() || ml_end(t, i, p) { seq![] }
    else { match sp_mlline(t, i, p) { Out::Ok(j) => if i < j <= t.len() { sv_mlline(t, i, p) + sv_mlbody(t, j, p) } else { seq![] }, _ => seq![] } }
}
pub open spec fn cut_of(o: Out) -> Out { match o { Out::Bt => Out::Cut, o => o } }
pub open spec fn but_last(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { s.drop_last() } }
pub open spec fn sp_quoted(t: Seq<char>, i: int) -> Out {
    if is3(t, i, '"', '"', '"') {
        match sp_newline(t, i + 3) {
            Out::Ok(k) => match sp_mlscan(t, k) {
                Out::Ok(l) => match sp_mlbody(t, k, sv_wsx0(t, l)) { Out::Ok(e) => Out::Ok(e + 3), _ => Out::Cut },
                _ => Out::Cut,
            },
            _ => Out::Cut,
        }
    } else if is1(t, i, '"') { match sp_sl(t, i + 1) { Out::Ok(e) => Out::Ok(e + 1), _ => Out::Cut } } else { Out::Bt }
}
pub open spec fn sv_quoted(t: Seq<char>, i: int) -> Seq<char> {
    if is3(t, i, '"', '"', '"') {
        let k = sp_newline(t, i + 3)->Ok_0;
        but_last(sv_mlbody(t, k, sv_wsx0(t, sp_mlscan(t, k)->Ok_0)))
    } else { sv_sl(t, i + 1) }
}
// ---- raw strings; h is the run of '#'
pub open spec fn hash_end(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && t[i] == '#' { hash_end(t, i + 1) } else { i } }
pub open spec fn q1h(t: Seq<char>, i: int, h: Seq<char>) -> bool { is1(t, i, '"') && is_at(t, i + 1, h) }
pub open spec fn q3h(t: Seq<char>, i: int, h: Seq<char>) -> bool { is3(t, i, '"', '"', '"') && is_at(t, i + 3, h) }
pub open spec fn sp_rsl(t: Seq<char>, i: int, h: Seq<char>) -> Out
    decreases t.len() - i,
{
    if i < 0 || i >= t.len() { Out::Bt } else if q1h(t, i, h) { Out::Ok(i) } else if disallowed(t[i]) || nlchar(t[i]) { Out::Bt } else { sp_rsl(t, i + 1, h) }
}
pub open spec fn uspace_end(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && uspace(t[i]) { uspace_end(t, i + 1) } else { i } }
pub open spec fn rchars(t: Seq<char>, i: int, h: Seq<char>) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && !nlchar(t[i]) && !disallowed(t[i]) && !q3h(t, i, h) { rchars(t, i + 1, h) } else { i } }
pub open spec fn sp_rscan(t: Seq<char>, i: int, h: Seq<char>) -> Out
    decreases t.len() - i,
{
    if i < 0 || i > t.len() { Out::Bt } else if q3h(t, uspace_end(t, i), h) { Out::Ok(i) }
    else { match sp_newline(t, rchars(t, i, h)) { Out::Ok(k) => if i < k <= t.len() { sp_rscan(t, k, h) } else { Out::Bt }, o => o } }
}
pub open spec fn sp_rrest(t: Seq<char>, i: int, h: Seq<char>) -> Out
    decreases t.len() - i,
{ match sp_newline(t, i) { Out::Ok(j) => Out::Ok(j), _ => if i < 0 || i >= t.len() || q3h(t, i, h) { Out::Bt } else { sp_rrest(t, i + 1, h) } } }
pub open spec fn sv_rrest(t: Seq<char>, i: int, h: Seq<char>) -> Seq<char>
    decreases t.len() - i,
{ match sp_newline(t, i) { Out::Ok(j) => seq!['\n'], _ => if i < 0 || i >= t.len() || q3h(t, i, h) { seq![] } else { seq![t[i]] + sv_rrest(t, i + 1, h) } } }
pub open spec fn sp_rline(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>) -> Out {
    match ml_start(t, i, p) { Out::Ok(j) => match sp_empty_line(t, j) { Out::Bt => sp_rrest(t, j, h), o => o }, o => o }
}
pub open spec fn sv_rline(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>) -> Seq<char> {
    match ml_start(t, i, p) { Out::Ok(j) => if sp_empty_line(t, j) is Ok { seq!['\n'] } else { sv_rrest(t, j, h) }, _ => seq![] }
}
pub open spec fn r_end(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>) -> bool { is_at(t, i, p) && q3h(t, uspace_end(t, i + p.len()), h) }
pub open spec fn sp_rbody(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>) -> Out
    decreases t.len() - i,
{
    if i < 0 || i > t.len() { Out::Bt } else if r_end(t, i, p, h) { Out::Ok(uspace_end(t, i + p.len())) }
    else { match sp_rline(t, i, p, h) { Out::Ok(j) => if i < j <= t.len() { sp_rbody(t, j, p, h) } else { Out::Bt }, o => o } }
}
pub open spec fn sv_rbody(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>) -> Seq<char>
    decreases t.len() - i,
{
    if i < 0 || i > t.len() || r_end(t, i, p, h) { seq![] }
    else { match sp_rline(t, i, p, h) { Out::Ok(j) => if i < j <= t.len() { sv_rline(t, i, p, h) + sv_rbody(t, j, p, h) } else { seq![] }, _ => seq![] } }
}
pub open spec fn sp_raw(t: Seq<char>, i: int) -> Out {
    if !is1(t, i, '#') { Out::Bt } else {
        let q = hash_end(t, i); let h = subs(t, i, q);
        if is3(t, q, '"', '"', '"') && sp_newline(t, q + 3) is Ok {
            let k = sp_newline(t, q + 3)->Ok_0;
            match sp_rscan(t, k, h) {
                Out::Ok(l) => match sp_rbody(t, k, subs(t, l, uspace_end(t, l)), h) { Out::Ok(e) => Out::Ok(e + 3 + h.len()), o => o },
                o => o,
            }
        } else if is1(t, q, '"') {
            match sp_rsl(t, q + 1, h) { Out::Ok(e) => if subs(t, q + 1, e) =~= seq!['"'] { Out::Cut } else { Out::Ok(e + 1 + h.len()) }, o => o }
        } else { Out::Bt }
    }
}
pub open spec fn sv_raw(t: Seq<char>, i: int) -> Seq<char> {
    let q = hash_end(t, i); let h = subs(t, i, q);
    if is3(t, q, '"', '"', '"') && sp_newline(t, q + 3) is Ok {
        let k = sp_newline(t, q + 3)->Ok_0;
        let l = sp_rscan(t, k, h)->Ok_0;
        but_last(sv_rbody(t, k, subs(t, l, uspace_end(t, l)), h))
    } else { subs(t, q + 1, sp_rsl(t, q + 1, h)->Ok_0) }
}
// ---- any string
pub open spec fn sp_string(t: Seq<char>, i: int) -> Out {
    match checked(t, sp_idstring(t, i)) { Out::Bt => match checked(t, sp_raw(t, i)) { Out::Bt => checked(t, sp_quoted(t, i)), o => o }, o => o }
}
pub open spec fn sv_string(t: Seq<char>, i: int) -> Seq<char> {
    match sp_idstring(t, i) { Out::Ok(j) => subs(t, i, j), _ => if sp_raw(t, i) is Ok { sv_raw(t, i) } else { sv_quoted(t, i) } }
}
// ---- keywords: '#' then a name
pub uninterp spec fn f64_nan() -> f64;
pub uninterp spec fn f64_inf() -> f64;
pub uninterp spec fn f64_neg_inf() -> f64;
pub open spec fn kw_at(t: Seq<char>, i: int) -> Option<KdlValue> {
    if is_at(t, i, seq!['t', 'r', 'u', 'e']) { Some(KdlValue::Bool(true)) } else if is_at(t, i, seq!['f', 'a', 'l', 's', 'e']) { Some(KdlValue::Bool(false)) }
    else if is_at(t, i, seq!['n', 'u', 'l', 'l']) { Some(KdlValue::Null) } else if is_at(t, i, seq!['n', 'a', 'n']) { Some(KdlValue::Float(f64_nan())) }
    else if is_at(t, i, seq!['i', 'n', 'f']) { Some(KdlValue::Float(f64_inf())) } else if is_at(t, i, seq!['-', 'i', 'n', 'f']) { Some(KdlValue::Float(f64_neg_inf())) } else { None }
}
pub open spec fn kw_end(t: Seq<char>, i: int) -> int {
    if is_at(t, i, seq!['t', 'r', 'u', 'e']) || is_at(t, i, seq!['n', 'u', 'l', 'l']) || is_at(t, i, seq!['-', 'i', 'n', 'f']) { i + 4 } else if is_at(t, i, seq!['f', 'a', 'l', 's', 'e']) { i + 5 } else { i + 3 }
}
pub open spec fn sp_keyword(t: Seq<char>, i: int) -> Out {
    if !is1(t, i, '#') || is1(t, i + 1, '#') || is1(t, i + 1, '"') { Out::Bt } else if kw_at(t, i + 1) is None { Out::Cut } else { Out::Ok(kw_end(t, i + 1)) }
}
// ---- numbers
pub open spec fn is_digit(c: char, radix: int) -> bool { if radix == 16 { sp_is_hex_digit(c) } else { '0' <= c && (c as int) < ('0' as int) + radix } }
// (digit | '_')*
pub open spec fn us_end(t: Seq<char>, i: int, radix: int) -> int
    decreases t.len() - i,
{ if 0 <= i < t.len() && (t[i] == '_' || is_digit(t[i], radix)) { us_end(t, i + 1, radix) } else { i } }
// without its underscores
pub open spec fn strip(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { s } else if s.last() == '_' { strip(s.drop_last()) } else { strip(s.drop_last()).push(s.last()) } }
pub open spec fn dig_at(t: Seq<char>, i: int, radix: int) -> bool { 0 <= i < t.len() && is_digit(t[i], radix) }
// digit (digit | '_')*
pub open spec fn sp_digs(t: Seq<char>, i: int, radix: int) -> Out { if dig_at(t, i, radix) { Out::Ok(us_end(t, i + 1, radix)) } else { Out::Bt } }
pub open spec fn sp_digits(t: Seq<char>, i: int) -> Out { sp_digs(t, i, 10) }
pub open spec fn sp_udec<T: FromStrRadix>(t: Seq<char>, i: int, sign: Seq<char>) -> Out {
    match sp_digs(t, i, 10) { Out::Ok(j) => if T::of_digits(sign + strip(subs(t, i, j)), 10) is Some { Out::Ok(j) } else { Out::Bt }, o => o }
}
pub open spec fn minus(t: Seq<char>, i: int) -> Seq<char> { if is1(t, i, '-') { seq!['-'] } else { seq![] } }
pub open spec fn sp_dec<T: FromStrRadix>(t: Seq<char>, i: int) -> Out { sp_udec::<T>(t, sign_end(t, i), minus(t, i)) }
pub open spec fn sv_dec<T: FromStrRadix>(t: Seq<char>, i: int, j: int) -> Option<T> { T::of_digits(minus(t, i) + strip(subs(t, sign_end(t, i), j)), 10) }
// '0x' digit (digit | '_')*; a value that does not fit is `over`
pub open spec fn sp_urad<T: FromStrRadix>(t: Seq<char>, i: int, sign: Seq<char>, radix: int, a: char, b: char, over: Out) -> Out {
    if !is2(t, i, '0', a) && !is2(t, i, '0', b) { Out::Bt }
    else { match sp_digs(t, i + 2, radix) { Out::Ok(j) => if T::of_digits(sign + strip(subs(t, i + 2, j)), radix) is Some { Out::Ok(j) } else { over }, _ => Out::Cut } }
}
pub open spec fn sp_rad<T: FromStrRadix>(t: Seq<char>, i: int, radix: int, a: char, b: char, over: Out) -> Out { sp_urad::<T>(t, sign_end(t, i), minus(t, i), radix, a, b, over) }
pub open spec fn sv_rad<T: FromStrRadix>(t: Seq<char>, i: int, j: int, radix: int) -> Option<T> { T::of_digits(minus(t, i) + strip(subs(t, sign_end(t, i) + 2, j)), radix) }
pub open spec fn sp_hex(t: Seq<char>, i: int) -> Out { checked(t, sp_rad::<i128>(t, i, 16, 'x', 'X', Out::Bt)) }
pub open spec fn sp_oct(t: Seq<char>, i: int) -> Out { checked(t, sp_rad::<i128>(t, i, 8, 'o', 'O', Out::Bt)) }
pub open spec fn sp_bin(t: Seq<char>, i: int) -> Out { checked(t, sp_rad::<i128>(t, i, 2, 'b', 'B', Out::Cut)) }
pub open spec fn alt2(a: Out, b: Out) -> Out { match a { Out::Bt => b, o => o } }
pub open spec fn sp_int(t: Seq<char>, i: int) -> Out { alt2(sp_hex(t, i), alt2(sp_oct(t, i), alt2(sp_bin(t, i), checked(t, sp_dec::<i128>(t, i))))) }
pub open spec fn sv_int(t: Seq<char>, i: int, j: int) -> Option<i128> {
    if sp_hex(t, i) is Ok { sv_rad::<i128>(t, i, j, 16) } else if sp_oct(t, i) is Ok { sv_rad::<i128>(t, i, j, 8) } else if sp_bin(t, i) is Ok { sv_rad::<i128>(t, i, j, 2) } else { sv_dec::<i128>(t, i, j) }
}
// decimal with a point or an exponent
pub open spec fn sp_frac(t: Seq<char>, i: int) -> Out { if is1(t, i, '.') { cut_of(sp_digits(t, i + 1)) } else { Out::Ok(i) } }
pub open spec fn sp_float_e(t: Seq<char>, i: int) -> Out {
    match sp_digits(t, sign_end(t, i)) {
        Out::Ok(j) => match sp_frac(t, j) {
            Out::Ok(k) => if is1(t, k, 'e') || is1(t, k, 'E') { cut_of(sp_digits(t, sign_end(t, k + 1))) } else { Out::Bt },
            o => o,
        },
        o => o,
    }
}
pub open spec fn sp_float_p(t: Seq<char>, i: int) -> Out {
    match sp_digits(t, sign_end(t, i)) { Out::Ok(j) => if is1(t, j, '.') { cut_of(sp_digits(t, j + 1)) } else { Out::Bt }, o => o }
}
pub open spec fn sp_float<T: ParseFloat>(t: Seq<char>, i: int) -> Out {
    match checked(t, alt2(sp_float_e(t, i), sp_float_p(t, i))) { Out::Ok(j) => if T::of_float(strip(subs(t, i, j))) is Some { Out::Ok(j) } else { Out::Bt }, o => o }
}
pub open spec fn sp_number(t: Seq<char>, i: int) -> Out { alt2(sp_float::<f64>(t, i), sp_int(t, i)) }
pub open spec fn sv_number(t: Seq<char>, i: int, j: int) -> Option<KdlValue> {
    if sp_float::<f64>(t, i) is Ok { match f64_of(strip(subs(t, i, j))) { Some(f) => Some(KdlValue::Float(f)), None => None } } else { match sv_int(t, i, j) { Some(n) => Some(KdlValue::Integer(n)), None => None } }
}
// ---- Where tokens end.
pub broadcast proof fn lemma_wsn0(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] sp_wsn0(t, i) <= t.len(),
    decreases t.len() - i,
{ match sp_wsn(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_wsn0(t, j) }, _ => {} } }
pub broadcast proof fn lemma_wsesc(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_wsesc(t, i) != Out::Cut, sp_wsesc(t, i) matches Out::Ok(j) ==> i + 1 < j <= t.len(),
{ if is1(t, i, '\\') { match sp_wsn(t, i + 1) { Out::Ok(j) => lemma_wsn0(t, j), _ => {} } } }
pub broadcast proof fn lemma_hexn(t: Seq<char>, i: int, n: int)
    requires 0 <= i <= t.len(), 0 <= n,
    ensures i <= #[trigger] runn_is_hex_digit(t, i, n) <= t.len(), runn_is_hex_digit(t, i, n) <= i + n,
    decreases t.len() - i,
{ if n > 0 && i < t.len() && sp_is_hex_digit(t[i]) { lemma_hexn(t, i + 1, n - 1) } }
pub broadcast proof fn lemma_schar(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_schar(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ if i + 3 <= t.len() { lemma_hexn(t, i + 3, 6) } }
pub broadcast proof fn lemma_ident_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] ident_end(t, i) <= t.len(),
    decreases t.len() - i,
{ if i < t.len() && identchar(t[i]) { lemma_ident_end(t, i + 1) } }
pub broadcast proof fn lemma_wsx0(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] sp_wsx0(t, i) <= t.len(),
    decreases t.len() - i,
{ lemma_wsesc(t, i); match sp_wsx(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_wsx0(t, j) }, _ => {} } }
pub broadcast proof fn lemma_wsesc0(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] sp_wsesc0(t, i) <= t.len(),
    decreases t.len() - i,
{ match sp_wsesc(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_wsesc0(t, j) }, _ => {} } }
pub broadcast proof fn lemma_mlchars(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_mlchars(t, i) matches Out::Ok(j) ==> i <= j <= t.len(),
    decreases t.len() - i,
{ if !(sp_newline(t, i) is Ok) { match sp_mlchar(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_mlchars(t, j) }, _ => {} } } }
pub broadcast proof fn lemma_mlscan(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_mlscan(t, i) matches Out::Ok(j) ==> i <= j <= t.len() && is3(t, sp_wsx0(t, j), '"', '"', '"'),
    decreases t.len() - i,
{
    if !is3(t, sp_wsx0(t, i), '"', '"', '"') { lemma_mlchars(t, i); match sp_mlchars(t, i) { Out::Ok(j) => match sp_newline(t, j) { Out::Ok(k) => if i < k <= t.len() { lemma_mlscan(t, k) }, _ => {} }, _ => {} } }
}
pub broadcast proof fn lemma_mlrest(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_mlrest(t, i) matches Out::Ok(j) ==> i < j <= t.len() && sv_mlrest(t, i).len() > 0 && sv_mlrest(t, i).last() == '\n',
    decreases t.len() - i,
{ match sp_newline(t, i) { Out::Ok(j) => {}, _ => match sp_mlchar(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_mlrest(t, j) }, _ => {} } } }
pub broadcast proof fn lemma_mlline(t: Seq<char>, i: int, p: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_mlline(t, i, p) matches Out::Ok(j) ==> i < j <= t.len() && sv_mlline(t, i, p).len() > 0 && sv_mlline(t, i, p).last() == '\n',
{ match ml_start(t, i, p) { Out::Ok(j) => { lemma_wsx0(t, j); lemma_mlrest(t, j) } _ => {} } }
pub broadcast proof fn lemma_mlbody(t: Seq<char>, i: int, p: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_mlbody(t, i, p) matches Out::Ok(j) ==> i <= j && is3(t, j, '"', '"', '"'),
    decreases t.len() - i,
{
    if ml_end(t, i, p) { lemma_wsesc0(t, i + p.len()) }
    else { lemma_mlline(t, i, p); match sp_mlline(t, i, p) { Out::Ok(j) => if i < j <= t.len() { lemma_mlbody(t, j, p) }, _ => {} } }
}
pub broadcast proof fn lemma_sl(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_sl(t, i) matches Out::Ok(j) ==> i <= j && is1(t, j, '"'),
    decreases t.len() - i,
{
    if !is1(t, i, '"') && !(sp_newline(t, i) is Ok) { match sp_wsesc(t, i) {
        Out::Ok(j) => if i < j <= t.len() { lemma_sl(t, j) },
        _ => match sp_schar(t, i) { Out::Ok(j) => if i < j <= t.len() { lemma_sl(t, j) }, _ => {} },
    } }
}
pub broadcast proof fn lemma_hash_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] hash_end(t, i) <= t.len(),
    decreases t.len() - i,
{ if i < t.len() && t[i] == '#' { lemma_hash_end(t, i + 1) } }
pub broadcast proof fn lemma_uspace_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] uspace_end(t, i) <= t.len(),
    decreases t.len() - i,
{ if i < t.len() && uspace(t[i]) { lemma_uspace_end(t, i + 1) } }
pub broadcast proof fn lemma_rsl(t: Seq<char>, i: int, h: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_rsl(t, i, h) != Out::Cut, sp_rsl(t, i, h) matches Out::Ok(j) ==> i <= j && q1h(t, j, h),
    decreases t.len() - i,
{ if i < t.len() && !q1h(t, i, h) && !disallowed(t[i]) && !nlchar(t[i]) { lemma_rsl(t, i + 1, h) } }
pub broadcast proof fn lemma_rchars(t: Seq<char>, i: int, h: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] rchars(t, i, h) <= t.len(),
    decreases t.len() - i,
{ if 0 <= i < t.len() && !nlchar(t[i]) && !disallowed(t[i]) && !q3h(t, i, h) { lemma_rchars(t, i + 1, h) } }
pub broadcast proof fn lemma_rscan(t: Seq<char>, i: int, h: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_rscan(t, i, h) != Out::Cut, sp_rscan(t, i, h) matches Out::Ok(j) ==> i <= j <= t.len() && q3h(t, uspace_end(t, j), h),
    decreases t.len() - i,
{
    if !q3h(t, uspace_end(t, i), h) { lemma_rchars(t, i, h); match sp_newline(t, rchars(t, i, h)) { Out::Ok(k) => if i < k <= t.len() { lemma_rscan(t, k, h) }, _ => {} } }
}
pub broadcast proof fn lemma_rrest(t: Seq<char>, i: int, h: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_rrest(t, i, h) != Out::Cut, sp_rrest(t, i, h) matches Out::Ok(j) ==> i < j <= t.len() && sv_rrest(t, i, h).len() > 0 && sv_rrest(t, i, h).last() == '\n',
    decreases t.len() - i,
{ match sp_newline(t, i) { Out::Ok(j) => {}, _ => if i < t.len() && !q3h(t, i, h) { lemma_rrest(t, i + 1, h) } } }
pub broadcast proof fn lemma_rline(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_rline(t, i, p, h) matches Out::Ok(j) ==> i < j <= t.len() && sv_rline(t, i, p, h).len() > 0 && sv_rline(t, i, p, h).last() == '\n',
{ match ml_start(t, i, p) { Out::Ok(j) => { lemma_wsx0(t, j); lemma_rrest(t, j, h) } _ => {} } }
pub broadcast proof fn lemma_rbody(t: Seq<char>, i: int, p: Seq<char>, h: Seq<char>)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_rbody(t, i, p, h) matches Out::Ok(j) ==> i <= j && q3h(t, j, h),
    decreases t.len() - i,
{
    if r_end(t, i, p, h) { lemma_uspace_end(t, i + p.len()) }
    else { lemma_rline(t, i, p, h); match sp_rline(t, i, p, h) { Out::Ok(j) => if i < j <= t.len() { lemma_rbody(t, j, p, h) }, _ => {} } }
}
pub broadcast proof fn lemma_idstring(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures #[trigger] sp_idstring(t, i) matches Out::Ok(j) ==> i < j <= t.len(),
{ lemma_ident_end(t, i); lemma_ident_end(t, sign_end(t, i)); if i + 1 <= t.len() { lemma_ident_end(t, i + 1) } if i + 2 <= t.len() { lemma_ident_end(t, i + 2) } if i < t.len() && identchar(t[i]) { lemma_ident_end(t, i + 1) } }
pub broadcast proof fn lemma_us_end(t: Seq<char>, i: int, radix: int)
    requires 0 <= i <= t.len(),
    ensures i <= #[trigger] us_end(t, i, radix) <= t.len(),
    decreases t.len() - i,
{ if 0 <= i < t.len() && (t[i] == '_' || is_digit(t[i], radix)) { lemma_us_end(t, i + 1, radix) } }
pub broadcast proof fn lemma_us_run10(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures us_end(t, #[trigger] run_is_dec_digit(t, i), 10) == us_end(t, i, 10), i <= run_is_dec_digit(t, i) <= t.len(),
    decreases t.len() - i,
{ if i < t.len() && sp_is_dec_digit(t[i]) { lemma_us_run10(t, i + 1) } }
pub broadcast proof fn lemma_us_run16(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures us_end(t, #[trigger] run_is_hex_digit(t, i), 16) == us_end(t, i, 16), i <= run_is_hex_digit(t, i) <= t.len(),
    decreases t.len() - i,
{ if i < t.len() && sp_is_hex_digit(t[i]) { lemma_us_run16(t, i + 1) } }
pub broadcast proof fn lemma_us_run8(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures us_end(t, #[trigger] run_is_oct_digit(t, i), 8) == us_end(t, i, 8), i <= run_is_oct_digit(t, i) <= t.len(),
    decreases t.len() - i,
{ if i < t.len() && sp_is_oct_digit(t[i]) { lemma_us_run8(t, i + 1) } }
// digits have no underscores to drop
pub broadcast proof fn lemma_strip_run10(t: Seq<char>, i: int, j: int)
    requires 0 <= i, run_is_dec_digit(t, i) <= j <= t.len(),
    ensures #[trigger] strip(subs(t, i, j)) == subs(t, i, #[trigger] run_is_dec_digit(t, i)) + strip(subs(t, run_is_dec_digit(t, i), j)),
{
    lemma_us_run10x(t, i); let k = run_is_dec_digit(t, i);
    assert(subs(t, i, j) =~= subs(t, i, k) + subs(t, k, j)); lemma_strip_app(subs(t, i, k), subs(t, k, j)); lemma_strip_digits(subs(t, i, k));
}
pub broadcast proof fn lemma_strip_run16(t: Seq<char>, i: int, j: int)
    requires 0 <= i, run_is_hex_digit(t, i) <= j <= t.len(),
    ensures #[trigger] strip(subs(t, i, j)) == subs(t, i, #[trigger] run_is_hex_digit(t, i)) + strip(subs(t, run_is_hex_digit(t, i), j)),
{
    lemma_us_run16x(t, i); let k = run_is_hex_digit(t, i);
    assert(subs(t, i, j) =~= subs(t, i, k) + subs(t, k, j)); lemma_strip_app(subs(t, i, k), subs(t, k, j)); lemma_strip_digits(subs(t, i, k));
}
pub broadcast proof fn lemma_strip_run8(t: Seq<char>, i: int, j: int)
    requires 0 <= i, run_is_oct_digit(t, i) <= j <= t.len(),
    ensures #[trigger] strip(subs(t, i, j)) == subs(t, i, #[trigger] run_is_oct_digit(t, i)) + strip(subs(t, run_is_oct_digit(t, i), j)),
{
    lemma_us_run8x(t, i); let k = run_is_oct_digit(t, i);
    assert(subs(t, i, j) =~= subs(t, i, k) + subs(t, k, j)); lemma_strip_app(subs(t, i, k), subs(t, k, j)); lemma_strip_digits(subs(t, i, k));
}
pub proof fn lemma_strip_one(t: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= t.len(), t[i] != '_',
    ensures strip(subs(t, i, j)) == seq![t[i]] + strip(subs(t, i + 1, j)),
{ assert(subs(t, i, j) =~= seq![t[i]] + subs(t, i + 1, j)); lemma_strip_app(seq![t[i]], subs(t, i + 1, j)); lemma_strip_digits(seq![t[i]]); }
pub proof fn lemma_us_run10x(t: Seq<char>, i: int)
    requires 0 <= i,
    ensures i <= run_is_dec_digit(t, i), i <= t.len() ==> run_is_dec_digit(t, i) <= t.len(), forall|k: int| i <= k < run_is_dec_digit(t, i) ==> sp_is_dec_digit(#[trigger] t[k]),
    decreases t.len() - i,
{ if i < t.len() && sp_is_dec_digit(t[i]) { lemma_us_run10x(t, i + 1) } }
pub proof fn lemma_us_run16x(t: Seq<char>, i: int)
    requires 0 <= i,
    ensures i <= run_is_hex_digit(t, i), i <= t.len() ==> run_is_hex_digit(t, i) <= t.len(), forall|k: int| i <= k < run_is_hex_digit(t, i) ==> sp_is_hex_digit(#[trigger] t[k]),
    decreases t.len() - i,
{ if i < t.len() && sp_is_hex_digit(t[i]) { lemma_us_run16x(t, i + 1) } }
pub proof fn lemma_us_run8x(t: Seq<char>, i: int)
    requires 0 <= i,
    ensures i <= run_is_oct_digit(t, i), i <= t.len() ==> run_is_oct_digit(t, i) <= t.len(), forall|k: int| i <= k < run_is_oct_digit(t, i) ==> sp_is_oct_digit(#[trigger] t[k]),
    decreases t.len() - i,
{ if i < t.len() && sp_is_oct_digit(t[i]) { lemma_us_run8x(t, i + 1) } }
pub broadcast proof fn lemma_strip_app(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] strip(a + b) == strip(a) + strip(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(strip(a) + strip(b) =~= strip(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_strip_app(a, b.drop_last()); if b.last() == '_' { } else { assert(strip(a) + strip(b) =~= (strip(a) + strip(b.drop_last())).push(b.last())); } }
}
pub proof fn lemma_strip_digits(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> s[k] != '_',
    ensures strip(s) == s,
    decreases s.len(),
{ if s.len() > 0 { lemma_strip_digits(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); } }
}
pub use vx_tok::*;
