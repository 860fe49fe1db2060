// ---- The input stream of the parser (winnow's Recoverable<LocatingSlice<&str>>), by its
// documented behaviour: a text, a position in it, and the list of recorded errors.
pub mod vx_in {
use super::*;
pub enum ErrMode<E> { Backtrack(E), Cut(E) }
impl<E> ErrMode<E> {
    // (the third form, Incomplete, is for streams that can grow)
    pub fn into_inner(self) -> (r: Option<E>)
        ensures r matches Some(e) && (self == ErrMode::Backtrack(e) || self == ErrMode::Cut(e)),
    { match self { ErrMode::Backtrack(e) => Some(e), ErrMode::Cut(e) => Some(e) } }
}
//@ source src/v2_parser.rs
//@ struct KdlParseError
pub type PResult<T> = Result<T, ErrMode<KdlParseError>>;

// Byte offset of the i-th character of a text: offsets grow with positions.
pub uninterp spec fn off(t: Seq<char>, i: int) -> nat;

#[verifier::external_body]
pub struct Input<'a> { p: &'a str }
#[verifier::external_body]
pub struct Checkpoint { p: usize }
impl Checkpoint {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
}
impl<'a> Input<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    // number of recorded errors, and whether each of them has its span inside the text
    pub uninterp spec fn nerr(&self) -> nat;
    pub uninterp spec fn errs_in(&self) -> bool;
    pub open spec fn same(&self, o: Self) -> bool { self.text() == o.text() && self.nerr() == o.nerr() && self.errs_in() == o.errs_in() }
    #[verifier::external_body]
    pub fn checkpoint(&self) -> (r: Checkpoint)
        ensures r.text() == self.text(), r.pos() == self.pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self, c: &Checkpoint)
        requires c.text() == old(self).text(),
        ensures final(self).same(*old(self)), final(self).pos() == c.pos(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peek(&self) -> (r: Option<char>)
        ensures r == (if self.pos() < self.text().len() { Some(self.text()[self.pos()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self)
        requires old(self).pos() < old(self).text().len(),
        ensures final(self).same(*old(self)), final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_moved(&self, c: &Checkpoint) -> (r: bool)
        requires c.text() == self.text(),
        ensures r == (self.pos() != c.pos()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn current_token_start(&self) -> (r: usize)
        ensures r == off(self.text(), self.pos()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn previous_token_end(&self) -> (r: usize)
        ensures r == off(self.text(), self.pos()),
    { unimplemented!() }
    // winnow asserts that the checkpoint is not ahead
    #[verifier::external_body]
    pub fn offset_from(&self, c: &Checkpoint) -> (r: usize)
        requires c.text() == self.text(), c.pos() <= self.pos(),
        ensures r == off(self.text(), self.pos()) - off(self.text(), c.pos()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn record_err(&mut self, token_start: &Checkpoint, err_start: &Checkpoint, e: ErrMode<KdlParseError>) -> (r: Result<(), ErrMode<KdlParseError>>)
        requires token_start.text() == old(self).text(), token_start.pos() <= old(self).pos(), err_in(old(self).text(), e),
        ensures r.is_ok(), final(self).text() == old(self).text(), final(self).pos() == old(self).pos(), final(self).nerr() == old(self).nerr() + 1, final(self).errs_in() == old(self).errs_in(),
    { unimplemented!() }
}
pub broadcast axiom fn axiom_off(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(),
    ensures #[trigger] off(t, i) <= #[trigger] off(t, j), i == j || off(t, i) < off(t, j), off(t, j) <= usize::MAX, off(t, 0) == 0;
pub broadcast axiom fn axiom_pos(i: Input)
    ensures 0 <= #[trigger] i.pos() <= i.text().len() <= isize::MAX;
pub broadcast axiom fn axiom_cpos(i: Checkpoint)
    ensures 0 <= #[trigger] i.pos() <= i.text().len();


// A span that lies inside the text, on character boundaries.
pub open spec fn span_in(t: Seq<char>, s: SourceSpan) -> bool {
    exists|i: int, j: int| 0 <= i <= j <= t.len() && #[trigger] off(t, i) == s.offset && #[trigger] off(t, j) == s.offset + s.length
}
pub open spec fn err_in(t: Seq<char>, e: ErrMode<KdlParseError>) -> bool {
    match e { ErrMode::Backtrack(p) => p.span matches Some(s) ==> span_in(t, s), ErrMode::Cut(p) => p.span matches Some(s) ==> span_in(t, s) }
}
pub open spec fn is_bt<T>(r: PResult<T>) -> bool { r matches Err(ErrMode::Backtrack(_)) }
pub open spec fn is_cut<T>(r: PResult<T>) -> bool { r matches Err(ErrMode::Cut(_)) }
// What every parser does to its input: the text stays, nothing already
// recorded is lost, and it never ends before where it began.
pub open spec fn adv(o: Input, n: Input) -> bool {
    n.text() == o.text() && o.pos() <= n.pos() && o.nerr() <= n.nerr() && (o.errs_in() ==> n.errs_in())
}
// ... and this of those that record no error.
pub open spec fn quiet(o: Input, n: Input) -> bool { n.same(o) && o.pos() <= n.pos() }
// Parsers that may record errors: exactly as the grammar says, unless an
// error has been recorded, and then it is no text of the language.
pub open spec fn outs<T>(r: PResult<T>, o: Input, n: Input, x: Out) -> bool {
    match x {
        Out::Ok(j) => r.is_ok() && n.nerr() == o.nerr() && n.pos() == j,
        Out::Bt => is_bt(r) && n.nerr() == o.nerr(),
        Out::Cut => is_cut(r) || n.nerr() > o.nerr(),
    }
}
#[verifier::external_body]
pub fn vx_new_input<'a>(s: &'a str) -> (r: Input<'a>)
    ensures r.text() == s@, r.pos() == 0, r.nerr() == 0, r.errs_in(),
{ unimplemented!() }
// the errors recorded
pub open spec fn all_in(t: Seq<char>, e: Seq<ErrMode<KdlParseError>>) -> bool { forall|k: int| 0 <= k < e.len() ==> err_in(t, #[trigger] e[k]) }
#[verifier::external_body]
pub fn vx_into_errs(input: Input) -> (r: Vec<ErrMode<KdlParseError>>)
    ensures r@.len() == input.nerr(), input.errs_in() ==> all_in(input.text(), r@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_never() -> !
    requires false,
{ unimplemented!() }
pub fn vx_bt() -> (r: ErrMode<KdlParseError>)
    ensures r matches ErrMode::Backtrack(p) && p.span.is_none(),
{ ErrMode::Backtrack(KdlParseError { message: None, span: None, label: None, help: None, severity: None }) }
#[verifier::external_body]
pub fn vx_from_recoverable(token_start: &Checkpoint, input: &Input, e: ErrMode<KdlParseError>) -> (r: ErrMode<KdlParseError>)
    requires token_start.text() == input.text(), token_start.pos() <= input.pos(), err_in(input.text(), e),
    ensures err_in(input.text(), r), r matches ErrMode::Cut(_) <==> e matches ErrMode::Cut(_),
{ unimplemented!() }
// The slice of the input between a checkpoint and the current position.
#[verifier::external_body]
pub fn vx_taken<'a>(input: &Input<'a>, c: &Checkpoint) -> (r: &'a str)
    requires c.text() == input.text(), c.pos() <= input.pos(),
    ensures r@ =~= input.text().subrange(c.pos(), input.pos()),
{ unimplemented!() }

// ---- Literals.
pub open spec fn is1(t: Seq<char>, i: int, a: char) -> bool { 0 <= i < t.len() && t[i] == a }
pub open spec fn is2(t: Seq<char>, i: int, a: char, b: char) -> bool { 0 <= i && i + 1 < t.len() && t[i] == a && t[i + 1] == b }
pub open spec fn is3(t: Seq<char>, i: int, a: char, b: char, c: char) -> bool { 0 <= i && i + 2 < t.len() && t[i] == a && t[i + 1] == b && t[i + 2] == c }
pub open spec fn is_at(t: Seq<char>, i: int, s: Seq<char>) -> bool { 0 <= i && i + s.len() <= t.len() && t.subrange(i, i + s.len()) =~= s }
#[verifier::external_body]
pub fn vx_lit1<'a>(input: &mut Input<'a>, s: &str, Ghost(a): Ghost<char>) -> (r: PResult<&'a str>)
    requires s@ == seq![a],
    ensures final(input).same(*old(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        match r { Ok(v) => v@ == s@ && is1(old(input).text(), old(input).pos(), a) && final(input).pos() == old(input).pos() + 1,
            Err(_) => is_bt(r) && !is1(old(input).text(), old(input).pos(), a) && final(input).pos() == old(input).pos() },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_lit2<'a>(input: &mut Input<'a>, s: &str, Ghost(a): Ghost<char>, Ghost(b): Ghost<char>) -> (r: PResult<&'a str>)
    requires s@ == seq![a, b],
    ensures final(input).same(*old(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        match r { Ok(v) => v@ == s@ && is2(old(input).text(), old(input).pos(), a, b) && final(input).pos() == old(input).pos() + 2,
            Err(_) => is_bt(r) && !is2(old(input).text(), old(input).pos(), a, b) && final(input).pos() == old(input).pos() },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_lit3<'a>(input: &mut Input<'a>, s: &str, Ghost(a): Ghost<char>, Ghost(b): Ghost<char>, Ghost(c): Ghost<char>) -> (r: PResult<&'a str>)
    requires s@ == seq![a, b, c],
    ensures final(input).same(*old(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        match r { Ok(v) => v@ == s@ && is3(old(input).text(), old(input).pos(), a, b, c) && final(input).pos() == old(input).pos() + 3,
            Err(_) => is_bt(r) && !is3(old(input).text(), old(input).pos(), a, b, c) && final(input).pos() == old(input).pos() },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_lit<'a>(input: &mut Input<'a>, s: &str) -> (r: PResult<&'a str>)
    ensures final(input).same(*old(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        match r { Ok(v) => v@ == s@ && is_at(old(input).text(), old(input).pos(), s@) && final(input).pos() == old(input).pos() + s@.len(),
            Err(_) => is_bt(r) && !is_at(old(input).text(), old(input).pos(), s@) && final(input).pos() == old(input).pos() },
{ unimplemented!() }
// Caseless(s): one letter, without regard to case
pub open spec fn lower(c: char) -> int { if 'A' <= c <= 'Z' { c as int + 32 } else { c as int } }
#[verifier::external_body]
pub fn vx_caseless<'a>(input: &mut Input<'a>, s: &str) -> (r: PResult<&'a str>)
    requires s@.len() == 1, 'a' <= s@[0] <= 'z',
    ensures final(input).same(*old(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        ({ let (t, i) = (old(input).text(), old(input).pos()); let hit = i < t.len() && lower(t[i]) == s@[0] as int; match r { Ok(v) => hit && final(input).pos() == i + 1, Err(_) => is_bt(r) && !hit && final(input).pos() == i } }),
{ unimplemented!() }
// `&s[..]`
pub fn vx_whole(s: &String) -> (r: &str)
    ensures r@ == s@,
{ s.as_str() }
#[verifier::external_body]
pub fn vx_eof<'a>(input: &mut Input<'a>) -> (r: PResult<&'a str>)
    ensures final(input).same(*old(input)), final(input).pos() == old(input).pos(), r matches Err(e) ==> err_in(old(input).text(), e),
        match r { Ok(v) => v@.len() == 0 && old(input).pos() == old(input).text().len(), Err(_) => is_bt(r) && old(input).pos() < old(input).text().len() },
{ unimplemented!() }
pub fn vx_any(input: &mut Input) -> (r: PResult<char>)
    ensures final(input).same(*old(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        match r { Ok(v) => old(input).pos() < old(input).text().len() && v == old(input).text()[old(input).pos()] && final(input).pos() == old(input).pos() + 1,
            Err(_) => is_bt(r) && old(input).pos() == old(input).text().len() && final(input).pos() == old(input).pos() },
{ broadcast use axiom_pos; match input.vx_peek() { Some(c) => { input.vx_next(); Ok(c) } None => Err(vx_bt()) } }
pub fn vx_empty(input: &mut Input) -> (r: PResult<()>)
    ensures r == Ok::<(), ErrMode<KdlParseError>>(()), *final(input) == *old(input),
{ Ok(()) }

// ---- Character classes winnow defines.
pub open spec fn sp_is_dec_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn sp_is_oct_digit(c: char) -> bool { '0' <= c <= '7' }
pub open spec fn sp_is_hex_digit(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub fn vx_is_dec_digit(c: char) -> (r: bool) ensures r == sp_is_dec_digit(c), { '0' <= c && c <= '9' }
pub fn vx_is_oct_digit(c: char) -> (r: bool) ensures r == sp_is_oct_digit(c), { '0' <= c && c <= '7' }
pub fn vx_is_hex_digit(c: char) -> (r: bool) ensures r == sp_is_hex_digit(c), { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
}
pub use vx_in::*;
