//@ include de_shown.vx
// ---- serde's traits, by what they say: a seed takes some content, a visitor answers what it is shown.
#[verifier::external_body]
pub struct Error { m: String }
impl Error {
    #[verifier::external_body]
    pub fn new(msg: &str) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn with_input(self, input: &Arc<String>) -> Error { unimplemented!() }
    #[verifier::external_body]
    pub fn with_span(self, input: &Arc<String>, span: SourceSpan, label: &str) -> Error { unimplemented!() }
}
#[verifier::external_body]
pub fn entry_span(e: &KdlEntry) -> SourceSpan { unimplemented!() }
#[verifier::external_body]
pub fn ident_span(e: &KdlIdentifier) -> SourceSpan { unimplemented!() }
#[verifier::external_body]
pub fn node_span(e: &KdlNode) -> SourceSpan { unimplemented!() }

pub trait HasContent: Sized { spec fn content(self) -> Content; }
pub trait HasElems: Sized { #[verifier::prophetic] spec fn elems(self) -> Seq<Content>; }
pub trait HasItems: Sized { spec fn items(self) -> Seq<(Seq<char>, Content)>; }
pub trait HasVariant: Sized { spec fn variant(self) -> (Seq<char>, Option<Content>); }
pub trait DeserializeSeed: Sized {
    type Value;
    spec fn takes(self, c: Content, r: Result<Self::Value, Error>) -> bool;
    fn deserialize<D: HasContent>(self, d: D) -> (r: Result<Self::Value, Error>)
        ensures self.takes(d.content(), r);
}
pub trait Visitor: Sized {
    type Value;
    spec fn answers(self, s: Shown, r: Result<Self::Value, Error>) -> bool;
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Bool(v), r);
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Int(v as int), r);
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Int(v as int), r);
    fn visit_i128(self, v: i128) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Int(v as int), r);
    fn visit_u128(self, v: u128) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Int(v as int), r);
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Float(v), r);
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Text(v@), r);
    fn visit_string(self, v: String) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Text(v@), r);
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Unit, r);
    fn visit_none(self) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::None, r);
    fn visit_some<D: HasContent>(self, d: D) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Some(d.content()), r);
    fn visit_newtype_struct<D: HasContent>(self, d: D) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Newtype(d.content()), r);
    fn visit_seq<A: HasElems>(self, a: A) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Seq(a.elems()), r);
    fn visit_map<A: HasItems>(self, a: A) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Map(a.items()), r);
    fn visit_enum<A: HasVariant>(self, a: A) -> (r: Result<Self::Value, Error>) ensures self.answers(Shown::Enum(a.variant().0, a.variant().1), r);
}
/// The same answer, a refusal perhaps with more about where it happened.
pub open spec fn decorated<T>(q: Result<T, Error>, r: Result<T, Error>) -> bool {
    match q { Ok(v) => r == Ok::<T, Error>(v), Err(_) => r is Err }
}
/// The result is the visitor's answer to being shown exactly this.
pub open spec fn told<V: Visitor>(v: V, s: Shown, r: Result<V::Value, Error>) -> bool {
    exists|q: Result<V::Value, Error>| #[trigger] v.answers(s, q) && decorated(q, r)
}
/// The result is what the seed makes of exactly this content.
pub open spec fn fed<S: DeserializeSeed>(s: S, c: Content, r: Result<S::Value, Error>) -> bool {
    exists|q: Result<S::Value, Error>| #[trigger] s.takes(c, q) && decorated(q, r)
}
/// The same, of a sequence or map that may have ended.
pub open spec fn fed_some<S: DeserializeSeed>(s: S, c: Content, r: Result<Option<S::Value>, Error>) -> bool {
    exists|q: Result<S::Value, Error>| #[trigger] s.takes(c, q) && match q { Ok(v) => r == Ok::<Option<S::Value>, Error>(Some(v)), Err(_) => r is Err }
}
pub assume_specification<T, E> [Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures match o { Some(Ok(v)) => r == Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => r == Err::<Option<T>, E>(e), None => r == Ok::<Option<T>, E>(None) };
// r.map(Some)
pub trait VxMapSome<T>: Sized {
    spec fn inner(self) -> Result<T, Error>;
    fn vx_map_some(self) -> (r: Result<Option<T>, Error>)
        ensures match self.inner() { Ok(v) => r == Ok::<Option<T>, Error>(Some(v)), Err(e) => r == Err::<Option<T>, Error>(e) };
}
impl<T> VxMapSome<T> for Result<T, Error> {
    open spec fn inner(self) -> Result<T, Error> { self }
    fn vx_map_some(self) -> (r: Result<Option<T>, Error>) { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
}

// the standard library's, as assumed
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
pub open spec fn cow_text(c: Cow<'_>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> VxInto<Cow<'a>> for &'a str {
    open spec fn into_ens(self, r: Cow<'a>) -> bool { cow_text(r) == self@ }
    fn vx_into(self) -> (r: Cow<'a>) { Cow::Borrowed(self) }
}
impl<'a> VxInto<Cow<'a>> for String {
    open spec fn into_ens(self, r: Cow<'a>) -> bool { cow_text(r) == self@ }
    fn vx_into(self) -> (r: Cow<'a>) { Cow::Owned(self) }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body]
pub fn vx_asks(fields: &[&str], s: &str) -> (r: bool)
    ensures r == strs(fields@).contains(s@),
{ fields.contains(&s) }
#[verifier::external_body]
pub fn vx_starts(s: &str, c: char) -> (r: bool)
    ensures r == (s@.len() > 0 && s@[0] == c),
{ s.starts_with(c) }
#[verifier::external_body]
pub fn vx_to_i64(n: i128) -> (r: Result<i64, ()>)
    ensures i64::MIN <= n <= i64::MAX ==> r == Ok::<i64, ()>(n as i64), !(i64::MIN <= n <= i64::MAX) ==> r is Err,
{ i64::try_from(n).map_err(|_| ()) }
#[verifier::external_body]
pub fn vx_to_u64(n: i128) -> (r: Result<u64, ()>)
    ensures 0 <= n <= u64::MAX ==> r == Ok::<u64, ()>(n as u64), !(0 <= n <= u64::MAX) ==> r is Err,
{ u64::try_from(n).map_err(|_| ()) }
/// std's HashMap from names to lists of nodes.
#[verifier::external_body]
pub struct Groups<'a> { m: std::collections::HashMap<&'a str, Vec<&'a KdlNode>> }
impl<'a> View for Groups<'a> { type V = Map<Seq<char>, Vec<&'a KdlNode>>; uninterp spec fn view(&self) -> Map<Seq<char>, Vec<&'a KdlNode>>; }
impl<'a> Groups<'a> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, Vec<&'a KdlNode>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Vec<&'a KdlNode>>)
        ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<Vec<&'a KdlNode>>)
        ensures r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }), final(self)@ == old(self)@.remove(k@),
    { unimplemented!() }
    // entry(k).or_default()
    #[verifier::external_body]
    pub fn or_default(&mut self, k: &'a str) -> (r: &mut Vec<&'a KdlNode>)
        ensures old(self)@.dom().contains(k@) ==> *r == old(self)@[k@], !old(self)@.dom().contains(k@) ==> r@.len() == 0, final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
}

// ---- Lemmas.
/// Every entry is an argument or a property; of one entry, or of none, it is plain which.
pub proof fn lemma_counts(s: Seq<KdlEntry>)
    ensures
        args_of(s).len() + props_of(s).len() == s.len(), s.len() == 0 ==> args_of(s) == s && props_of(s) == s,
        s.len() == 1 && is_arg(s[0]) ==> args_of(s) == s, s.len() == 1 && !is_arg(s[0]) ==> props_of(s) == s,
        forall|i: int| 0 <= i < s.len() && is_arg(#[trigger] s[i]) ==> args_of(s).len() > 0, forall|i: int| 0 <= i < s.len() && !is_arg(#[trigger] s[i]) ==> props_of(s).len() > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_counts(p);
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.len() && is_arg(#[trigger] s[i]) implies args_of(s).len() > 0 by { if i < p.len() { assert(p[i] == s[i]); } }
        assert forall|i: int| 0 <= i < s.len() && !is_arg(#[trigger] s[i]) implies props_of(s).len() > 0 by { if i < p.len() { assert(p[i] == s[i]); } }
        if s.len() == 1 { assert(p =~= Seq::empty()); if is_arg(s[0]) { assert(args_of(s) =~= s); } else { assert(props_of(s) =~= s); } }
    } else { assert(args_of(s) =~= s); assert(props_of(s) =~= s); }
}
pub proof fn lemma_args_take(s: Seq<KdlEntry>, i: int)
    requires 0 <= i < s.len(),
    ensures
        args_of(s.take(i + 1)) == (if is_arg(s[i]) { args_of(s.take(i)).push(s[i]) } else { args_of(s.take(i)) }),
        props_of(s.take(i + 1)) == (if !is_arg(s[i]) { props_of(s.take(i)).push(s[i]) } else { props_of(s.take(i)) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_props_named(s: Seq<KdlEntry>)
    ensures forall|i: int| 0 <= i < props_of(s).len() ==> (#[trigger] props_of(s)[i]).name is Some,
    decreases s.len(),
{ if s.len() > 0 { lemma_props_named(s.drop_last()) } }
pub proof fn lemma_first_seen(s: Seq<KdlNode>)
    ensures
        first_seen(s).no_duplicates(),
        forall|k: Seq<char>| first_seen(s).contains(k) <==> node_names(s).contains(k),
        forall|k: Seq<char>| (#[trigger] all_named(s, k)).len() > 0 <==> first_seen(s).contains(k),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_first_seen(t);
        let k0 = node_name(s.last());
        assert(node_names(s) =~= node_names(t).push(k0));
        assert forall|k: Seq<char>| first_seen(s).contains(k) <==> node_names(s).contains(k) by {
            if node_names(s).contains(k) {
                let i = choose|i: int| 0 <= i < node_names(s).len() && node_names(s)[i] == k;
                if i < t.len() { assert(node_names(t)[i] == k); assert(first_seen(t).contains(k)); let j = choose|j: int| 0 <= j < first_seen(t).len() && first_seen(t)[j] == k; assert(first_seen(s)[j] == k); }
                else if !first_seen(t).contains(k0) { assert(first_seen(s)[first_seen(t).len() as int] == k0); }
            }
            if first_seen(s).contains(k) {
                let j = choose|j: int| 0 <= j < first_seen(s).len() && first_seen(s)[j] == k;
                if j < first_seen(t).len() { assert(first_seen(t).contains(k)); assert(node_names(t).contains(k)); let i = choose|i: int| 0 <= i < node_names(t).len() && node_names(t)[i] == k; assert(node_names(s)[i] == k); }
                else { assert(node_names(s)[t.len() as int] == k); }
            }
        }
        assert forall|k: Seq<char>| (#[trigger] all_named(s, k)).len() > 0 <==> first_seen(s).contains(k) by {
            assert(all_named(t, k).len() > 0 <==> first_seen(t).contains(k));
            assert(first_seen(t).contains(k) <==> node_names(t).contains(k));
            if k == k0 { assert(node_names(s)[t.len() as int] == k); }
            else if node_names(t).contains(k) { let i = choose|i: int| 0 <= i < node_names(t).len() && node_names(t)[i] == k; assert(node_names(s)[i] == k); }
            else if node_names(s).contains(k) { let i = choose|i: int| 0 <= i < node_names(s).len() && node_names(s)[i] == k; assert(i < t.len()); assert(node_names(t)[i] == k); }
        }
    }
}
pub proof fn lemma_named_take(s: Seq<KdlNode>, i: int)
    requires 0 <= i < s.len(),
    ensures
        first_seen(s.take(i + 1)) == (if first_seen(s.take(i)).contains(node_name(s[i])) { first_seen(s.take(i)) } else { first_seen(s.take(i)).push(node_name(s[i])) }),
        forall|k: Seq<char>| #[trigger] all_named(s.take(i + 1), k) == (if node_name(s[i]) == k { all_named(s.take(i), k).push(s[i]) } else { all_named(s.take(i), k) }),
        node_names(s.take(i + 1)) == node_names(s.take(i)).push(node_name(s[i])),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(node_names(s.take(i + 1)) =~= node_names(s.take(i)).push(node_name(s[i]))); }
/// The map holds, for every name seen, all nodes so named.
pub open spec fn grouped(m: Map<Seq<char>, Vec<&KdlNode>>, s: Seq<KdlNode>) -> bool {
    forall|k: Seq<char>| #![trigger m.dom().contains(k)] (m.dom().contains(k) <==> all_named(s, k).len() > 0) && (m.dom().contains(k) ==> vals(m[k]@) == all_named(s, k))
}
/// What an iterator over references yields is what it runs over.
pub proof fn lemma_vals<T>(s: Seq<T>)
    ensures forall|t: Seq<&T>| t.len() == s.len() && (forall|j: int| 0 <= j < s.len() ==> *t[j] == s[j]) ==> #[trigger] vals(t) == s,
{
    assert forall|t: Seq<&T>| t.len() == s.len() && (forall|j: int| 0 <= j < s.len() ==> *t[j] == s[j]) implies #[trigger] vals(t) == s by { assert(vals(t) =~= s); }
}
pub proof fn lemma_grouped(m: Map<Seq<char>, Vec<&KdlNode>>, m2: Map<Seq<char>, Vec<&KdlNode>>, s: Seq<KdlNode>, n: KdlNode)
    requires
        grouped(m, s),
        exists|v: Vec<&KdlNode>| m2 == m.insert(node_name(n), v) && v@ =~= (if m.dom().contains(node_name(n)) { m[node_name(n)]@ } else { Seq::<&KdlNode>::empty() }).push(&n),
    ensures grouped(m2, s.push(n)),
{
    let k0 = node_name(n);
    let v = choose|v: Vec<&KdlNode>| m2 == m.insert(k0, v) && v@ =~= (if m.dom().contains(k0) { m[k0]@ } else { Seq::<&KdlNode>::empty() }).push(&n);
    let t = s.push(n);
    assert(t.drop_last() =~= s);
    assert forall|k: Seq<char>| #![trigger m2.dom().contains(k)] (m2.dom().contains(k) <==> all_named(t, k).len() > 0) && (m2.dom().contains(k) ==> vals(m2[k]@) == all_named(t, k)) by {
        assert(m.dom().contains(k) <==> all_named(s, k).len() > 0);
        if k == k0 {
            if m.dom().contains(k0) { assert(vals(v@) =~= vals(m[k0]@).push(n)); } else { assert(vals(v@) =~= seq![n]); assert(all_named(s, k0) =~= seq![]); assert(all_named(t, k0) =~= seq![n]); }
        }
    }
}
