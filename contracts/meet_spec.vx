// ---- What is written (ser_tree.vx), read again, shows a reader who asks for it exactly what was handed over.
pub open spec fn data_shown(d: Data) -> Shown {
    match d { Data::Bool(b) => Shown::Bool(b), Data::Int(n) => Shown::Int(n), Data::Float(f) => Shown::Float(f), Data::Text(s) => Shown::Text(s), Data::Null => Shown::Unit }
}
/// What a map or record shows under a key, in order.
pub open spec fn under(e: Seq<(Seq<char>, Content)>, k: Seq<char>) -> Seq<Content>
    decreases e.len(),
{ if e.len() == 0 { seq![] } else if e.last().0 == k { under(e.drop_last(), k).push(e.last().1) } else { under(e.drop_last(), k) } }
pub open spec fn names(l: Seq<(Seq<char>, Tree)>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i].0) }
/// A reader who asks for what `t` is gets `t`'s parts: a scalar by its visitor method, an option by whether there is one,
/// a sequence element by element, a map key by key, a record field by field (each once; a null one may be absent).
pub open spec fn shows(c: Content, t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Scalar(d) => if d is Null { none_of(c) } else { asked_any(c) == data_shown(d) },
        Tree::Some(x) => !none_of(c) && shows(c, *x),
        Tree::Seq(l) => match asked_seq(c) { Shown::Seq(e) => e.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> shows(e[i], #[trigger] l[i]), _ => false },
        Tree::Map(l) => match asked_map(c) { Shown::Map(e) => e.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> e[i].0 == keyed((#[trigger] l[i]).0)->0 && shows(e[i].1, l[i].1), _ => false },
        Tree::Record(l) => match asked_record(c, names(l)) {
            Shown::Map(e) => forall|i: int| 0 <= i < l.len() ==> (under(e, (#[trigger] l[i]).0).len() == 0 && l[i].1 == Tree::Scalar(Data::Null)) || (under(e, l[i].0).len() == 1 && shows(under(e, l[i].0)[0], l[i].1)),
            _ => false },
    }
}
// ---- the family
pub open spec fn steady(d: Data) -> bool { d matches Data::Float(f) ==> !f64_is_nan(f) }
pub open spec fn leaf(t: Tree) -> bool {
    match t { Tree::Scalar(d) => steady(d), Tree::Some(x) => match *x { Tree::Scalar(d) => steady(d) && !(d is Null), _ => false }, _ => false }
}
pub open spec fn leaves(l: Seq<Tree>) -> bool { forall|i: int| 0 <= i < l.len() ==> leaf(#[trigger] l[i]) }
pub open spec fn is_pos(k: Seq<char>) -> bool { !is_plain(k) && !is_prop(k) && !is_list(k) }
/// How many of the first `i` fields are positional.
pub open spec fn pos(l: Seq<(Seq<char>, Tree)>, i: int) -> nat
    decreases i,
{ if i <= 0 || i > l.len() { 0 } else { pos(l, i - 1) + if is_pos(l[i - 1].0) { 1nat } else { 0nat } } }
pub open spec fn fine_names(l: Seq<(Seq<char>, Tree)>) -> bool {
    names(l).no_duplicates()
    && (forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && is_prop(l[i].0) ==> (#[trigger] l[j]).0 != (#[trigger] l[i]).0.skip(2))
    && (forall|i: int| 0 <= i < l.len() && is_pos((#[trigger] l[i]).0) ==> l[i].0 == arg_field(pos(l, i)))
    && (forall|i: int| 0 <= i < l.len() && is_list((#[trigger] l[i]).0) ==> list_last(l, i))
}
/// One list of arguments, after every positional field; all arguments only where none is positional.
pub open spec fn list_last(l: Seq<(Seq<char>, Tree)>, i: int) -> bool {
    pos(l, i) == pos(l, l.len() as int) && (l[i].0 == "#args"@ ==> pos(l, i) == 0) && forall|j: int| 0 <= j < l.len() && is_list((#[trigger] l[j]).0) ==> j == i
}
pub open spec fn good_entry(k: Seq<char>, t: Tree) -> bool { if is_list(k) { t matches Tree::Seq(v) && leaves(v) } else { leaf(t) } }
pub open spec fn text_keys(l: Seq<(Tree, Tree)>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 matches Tree::Scalar(Data::Text(_)))
    && forall|i: int, j: int| 0 <= i < j < l.len() ==> keyed((#[trigger] l[i]).0) != keyed((#[trigger] l[j]).0)
}
pub open spec fn good(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Seq(l) => leaves(l),
        Tree::Map(l) => text_keys(l) && forall|i: int| 0 <= i < l.len() ==> good((#[trigger] l[i]).1),
        Tree::Record(l) => fine_names(l) && (forall|i: int| 0 <= i < l.len() && is_plain((#[trigger] l[i]).0) ==> good(l[i].1)) && (forall|i: int| 0 <= i < l.len() && !is_plain((#[trigger] l[i]).0) ==> good_entry(l[i].0, l[i].1)),
        _ => leaf(t),
    }
}
/// A whole document: a record (whose false fields are the known finding), a map or a sequence.
pub open spec fn good_doc(t: Tree) -> bool {
    match t {
        Tree::Seq(l) => forall|i: int| 0 <= i < l.len() ==> good(#[trigger] l[i]),
        Tree::Map(l) => text_keys(l) && forall|i: int| 0 <= i < l.len() ==> good((#[trigger] l[i]).1),
        Tree::Record(l) => names(l).no_duplicates() && forall|i: int| 0 <= i < l.len() ==> good((#[trigger] l[i]).1) && l[i].1 != Tree::Scalar(Data::Bool(false)),
        _ => false,
    }
}
// ---- keys
pub proof fn lemma_under_plus(a: Seq<(Seq<char>, Content)>, b: Seq<(Seq<char>, Content)>, k: Seq<char>)
    ensures under(a + b, k) == under(a, k) + under(b, k),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(under(a, k) + under(b, k) =~= under(a, k)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_under_plus(a, b.drop_last(), k);
        assert(under(a + b, k) =~= under(a, k) + under(b, k));
    }
}
pub proof fn lemma_under_none(e: Seq<(Seq<char>, Content)>, k: Seq<char>)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).0 != k,
    ensures under(e, k) == Seq::<Content>::empty(),
    decreases e.len(),
{ if e.len() > 0 { assert(e.last() == e[e.len() - 1]); assert forall|i: int| 0 <= i < e.len() - 1 implies (#[trigger] e.drop_last()[i]).0 != k by { assert(e.drop_last()[i] == e[i]); } lemma_under_none(e.drop_last(), k); } }
pub proof fn lemma_under_one(e: Seq<(Seq<char>, Content)>, m: int)
    requires 0 <= m < e.len(), forall|i: int| 0 <= i < e.len() && i != m ==> (#[trigger] e[i]).0 != e[m].0,
    ensures under(e, e[m].0) == seq![e[m].1],
    decreases e.len(),
{
    let k = e[m].0;
    let p = e.drop_last();
    if m == e.len() - 1 {
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 != k by { assert(p[i] == e[i]); }
        lemma_under_none(p, k);
        assert(under(e, k) =~= seq![e[m].1]);
    } else {
        assert(p[m] == e[m]);
        assert forall|i: int| 0 <= i < p.len() && i != m implies (#[trigger] p[i]).0 != p[m].0 by { assert(p[i] == e[i]); }
        lemma_under_one(p, m);
        assert(e.last() == e[e.len() - 1]);
    }
}
pub proof fn lemma_under_opt(b: bool, k0: Seq<char>, c: Content, k: Seq<char>)
    ensures under(opt_item(b, k0, c), k) == (if b && k0 == k { seq![c] } else { seq![] }),
{
    let e = opt_item(b, k0, c);
    if b { assert(e == seq![(k0, c)]); assert(e.last() == (k0, c)); assert(e.drop_last() =~= seq![]); assert(under(e.drop_last(), k) =~= seq![]); assert(under(e, k) =~= (if b && k0 == k { seq![c] } else { seq![] })); }
}
pub proof fn lemma_digits(n: nat)
    ensures nat_text(n).len() > 0, '0' <= nat_text(n)[0] <= '9', nat_text(n).len() == 1 <==> n < 10,
    decreases n,
{ if n >= 10 { lemma_digits(n / 10); assert(nat_text(n)[0] == nat_text(n / 10)[0]); } }
pub proof fn lemma_digits_one(m: nat, n: nat)
    requires nat_text(m) == nat_text(n),
    ensures m == n,
    decreases m,
{
    lemma_digits(m); lemma_digits(n);
    if m < 10 { assert(nat_text(m)[0] == nat_text(n)[0]); }
    else {
        let (a, b) = (nat_text(m / 10), nat_text(n / 10));
        let (x, y) = (digit((m % 10) as int), digit((n % 10) as int));
        assert(nat_text(m) == a.push(x)); assert(nat_text(n) == b.push(y));
        assert(a.push(x).last() == x); assert(b.push(y).last() == y);
        assert(a.push(x).drop_last() =~= a); assert(b.push(y).drop_last() =~= b);
        lemma_digits_one(m / 10, n / 10);
    }
}
/// The kinds of names are told apart.
pub proof fn lemma_kinds(k: Seq<char>, n: nat, x: Seq<char>)
    ensures
        "#name"@ == seq!['#', 'n', 'a', 'm', 'e'], "#type"@ == seq!['#', 't', 'y', 'p', 'e'], "#args"@ == seq!['#', 'a', 'r', 'g', 's'], "#rest"@ == seq!['#', 'r', 'e', 's', 't'], "#args"@ != "#rest"@,
        is_plain(k) <==> !(k.len() > 0 && k[0] == '#'),
        is_prop(k) <==> k.len() >= 2 && k[0] == '#' && k[1] == '@',
        is_prop(k) ==> !is_plain(k) && !is_list(k) && k == prop_field(k.skip(2)), is_list(k) ==> !is_plain(k) && !is_prop(k) && (k == "#args"@ || k == "#rest"@), is_list("#args"@), is_list("#rest"@),
        is_prop(prop_field(x)), prop_field(x).skip(2) == x,
        is_pos(arg_field(n)), arg_field(n) != "#name"@, arg_field(n) != "#type"@, arg_field(n) != "#args"@, arg_field(n) != "#rest"@, arg_field(n) != prop_field(x),
        !is_plain("#name"@), !is_plain("#type"@), !is_prop("#name"@), !is_prop("#type"@), !is_list("#name"@), !is_list("#type"@),
{
    reveal_strlit("#name"); reveal_strlit("#type"); reveal_strlit("#args"); reveal_strlit("#rest");
    assert("#name"@ =~= seq!['#', 'n', 'a', 'm', 'e']); assert("#type"@ =~= seq!['#', 't', 'y', 'p', 'e']); assert("#args"@ =~= seq!['#', 'a', 'r', 'g', 's']); assert("#rest"@ =~= seq!['#', 'r', 'e', 's', 't']);
    assert("#args"@[1] != "#rest"@[1]);
    assert forall|q: Seq<char>| #[trigger] is_plain(q) <==> !(q.len() > 0 && q[0] == '#') by { if q.len() > 0 { assert(q.take(1)[0] == q[0]); if q[0] == '#' { assert(q.take(1) =~= seq!['#']); } } }
    assert forall|q: Seq<char>| #[trigger] is_prop(q) <==> q.len() >= 2 && q[0] == '#' && q[1] == '@' by { if q.len() >= 2 { assert(q.take(2)[0] == q[0] && q.take(2)[1] == q[1]); if q[0] == '#' && q[1] == '@' { assert(q.take(2) =~= seq!['#', '@']); } } }
    if is_prop(k) { assert(k =~= prop_field(k.skip(2))); }
    let p = prop_field(x);
    assert(p[0] == '#' && p[1] == '@'); assert(p.skip(2) =~= x);
    let a = arg_field(n);
    lemma_digits(n);
    assert(a[0] == '#' && a[1] == nat_text(n)[0]);
}
pub proof fn lemma_arg_field(m: nat, n: nat)
    requires arg_field(m) == arg_field(n),
    ensures m == n,
{ assert(arg_field(m).skip(1) =~= nat_text(m)); assert(arg_field(n).skip(1) =~= nat_text(n)); lemma_digits_one(m, n); }
// ---- entries
pub open spec fn says(e: KdlEntry, x: (Option<Seq<char>>, Data)) -> bool { e.ty is None && is_value(e.value, x.1) && match x.0 { Some(s) => e.name matches Some(n) && n.value@ == s, None => e.name is None } }
pub open spec fn all_say(e: Seq<KdlEntry>, x: Seq<(Option<Seq<char>>, Data)>) -> bool { e.len() == x.len() && forall|i: int| 0 <= i < x.len() ==> says(#[trigger] e[i], x[i]) }
pub open spec fn arg_data(x: Seq<(Option<Seq<char>>, Data)>) -> Seq<Data>
    decreases x.len(),
{ if x.len() == 0 { seq![] } else if x.last().0 is None { arg_data(x.drop_last()).push(x.last().1) } else { arg_data(x.drop_last()) } }
pub open spec fn prop_data(x: Seq<(Option<Seq<char>>, Data)>) -> Seq<(Seq<char>, Data)>
    decreases x.len(),
{ if x.len() == 0 { seq![] } else if x.last().0 is None { prop_data(x.drop_last()) } else { prop_data(x.drop_last()).push((x.last().0->0, x.last().1)) } }
pub open spec fn arg_is(e: KdlEntry, d: Data) -> bool { e.name is None && e.ty is None && is_value(e.value, d) }
pub open spec fn prop_is(e: KdlEntry, d: (Seq<char>, Data)) -> bool { (e.name matches Some(n) && n.value@ == d.0) && e.ty is None && is_value(e.value, d.1) }
pub open spec fn args_are(a: Seq<KdlEntry>, d: Seq<Data>) -> bool { a.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> arg_is(#[trigger] a[i], d[i]) }
pub open spec fn props_are(a: Seq<KdlEntry>, d: Seq<(Seq<char>, Data)>) -> bool { a.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> prop_is(#[trigger] a[i], d[i]) }
pub proof fn lemma_said(e: Seq<KdlEntry>, x: Seq<(Option<Seq<char>>, Data)>)
    requires all_say(e, x),
    ensures args_are(args_of(e), arg_data(x)), props_are(props_of(e), prop_data(x)),
    decreases e.len(),
{
    if e.len() > 0 {
        let (f, y) = (e.drop_last(), x.drop_last());
        assert forall|i: int| 0 <= i < y.len() implies says(#[trigger] f[i], y[i]) by { assert(f[i] == e[i]); }
        lemma_said(f, y);
        assert(says(e[e.len() - 1], x[x.len() - 1]));
        let (a, d) = (args_of(e), arg_data(x));
        assert forall|i: int| 0 <= i < d.len() implies arg_is(#[trigger] a[i], d[i]) by { if i < args_of(f).len() { assert(arg_is(args_of(f)[i], arg_data(y)[i])); } }
        let (p, q) = (props_of(e), prop_data(x));
        assert forall|i: int| 0 <= i < q.len() implies prop_is(#[trigger] p[i], q[i]) by { if i < props_of(f).len() { assert(prop_is(props_of(f)[i], prop_data(y)[i])); } }
    }
}
pub proof fn lemma_data_plus(x: Seq<(Option<Seq<char>>, Data)>, y: Seq<(Option<Seq<char>>, Data)>)
    ensures arg_data(x + y) == arg_data(x) + arg_data(y), prop_data(x + y) == prop_data(x) + prop_data(y),
    decreases y.len(),
{
    if y.len() == 0 { assert(x + y =~= x); assert(arg_data(x) + arg_data(y) =~= arg_data(x)); assert(prop_data(x) + prop_data(y) =~= prop_data(x)); }
    else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        lemma_data_plus(x, y.drop_last());
        assert(arg_data(x + y) =~= arg_data(x) + arg_data(y)); assert(prop_data(x + y) =~= prop_data(x) + prop_data(y));
    }
}
pub proof fn lemma_data_args(l: Seq<Data>)
    ensures arg_data(as_args(l)) == l, prop_data(as_args(l)) == Seq::<(Seq<char>, Data)>::empty(),
    decreases l.len(),
{
    if l.len() > 0 { assert(as_args(l).drop_last() =~= as_args(l.drop_last())); lemma_data_args(l.drop_last()); assert(as_args(l).last() == (None::<Seq<char>>, l.last())); assert(arg_data(as_args(l)) =~= l); }
    else { assert(arg_data(as_args(l)) =~= l); }
}
pub proof fn lemma_data_one(x: (Option<Seq<char>>, Data))
    ensures arg_data(seq![x]) == (if x.0 is None { seq![x.1] } else { seq![] }), prop_data(seq![x]) == (if x.0 is None { seq![] } else { seq![(x.0->0, x.1)] }),
{
    let s = seq![x];
    reveal_with_fuel(arg_data, 2); reveal_with_fuel(prop_data, 2);
    assert(s.last() == x); assert(s.drop_last() =~= Seq::empty());
    assert(arg_data(s) =~= (if x.0 is None { seq![x.1] } else { seq![] })); assert(prop_data(s) =~= (if x.0 is None { seq![] } else { seq![(x.0->0, x.1)] }));
}
/// What one field adds.
pub proof fn lemma_contrib(k: Seq<char>, t: Tree)
    requires !is_plain(k) ==> good_entry(k, t),
    ensures
        arg_data(contrib(k, t)) == (if is_list(k) { flats(t->Seq_0) } else if is_pos(k) { seq![flat(t)->0] } else { seq![] }),
        prop_data(contrib(k, t)) == (if is_prop(k) { seq![(k.skip(2), flat(t)->0)] } else { seq![] }),
        is_list(k) ==> listed(t) == Some(flats(t->Seq_0)),
{
    lemma_kinds(k, 0, seq![]);
    if is_prop(k) { lemma_data_one((Some(k.skip(2)), flat(t)->0)); }
    else if is_list(k) {
        let v = t->Seq_0;
        assert forall|i: int| 0 <= i < v.len() implies flat(#[trigger] v[i]) is Some by { lemma_leaf_flat(v[i]); }
        lemma_data_args(flats(v));
    }
    else if is_plain(k) { assert(arg_data(contrib(k, t)) =~= seq![]); assert(prop_data(contrib(k, t)) =~= seq![]); }
    else { lemma_data_one((None, flat(t)->0)); }
}
pub proof fn lemma_leaf_flat(t: Tree)
    requires leaf(t),
    ensures flat(t) matches Some(d) && steady(d),
{ match t { Tree::Some(x) => { assert(flat(t) == flat(*x)); } _ => {} } }
pub open spec fn good_entries(l: Seq<(Seq<char>, Tree)>) -> bool { forall|i: int| 0 <= i < l.len() && !is_plain((#[trigger] l[i]).0) ==> good_entry(l[i].0, l[i].1) }
proof fn lemma_entries_step(l: Seq<(Seq<char>, Tree)>)
    requires l.len() > 0, good_entries(l),
    ensures good_entries(l.drop_last()), arg_data(entries_of(l)) == arg_data(entries_of(l.drop_last())) + arg_data(contrib(l.last().0, l.last().1)), prop_data(entries_of(l)) == prop_data(entries_of(l.drop_last())) + prop_data(contrib(l.last().0, l.last().1)), !is_plain(l.last().0) ==> good_entry(l.last().0, l.last().1),
{
    let p = l.drop_last();
    assert forall|i: int| 0 <= i < p.len() && !is_plain((#[trigger] p[i]).0) implies good_entry(p[i].0, p[i].1) by { assert(p[i] == l[i]); }
    lemma_data_plus(entries_of(p), contrib(l.last().0, l.last().1));
    assert(l.last() == l[l.len() - 1]);
}
proof fn lemma_pos_take(l: Seq<(Seq<char>, Tree)>, i: int)
    requires 0 <= i < l.len(),
    ensures pos(l.drop_last(), i) == pos(l, i),
    decreases i,
{ if i > 0 { lemma_pos_take(l, i - 1); assert(l.drop_last()[i - 1] == l[i - 1]); } }
proof fn lemma_pos_mono(l: Seq<(Seq<char>, Tree)>, i: int, j: int)
    requires 0 <= i <= j <= l.len(),
    ensures pos(l, i) <= pos(l, j), i < j && is_pos(l[i].0) ==> pos(l, i) < pos(l, j),
    decreases j - i,
{ if i < j { lemma_pos_mono(l, i + 1, j); assert(pos(l, i + 1) == pos(l, i) + if is_pos(l[i].0) { 1nat } else { 0nat }); } }
proof fn lemma_no_list(l: Seq<(Seq<char>, Tree)>)
    requires good_entries(l), forall|j: int| 0 <= j < l.len() ==> !is_list((#[trigger] l[j]).0),
    ensures arg_data(entries_of(l)).len() == pos(l, l.len() as int),
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last();
        lemma_entries_step(l);
        assert forall|j: int| 0 <= j < p.len() implies !is_list((#[trigger] p[j]).0) by { assert(p[j] == l[j]); }
        lemma_no_list(p);
        lemma_contrib(l.last().0, l.last().1);
        lemma_pos_take(l, l.len() - 1);
        assert(l.last() == l[l.len() - 1]);
        lemma_kinds(l.last().0, 0, seq![]);
    }
}
/// A positional field's value is the argument of its number.
proof fn lemma_pos_arg(l: Seq<(Seq<char>, Tree)>, i: int)
    requires good_entries(l), 0 <= i < l.len(), is_pos(l[i].0), forall|j: int| 0 <= j < i ==> !is_list((#[trigger] l[j]).0),
    ensures pos(l, i) < arg_data(entries_of(l)).len(), arg_data(entries_of(l))[pos(l, i) as int] == flat(l[i].1)->0,
    decreases l.len(),
{
    let p = l.drop_last();
    lemma_entries_step(l);
    lemma_contrib(l.last().0, l.last().1);
    lemma_pos_take(l, i);
    if i == l.len() - 1 {
        assert forall|j: int| 0 <= j < p.len() implies !is_list((#[trigger] p[j]).0) by { assert(p[j] == l[j]); }
        lemma_no_list(p);
    } else {
        assert(p[i] == l[i]);
        assert forall|j: int| 0 <= j < i implies !is_list((#[trigger] p[j]).0) by { assert(p[j] == l[j]); }
        lemma_pos_arg(p, i);
    }
}
/// A list field's values are the arguments after the positional ones.
proof fn lemma_list_args(l: Seq<(Seq<char>, Tree)>, i: int)
    requires good_entries(l), 0 <= i < l.len(), is_list(l[i].0), forall|j: int| 0 <= j < l.len() && j != i ==> !is_list((#[trigger] l[j]).0), pos(l, i) == pos(l, l.len() as int),
    ensures arg_data(entries_of(l)).len() == pos(l, i) + flats(l[i].1->Seq_0).len(), arg_data(entries_of(l)).skip(pos(l, i) as int) == flats(l[i].1->Seq_0),
    decreases l.len(),
{
    let p = l.drop_last();
    lemma_entries_step(l);
    lemma_contrib(l.last().0, l.last().1);
    lemma_pos_take(l, i);
    if i == l.len() - 1 {
        assert forall|j: int| 0 <= j < p.len() implies !is_list((#[trigger] p[j]).0) by { assert(p[j] == l[j]); }
        lemma_no_list(p);
        assert(arg_data(entries_of(l)).skip(pos(l, i) as int) =~= flats(l[i].1->Seq_0));
    } else {
        assert(p[i] == l[i]);
        assert forall|j: int| 0 <= j < p.len() && j != i implies !is_list((#[trigger] p[j]).0) by { assert(p[j] == l[j]); }
        lemma_pos_take(l, l.len() - 1);
        lemma_pos_mono(l, i, l.len() - 1);
        lemma_pos_mono(l, l.len() - 1, l.len() as int);
        lemma_list_args(p, i);
        assert(l.last() == l[l.len() - 1]);
        assert(!is_list(l.last().0) && !is_pos(l.last().0));
        assert(arg_data(entries_of(l)) =~= arg_data(entries_of(p)));
    }
}
pub open spec fn prop_of(l: Seq<(Seq<char>, Tree)>, x: Seq<char>, i: int) -> bool { 0 <= i < l.len() && is_prop(l[i].0) && l[i].0.skip(2) == x }
pub open spec fn from_field(l: Seq<(Seq<char>, Tree)>, x: Seq<char>) -> bool { exists|i: int| #[trigger] prop_of(l, x, i) }
/// The properties are the property fields, each once.
proof fn lemma_prop_fields(l: Seq<(Seq<char>, Tree)>)
    requires good_entries(l), names(l).no_duplicates(),
    ensures
        forall|m: int| 0 <= m < prop_data(entries_of(l)).len() ==> from_field(l, (#[trigger] prop_data(entries_of(l))[m]).0),
        forall|m: int, n: int| 0 <= m < n < prop_data(entries_of(l)).len() ==> (#[trigger] prop_data(entries_of(l))[m]).0 != (#[trigger] prop_data(entries_of(l))[n]).0,
        forall|i: int| 0 <= i < l.len() && is_prop((#[trigger] l[i]).0) ==> exists|m: int| 0 <= m < prop_data(entries_of(l)).len() && #[trigger] prop_data(entries_of(l))[m] == (l[i].0.skip(2), flat(l[i].1)->0),
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last();
        let (q, d) = (prop_data(entries_of(p)), prop_data(entries_of(l)));
        let z = l.last();
        assert(z == l[l.len() - 1]);
        lemma_entries_step(l);
        lemma_contrib(z.0, z.1);
        assert forall|a: int, b: int| 0 <= a < b < names(p).len() implies names(p)[a] != names(p)[b] by { assert(names(l)[a] != names(l)[b]); }
        lemma_prop_fields(p);
        let c = prop_data(contrib(z.0, z.1));
        assert(d == q + c);
        assert forall|m: int| 0 <= m < d.len() implies from_field(l, (#[trigger] d[m]).0) by {
            if m < q.len() { assert(d[m] == q[m]); let i = choose|i: int| prop_of(p, q[m].0, i); assert(p[i] == l[i]); assert(prop_of(l, d[m].0, i)); }
            else { assert(d[m] == c[m - q.len()]); assert(prop_of(l, d[m].0, l.len() - 1)); }
        }
        assert forall|m: int, n: int| 0 <= m < n < d.len() implies (#[trigger] d[m]).0 != (#[trigger] d[n]).0 by {
            assert(d[m] == q[m]);
            if n < q.len() { assert(d[n] == q[n]); }
            else {
                assert(d[n] == c[n - q.len()]);
                let i = choose|i: int| prop_of(p, q[m].0, i);
                assert(p[i] == l[i]);
                lemma_kinds(l[i].0, 0, seq![]); lemma_kinds(z.0, 0, seq![]);
                assert(names(l)[i] != names(l)[l.len() - 1]);
            }
        }
        assert forall|i: int| 0 <= i < l.len() && is_prop((#[trigger] l[i]).0) implies exists|m: int| 0 <= m < d.len() && #[trigger] d[m] == (l[i].0.skip(2), flat(l[i].1)->0) by {
            if i < p.len() { assert(p[i] == l[i]); let m = choose|m: int| 0 <= m < q.len() && #[trigger] q[m] == (p[i].0.skip(2), flat(p[i].1)->0); assert(d[m] == q[m]); }
            else { assert(d[q.len() as int] == c[0]); }
        }
    }
}
// ---- what the parts of a node show under a key
pub open spec fn untyped(a: Seq<KdlEntry>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).ty is None }
proof fn lemma_args_none(f: Option<Seq<Seq<char>>>, a: Seq<KdlEntry>, k: Seq<char>)
    requires untyped(a), forall|j: nat| j < a.len() ==> k != #[trigger] arg_field(j),
    ensures under(arg_items(f, a), k) == Seq::<Content>::empty(),
    decreases a.len(),
{
    if a.len() > 0 {
        let p = a.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).ty is None by { assert(p[i] == a[i]); }
        lemma_args_none(f, p, k);
        assert(a.last() == a[a.len() - 1]);
        let k0 = arg_field((a.len() - 1) as nat);
        assert(arg_items(f, a) =~= arg_items(f, p) + opt_item(asks(f, k0), k0, Content::Value(a.last().value)));
        lemma_under_opt(asks(f, k0), k0, Content::Value(a.last().value), k);
        lemma_under_plus(arg_items(f, p), opt_item(asks(f, k0), k0, Content::Value(a.last().value)), k);
        assert(under(arg_items(f, a), k) =~= seq![]);
    }
}
proof fn lemma_args_at(f: Option<Seq<Seq<char>>>, a: Seq<KdlEntry>, j: nat)
    requires untyped(a), j < a.len(), asks(f, arg_field(j)),
    ensures under(arg_items(f, a), arg_field(j)) == seq![Content::Value(a[j as int].value)],
    decreases a.len(),
{
    let p = a.drop_last();
    let k = arg_field(j);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).ty is None by { assert(p[i] == a[i]); }
    assert(a.last() == a[a.len() - 1]);
    let k0 = arg_field((a.len() - 1) as nat);
    assert(arg_items(f, a) =~= arg_items(f, p) + opt_item(asks(f, k0), k0, Content::Value(a.last().value)));
    lemma_under_opt(asks(f, k0), k0, Content::Value(a.last().value), k);
    lemma_under_plus(arg_items(f, p), opt_item(asks(f, k0), k0, Content::Value(a.last().value)), k);
    if j == a.len() - 1 {
        assert forall|i: nat| i < p.len() implies k != #[trigger] arg_field(i) by { if k == arg_field(i) { lemma_arg_field(i, j); } }
        lemma_args_none(f, p, k);
    } else {
        assert(p[j as int] == a[j as int]);
        lemma_args_at(f, p, j);
        if k == k0 { lemma_arg_field(j, (a.len() - 1) as nat); }
    }
    assert(under(arg_items(f, a), k) =~= seq![Content::Value(a[j as int].value)]);
}
proof fn lemma_rest(f: Option<Seq<Seq<char>>>, a: Seq<KdlEntry>, n: int)
    requires 0 <= n <= a.len(), forall|j: nat| j < a.len() ==> (#[trigger] asks(f, arg_field(j)) <==> j < n),
    ensures rest_of(f, a) == a.skip(n),
    decreases a.len(),
{
    if a.len() > 0 {
        let p = a.drop_last();
        assert(asks(f, arg_field((a.len() - 1) as nat)) <==> a.len() - 1 < n);
        if n == a.len() { lemma_rest(f, p, n - 1); assert(p.skip(n - 1) =~= a.skip(n)); } else { lemma_rest(f, p, n); assert(p.skip(n).push(a.last()) =~= a.skip(n)); }
    } else { assert(a.skip(n) =~= Seq::<KdlEntry>::empty()); assert(rest_of(f, a) =~= Seq::<KdlEntry>::empty()); }
}
pub open spec fn named_props(p: Seq<KdlEntry>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).ty is None && p[i].name is Some }
pub open spec fn prop_name(e: KdlEntry) -> Seq<char> { e.name.unwrap().value@ }
proof fn lemma_props_none(f: Option<Seq<Seq<char>>>, p: Seq<KdlEntry>, k: Seq<char>)
    requires named_props(p), forall|i: int| 0 <= i < p.len() ==> k != prop_name(#[trigger] p[i]) && k != prop_field(prop_name(p[i])),
    ensures under(prop_items(f, p), k) == Seq::<Content>::empty(),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        let e = p.last();
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).ty is None && q[i].name is Some && k != prop_name(q[i]) && k != prop_field(prop_name(q[i])) by { assert(q[i] == p[i]); }
        lemma_props_none(f, q, k);
        assert(e == p[p.len() - 1]);
        lemma_prop_item(f, e, k);
        lemma_under_plus(prop_items(f, q), prop_item(f, e), k);
        assert(under(prop_items(f, p), k) =~= seq![]);
    }
}
proof fn lemma_prop_item(f: Option<Seq<Seq<char>>>, e: KdlEntry, k: Seq<char>)
    requires e.ty is None, e.name is Some,
    ensures k != prop_name(e) && k != prop_field(prop_name(e)) ==> under(prop_item(f, e), k) == Seq::<Content>::empty(),
        k == prop_field(prop_name(e)) && asks(f, k) ==> under(prop_item(f, e), k) == seq![Content::Value(e.value)],
{
    let (x, v) = (prop_name(e), Content::Value(e.value));
    let z = prop_field(x);
    assert(x != z) by { assert(z.len() == x.len() + 2); }
    let (a, b) = (opt_item(asks(f, z), z, v), opt_item(true, x, v));
    assert(prop_item(f, e) =~= a + b);
    lemma_under_opt(asks(f, z), z, v, k); lemma_under_opt(true, x, v, k); lemma_under_plus(a, b, k);
    if k != x && k != z { assert(under(a + b, k) =~= seq![]); }
    if k == z && asks(f, k) { assert(under(a + b, k) =~= seq![v]); }
}
proof fn lemma_props_at(f: Option<Seq<Seq<char>>>, p: Seq<KdlEntry>, m: int)
    requires named_props(p), 0 <= m < p.len(), asks(f, prop_field(prop_name(p[m]))), forall|i: int| 0 <= i < p.len() ==> prop_field(prop_name(p[m])) != prop_name(#[trigger] p[i]) && (i != m ==> prop_name(p[i]) != prop_name(p[m])),
    ensures under(prop_items(f, p), prop_field(prop_name(p[m]))) == seq![Content::Value(p[m].value)],
    decreases p.len(),
{
    let q = p.drop_last();
    let e = p.last();
    let k = prop_field(prop_name(p[m]));
    lemma_kinds(k, 0, prop_name(p[m]));
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).ty is None && q[i].name is Some && k != prop_name(q[i]) && (i != m ==> prop_name(q[i]) != prop_name(p[m])) by { assert(q[i] == p[i]); }
    assert(e == p[p.len() - 1]);
    lemma_prop_item(f, e, k);
    lemma_under_plus(prop_items(f, q), prop_item(f, e), k);
    if m == p.len() - 1 {
        assert forall|i: int| 0 <= i < q.len() implies k != prop_name(#[trigger] q[i]) && k != prop_field(prop_name(q[i])) by { lemma_kinds(k, 0, prop_name(q[i])); }
        lemma_props_none(f, q, k);
    } else {
        assert(q[m] == p[m]);
        lemma_props_at(f, q, m);
        lemma_kinds(k, 0, prop_name(e));
    }
    assert(under(prop_items(f, p), k) =~= seq![Content::Value(p[m].value)]);
}
pub open spec fn apart(s: Seq<KdlNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> node_name(#[trigger] s[i]) != node_name(#[trigger] s[j]) }
/// Nodes whose names differ are shown one by one.
proof fn lemma_apart(s: Seq<KdlNode>)
    requires apart(s),
    ensures first_seen(s) == node_names(s), forall|i: int| 0 <= i < s.len() ==> all_named(s, node_name(#[trigger] s[i])) == seq![s[i]], forall|k: Seq<char>| !node_names(s).contains(k) ==> #[trigger] all_named(s, k) == Seq::<KdlNode>::empty(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        let z = node_name(s.last());
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies node_name(#[trigger] t[i]) != node_name(#[trigger] t[j]) by { assert(t[i] == s[i] && t[j] == s[j]); }
        lemma_apart(t);
        assert(node_names(s) =~= node_names(t).push(z));
        if node_names(t).contains(z) { let i = choose|i: int| 0 <= i < node_names(t).len() && node_names(t)[i] == z; assert(t[i] == s[i]); }
        assert forall|i: int| 0 <= i < s.len() implies all_named(s, node_name(#[trigger] s[i])) == seq![s[i]] by {
            if i < t.len() { assert(t[i] == s[i]); assert(node_names(t)[i] == node_name(t[i])); assert(node_names(t).contains(node_name(t[i]))); assert(node_name(s[i]) != z); assert(all_named(t, node_name(t[i])) == seq![t[i]]); }
            else { assert(all_named(t, z) == Seq::<KdlNode>::empty()); assert(all_named(s, z) =~= seq![s[i]]); }
        }
        assert forall|k: Seq<char>| !node_names(s).contains(k) implies #[trigger] all_named(s, k) == Seq::<KdlNode>::empty() by {
            assert(node_names(s)[s.len() - 1] == z);
            if node_names(t).contains(k) { let i = choose|i: int| 0 <= i < node_names(t).len() && node_names(t)[i] == k; assert(node_names(s)[i] == k); }
            assert(all_named(t, k) == Seq::<KdlNode>::empty());
        }
    } else { assert(first_seen(s) =~= node_names(s)); }
}
proof fn lemma_child_items(s: Seq<KdlNode>)
    requires apart(s),
    ensures child_items(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] child_items(s)[i] == (node_name(s[i]), Content::Node(s[i])),
{
    lemma_apart(s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] child_items(s)[i] == (node_name(s[i]), Content::Node(s[i])) by { assert(first_seen(s)[i] == node_names(s)[i]); assert(all_named(s, node_name(s[i])) == seq![s[i]]); }
}
proof fn lemma_child_at(s: Seq<KdlNode>, m: int)
    requires apart(s), 0 <= m < s.len(),
    ensures under(child_items(s), node_name(s[m])) == seq![Content::Node(s[m])],
{
    lemma_child_items(s);
    assert(child_items(s)[m].0 == node_name(s[m]));
    assert forall|i: int| 0 <= i < child_items(s).len() && i != m implies (#[trigger] child_items(s)[i]).0 != child_items(s)[m].0 by { if i < m { assert(node_name(s[i]) != node_name(s[m])); } else { assert(node_name(s[m]) != node_name(s[i])); } }
    lemma_under_one(child_items(s), m);
}
proof fn lemma_child_none(s: Seq<KdlNode>, k: Seq<char>)
    requires apart(s), forall|i: int| 0 <= i < s.len() ==> node_name(#[trigger] s[i]) != k,
    ensures under(child_items(s), k) == Seq::<Content>::empty(),
{ lemma_child_items(s); lemma_under_none(child_items(s), k); }
proof fn lemma_omitted(f: Seq<Seq<char>>, used: Seq<Seq<char>>, k: Seq<char>)
    requires f.no_duplicates(),
    ensures under(omitted(f, used), k) == (if f.contains(k) && is_plain(k) && !used.contains(k) { seq![Content::Omitted] } else { seq![] }),
    decreases f.len(),
{
    if f.len() > 0 {
        let g = f.drop_last();
        let z = f.last();
        assert(z == f[f.len() - 1]);
        assert forall|a: int, b: int| 0 <= a < b < g.len() implies g[a] != g[b] by { assert(f[a] != f[b]); }
        lemma_omitted(g, used, k);
        let c = !(z.len() > 0 && z[0] == '#') && !used.contains(z);
        lemma_kinds(z, 0, seq![]);
        lemma_under_opt(c, z, Content::Omitted, k);
        lemma_under_plus(omitted(g, used), opt_item(c, z, Content::Omitted), k);
        if g.contains(k) { let i = choose|i: int| 0 <= i < g.len() && g[i] == k; assert(f[i] == k); assert(f[i] != f[f.len() - 1]); }
        if f.contains(k) && k != z { let i = choose|i: int| 0 <= i < f.len() && f[i] == k; assert(g[i] == k); }
        if k == z { assert(f.contains(k)); }
        assert(under(omitted(f, used), k) =~= (if f.contains(k) && is_plain(k) && !used.contains(k) { seq![Content::Omitted] } else { seq![] }));
    } else { assert(!f.contains(k)); }
}
/// A node's map or record, part by part.
pub open spec fn parts(n: KdlNode, f: Seq<Seq<char>>, k: Seq<char>) -> Seq<Content> {
    let (a, p) = (args_of(n.entries@), props_of(n.entries@));
    under(arg_items(Some(f), a), k)
        + (if f.contains("#args"@) && k == "#args"@ { seq![Content::Args(a)] } else { seq![] })
        + (if f.contains("#rest"@) && k == "#rest"@ { seq![Content::Args(rest_of(Some(f), a))] } else { seq![] })
        + under(prop_items(Some(f), p), k)
        + under(child_items(children_of(n)), k)
        + under(omitted(f, prop_names(p) + node_names(children_of(n))), k)
}
proof fn lemma_parts(n: KdlNode, f: Seq<Seq<char>>, k: Seq<char>)
    requires !f.contains("#name"@), !f.contains("#type"@),
    ensures under(node_items(n, Some(f)), k) == parts(n, f, k),
{
    let (a, p) = (args_of(n.entries@), props_of(n.entries@));
    let o = Some(f);
    let s1 = arg_items(o, a);
    let s2 = opt_item(asks(o, "#args"@), "#args"@, Content::Args(a));
    let s3 = opt_item(asks(o, "#rest"@), "#rest"@, Content::Args(rest_of(o, a)));
    let s4 = prop_items(o, p);
    let s5 = child_items(children_of(n));
    let s6 = omitted(f, prop_names(p) + node_names(children_of(n)));
    assert(node_items(n, o) =~= s1 + s2 + s3 + s4 + s5 + s6);
    lemma_under_plus(s1, s2, k); lemma_under_plus(s1 + s2, s3, k); lemma_under_plus(s1 + s2 + s3, s4, k); lemma_under_plus(s1 + s2 + s3 + s4, s5, k); lemma_under_plus(s1 + s2 + s3 + s4 + s5, s6, k);
    lemma_under_opt(asks(o, "#args"@), "#args"@, Content::Args(a), k);
    lemma_under_opt(asks(o, "#rest"@), "#rest"@, Content::Args(rest_of(o, a)), k);
    assert(under(node_items(n, o), k) =~= parts(n, f, k));
}
// ---- a record's node
/// One thing in a row of otherwise empty parts.
pub open spec fn only(s: Seq<Content>, c: Content) -> bool { s == seq![c] }
/// What the node's arguments, properties and children are, for a record.
pub open spec fn record_node(n: KdlNode, l: Seq<(Seq<char>, Tree)>) -> bool {
    args_are(args_of(n.entries@), arg_data(entries_of(l))) && props_are(props_of(n.entries@), prop_data(entries_of(l)))
    && children_of(n).len() == (if any_plain(l) { kids(l, l.len() as int) } else { 0 })
    && forall|i: int| 0 <= i < l.len() && is_child(#[trigger] l[i]) ==> any_plain(l) && 0 <= kids(l, i) < children_of(n).len() && node_name(children_of(n)[kids(l, i)]) == l[i].0
}
proof fn lemma_kids(l: Seq<(Seq<char>, Tree)>, i: int, j: int)
    requires 0 <= i <= j <= l.len(),
    ensures 0 <= kids(l, i) <= kids(l, j), i < j && is_child(l[i]) ==> kids(l, i) < kids(l, j),
    decreases j,
{
    if i < j {
        lemma_kids(l, i, j - 1);
        assert(kids(l, j) == kids(l, j - 1) + if is_child(l[j - 1]) { 1int } else { 0int });
    } else if i > 0 { lemma_kids(l, i - 1, i - 1); assert(kids(l, i) == kids(l, i - 1) + if is_child(l[i - 1]) { 1int } else { 0int }); }
}
pub open spec fn kid_at(l: Seq<(Seq<char>, Tree)>, m: int, i: int) -> bool { 0 <= i < l.len() && is_child(l[i]) && kids(l, i) == m }
proof fn lemma_kid_of(l: Seq<(Seq<char>, Tree)>, j: int, m: int) -> (i: int)
    requires 0 <= j <= l.len(), 0 <= m < kids(l, j),
    ensures kid_at(l, m, i), i < j,
    decreases j,
{ if is_child(l[j - 1]) && kids(l, j - 1) == m { j - 1 } else { lemma_kid_of(l, j - 1, m) } }
pub open spec fn kid_named(l: Seq<(Seq<char>, Tree)>, m: int, k: Seq<char>, i: int) -> bool { kid_at(l, m, i) && l[i].0 == k }
pub open spec fn kid_from(l: Seq<(Seq<char>, Tree)>, m: int, k: Seq<char>) -> bool { exists|i: int| #[trigger] kid_named(l, m, k, i) }
/// The children are the plain fields that stay.
proof fn lemma_record_kids(n: KdlNode, l: Seq<(Seq<char>, Tree)>)
    requires record_node(n, l), fine_names(l),
    ensures apart(children_of(n)), forall|m: int| 0 <= m < children_of(n).len() ==> kid_from(l, m, node_name(#[trigger] children_of(n)[m])),
{
    let s = children_of(n);
    assert forall|m: int| 0 <= m < s.len() implies kid_from(l, m, node_name(#[trigger] s[m])) by { let i = lemma_kid_of(l, l.len() as int, m); assert(kid_named(l, m, node_name(s[m]), i)); }
    assert forall|a: int, b: int| 0 <= a < b < s.len() implies node_name(#[trigger] s[a]) != node_name(#[trigger] s[b]) by {
        let i = lemma_kid_of(l, l.len() as int, a); let j = lemma_kid_of(l, l.len() as int, b);
        assert(names(l)[i] != names(l)[j]);
    }
}
proof fn lemma_record_asks(l: Seq<(Seq<char>, Tree)>)
    requires fine_names(l),
    ensures !names(l).contains("#name"@), !names(l).contains("#type"@), forall|i: int| 0 <= i < l.len() ==> names(l).contains((#[trigger] l[i]).0),
{
    lemma_kinds("#name"@, 0, seq![]); lemma_kinds("#type"@, 0, seq![]);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).0 != "#name"@ && l[i].0 != "#type"@ && names(l).contains(l[i].0) by { assert(names(l)[i] == l[i].0); lemma_kinds(l[i].0, pos(l, i), seq![]); }
}
/// Properties are named by no field of their own name.
proof fn lemma_record_props(n: KdlNode, l: Seq<(Seq<char>, Tree)>)
    requires record_node(n, l), fine_names(l), good_entries(l),
    ensures named_props(props_of(n.entries@)), untyped(args_of(n.entries@)),
        forall|m: int| 0 <= m < props_of(n.entries@).len() ==> from_field(l, prop_name(#[trigger] props_of(n.entries@)[m])),
        forall|m: int, i: int| 0 <= m < props_of(n.entries@).len() && 0 <= i < l.len() ==> prop_name(#[trigger] props_of(n.entries@)[m]) != (#[trigger] l[i]).0,
        forall|m: int, o: int| 0 <= m < props_of(n.entries@).len() && 0 <= o < props_of(n.entries@).len() && m != o ==> prop_name(#[trigger] props_of(n.entries@)[m]) != prop_name(#[trigger] props_of(n.entries@)[o]),
{
    lemma_prop_fields(l);
    let (p, d) = (props_of(n.entries@), prop_data(entries_of(l)));
    let (a, e) = (args_of(n.entries@), arg_data(entries_of(l)));
    assert forall|m: int| 0 <= m < p.len() implies (#[trigger] p[m]).ty is None && p[m].name is Some && prop_name(p[m]) == d[m].0 by { assert(prop_is(p[m], d[m])); }
    assert forall|m: int| 0 <= m < a.len() implies (#[trigger] a[m]).ty is None by { assert(arg_is(a[m], e[m])); }
    assert forall|m: int, i: int| 0 <= m < p.len() && 0 <= i < l.len() implies prop_name(#[trigger] p[m]) != (#[trigger] l[i]).0 by {
        assert(from_field(l, d[m].0));
        let j = choose|j: int| #[trigger] prop_of(l, d[m].0, j);
        assert(is_prop(l[j].0) ==> l[i].0 != l[j].0.skip(2));
    }
    assert forall|m: int, o: int| 0 <= m < p.len() && 0 <= o < p.len() && m != o implies prop_name(#[trigger] p[m]) != prop_name(#[trigger] p[o]) by { if m < o { assert(d[m].0 != d[o].0); } else { assert(d[o].0 != d[m].0); } }
}
/// Every part but the one a field is in shows nothing for it.
proof fn lemma_silent(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(),
    ensures
        !is_pos(l[i].0) ==> under(arg_items(Some(names(l)), args_of(n.entries@)), l[i].0) == Seq::<Content>::empty(),
        !is_prop(l[i].0) ==> under(prop_items(Some(names(l)), props_of(n.entries@)), l[i].0) == Seq::<Content>::empty(),
        !is_child(l[i]) ==> under(child_items(children_of(n)), l[i].0) == Seq::<Content>::empty() && !node_names(children_of(n)).contains(l[i].0),
        !(is_plain(l[i].0) && omits(l[i].1)) ==> under(omitted(names(l), prop_names(props_of(n.entries@)) + node_names(children_of(n))), l[i].0) == Seq::<Content>::empty(),
        is_plain(l[i].0) && omits(l[i].1) ==> under(omitted(names(l), prop_names(props_of(n.entries@)) + node_names(children_of(n))), l[i].0) == seq![Content::Omitted],
{
    let k = l[i].0;
    let f = names(l);
    let (a, p, s) = (args_of(n.entries@), props_of(n.entries@), children_of(n));
    lemma_record_props(n, l); lemma_record_kids(n, l); lemma_record_asks(l);
    lemma_kinds(k, 0, seq![]);
    if !is_pos(k) {
        assert forall|j: nat| j < a.len() implies k != #[trigger] arg_field(j) by { lemma_kinds(k, j, seq![]); }
        lemma_args_none(Some(f), a, k);
    }
    if !is_prop(k) {
        assert forall|m: int| 0 <= m < p.len() implies k != prop_name(#[trigger] p[m]) && k != prop_field(prop_name(p[m])) by { lemma_kinds(k, 0, prop_name(p[m])); }
        lemma_props_none(Some(f), p, k);
    }
    if !is_child(l[i]) {
        assert forall|m: int| 0 <= m < s.len() implies node_name(#[trigger] s[m]) != k by {
            assert(kid_from(l, m, node_name(s[m])));
            let j = choose|j: int| #[trigger] kid_named(l, m, node_name(s[m]), j);
            if l[j].0 == k { assert(f[j] == f[i]); }
        }
        lemma_child_none(s, k);
        if node_names(s).contains(k) { let m = choose|m: int| 0 <= m < node_names(s).len() && node_names(s)[m] == k; assert(node_name(s[m]) == k); }
    }
    let used = prop_names(p) + node_names(s);
    lemma_omitted(f, used, k);
    if is_child(l[i]) {
        let m = kids(l, i);
        assert(used[p.len() + m] == k);
    } else if used.contains(k) {
        let m = choose|m: int| 0 <= m < used.len() && used[m] == k;
        if m < p.len() { assert(prop_name(p[m]) == k); } else { assert(node_names(s)[m - p.len()] == k); }
    }
}
pub open spec fn field_of(e: Seq<(Seq<char>, Content)>, k: Seq<char>, t: Tree) -> bool { under(e, k).len() == 1 && shows(under(e, k)[0], t) }
proof fn lemma_leaf(v: KdlValue, t: Tree)
    requires leaf(t), is_value(v, flat(t)->0),
    ensures shows(Content::Value(v), t),
{
    lemma_leaf_flat(t);
    match t { Tree::Some(x) => { assert(flat(t) == flat(*x)); assert(shows(Content::Value(v), *x)); } _ => {} }
}
proof fn lemma_leaves(a: Seq<KdlEntry>, l: Seq<Tree>)
    requires leaves(l), args_are(a, flats(l)),
    ensures shows(Content::Args(a), Tree::Seq(l)), forall|i: int| 0 <= i < l.len() ==> shows(arg_elems(a)[i], #[trigger] l[i]),
{
    assert forall|i: int| 0 <= i < l.len() implies shows(arg_elems(a)[i], #[trigger] l[i]) by { assert(arg_is(a[i], flats(l)[i])); lemma_leaf(a[i].value, l[i]); }
    let t = Tree::Seq(l);
    assert(t->Seq_0 == l);
}
/// A field that is not a child, or left out.
proof fn lemma_entry_field(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), !is_child(l[i]), is_plain(l[i].0) ==> leaf(l[i].1),
    ensures field_of(node_items(n, Some(names(l))), l[i].0, l[i].1),
{
    hide(record_node); hide(fine_names); hide(node_items); hide(shows); hide(under); hide(leaf); hide(field_of);
    lemma_kinds(l[i].0, 0, seq![]);
    if is_plain(l[i].0) { lemma_left_out(n, l, i); } else if is_prop(l[i].0) { lemma_prop_field(n, l, i); } else if is_list(l[i].0) { lemma_list_field(n, l, i); } else { lemma_pos_field(n, l, i); }
}
/// All the parts but one are empty.
proof fn lemma_field(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int, c: Content)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), parts(n, names(l), l[i].0) == seq![c], shows(c, l[i].1),
    ensures field_of(node_items(n, Some(names(l))), l[i].0, l[i].1),
{
    hide(record_node); hide(good_entries); hide(node_items); hide(shows); hide(under); hide(parts);
    lemma_record_asks(l); lemma_parts(n, names(l), l[i].0);
    let u = under(node_items(n, Some(names(l))), l[i].0);
    assert(u == seq![c]);
    assert(u.len() == 1 && u[0] == c);
}
proof fn lemma_left_out(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), !is_child(l[i]), is_plain(l[i].0), leaf(l[i].1),
    ensures field_of(node_items(n, Some(names(l))), l[i].0, l[i].1),
{
    hide(record_node); hide(fine_names); hide(good_entries); hide(node_items); hide(under); hide(field_of); hide(arg_items); hide(prop_items); hide(child_items); hide(omitted); hide(rest_of); hide(args_of); hide(props_of);
    lemma_silent(n, l, i); lemma_kinds(l[i].0, 0, seq![]);
    let c = Content::Omitted;
    assert(parts(n, names(l), l[i].0) =~= seq![c]);
    let t = l[i].1;
    assert(is_plain(l[i].0) && omits(t));
    match t { Tree::Scalar(d) => { assert(shows(c, t)); } _ => {} }
    lemma_field(n, l, i, c);
}
proof fn lemma_prop_field(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), is_prop(l[i].0),
    ensures field_of(node_items(n, Some(names(l))), l[i].0, l[i].1),
{
    hide(node_items); hide(under); hide(field_of); hide(arg_items); hide(prop_items); hide(child_items); hide(omitted); hide(rest_of); hide(args_of); hide(props_of); hide(shows); hide(leaf); hide(prop_data); hide(arg_data); hide(flat);
    let (k, t) = l[i];
    let f = names(l);
    let p = props_of(n.entries@);
    lemma_kinds(k, 0, seq![]);
    lemma_record_asks(l); lemma_record_props(n, l); lemma_silent(n, l, i);
    lemma_prop_fields(l);
    let d = prop_data(entries_of(l));
    let m = choose|m: int| 0 <= m < d.len() && #[trigger] d[m] == (k.skip(2), flat(t)->0);
    assert(prop_is(p[m], d[m]));
    assert(prop_field(prop_name(p[m])) == k);
    lemma_props_at(Some(f), p, m);
    let c = Content::Value(p[m].value);
    assert(parts(n, f, k) =~= seq![c]);
    lemma_leaf(p[m].value, t);
    lemma_field(n, l, i, c);
}
proof fn lemma_list_field(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), is_list(l[i].0),
    ensures field_of(node_items(n, Some(names(l))), l[i].0, l[i].1),
{
    hide(node_items); hide(under); hide(field_of); hide(arg_items); hide(prop_items); hide(child_items); hide(omitted); hide(rest_of); hide(args_of); hide(props_of); hide(shows); hide(leaf); hide(prop_data); hide(arg_data); hide(flat);
    let (k, t) = l[i];
    let f = names(l);
    let a = args_of(n.entries@);
    lemma_kinds(k, 0, seq![]);
    lemma_record_asks(l); lemma_silent(n, l, i);
    assert(list_last(l, i));
    lemma_list_args(l, i);
    let v = t->Seq_0;
    let z = pos(l, i) as int;
    let b = a.skip(z);
    lemma_skipped(a, arg_data(entries_of(l)), flats(v), z);
    lemma_leaves(b, v);
    assert(f.contains(k));
    if k == "#args"@ { assert(b =~= a); }
    else {
        assert forall|j: nat| j < a.len() implies (#[trigger] asks(Some(f), arg_field(j)) <==> j < z) by { lemma_asks_pos(l, j); }
        lemma_rest(Some(f), a, z);
    }
    assert(parts(n, f, k) =~= seq![Content::Args(b)]);
    lemma_field(n, l, i, Content::Args(b));
}
proof fn lemma_skipped(a: Seq<KdlEntry>, c: Seq<Data>, v: Seq<Data>, z: int)
    requires args_are(a, c), 0 <= z <= c.len(), c.skip(z) == v,
    ensures args_are(a.skip(z), v),
{
    let b = a.skip(z);
    assert forall|j: int| 0 <= j < v.len() implies arg_is(#[trigger] b[j], v[j]) by { assert(b[j] == a[z + j]); assert(arg_is(a[z + j], c[z + j])); assert(c.skip(z)[j] == c[z + j]); }
}
proof fn lemma_pos_field(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), is_pos(l[i].0),
    ensures field_of(node_items(n, Some(names(l))), l[i].0, l[i].1),
{
    hide(node_items); hide(under); hide(field_of); hide(arg_items); hide(prop_items); hide(child_items); hide(omitted); hide(rest_of); hide(args_of); hide(props_of); hide(shows); hide(leaf); hide(prop_data); hide(arg_data); hide(flat);
    let (k, t) = l[i];
    let f = names(l);
    let a = args_of(n.entries@);
    let z = pos(l, i);
    lemma_kinds(k, z, seq![]);
    lemma_record_asks(l); lemma_record_props(n, l); lemma_silent(n, l, i);
    assert(k == arg_field(z));
    assert forall|j: int| 0 <= j < i implies !is_list((#[trigger] l[j]).0) by {
        if is_list(l[j].0) { assert(list_last(l, j)); lemma_pos_mono(l, j, i); lemma_pos_mono(l, i, l.len() as int); }
    }
    lemma_pos_arg(l, i);
    let c = arg_data(entries_of(l));
    assert(arg_is(a[z as int], c[z as int]));
    assert(f.contains(k));
    lemma_args_at(Some(f), a, z);
    let y = Content::Value(a[z as int].value);
    assert(parts(n, f, k) =~= seq![y]);
    lemma_leaf(a[z as int].value, t);
    lemma_field(n, l, i, y);
}
/// A record asks for as many arguments by position as it has positional fields.
proof fn lemma_asks_pos(l: Seq<(Seq<char>, Tree)>, j: nat)
    requires fine_names(l),
    ensures asks(Some(names(l)), arg_field(j)) <==> j < pos(l, l.len() as int),
{
    let f = names(l);
    if f.contains(arg_field(j)) {
        let i = choose|i: int| 0 <= i < f.len() && f[i] == arg_field(j);
        assert(l[i].0 == arg_field(j));
        lemma_kinds(l[i].0, j, seq![]);
        assert(l[i].0 == arg_field(pos(l, i)));
        lemma_arg_field(j, pos(l, i));
        lemma_pos_mono(l, i, l.len() as int);
    }
    if j < pos(l, l.len() as int) {
        let i = lemma_pos_of(l, l.len() as int, j);
        assert(l[i].0 == arg_field(pos(l, i)));
        assert(f[i] == arg_field(j));
    }
}
proof fn lemma_pos_of(l: Seq<(Seq<char>, Tree)>, n: int, j: nat) -> (i: int)
    requires 0 <= n <= l.len(), j < pos(l, n),
    ensures 0 <= i < n, is_pos(l[i].0), pos(l, i) == j,
    decreases n,
{ if is_pos(l[n - 1].0) && pos(l, n - 1) == j { n - 1 } else { lemma_pos_of(l, n - 1, j) } }
proof fn lemma_child_field(n: KdlNode, l: Seq<(Seq<char>, Tree)>, i: int)
    requires record_node(n, l), fine_names(l), good_entries(l), 0 <= i < l.len(), is_child(l[i]),
    ensures under(node_items(n, Some(names(l))), l[i].0) == seq![Content::Node(children_of(n)[kids(l, i)])],
{
    let k = l[i].0;
    let f = names(l);
    lemma_record_asks(l); lemma_record_kids(n, l);
    lemma_parts(n, f, k); lemma_silent(n, l, i); lemma_kinds(k, 0, seq![]);
    lemma_child_at(children_of(n), kids(l, i));
    assert(under(node_items(n, Some(f)), k) =~= seq![Content::Node(children_of(n)[kids(l, i)])]);
}
// ---- written, read, and asked for
proof fn lemma_says(a: KdlEntry, b: KdlEntry, x: (Option<Seq<char>>, Data))
    requires is_entry(a, x), steady(x.1), kin_entry(a, b),
    ensures says(b, x),
{}
proof fn lemma_holds(a: KdlEntry, b: KdlEntry, d: Data)
    requires holds(a, d), steady(d), kin_entry(a, b),
    ensures arg_is(b, d),
{}
pub open spec fn all_steady(x: Seq<(Option<Seq<char>>, Data)>) -> bool { forall|i: int| 0 <= i < x.len() ==> steady((#[trigger] x[i]).1) }
proof fn lemma_steady(l: Seq<(Seq<char>, Tree)>)
    requires good_entries(l),
    ensures all_steady(entries_of(l)),
    decreases l.len(),
{
    if l.len() > 0 {
        lemma_entries_step(l);
        lemma_steady(l.drop_last());
        let (k, t) = l.last();
        let c = contrib(k, t);
        lemma_contrib(k, t); lemma_kinds(k, 0, seq![]);
        if !is_plain(k) {
            if is_list(k) { let v = t->Seq_0; assert forall|i: int| 0 <= i < c.len() implies steady((#[trigger] c[i]).1) by { assert(c[i].1 == flats(v)[i]); lemma_leaf_flat(v[i]); } }
            else { lemma_leaf_flat(t); }
        }
        assert(all_steady(c));
        let e = entries_of(l);
        let q = entries_of(l.drop_last());
        assert forall|i: int| 0 <= i < e.len() implies steady((#[trigger] e[i]).1) by { if i < q.len() { assert(e[i] == q[i]); } else { assert(e[i] == c[i - q.len()]); } }
    }
}
proof fn lemma_any_kid(l: Seq<(Seq<char>, Tree)>, j: int)
    requires 0 <= j <= l.len(), !any_plain(l),
    ensures kids(l, j) == 0,
    decreases j,
{ if j > 0 { lemma_any_kid(l, j - 1); assert(!is_plain(l[j - 1].0)); } }
/// The node read back is the record's, too.
proof fn lemma_record(a: KdlNode, b: KdlNode, l: Seq<(Seq<char>, Tree)>)
    requires wrote(a, Tree::Record(l)), good_entries(l), kin_node(a, b),
    ensures record_node(b, l), any_plain(l) ==> a.children is Some && b.children is Some,
        forall|i: int| 0 <= i < l.len() && is_child(#[trigger] l[i]) ==> a.children is Some && 0 <= kids(l, i) < children_of(b).len() && wrote(children_of(a)[kids(l, i)], l[i].1) && kin_node(children_of(a)[kids(l, i)], children_of(b)[kids(l, i)]),
{
    let t = Tree::Record(l);
    assert(t->Record_0 == l);
    let x = entries_of(l);
    lemma_steady(l);
    assert forall|i: int| 0 <= i < x.len() implies says(#[trigger] b.entries@[i], x[i]) by { assert(is_entry(a.entries@[i], x[i])); assert(kin_entry(a.entries@[i], b.entries@[i])); lemma_says(a.entries@[i], b.entries@[i], x[i]); }
    assert(b.entries@.len() == x.len());
    assert(all_say(b.entries@, x));
    lemma_said(b.entries@, x);
    if any_plain(l) {
        let (c, d) = (a.children->0, b.children->0);
        assert(kin_doc(c, d));
        assert(c.nodes@.len() == kids(l, l.len() as int));
        assert forall|i: int| 0 <= i < l.len() && is_child(#[trigger] l[i]) implies 0 <= kids(l, i) < d.nodes@.len() && called(c.nodes@[kids(l, i)], l[i].0) && wrote(c.nodes@[kids(l, i)], l[i].1) && kin_node(c.nodes@[kids(l, i)], d.nodes@[kids(l, i)]) && node_name(d.nodes@[kids(l, i)]) == l[i].0 by { lemma_kids(l, i, l.len() as int); }
    } else {
        assert forall|i: int| 0 <= i < l.len() implies !is_child(#[trigger] l[i]) by { assert(!is_plain(l[i].0)); }
    }
}
proof fn lemma_scalar_node(n: KdlNode, d: Data)
    requires n.children is None, n.entries@.len() == 1, arg_is(n.entries@[0], d),
    ensures shows(Content::Node(n), Tree::Scalar(d)), none_of(Content::Node(n)) <==> d is Null,
{
    reveal_with_fuel(args_of, 2); reveal_with_fuel(props_of, 2);
    let e = n.entries@;
    assert(e.last() == e[0]);
    assert(e.drop_last() =~= Seq::<KdlEntry>::empty());
    assert(args_of(e) =~= seq![e[0]]);
    assert(props_of(e) =~= Seq::<KdlEntry>::empty());
    assert(scalar(n) && !blank(n));
    let t = Tree::Scalar(d);
    assert(t->Scalar_0 == d);
    assert(node_any(n) == value_shown(e[0].value));
}
proof fn lemma_all_args(e: Seq<KdlEntry>)
    requires forall|i: int| 0 <= i < e.len() ==> is_arg(#[trigger] e[i]),
    ensures args_of(e) == e, props_of(e) == Seq::<KdlEntry>::empty(),
    decreases e.len(),
{
    if e.len() > 0 {
        let p = e.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies is_arg(#[trigger] p[i]) by { assert(p[i] == e[i]); }
        lemma_all_args(p);
        assert(e.last() == e[e.len() - 1]);
        assert(p.push(e.last()) =~= e);
    } else { assert(args_of(e) =~= e); }
}
proof fn lemma_seq_node(n: KdlNode, l: Seq<Tree>)
    requires n.children is None, n.entries@.len() == l.len(), leaves(l), args_are(n.entries@, flats(l)),
    ensures shows(Content::Node(n), Tree::Seq(l)),
{
    let e = n.entries@;
    assert forall|i: int| 0 <= i < e.len() implies is_arg(#[trigger] e[i]) by { assert(arg_is(e[i], flats(l)[i])); }
    lemma_all_args(e);
    lemma_leaves(e, l);
    let t = Tree::Seq(l);
    assert(t->Seq_0 == l);
    assert(node_seq(n) =~= arg_elems(e));
    assert(asked_seq(Content::Node(n)) == Shown::Seq(node_seq(n)));
}
/// A map shows its keys, each with its value.
pub open spec fn keyed_by(s: Seq<KdlNode>, l: Seq<(Tree, Tree)>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> keyed((#[trigger] l[i]).0) == Some(node_name(s[i])) }
proof fn lemma_keyed(s: Seq<KdlNode>, l: Seq<(Tree, Tree)>)
    requires keyed_by(s, l), text_keys(l),
    ensures apart(s), child_items(s).len() == l.len(), forall|i: int| 0 <= i < l.len() ==> child_items(s)[i] == (keyed((#[trigger] l[i]).0)->0, Content::Node(s[i])),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies node_name(#[trigger] s[i]) != node_name(#[trigger] s[j]) by { assert(keyed(l[i].0) != keyed(l[j].0)); }
    lemma_child_items(s);
    assert forall|i: int| 0 <= i < l.len() implies child_items(s)[i] == (keyed((#[trigger] l[i]).0)->0, Content::Node(s[i])) by { assert(child_items(s)[i] == (node_name(s[i]), Content::Node(s[i]))); }
}
proof fn lemma_map_items(n: KdlNode)
    requires n.entries@.len() == 0,
    ensures node_items(n, None) == child_items(children_of(n)),
{
    let e = n.entries@;
    assert(args_of(e) =~= Seq::<KdlEntry>::empty()); assert(props_of(e) =~= Seq::<KdlEntry>::empty());
    assert(prop_items(None, props_of(e)) =~= Seq::<(Seq<char>, Content)>::empty());
    assert(ty_item(None, "#type"@, n.ty) =~= Seq::<(Seq<char>, Content)>::empty());
    assert(node_items(n, None) =~= child_items(children_of(n)));
}
/// What is written for `t` shows, read back, exactly `t`.
pub proof fn lemma_meet(a: KdlNode, b: KdlNode, t: Tree)
    requires wrote(a, t), good(t), kin_node(a, b),
    ensures shows(Content::Node(b), t),
    decreases t,
{
    match t {
        Tree::Scalar(d) => { assert(kin_entry(a.entries@[0], b.entries@[0])); lemma_holds(a.entries@[0], b.entries@[0], d); lemma_scalar_node(b, d); }
        Tree::Some(x) => {
            match *x { Tree::Scalar(d) => { assert(wrote(a, *x)); assert(kin_entry(a.entries@[0], b.entries@[0])); lemma_holds(a.entries@[0], b.entries@[0], d); lemma_scalar_node(b, d); } _ => {} }
        }
        Tree::Seq(l) => {
            let c = flats(l);
            assert forall|i: int| 0 <= i < c.len() implies arg_is(#[trigger] b.entries@[i], c[i]) by {
                assert(holds(a.entries@[i], flat(l[i])->0)); assert(kin_entry(a.entries@[i], b.entries@[i])); lemma_leaf_flat(l[i]); lemma_holds(a.entries@[i], b.entries@[i], c[i]);
            }
            lemma_seq_node(b, l);
        }
        Tree::Map(l) => {
            let (c, s) = (children_of(a), children_of(b));
            if l.len() > 0 { assert(kin_doc(a.children->0, b.children->0)); }
            assert(s.len() == l.len());
            assert forall|i: int| 0 <= i < l.len() implies keyed((#[trigger] l[i]).0) == Some(node_name(s[i])) && shows(Content::Node(s[i]), l[i].1) by {
                assert(keyed_node(c[i], l[i].0) && wrote(c[i], l[i].1)); assert(kin_node(c[i], s[i])); assert(l[i].0 is Scalar);
                lemma_meet(c[i], s[i], l[i].1);
            }
            lemma_keyed(s, l); lemma_map_items(b);
            assert(asked_map(Content::Node(b)) == Shown::Map(child_items(s)));
        }
        Tree::Record(l) => {
            lemma_record(a, b, l);
            let e = node_items(b, Some(names(l)));
            assert(asked_record(Content::Node(b), names(l)) == Shown::Map(e));
            assert forall|i: int| 0 <= i < l.len() implies field_of(e, (#[trigger] l[i]).0, l[i].1) by {
                if is_child(l[i]) {
                    let m = kids(l, i);
                    lemma_meet(children_of(a)[m], children_of(b)[m], l[i].1);
                    lemma_child_field(b, l, i);
                } else {
                    if is_plain(l[i].0) { assert(good(l[i].1)); }
                    lemma_entry_field(b, l, i);
                }
            }
        }
    }
}
// ---- and a whole document
proof fn lemma_stay(l: Seq<(Seq<char>, Tree)>, i: int, j: int)
    requires 0 <= i <= j <= l.len(),
    ensures 0 <= stay(l, i) <= stay(l, j), i < j && stays(l[i]) ==> stay(l, i) < stay(l, j),
    decreases j,
{
    if i < j {
        lemma_stay(l, i, j - 1);
        assert(stay(l, j) == stay(l, j - 1) + if stays(l[j - 1]) { 1int } else { 0int });
    } else if i > 0 { lemma_stay(l, i - 1, i - 1); assert(stay(l, i) == stay(l, i - 1) + if stays(l[i - 1]) { 1int } else { 0int }); }
}
proof fn lemma_stay_of(l: Seq<(Seq<char>, Tree)>, j: int, m: int) -> (i: int)
    requires 0 <= j <= l.len(), 0 <= m < stay(l, j),
    ensures 0 <= i < j, stays(l[i]), stay(l, i) == m,
    decreases j,
{ if stays(l[j - 1]) && stay(l, j - 1) == m { j - 1 } else { lemma_stay_of(l, j - 1, m) } }
proof fn lemma_said_kin(a: KdlNode, b: KdlNode, k: Seq<char>, t: Tree)
    requires said(a, k, t), good(t), kin_node(a, b),
    ensures node_name(b) == k, shows(Content::Node(b), t),
{ lemma_meet(a, b, t); }
/// What is written for a whole value shows, read back, exactly that value.
pub proof fn lemma_meet_doc(a: KdlDocument, b: KdlDocument, t: Tree)
    requires doc_wrote(a.nodes@, t), good_doc(t), kin_doc(a, b),
    ensures shows(Content::Document(b), t),
{
    let (c, s) = (a.nodes@, b.nodes@);
    match t {
        Tree::Seq(l) => {
            assert forall|i: int| 0 <= i < l.len() implies shows(node_elems(s)[i], #[trigger] l[i]) by { assert(said(c[i], seq!['-'], l[i])); assert(kin_node(c[i], s[i])); lemma_said_kin(c[i], s[i], seq!['-'], l[i]); }
            assert(asked_seq(Content::Document(b)) == Shown::Seq(node_elems(s)));
        }
        Tree::Map(l) => {
            assert forall|i: int| 0 <= i < l.len() implies keyed((#[trigger] l[i]).0) == Some(node_name(s[i])) && shows(Content::Node(s[i]), l[i].1) by {
                assert(keyed_node(c[i], l[i].0) && wrote(c[i], l[i].1)); assert(kin_node(c[i], s[i])); assert(l[i].0 is Scalar);
                lemma_meet(c[i], s[i], l[i].1);
            }
            lemma_keyed(s, l);
            assert(asked_map(Content::Document(b)) == Shown::Map(child_items(s)));
        }
        Tree::Record(l) => { lemma_meet_record(c, s, l); assert(asked_record(Content::Document(b), names(l)) == Shown::Map(child_items(s))); }
        _ => {}
    }
}
pub open spec fn field_in(e: Seq<(Seq<char>, Content)>, k: Seq<char>, t: Tree) -> bool { (under(e, k).len() == 0 && t == Tree::Scalar(Data::Null)) || (under(e, k).len() == 1 && shows(under(e, k)[0], t)) }
pub open spec fn at_stay(l: Seq<(Seq<char>, Tree)>, m: int, i: int) -> bool { 0 <= i < l.len() && stays(l[i]) && stay(l, i) == m }
proof fn lemma_meet_record(c: Seq<KdlNode>, s: Seq<KdlNode>, l: Seq<(Seq<char>, Tree)>)
    requires doc_wrote(c, Tree::Record(l)), good_doc(Tree::Record(l)), c.len() == s.len(), forall|k: int| 0 <= k < c.len() ==> kin_node(#[trigger] c[k], s[k]),
    ensures forall|i: int| 0 <= i < l.len() ==> field_in(child_items(s), (#[trigger] l[i]).0, l[i].1),
{
    let t = Tree::Record(l);
    assert(t->Record_0 == l);
    assert forall|i: int| 0 <= i < l.len() && stays(#[trigger] l[i]) implies 0 <= stay(l, i) < s.len() && node_name(s[stay(l, i)]) == l[i].0 && shows(Content::Node(s[stay(l, i)]), l[i].1) by {
        let m = stay(l, i);
        lemma_stay(l, i, l.len() as int);
        assert(said(c[m], l[i].0, l[i].1)); assert(kin_node(c[m], s[m]));
        lemma_said_kin(c[m], s[m], l[i].0, l[i].1);
    }
    assert forall|x: int, y: int| 0 <= x < y < s.len() implies node_name(#[trigger] s[x]) != node_name(#[trigger] s[y]) by {
        let i = lemma_stay_of(l, l.len() as int, x); let j = lemma_stay_of(l, l.len() as int, y);
        assert(stays(l[i]) && stays(l[j]));
        assert(names(l)[i] != names(l)[j]);
    }
    assert(apart(s));
    assert forall|i: int| 0 <= i < l.len() implies field_in(child_items(s), (#[trigger] l[i]).0, l[i].1) by {
        if stays(l[i]) { lemma_child_at(s, stay(l, i)); }
        else {
            assert(omits(l[i].1));
            assert(l[i].1 == Tree::Scalar(Data::Null));
            assert forall|m: int| 0 <= m < s.len() implies node_name(#[trigger] s[m]) != l[i].0 by { let j = lemma_stay_of(l, l.len() as int, m); assert(stays(l[j])); assert(j != i); assert(names(l)[i] != names(l)[j]); }
            lemma_child_none(s, l[i].0);
        }
    }
}
/// The family fits: writing it is not refused.
proof fn lemma_fits(t: Tree)
    requires good(t),
    ensures fits(t),
    decreases t,
{
    match t {
        Tree::Scalar(_) => {}
        Tree::Some(x) => { assert(leaf(t)); assert(fits(*x)); }
        Tree::Seq(l) => { assert forall|i: int| 0 <= i < l.len() implies flat(#[trigger] l[i]) is Some by { lemma_leaf_flat(l[i]); } }
        Tree::Map(l) => { assert forall|i: int| 0 <= i < l.len() implies keyed((#[trigger] l[i]).0) is Some && fits(l[i].1) by { assert(l[i].0 is Scalar); lemma_fits(l[i].1); } }
        Tree::Record(l) => {
            assert forall|i: int| 0 <= i < l.len() && is_plain((#[trigger] l[i]).0) implies fits(l[i].1) by { lemma_fits(l[i].1); }
            assert forall|i: int| 0 <= i < l.len() && !is_plain((#[trigger] l[i]).0) implies entry_fits(l[i].0, l[i].1) by {
                if is_list(l[i].0) { let v = l[i].1->Seq_0; assert forall|j: int| 0 <= j < v.len() implies flat(#[trigger] v[j]) is Some by { lemma_leaf_flat(v[j]); } } else { lemma_leaf_flat(l[i].1); }
            }
        }
    }
}
pub proof fn lemma_doc_fits(t: Tree)
    requires good_doc(t),
    ensures doc_fits(t),
{
    match t {
        Tree::Seq(l) => { assert forall|i: int| 0 <= i < l.len() implies fits(#[trigger] l[i]) by { lemma_fits(l[i]); } }
        Tree::Map(l) => { assert forall|i: int| 0 <= i < l.len() implies keyed((#[trigger] l[i]).0) is Some && fits(l[i].1) by { assert(l[i].0 is Scalar); lemma_fits(l[i].1); } }
        Tree::Record(l) => { assert forall|i: int| 0 <= i < l.len() implies fits((#[trigger] l[i]).1) by { lemma_fits(l[i].1); } }
        _ => {}
    }
}
