// ---- What a derived `Serialize` does, method by method, adds up to `done`.
pub open spec fn record_of<V: Serialize>(f: Seq<(&'static str, V)>) -> Seq<(Seq<char>, Tree)> { Seq::new(f.len(), |i: int| (f[i].0@, f[i].1.tree())) }
pub open spec fn seq_of<V: Serialize>(f: Seq<V>) -> Seq<Tree> { Seq::new(f.len(), |i: int| f[i].tree()) }
pub open spec fn map_of<K: Serialize, V: Serialize>(f: Seq<(K, V)>) -> Seq<(Tree, Tree)> { Seq::new(f.len(), |i: int| (f[i].0.tree(), f[i].1.tree())) }
proof fn kids_push(l: Seq<(Seq<char>, Tree)>, x: (Seq<char>, Tree), i: int)
    requires 0 <= i <= l.len(),
    ensures kids(l.push(x), i) == kids(l, i), stay(l.push(x), i) == stay(l, i),
    decreases i,
{ if i > 0 { kids_push(l, x, i - 1); assert(l.push(x)[i - 1] == l[i - 1]); } }
proof fn kids_below(l: Seq<(Seq<char>, Tree)>, i: int, j: int)
    requires 0 <= i <= j <= l.len(),
    ensures 0 <= kids(l, i) <= kids(l, j), 0 <= stay(l, i) <= stay(l, j), i < j && is_child(l[i]) ==> kids(l, i) < kids(l, j), i < j && stays(l[i]) ==> stay(l, i) < stay(l, j),
    decreases j,
{ if i < j { kids_below(l, i, j - 1); } else if i > 0 { kids_below(l, i - 1, i - 1); } }
proof fn fits_at(l: Seq<(Seq<char>, Tree)>, i: int)
    requires 0 <= i < l.len(),
    ensures fits(Tree::Record(l)) ==> field_fits(l[i].0, l[i].1),
{
    let t = Tree::Record(l);
    assert(t->Record_0 == l);
    assert(fits(t) ==> forall|i: int| 0 <= i < (t->Record_0).len() && is_plain((#[trigger] (t->Record_0)[i]).0) ==> fits((t->Record_0)[i].1));
    assert(fits(t) ==> forall|i: int| 0 <= i < l.len() && is_plain((#[trigger] l[i]).0) ==> fits(l[i].1));
    assert(fits(t) ==> forall|i: int| 0 <= i < l.len() && !is_plain((#[trigger] l[i]).0) ==> entry_fits(l[i].0, l[i].1));
}
/// One field more.
proof fn record_push(a: KdlNode, b: KdlNode, l: Seq<(Seq<char>, Tree)>, k: Seq<char>, t: Tree)
    requires wrote(a, Tree::Record(l)), field_step(a, b, k, t), !is_plain(k) ==> entry_fits(k, t),
    ensures wrote(b, Tree::Record(l.push((k, t)))),
{
    let m = l.push((k, t));
    let e = entries_of(l);
    renames(k);
    assert(m.drop_last() =~= l && m.last() == (k, t));
    assert(entries_of(m) == e + contrib(k, t));
    kids_push(l, (k, t), l.len() as int);
    assert(m[l.len() as int] == (k, t));
    assert forall|i: int| 0 <= i < m.len() && !is_plain((#[trigger] m[i]).0) implies entry_fits(m[i].0, m[i].1) by { if i < l.len() { assert(m[i] == l[i]); } }
    if is_plain(k) {
        assert(entries_of(m) =~= e);
        assert(b.entries == a.entries);
        assert(is_plain(m[l.len() as int].0));
        assert(any_plain(m));
    } else {
        assert forall|i: int| 0 <= i < entries_of(m).len() implies is_entry(#[trigger] b.entries@[i], entries_of(m)[i]) by {
            if i < e.len() { assert(b.entries@[i] == b.entries@.take(a.entries@.len() as int)[i]); } else { assert(b.entries@[i] == b.entries@[a.entries@.len() + (i - e.len())]); }
        }
        if any_plain(m) { let j = choose|j: int| 0 <= j < m.len() && is_plain((#[trigger] m[j]).0); assert(m[j] == l[j]); assert(any_plain(l)); }
        if any_plain(l) { let j = choose|j: int| 0 <= j < l.len() && is_plain((#[trigger] l[j]).0); assert(m[j] == l[j]); assert(any_plain(m)); }
    }
    if !any_plain(l) { no_kids(l, l.len() as int); }
    if any_plain(m) {
        let d = b.children->0;
        let old = kids_before(a);
        assert(old.len() == kids(l, l.len() as int));
        assert forall|i: int| 0 <= i < m.len() && is_child(#[trigger] m[i]) implies called(d.nodes@[kids(m, i)], m[i].0) && wrote(d.nodes@[kids(m, i)], m[i].1) by {
            kids_push(l, (k, t), i);
            if i < l.len() {
                assert(m[i] == l[i]);
                kids_below(l, i, l.len() as int);
                assert(any_plain(l));
                if is_plain(k) && !omits(t) { assert(d.nodes@[kids(l, i)] == d.nodes@.drop_last()[kids(l, i)]); }
                assert(d.nodes@[kids(l, i)] == old[kids(l, i)]);
            } else { }
        }
    }
}
proof fn no_kids(l: Seq<(Seq<char>, Tree)>, i: int)
    requires !any_plain(l), 0 <= i <= l.len(),
    ensures kids(l, i) == 0,
    decreases i,
{ if i > 0 { no_kids(l, i - 1); assert(!is_plain(l[i - 1].0)); } }
proof fn seq_push(a: KdlNode, b: KdlNode, l: Seq<Tree>, t: Tree)
    requires wrote(a, Tree::Seq(l)), flat(t) is Some, pushed(a, b, flat(t)->0),
    ensures wrote(b, Tree::Seq(l.push(t))),
{
    let m = l.push(t);
    assert forall|i: int| 0 <= i < m.len() implies flat(#[trigger] m[i]) is Some by { if i < l.len() { assert(m[i] == l[i]); } else { assert(m[i] == t); } }
    assert(forall|i: int| 0 <= i < m.len() ==> flat(#[trigger] m[i]) is Some);
    assert forall|i: int| 0 <= i < m.len() implies holds(#[trigger] b.entries@[i], flat(m[i])->0) by {
        if i < l.len() { assert(m[i] == l[i]); assert(b.entries@[i] == b.entries@.drop_last()[i]); assert(b.entries@[i] == a.entries@[i]); }
        else { assert(m[i] == t); assert(b.entries@[i] == b.entries@.last()); }
    }
    assert(forall|i: int| 0 <= i < m.len() ==> holds(#[trigger] b.entries@[i], flat(m[i])->0));
    assert(wrote(b, Tree::Seq(m)));
}
proof fn map_push(a: KdlNode, b: KdlNode, l: Seq<(Tree, Tree)>, s: Seq<char>, k: Tree, t: Tree)
    requires wrote(a, Tree::Map(l)), child_step(a, b, s, t), keyed(k) matches Some(x) ==> x == s,
    ensures wrote(b, Tree::Map(l.push((k, t)))),
{
    let m = l.push((k, t));
    let d = b.children->0;
    assert(kids_before(a).len() == l.len());
    assert forall|i: int| 0 <= i < m.len() implies keyed_node(d.nodes@[i], (#[trigger] m[i]).0) && wrote(d.nodes@[i], m[i].1) by {
        if i < l.len() { assert(m[i] == l[i]); assert(d.nodes@[i] == d.nodes@.drop_last()[i]); }
    }
}
proof fn pushed_bare(a: KdlNode, b: KdlNode, d: Data)
    requires pushed(a, b, d), bare_node(a),
    ensures bare_node(b),
{ assert forall|k: int| 0 <= k < b.entries@.len() implies bare_entry(#[trigger] b.entries@[k]) by { if k < a.entries@.len() { assert(b.entries@[k] == b.entries@.drop_last()[k]); } } }
/// A record, field by field, into a node.
pub fn vx_record<'a, 'b, V: Serialize>(s: &'a mut NodeValueSerializer<'b>, f: &Vec<(&'static str, V)>) -> (r: Result<(), Error>)
    ensures node_done(*old(s).node, old(s).omittable, *final(s).node, final(s).omittable, Tree::Record(record_of(f@)), r), *final(final(s).node) == *final(old(s).node),
{
    let mut m = s.serialize_struct("", f.len())?;
    assert(fresh(*m.node) ==> wrote(*m.node, Tree::Record(record_of(f@.take(0))))) by { assert(record_of(f@.take(0)) =~= seq![]); assert(!any_plain(seq![])); }
    vx_fields(m, f)
}
pub fn vx_fields<'a, V: Serialize>(m0: NodeChildMapSerializer<'a>, f: &Vec<(&'static str, V)>) -> (r: Result<(), Error>)
    ensures wrote(*old(m0.node), Tree::Record(seq![])) && bare_node(*old(m0.node)) ==> (fits(Tree::Record(record_of(f@))) ==> r is Ok) && (r is Ok ==> into_node(*old(m0.node), *final(m0.node), Tree::Record(record_of(f@)))),
{
    let ghost a = *m0.node;
    let ghost t = Tree::Record(record_of(f@));
    let ghost ok = wrote(a, Tree::Record(seq![])) && bare_node(a);
    let mut m = m0;
    let mut i = 0;
    assert(record_of(f@.take(0)) =~= seq![]);
    while i < f.len()
        invariant 0 <= i <= f.len(), t == Tree::Record(record_of(f@)), same_head(a, *m.node), *final(m.node) == *final(m0.node), ok ==> wrote(*m.node, Tree::Record(record_of(f@.take(i as int)))) && bare_node(*m.node), ok == (wrote(a, Tree::Record(seq![])) && bare_node(a)), a == *m0.node,
        decreases f.len() - i,
    {
        let ghost n = *m.node;
        assert(record_of(f@)[i as int] == (f@[i as int].0@, f@[i as int].1.tree()));
        proof { fits_at(record_of(f@), i as int); }
        assert(fits(t) ==> field_fits(f@[i as int].0@, f@[i as int].1.tree()));
        match m.serialize_field(f[i].0, &f[i].1) { Ok(_) => {}, Err(e) => { assert(!fits(t)); return Err(e); } }
        proof { if ok { record_push(n, *m.node, record_of(f@.take(i as int)), f@[i as int].0@, f@[i as int].1.tree()); assert(record_of(f@.take(i + 1)) =~= record_of(f@.take(i as int)).push((f@[i as int].0@, f@[i as int].1.tree()))); } }
        i += 1;
    }
    assert(f@.take(f@.len() as int) =~= f@);
    m.record_end()
}
/// A list, into a node.
pub fn vx_list<'a, 'b, V: Serialize>(s: &'a mut NodeValueSerializer<'b>, f: &Vec<V>) -> (r: Result<(), Error>)
    ensures node_done(*old(s).node, old(s).omittable, *final(s).node, final(s).omittable, Tree::Seq(seq_of(f@)), r), *final(final(s).node) == *final(old(s).node),
{
    let mut m = s.serialize_seq(None)?;
    vx_items(m, f)
}
pub fn vx_items<'a, V: Serialize>(m0: NodeSeqSerializer<'a>, f: &Vec<V>) -> (r: Result<(), Error>)
    ensures fresh(*old(m0.node)) ==> (fits(Tree::Seq(seq_of(f@))) ==> r is Ok) && (r is Ok ==> into_node(*old(m0.node), *final(m0.node), Tree::Seq(seq_of(f@)))),
{
    let ghost a = *m0.node;
    let ghost t = Tree::Seq(seq_of(f@));
    let ghost ok = fresh(a);
    let mut m = m0;
    let mut i = 0;
    assert(seq_of(f@.take(0)) =~= seq![]);
    while i < f.len()
        invariant 0 <= i <= f.len(), t == Tree::Seq(seq_of(f@)), same_head(a, *m.node), *final(m.node) == *final(m0.node), ok ==> wrote(*m.node, Tree::Seq(seq_of(f@.take(i as int)))) && bare_node(*m.node), ok == fresh(a), a == *m0.node,
        decreases f.len() - i,
    {
        let ghost n = *m.node;
        assert(seq_of(f@)[i as int] == f@[i as int].tree());
        match m.serialize_element(&f[i]) { Ok(_) => {}, Err(e) => { assert(!fits(t)); return Err(e); } }
        proof { if ok { pushed_bare(n, *m.node, flat(f@[i as int].tree())->0); seq_push(n, *m.node, seq_of(f@.take(i as int)), f@[i as int].tree()); assert(seq_of(f@.take(i + 1)) =~= seq_of(f@.take(i as int)).push(f@[i as int].tree())); } }
        i += 1;
    }
    assert(f@.take(f@.len() as int) =~= f@);
    m.end()
}
/// A map, into a node.
pub fn vx_pairs<'a, 'b, K: Serialize, V: Serialize>(s: &'a mut NodeValueSerializer<'b>, f: &Vec<(K, V)>) -> (r: Result<(), Error>)
    ensures node_done(*old(s).node, old(s).omittable, *final(s).node, final(s).omittable, Tree::Map(map_of(f@)), r), *final(final(s).node) == *final(old(s).node),
{
    let mut m = s.serialize_map(None)?;
    vx_map(m, f)
}
pub fn vx_map<'a, K: Serialize, V: Serialize>(m0: NodeChildMapSerializer<'a>, f: &Vec<(K, V)>) -> (r: Result<(), Error>)
    ensures fresh(*old(m0.node)) ==> (fits(Tree::Map(map_of(f@))) ==> r is Ok) && (r is Ok ==> into_node(*old(m0.node), *final(m0.node), Tree::Map(map_of(f@)))),
{
    let ghost a = *m0.node;
    let ghost t = Tree::Map(map_of(f@));
    let ghost ok = fresh(a);
    let mut m = m0;
    let mut i = 0;
    assert(map_of(f@.take(0)) =~= seq![]);
    while i < f.len()
        invariant 0 <= i <= f.len(), t == Tree::Map(map_of(f@)), same_head(a, *m.node), *final(m.node) == *final(m0.node), ok ==> wrote(*m.node, Tree::Map(map_of(f@.take(i as int)))) && bare_node(*m.node), ok == fresh(a), a == *m0.node,
        decreases f.len() - i,
    {
        let ghost n = *m.node;
        assert(map_of(f@)[i as int] == (f@[i as int].0.tree(), f@[i as int].1.tree()));
        match m.serialize_key(&f[i].0) { Ok(_) => {}, Err(e) => { assert(!fits(t)); return Err(e); } }
        let ghost k = m.current_key->0@;
        match m.serialize_value(&f[i].1) { Ok(_) => {}, Err(e) => { assert(!fits(t)); return Err(e); } }
        proof { if ok { map_push(n, *m.node, map_of(f@.take(i as int)), k, f@[i as int].0.tree(), f@[i as int].1.tree()); assert(map_of(f@.take(i + 1)) =~= map_of(f@.take(i as int)).push((f@[i as int].0.tree(), f@[i as int].1.tree()))); } }
        i += 1;
    }
    assert(f@.take(f@.len() as int) =~= f@);
    m.end()
}
/// A list, into arguments.
pub fn vx_arg_list<'a, V: Serialize>(s: &'a mut ArgsSerializer<'a>, f: &Vec<V>) -> (r: Result<(), Error>)
    ensures args_done(*old(s).node, *final(s).node, Tree::Seq(seq_of(f@)), r),
{
    let m = s.serialize_seq(None)?;
    vx_arg_items(m, f)
}
pub fn vx_arg_items<'a, V: Serialize>(m0: ArgsSeqSerializer<'a>, f: &Vec<V>) -> (r: Result<(), Error>)
    ensures args_done(*old(m0.node), *final(m0.node), Tree::Seq(seq_of(f@)), r),
{
    let ghost a = *m0.node;
    let ghost l = seq_of(f@);
    let mut m = m0;
    let mut i = 0;
    while i < f.len()
        invariant 0 <= i <= f.len(), l == seq_of(f@), *final(m.node) == *final(m0.node), added(a, *m.node, as_args(flats(l.take(i as int)))), all_flat(l.take(i as int)), a == *m0.node,
        decreases f.len() - i,
    {
        let ghost n = *m.node;
        assert(l[i as int] == f@[i as int].tree());
        match m.serialize_element(&f[i]) { Ok(_) => {}, Err(e) => { assert(!all_flat(l)); return Err(e); } }
        proof { args_push(a, n, *m.node, l.take(i as int), l[i as int]); assert(l.take(i + 1) =~= l.take(i as int).push(l[i as int])); }
        i += 1;
    }
    assert(l.take(l.len() as int) =~= l);
    m.end()
}
proof fn args_push(a: KdlNode, n: KdlNode, b: KdlNode, l: Seq<Tree>, t: Tree)
    requires added(a, n, as_args(flats(l))), all_flat(l), flat(t) is Some, pushed(n, b, flat(t)->0),
    ensures added(a, b, as_args(flats(l.push(t)))), all_flat(l.push(t)),
{
    let m = l.push(t);
    let x = as_args(flats(m));
    assert forall|i: int| 0 <= i < m.len() implies flat(#[trigger] m[i]) is Some by { if i < l.len() { assert(m[i] == l[i]); } }
    assert(b.entries@.take(a.entries@.len() as int) =~= n.entries@.take(a.entries@.len() as int)) by {
        assert forall|i: int| 0 <= i < a.entries@.len() implies b.entries@[i] == n.entries@[i] by { assert(b.entries@[i] == b.entries@.drop_last()[i]); }
    }
    assert forall|i: int| 0 <= i < x.len() implies is_entry(#[trigger] b.entries@[a.entries@.len() + i], x[i]) by {
        if i < l.len() { assert(m[i] == l[i]); assert(x[i] == as_args(flats(l))[i]); assert(b.entries@[a.entries@.len() + i] == b.entries@.drop_last()[a.entries@.len() + i]); }
        else { assert(b.entries@[a.entries@.len() + i] == b.entries@.last()); }
    }
    if bare_node(a) { pushed_bare(n, b, flat(t)->0); }
}
// ---- a whole document
proof fn list_fits_at(l: Seq<Tree>, i: int)
    requires 0 <= i < l.len(),
    ensures doc_fits(Tree::Seq(l)) ==> fits(l[i]),
{
    let t = Tree::Seq(l);
    assert(t->Seq_0 == l);
    assert(doc_fits(t) ==> forall|i: int| 0 <= i < (t->Seq_0).len() ==> fits(#[trigger] (t->Seq_0)[i]));
}
proof fn doc_fits_at(l: Seq<(Seq<char>, Tree)>, i: int)
    requires 0 <= i < l.len(),
    ensures doc_fits(Tree::Record(l)) ==> fits(l[i].1),
{
    let t = Tree::Record(l);
    assert(t->Record_0 == l);
    assert(doc_fits(t) ==> forall|i: int| 0 <= i < (t->Record_0).len() ==> fits((#[trigger] (t->Record_0)[i]).1));
}
pub open spec fn bare_nodes(s: Seq<KdlNode>) -> bool { forall|k: int| 0 <= k < s.len() ==> bare_node(#[trigger] s[k]) }
proof fn gained_bare(a: Seq<KdlNode>, b: Seq<KdlNode>, k: Seq<char>, t: Tree)
    requires gained(a, b, k, t), bare_nodes(a),
    ensures bare_nodes(b),
{ assert forall|j: int| 0 <= j < b.len() implies bare_node(#[trigger] b[j]) by { if j < a.len() { assert(b[j] == b.drop_last()[j]); } } }
pub fn vx_doc_list<'a, V: Serialize>(s: &'a mut DocumentSerializer, f: &Vec<V>) -> (r: Result<(), Error>)
    ensures doc_done(old(s).doc, final(s).doc, Tree::Seq(seq_of(f@)), r),
{
    let m = s.serialize_seq(None)?;
    vx_nodes(m, f)
}
pub fn vx_nodes<'a, V: Serialize>(m0: SeqNodeSerializer<'a>, f: &Vec<V>) -> (r: Result<(), Error>)
    requires m0.node_name@ == seq!['-'],
    ensures old(m0.nodes)@.len() == 0 ==> (doc_fits(Tree::Seq(seq_of(f@))) ==> r is Ok) && (r is Ok ==> doc_wrote(final(m0.nodes)@, Tree::Seq(seq_of(f@))) && bare_nodes(final(m0.nodes)@)),
{
    let ghost l = seq_of(f@);
    let ghost ok = m0.nodes@.len() == 0;
    let mut m = m0;
    let mut i = 0;
    while i < f.len()
        invariant 0 <= i <= f.len(), l == seq_of(f@), *final(m.nodes) == *final(m0.nodes), m.node_name@ == seq!['-'], ok ==> m.nodes@.len() == i && bare_nodes(m.nodes@) && (forall|j: int| 0 <= j < i ==> said(#[trigger] m.nodes@[j], seq!['-'], l[j])), ok == (m0.nodes@.len() == 0),
        decreases f.len() - i,
    {
        let ghost n = m.nodes@;
        assert(l[i as int] == f@[i as int].tree());
        match m.serialize_element(&f[i]) { Ok(_) => {}, Err(e) => { proof { list_fits_at(l, i as int); } return Err(e); } }
        proof {
            if ok {
                gained_bare(n, m.nodes@, seq!['-'], l[i as int]);
                assert forall|j: int| 0 <= j < i + 1 implies said(#[trigger] m.nodes@[j], seq!['-'], l[j]) by { if j < i { assert(m.nodes@[j] == m.nodes@.drop_last()[j]); } }
            }
        }
        i += 1;
    }
    m.end()
}
pub fn vx_doc_map<'a, K: Serialize, V: Serialize>(s: &'a mut DocumentSerializer, f: &Vec<(K, V)>) -> (r: Result<(), Error>)
    ensures doc_done(old(s).doc, final(s).doc, Tree::Map(map_of(f@)), r),
{
    let m = s.serialize_map(None)?;
    vx_doc_pairs(m, f)
}
pub fn vx_doc_pairs<'a, K: Serialize, V: Serialize>(m0: MapNodeSerializer<'a>, f: &Vec<(K, V)>) -> (r: Result<(), Error>)
    ensures old(m0.nodes)@.len() == 0 ==> (doc_fits(Tree::Map(map_of(f@))) ==> r is Ok) && (r is Ok ==> doc_wrote(final(m0.nodes)@, Tree::Map(map_of(f@))) && bare_nodes(final(m0.nodes)@)),
{
    let ghost l = map_of(f@);
    let ghost t = Tree::Map(l);
    let ghost ok = m0.nodes@.len() == 0;
    let mut m = m0;
    let mut i = 0;
    while i < f.len()
        invariant 0 <= i <= f.len(), l == map_of(f@), t == Tree::Map(l), *final(m.nodes) == *final(m0.nodes), ok ==> m.nodes@.len() == i && bare_nodes(m.nodes@) && (forall|j: int| 0 <= j < i ==> keyed_node(m.nodes@[j], (#[trigger] l[j]).0) && wrote(m.nodes@[j], l[j].1)), ok == (m0.nodes@.len() == 0),
        decreases f.len() - i,
    {
        let ghost n = m.nodes@;
        assert(l[i as int] == (f@[i as int].0.tree(), f@[i as int].1.tree()));
        match m.serialize_key(&f[i].0) { Ok(_) => {}, Err(e) => { assert(!doc_fits(t)); return Err(e); } }
        let ghost k = m.current_key->0@;
        match m.serialize_value(&f[i].1) { Ok(_) => {}, Err(e) => { assert(!doc_fits(t)); return Err(e); } }
        proof {
            if ok {
                gained_bare(n, m.nodes@, k, l[i as int].1);
                assert forall|j: int| 0 <= j < i + 1 implies keyed_node(m.nodes@[j], (#[trigger] l[j]).0) && wrote(m.nodes@[j], l[j].1) by { if j < i { assert(m.nodes@[j] == m.nodes@.drop_last()[j]); } }
            }
        }
        i += 1;
    }
    m.end()
}
pub fn vx_doc_record<'a, V: Serialize>(s: &'a mut DocumentSerializer, f: &Vec<(&'static str, V)>) -> (r: Result<(), Error>)
    ensures doc_done(old(s).doc, final(s).doc, Tree::Record(record_of(f@)), r),
{
    let m = s.serialize_struct("", f.len())?;
    vx_doc_fields(m, f)
}
pub open spec fn top(ns: Seq<KdlNode>, l: Seq<(Seq<char>, Tree)>, n: int) -> bool {
    ns.len() == stay(l, n) && forall|i: int| 0 <= i < n && stays(#[trigger] l[i]) ==> said(ns[stay(l, i)], l[i].0, l[i].1)
}
pub fn vx_doc_fields<'a, V: Serialize>(m0: MapNodeSerializer<'a>, f: &Vec<(&'static str, V)>) -> (r: Result<(), Error>)
    ensures old(m0.nodes)@.len() == 0 ==> (doc_fits(Tree::Record(record_of(f@))) ==> r is Ok) && (r is Ok ==> doc_wrote(final(m0.nodes)@, Tree::Record(record_of(f@))) && bare_nodes(final(m0.nodes)@)),
{
    let ghost l = record_of(f@);
    let ghost t = Tree::Record(l);
    let ghost ok = m0.nodes@.len() == 0;
    let mut m = m0;
    let mut i = 0;
    while i < f.len()
        invariant 0 <= i <= f.len(), l == record_of(f@), t == Tree::Record(l), *final(m.nodes) == *final(m0.nodes), ok ==> bare_nodes(m.nodes@) && top(m.nodes@, l, i as int), ok == (m0.nodes@.len() == 0),
        decreases f.len() - i,
    {
        let ghost n = m.nodes@;
        assert(l[i as int] == (f@[i as int].0@, f@[i as int].1.tree()));
        match m.serialize_field(f[i].0, &f[i].1) { Ok(_) => {}, Err(e) => { proof { doc_fits_at(l, i as int); } return Err(e); } }
        proof {
            if ok {
                if stays(l[i as int]) { gained_bare(n, m.nodes@, l[i as int].0, l[i as int].1); }
                assert forall|j: int| 0 <= j < i + 1 && stays(#[trigger] l[j]) implies said(m.nodes@[stay(l, j)], l[j].0, l[j].1) by {
                    if j < i { kids_below(l, j, i as int); if stays(l[i as int]) { assert(m.nodes@[stay(l, j)] == m.nodes@.drop_last()[stay(l, j)]); } assert(m.nodes@[stay(l, j)] == n[stay(l, j)]); }
                }
            }
        }
        i += 1;
    }
    m.record_end()
}
