// ---- Data of the family, as serde hands it over: what a value's `Serialize` presents.
pub enum Tree {
    Scalar(Data), Some(Box<Tree>), Seq(Seq<Tree>), Map(Seq<(Tree, Tree)>), Record(Seq<(Seq<char>, Tree)>),
}
/// The value one entry takes.
pub open spec fn flat(t: Tree) -> Option<Data>
    decreases t,
{ match t { Tree::Scalar(d) => Some(d), Tree::Some(x) => flat(*x), _ => None } }
/// The values a list of arguments takes.
pub open spec fn listed(t: Tree) -> Option<Seq<Data>>
    decreases t,
{
    match t {
        Tree::Scalar(d) => Some(seq![d]), Tree::Some(x) => listed(*x),
        Tree::Seq(l) => if all_flat(l) { Some(flats(l)) } else { None },
        _ => None,
    }
}
pub open spec fn all_flat(l: Seq<Tree>) -> bool { forall|i: int| 0 <= i < l.len() ==> flat(#[trigger] l[i]) is Some }
pub open spec fn flats(l: Seq<Tree>) -> Seq<Data> { Seq::new(l.len(), |i: int| flat(l[i])->0) }
/// What a field leaves out: a plain `false` or null.
pub open spec fn omits(t: Tree) -> bool { match t { Tree::Scalar(Data::Bool(b)) => !b, Tree::Scalar(Data::Null) => true, _ => false } }
/// The name a map's key gives.
pub uninterp spec fn int_text(n: int) -> Seq<char>;
pub open spec fn keyed(t: Tree) -> Option<Seq<char>>
    decreases t,
{ match t { Tree::Scalar(Data::Text(s)) => Some(s), Tree::Scalar(Data::Bool(b)) => Some(if b { "true"@ } else { "false"@ }), Tree::Scalar(Data::Int(n)) => Some(int_text(n)), Tree::Some(x) => keyed(*x), _ => None } }
// a field's rename
pub open spec fn begins(k: Seq<char>, p: Seq<char>) -> bool { p.len() <= k.len() && k.take(p.len() as int) == p }
pub open spec fn is_prop(k: Seq<char>) -> bool { begins(k, seq!['#', '@']) }
pub open spec fn is_list(k: Seq<char>) -> bool { k == seq!['#', 'a', 'r', 'g', 's'] || k == seq!['#', 'r', 'e', 's', 't'] }
pub open spec fn is_plain(k: Seq<char>) -> bool { !begins(k, seq!['#']) }
pub open spec fn is_child(f: (Seq<char>, Tree)) -> bool { is_plain(f.0) && !omits(f.1) }
/// The entries a field makes: the name, if it is a property, and the value.
pub open spec fn contrib(k: Seq<char>, t: Tree) -> Seq<(Option<Seq<char>>, Data)> {
    if is_prop(k) { seq![(Some(k.skip(2)), flat(t)->0)] }
    else if is_list(k) { as_args(listed(t)->0) }
    else if is_plain(k) { seq![] }
    else { seq![(None, flat(t)->0)] }
}
pub open spec fn entries_of(l: Seq<(Seq<char>, Tree)>) -> Seq<(Option<Seq<char>>, Data)>
    decreases l.len(),
{ if l.len() == 0 { seq![] } else { entries_of(l.drop_last()) + contrib(l.last().0, l.last().1) } }
/// How many children the first `i` fields make.
pub open spec fn kids(l: Seq<(Seq<char>, Tree)>, i: int) -> int
    decreases i,
{ if i <= 0 || i > l.len() { 0 } else { kids(l, i - 1) + if is_child(l[i - 1]) { 1int } else { 0int } } }
pub open spec fn any_plain(l: Seq<(Seq<char>, Tree)>) -> bool { exists|i: int| 0 <= i < l.len() && is_plain((#[trigger] l[i]).0) }
pub open spec fn is_entry(e: KdlEntry, x: (Option<Seq<char>>, Data)) -> bool {
    bare_entry(e) && e.ty is None && is_value(e.value, x.1) && match x.0 { Some(s) => e.name matches Some(n) && n.value@ == s, None => e.name is None }
}
/// What a node can say.
pub open spec fn fits(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Scalar(_) => true,
        Tree::Some(x) => fits(*x),
        Tree::Seq(l) => all_flat(l),
        Tree::Map(l) => forall|i: int| 0 <= i < l.len() ==> keyed((#[trigger] l[i]).0) is Some && fits(l[i].1),
        Tree::Record(l) => (forall|i: int| 0 <= i < l.len() && is_plain((#[trigger] l[i]).0) ==> fits(l[i].1)) && (forall|i: int| 0 <= i < l.len() && !is_plain((#[trigger] l[i]).0) ==> entry_fits(l[i].0, l[i].1)),
    }
}
pub open spec fn entry_fits(k: Seq<char>, t: Tree) -> bool { if is_list(k) { listed(t) is Some } else { flat(t) is Some } }
pub open spec fn field_fits(k: Seq<char>, t: Tree) -> bool { if is_plain(k) { fits(t) } else { entry_fits(k, t) } }
/// The node says `t`: by its arguments, its properties and its children.
pub open spec fn wrote(n: KdlNode, t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Scalar(d) => n.children is None && n.entries@.len() == 1 && holds(n.entries@[0], d),
        Tree::Some(x) => wrote(n, *x),
        Tree::Seq(l) => n.children is None && n.entries@.len() == l.len() && all_flat(l) && forall|i: int| 0 <= i < l.len() ==> holds(#[trigger] n.entries@[i], flat(l[i])->0),
        Tree::Map(l) => n.entries@.len() == 0 && (l.len() == 0 ==> n.children is None) && (l.len() > 0 ==> match n.children {
            Some(d) => d.nodes@.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> keyed_node(d.nodes@[i], (#[trigger] l[i]).0) && wrote(d.nodes@[i], l[i].1),
            None => false }),
        Tree::Record(l) => n.entries@.len() == entries_of(l).len() && (forall|i: int| 0 <= i < l.len() && !is_plain((#[trigger] l[i]).0) ==> entry_fits(l[i].0, l[i].1)) && (forall|i: int| 0 <= i < entries_of(l).len() ==> is_entry(#[trigger] n.entries@[i], entries_of(l)[i])) && (!any_plain(l) ==> n.children is None) && (any_plain(l) ==> match n.children {
            Some(d) => d.nodes@.len() == kids(l, l.len() as int) && forall|i: int| 0 <= i < l.len() && is_child(#[trigger] l[i]) ==> called(d.nodes@[kids(l, i)], l[i].0) && wrote(d.nodes@[kids(l, i)], l[i].1),
            None => false }),
    }
}
/// Named by a map's key. (What a number or a unit struct is called as a key is std's and the type's own.)
pub open spec fn keyed_node(n: KdlNode, k: Tree) -> bool { n.ty is None && bare_node(n) && (keyed(k) matches Some(s) ==> n.name.value@ == s) }
pub open spec fn called(n: KdlNode, k: Seq<char>) -> bool { n.name.value@ == k && n.ty is None && bare_node(n) }
pub open spec fn fresh(n: KdlNode) -> bool { bare_node(n) && n.ty is None && n.entries@.len() == 0 && n.children is None }
pub open spec fn same_head(a: KdlNode, b: KdlNode) -> bool { b == (KdlNode { entries: b.entries, children: b.children, ..a }) }
/// More entries, and nothing else.
pub open spec fn added(a: KdlNode, b: KdlNode, l: Seq<(Option<Seq<char>>, Data)>) -> bool {
    b == (KdlNode { entries: b.entries, ..a }) && more(a.entries@, b.entries@, l) && (bare_node(a) ==> bare_node(b))
}
pub open spec fn more(a: Seq<KdlEntry>, b: Seq<KdlEntry>, l: Seq<(Option<Seq<char>>, Data)>) -> bool {
    b.len() == a.len() + l.len() && b.take(a.len() as int) =~= a && forall|i: int| 0 <= i < l.len() ==> is_entry(#[trigger] b[a.len() + i], l[i])
}
pub open spec fn as_args(l: Seq<Data>) -> Seq<(Option<Seq<char>>, Data)> { Seq::new(l.len(), |i: int| (None::<Seq<char>>, l[i])) }
/// One node more, saying `t`.
pub open spec fn gained(a: Seq<KdlNode>, b: Seq<KdlNode>, k: Seq<char>, t: Tree) -> bool {
    b.len() == a.len() + 1 && b.drop_last() =~= a && called(b.last(), k) && wrote(b.last(), t)
}
pub open spec fn kids_before(a: KdlNode) -> Seq<KdlNode> { match a.children { Some(d) => d.nodes@, None => seq![] } }
/// One child more.
pub open spec fn child_step(a: KdlNode, b: KdlNode, k: Seq<char>, t: Tree) -> bool {
    b == (KdlNode { children: b.children, ..a }) && match b.children { Some(d) => gained(kids_before(a), d.nodes@, k, t), None => false }
}
pub open spec fn plain_arg(e: KdlEntry, v: KdlValue) -> bool { bare_entry(e) && e.ty is None && e.name is None && e.value == v }
/// One node more, holding one argument.
pub open spec fn one_more(a: Seq<KdlNode>, b: Seq<KdlNode>, k: Seq<char>, d: Data) -> bool {
    b.len() == a.len() + 1 && b.drop_last() =~= a && called(b.last(), k) && b.last().children is None && b.last().entries@.len() == 1 && is_entry(b.last().entries@[0], (None, d))
}
/// What one field of a record does to its node.
pub open spec fn field_step(a: KdlNode, b: KdlNode, k: Seq<char>, t: Tree) -> bool {
    if is_plain(k) {
        if omits(t) { b == (KdlNode { children: b.children, ..a }) && match b.children { Some(d) => d.nodes@ =~= kids_before(a), None => false } } else { child_step(a, b, k, t) }
    } else { added(a, b, contrib(k, t)) }
}
// ---- a document
pub open spec fn doc_fits(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Scalar(_) => true, Tree::Some(x) => doc_fits(*x),
        Tree::Seq(l) => forall|i: int| 0 <= i < l.len() ==> fits(#[trigger] l[i]),
        Tree::Map(l) => forall|i: int| 0 <= i < l.len() ==> keyed((#[trigger] l[i]).0) is Some && fits(l[i].1),
        Tree::Record(l) => forall|i: int| 0 <= i < l.len() ==> fits((#[trigger] l[i]).1),
    }
}
pub open spec fn said(n: KdlNode, k: Seq<char>, t: Tree) -> bool { called(n, k) && wrote(n, t) }
pub open spec fn stays(f: (Seq<char>, Tree)) -> bool { !omits(f.1) }
pub open spec fn stay(l: Seq<(Seq<char>, Tree)>, i: int) -> int
    decreases i,
{ if i <= 0 || i > l.len() { 0 } else { stay(l, i - 1) + if stays(l[i - 1]) { 1int } else { 0int } } }
/// The nodes say `t`.
pub open spec fn doc_wrote(ns: Seq<KdlNode>, t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Scalar(Data::Null) => ns.len() == 0,
        Tree::Scalar(d) => ns.len() == 1 && dashed(ns[0], d),
        Tree::Some(x) => doc_wrote(ns, *x),
        Tree::Seq(l) => ns.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> said(#[trigger] ns[i], seq!['-'], l[i]),
        Tree::Map(l) => ns.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> keyed_node(ns[i], (#[trigger] l[i]).0) && wrote(ns[i], l[i].1),
        Tree::Record(l) => ns.len() == stay(l, l.len() as int) && forall|i: int| 0 <= i < l.len() && stays(#[trigger] l[i]) ==> said(ns[stay(l, i)], l[i].0, l[i].1),
    }
}
