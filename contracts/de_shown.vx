// ---- What a reader is shown: content, and the part of it a visitor sees.
pub enum Content {
    Text(Seq<char>),
    Value(KdlValue),
    Args(Seq<KdlEntry>),
    Node(KdlNode),
    Group(Seq<KdlNode>),
    Document(KdlDocument),
    Omitted,
}
pub enum Shown {
    Bool(bool), Int(int), Float(f64), Text(Seq<char>), Unit, None,
    Some(Content), Newtype(Content),
    Seq(Seq<Content>),
    Map(Seq<(Seq<char>, Content)>),
    Enum(Seq<char>, Option<Content>),
}
// ---- What the property says.
pub open spec fn vals<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn is_arg(e: KdlEntry) -> bool { e.name is None }
/// The arguments, the properties, in order.
pub open spec fn args_of(s: Seq<KdlEntry>) -> Seq<KdlEntry>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if is_arg(s.last()) { args_of(s.drop_last()).push(s.last()) } else { args_of(s.drop_last()) } }
pub open spec fn props_of(s: Seq<KdlEntry>) -> Seq<KdlEntry>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if !is_arg(s.last()) { props_of(s.drop_last()).push(s.last()) } else { props_of(s.drop_last()) } }
/// An entry's value, a number as exactly that number.
pub open spec fn value_shown(v: KdlValue) -> Shown {
    match v { KdlValue::String(s) => Shown::Text(s@), KdlValue::Integer(n) => Shown::Int(n as int), KdlValue::Float(f) => Shown::Float(f), KdlValue::Bool(b) => Shown::Bool(b), KdlValue::Null => Shown::Unit }
}
pub open spec fn arg_elems(s: Seq<KdlEntry>) -> Seq<Content> { Seq::new(s.len(), |i: int| Content::Value(s[i].value)) }
pub open spec fn node_elems(s: Seq<KdlNode>) -> Seq<Content> { Seq::new(s.len(), |i: int| Content::Node(s[i])) }
pub open spec fn scalar(n: KdlNode) -> bool { args_of(n.entries@).len() == 1 && props_of(n.entries@).len() == 0 && n.children is None }
pub open spec fn blank(n: KdlNode) -> bool { n.entries@.len() == 0 && n.children is None }
/// Names in first-seen order, and all nodes of a name in document order.
pub open spec fn node_name(n: KdlNode) -> Seq<char> { n.name.value@ }
pub open spec fn first_seen(s: Seq<KdlNode>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else {
        let r = first_seen(s.drop_last());
        if r.contains(node_name(s.last())) { r } else { r.push(node_name(s.last())) }
    }
}
pub open spec fn all_named(s: Seq<KdlNode>, k: Seq<char>) -> Seq<KdlNode>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if node_name(s.last()) == k { all_named(s.drop_last(), k).push(s.last()) } else { all_named(s.drop_last(), k) } }
pub open spec fn group(g: Seq<KdlNode>) -> Content { if g.len() == 1 { Content::Node(g[0]) } else { Content::Group(g) } }
/// Each name exactly once, in first-seen order, with all nodes of that name.
pub open spec fn child_items(s: Seq<KdlNode>) -> Seq<(Seq<char>, Content)> {
    let k = first_seen(s);
    Seq::new(k.len(), |i: int| (k[i], group(all_named(s, k[i]))))
}
// what a record asks for, by its field names
pub open spec fn asks(f: Option<Seq<Seq<char>>>, k: Seq<char>) -> bool { f matches Some(f) && f.contains(k) }
pub open spec fn digit(n: int) -> char { ('0' as u32 + n) as char }
pub open spec fn nat_text(n: nat) -> Seq<char>
    decreases n,
{ if n < 10 { seq![digit(n as int)] } else { nat_text(n / 10).push(digit((n % 10) as int)) } }
pub open spec fn arg_field(i: nat) -> Seq<char> { seq!['#'] + nat_text(i) }
pub open spec fn type_field(k: Seq<char>) -> Seq<char> { k + seq!['#', 't', 'y', 'p', 'e'] }
pub open spec fn prop_field(k: Seq<char>) -> Seq<char> { seq!['#', '@'] + k }
pub open spec fn opt_item(b: bool, k: Seq<char>, c: Content) -> Seq<(Seq<char>, Content)> { if b { seq![(k, c)] } else { seq![] } }
pub open spec fn ident(i: KdlIdentifier) -> Content { Content::Text(i.value@) }
pub open spec fn ty_item(f: Option<Seq<Seq<char>>>, k: Seq<char>, ty: Option<KdlIdentifier>) -> Seq<(Seq<char>, Content)> {
    match ty { Some(t) => opt_item(asks(f, k), k, ident(t)), None => seq![] }
}
/// The arguments asked for by position, with their types.
pub open spec fn arg_items(f: Option<Seq<Seq<char>>>, a: Seq<KdlEntry>) -> Seq<(Seq<char>, Content)>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else {
        let k = arg_field((a.len() - 1) as nat);
        arg_items(f, a.drop_last()) + ty_item(f, type_field(k), a.last().ty) + opt_item(asks(f, k), k, Content::Value(a.last().value))
    }
}
/// The arguments not asked for by position.
pub open spec fn rest_of(f: Option<Seq<Seq<char>>>, a: Seq<KdlEntry>) -> Seq<KdlEntry>
    decreases a.len(),
{
    if a.len() == 0 { seq![] } else if asks(f, arg_field((a.len() - 1) as nat)) { rest_of(f, a.drop_last()) } else { rest_of(f, a.drop_last()).push(a.last()) }
}
pub open spec fn prop_item(f: Option<Seq<Seq<char>>>, e: KdlEntry) -> Seq<(Seq<char>, Content)> {
    let (k, v) = (e.name.unwrap().value@, Content::Value(e.value));
    opt_item(asks(f, prop_field(k)), prop_field(k), v) + ty_item(f, type_field(prop_field(k)), e.ty) + seq![(k, v)]
}
pub open spec fn prop_items(f: Option<Seq<Seq<char>>>, p: Seq<KdlEntry>) -> Seq<(Seq<char>, Content)>
    decreases p.len(),
{ if p.len() == 0 { seq![] } else { prop_items(f, p.drop_last()) + prop_item(f, p.last()) } }
pub open spec fn prop_names(p: Seq<KdlEntry>) -> Seq<Seq<char>> { Seq::new(p.len(), |i: int| p[i].name.unwrap().value@) }
pub open spec fn node_names(s: Seq<KdlNode>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| node_name(s[i])) }
/// Fields nothing was found for, which may be optional or flags.
pub open spec fn omitted(f: Seq<Seq<char>>, used: Seq<Seq<char>>) -> Seq<(Seq<char>, Content)>
    decreases f.len(),
{
    if f.len() == 0 { seq![] } else {
        let k = f.last();
        omitted(f.drop_last(), used) + opt_item(!(k.len() > 0 && k[0] == '#') && !used.contains(k), k, Content::Omitted)
    }
}
pub open spec fn children_of(n: KdlNode) -> Seq<KdlNode> { match n.children { Some(d) => d.nodes@, None => seq![] } }
/// A node as a map (no fields) or as a record with these fields.
pub open spec fn node_items(n: KdlNode, f: Option<Seq<Seq<char>>>) -> Seq<(Seq<char>, Content)> {
    let (a, p) = (args_of(n.entries@), props_of(n.entries@));
    opt_item(asks(f, "#name"@), "#name"@, ident(n.name))
        + ty_item(f, "#type"@, n.ty)
        + (if f is Some { arg_items(f, a) } else { seq![] })
        + opt_item(asks(f, "#args"@), "#args"@, Content::Args(a))
        + opt_item(asks(f, "#rest"@), "#rest"@, Content::Args(rest_of(f, a)))
        + prop_items(f, p)
        + child_items(children_of(n))
        + (match f { Some(f) => omitted(f, prop_names(p) + node_names(children_of(n))), None => seq![] })
}
/// A node as whatever it looks like.
pub open spec fn node_any(n: KdlNode) -> Shown {
    if blank(n) { Shown::Bool(true) }
    else if scalar(n) { value_shown(args_of(n.entries@)[0].value) }
    else if args_of(n.entries@).len() > 0 && props_of(n.entries@).len() == 0 && n.children is None { Shown::Seq(arg_elems(args_of(n.entries@))) }
    else { Shown::Map(node_items(n, None)) }
}
pub open spec fn node_seq(n: KdlNode) -> Seq<Content> {
    if args_of(n.entries@).len() > 0 && n.children is None { arg_elems(args_of(n.entries@)) }
    else if n.children is Some { node_elems(children_of(n)) }
    else { seq![] }
}
pub open spec fn node_enum(n: KdlNode) -> (Seq<char>, Option<Content>) {
    let (a, p, c) = (args_of(n.entries@), props_of(n.entries@), children_of(n));
    if scalar(n) && a[0].value is String { (a[0].value->String_0@, None) }
    else if n.children is Some && c.len() == 1 { (node_name(c[0]), Some(Content::Node(c[0]))) }
    else if p.len() == 1 && a.len() == 0 && n.children is None { (p[0].name.unwrap().value@, Some(Content::Value(p[0].value))) }
    else { (node_name(n), Some(Content::Node(n))) }
}
// ---- what each kind of content shows to a reader who asks for anything, an option, a sequence, a map or a record
pub open spec fn asked_any(c: Content) -> Shown {
    match c {
        Content::Text(s) => Shown::Text(s), Content::Value(v) => value_shown(v), Content::Args(a) => Shown::Seq(arg_elems(a)),
        Content::Node(n) => node_any(n), Content::Group(g) => Shown::Seq(node_elems(g)), Content::Document(d) => Shown::Map(child_items(d.nodes@)), Content::Omitted => Shown::Bool(false),
    }
}
pub open spec fn none_of(c: Content) -> bool {
    match c {
        Content::Value(v) => v is Null, Content::Args(a) => a.len() == 0, Content::Document(d) => d.nodes@.len() == 0, Content::Omitted => true,
        Content::Node(n) => blank(n) || (scalar(n) && args_of(n.entries@)[0].value is Null), _ => false,
    }
}
pub open spec fn asked_option(c: Content) -> Shown { if none_of(c) { Shown::None } else { Shown::Some(c) } }
pub open spec fn asked_seq(c: Content) -> Shown {
    match c { Content::Node(n) => Shown::Seq(node_seq(n)), Content::Document(d) => Shown::Seq(node_elems(d.nodes@)), _ => asked_any(c) }
}
pub open spec fn asked_map(c: Content) -> Shown {
    match c { Content::Node(n) => Shown::Map(node_items(n, None)), Content::Document(d) => Shown::Map(child_items(d.nodes@)), _ => asked_any(c) }
}
pub open spec fn asked_record(c: Content, f: Seq<Seq<char>>) -> Shown {
    match c { Content::Node(n) => Shown::Map(node_items(n, Some(f))), Content::Document(d) => Shown::Map(child_items(d.nodes@)), _ => asked_any(c) }
}
