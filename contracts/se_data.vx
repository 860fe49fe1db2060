// ---- What serde hands over, and what of it a KDL value, node or document holds.
pub enum Data {
    Bool(bool), Int(int), Float(f64), Text(Seq<char>), Null,
}
pub open spec fn is_value(v: KdlValue, d: Data) -> bool {
    match d { Data::Bool(b) => v == KdlValue::Bool(b), Data::Int(n) => v matches KdlValue::Integer(i) && i == n, Data::Float(f) => v == KdlValue::Float(f), Data::Text(s) => v matches KdlValue::String(t) && t@ == s, Data::Null => v is Null }
}
pub open spec fn holds(e: KdlEntry, d: Data) -> bool { bare_entry(e) && e.name is None && e.ty is None && is_value(e.value, d) }
/// One argument more, and nothing else.
pub open spec fn pushed(a: KdlNode, b: KdlNode, d: Data) -> bool {
    b == (KdlNode { entries: b.entries, ..a }) && b.entries@.len() == a.entries@.len() + 1 && b.entries@.drop_last() =~= a.entries@ && holds(b.entries@.last(), d)
}
/// One node more, named `-`, and nothing else.
pub open spec fn appended(a: KdlDocument, b: KdlDocument, d: Data) -> bool {
    b == (KdlDocument { nodes: b.nodes, ..a }) && b.nodes@.len() == a.nodes@.len() + 1 && b.nodes@.drop_last() =~= a.nodes@ && dashed(b.nodes@.last(), d)
}
pub open spec fn dashed(n: KdlNode, d: Data) -> bool {
    bare_node(n) && n.name.value@ == seq!['-'] && n.ty is None && n.entries@.len() == 1 && holds(n.entries@[0], d) && n.children is None
}
