// ---- The same data in both: names, values, children (a NaN for a NaN). Neither has types.
pub open spec fn kin_value(a: KdlValue, b: KdlValue) -> bool {
    match (a, b) {
        (KdlValue::String(s), KdlValue::String(t)) => s@ == t@,
        (KdlValue::Float(f), KdlValue::Float(g)) => f == g || f64_is_nan(f),
        _ => a == b,
    }
}
pub open spec fn kin_name(a: Option<KdlIdentifier>, b: Option<KdlIdentifier>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.value@ == y.value@, _ => false } }
pub open spec fn kin_entry(a: KdlEntry, b: KdlEntry) -> bool { kin_name(a.name, b.name) && kin_name(a.ty, b.ty) && kin_value(a.value, b.value) }
pub open spec fn kin_entries(a: Seq<KdlEntry>, b: Seq<KdlEntry>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> kin_entry(#[trigger] a[k], b[k]) }
pub open spec fn kin_node(a: KdlNode, b: KdlNode) -> bool
    decreases a,
{
    a.name.value@ == b.name.value@ && kin_name(a.ty, b.ty) && kin_entries(a.entries@, b.entries@)
    && match (a.children, b.children) { (None, None) => true, (Some(c), Some(d)) => kin_doc(c, d), _ => false }
}
pub open spec fn kin_doc(a: KdlDocument, b: KdlDocument) -> bool
    decreases a,
{ a.nodes@.len() == b.nodes@.len() && forall|k: int| 0 <= k < a.nodes@.len() ==> kin_node(#[trigger] a.nodes@[k], b.nodes@[k]) }
