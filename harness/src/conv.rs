use crate::ref2::*;
use kdl::*;
pub fn val(v: &KdlValue) -> RVal {
    match v {
        KdlValue::String(s) => RVal::Str(s.clone()),
        KdlValue::Integer(i) => RVal::Int(*i),
        KdlValue::Float(f) => RVal::Float(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() }),
        KdlValue::Bool(b) => RVal::Bool(*b),
        KdlValue::Null => RVal::Null,
    }
}
pub fn entry(e: &KdlEntry) -> REntry {
    REntry {
        ty: e.ty().map(|t| t.value().to_string()),
        name: e.name().map(|t| t.value().to_string()),
        val: val(e.value()),
    }
}
pub fn node(n: &KdlNode) -> RNode {
    RNode {
        ty: n.ty().map(|t| t.value().to_string()),
        name: n.name().value().to_string(),
        entries: n.entries().iter().map(entry).collect(),
        children: n.children().map(|c| c.nodes().iter().map(node).collect()),
    }
}
pub fn doc(d: &KdlDocument) -> Vec<RNode> {
    d.nodes().iter().map(node).collect()
}
