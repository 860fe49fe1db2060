// ---- The entry points, as built without the fallback.
pub mod vx_p4 {
use super::*;
//@ source src/document.rs
//@ include parse_doc.vx
//@ source src/node.rs
//@ fn KdlNode::parse ret r
//@ rewrite `crate::v2_parser::try_parse(crate::v2_parser::padded_node, s)` => `try_parse_padded_node(s)`
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node, s)` => `try_parse_padded_node(s)`
    ensures r is Ok <==> node_text(s@) is Some, r matches Err(e) ==> diagnosed(e, s@),
        r matches Ok(v) ==> node_full(v, node_text(s@)->Some_0, s@) && forall|k: nat| #[trigger] pr_node(v, k) =~= s@,
//@ end
//@ source src/node.rs
//@ fn <FromStr for KdlNode>::from_str as vx_from_str ret r
//@ rewrite `crate::v2_parser::try_parse(crate::v2_parser::padded_node, input)` => `try_parse_padded_node(input)`
//@ rewrite `Self::Err` => `KdlError`
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node, input)` => `try_parse_padded_node(input)`
//@ rewrite `Self::Err` => `KdlError`
    ensures r is Ok <==> node_text(input@) is Some, r matches Err(e) ==> diagnosed(e, input@),
        r matches Ok(v) ==> node_full(v, node_text(input@)->Some_0, input@) && forall|k: nat| #[trigger] pr_node(v, k) =~= input@,
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::parse ret r
//@ rewrite `crate::v2_parser::try_parse(crate::v2_parser::padded_node_entry, s)` => `try_parse_padded_node_entry(s)`
//@ rewrite `v2_parser::try_parse(v2_parser::padded_node_entry, s)` => `try_parse_padded_node_entry(s)`
    ensures r is Ok <==> entry_text(s@) is Some, r matches Err(e) ==> diagnosed(e, s@),
        r matches Ok(v) ==> entry_full(v, entry_text(s@)->Some_0, s@) && pr_entry(v) =~= s@,
//@ end
//@ source src/identifier.rs
//@ fn KdlIdentifier::parse ret r
//@ rewrite `crate::v2_parser::try_parse(crate::v2_parser::identifier, s)` => `try_parse_identifier(s)`
//@ rewrite `v2_parser::try_parse(v2_parser::identifier, s)` => `try_parse_identifier(s)`
    ensures r is Ok <==> name_text(s@) is Some, r matches Err(e) ==> diagnosed(e, s@),
        r matches Ok(v) ==> ident_full(v, name_text(s@)->Some_0, s@),
//@ end
}
pub use vx_p4::*;
