//@ fn KdlDocument::parse ret r
//@ rewrite `crate::v2_parser::try_parse(crate::v2_parser::document, s)` => `try_parse_document(s)`
//@ rewrite `v2_parser::try_parse(v2_parser::document, s)` => `try_parse_document(s)`
    ensures r is Ok <==> doc_text(s@) is Some, r matches Err(e) ==> diagnosed(e, s@),
        r matches Ok(v) ==> doc_full(v, doc_text(s@)->Some_0, s@) && forall|k: nat| #[trigger] pr_doc(v, k) =~= s@,
//@ end
