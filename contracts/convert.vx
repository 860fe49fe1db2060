//@ features span serde v1 v1-fallback
//@ include tok_pre.vx
//@ include print_spec.vx
//@ include parse_spec.vx
//@ stub lex
//@ include lex_fns.vx
//@ stub tok
//@ include tok_fns.vx
//@ stub str
//@ include str_fns.vx
//@ stub num
//@ include num_fns.vx
//@ stub parse
//@ include parse_fns.vx
//@ stub off
//@ comb off
//@ include read_spec.vx
//@ include kdlv1_model.vx
pub mod vx_pr {
use super::*;
//@ stub print
//@ macro shows r is Ok ==> final(f).out() =~= old(f).out() + $1, old(f).sure() ==> r is Ok, final(f).sure() == old(f).sure(),
//@ include value_fns.vx
//@ stub off
}
pub use vx_pr::{is_plain_ident};
//@ include convert_fns.vx
//@ comb off
//@ stub fallback
//@ include fallback_fns.vx
//@ stub off
use super::vx_cv::VxOwn;
//@ source src/document.rs
//@ fn KdlDocument::v1_to_v2 ret r
    ensures
        r is Ok <==> kdlv1::read_doc(s@) is Ok, r matches Err(e) ==> about(e, s@),
        // the text of a KDL 2 document that holds what the KDL 1 text holds
        r matches Ok(t) ==> exists|a: KdlDocument, b: KdlDocument| #![trigger doc_to2(a, b)] doc1(kdlv1::read_doc(s@)->Ok_0, a) && doc_to2(a, b) && t@ == pr_doc(b, 0),
//@ hint `doc.ensure_v2()` before
    let ghost vx_a = doc;
//@ hint `doc.ensure_v2()` after
    assert(doc_to2(vx_a, doc));
//@ end
//@ fn KdlDocument::v2_to_v1 ret r
    ensures
        r is Ok <==> doc_text(s@) is Some, r matches Err(e) ==> about(e, s@),
        // the text of a KDL 1 document that holds what the KDL 2 text holds
        r matches Ok(t) ==> exists|a: KdlDocument, b: KdlDocument| #![trigger doc_to1(a, b)] doc_full(a, doc_text(s@)->Some_0, s@) && doc_to1(a, b) && t@ == pr_doc(b, 0),
//@ hint `doc.ensure_v1()` before
    let ghost vx_a = doc;
//@ hint `doc.ensure_v1()` after
    assert(doc_to1(vx_a, doc));
//@ end
}
pub use vx_fb::*;
} // verus!
fn main() {}
