//@ features span serde v1 v1-fallback
//@ include tok_pre.vx
//@ include print_spec.vx
//@ include parse_spec.vx
//@ stub lex
//@ include lex_fns.vx
//@ stub tok
//@ include tok_fns.vx
//@ stub str
//@ include str_fns.vx
//@ stub num
//@ include num_fns.vx
//@ stub parse
//@ include parse_fns.vx
//@ stub off
//@ comb off
//@ include kdlv1_model.vx
//@ include fallback_fns.vx
// Conversion between the versions and printing: what they do is not claimed here.
#[verifier::external_body]
pub fn vx_ensure(d: &mut KdlDocument) { unimplemented!() }
#[verifier::external_body]
pub fn vx_print(d: &KdlDocument) -> String { unimplemented!() }
//@ source src/document.rs
//@ rewrite `doc.ensure_v2()` => `vx_ensure(&mut doc)`
//@ rewrite `doc.ensure_v1()` => `vx_ensure(&mut doc)`
//@ rewrite `doc.to_string()` => `vx_print(&doc)`
//@ fn KdlDocument::v1_to_v2 ret r
    ensures r is Ok <==> kdlv1::read_doc(s@) is Ok, r matches Err(e) ==> about(e, s@),
//@ end
//@ fn KdlDocument::v2_to_v1 ret r
    ensures r is Ok <==> doc_text(s@) is Some, r matches Err(e) ==> about(e, s@),
//@ end
}
pub use vx_fb::*;
} // verus!
fn main() {}
