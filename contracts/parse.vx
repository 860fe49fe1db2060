//@ include tok_pre.vx
//@ include print_spec.vx
//@ include parse_spec.vx
//@ stub lex
//@ include lex_fns.vx
//@ stub tok
//@ include tok_fns.vx
//@ stub str
//@ include str_fns.vx
//@ stub num
//@ include num_fns.vx
//@ stub off
//@ include parse_fns.vx
//@ include parse_api.vx
} // verus!
fn main() {}
