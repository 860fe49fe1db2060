//@ include tok_pre.vx
//@ stub lex
//@ include lex_fns.vx
//@ stub tok
//@ include tok_fns.vx
//@ stub off
//@ include num_fns.vx
} // verus!
fn main() {}
