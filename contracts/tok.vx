//@ include tok_pre.vx
//@ stub lex
//@ include lex_fns.vx
//@ stub off
//@ include tok_fns.vx
} // verus!
fn main() {}
