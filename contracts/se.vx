//@ include prelude_base.vx
//@ include types.vx
//@ include conv.vx
//@ include bare_spec.vx
//@ stub make
//@ include make_fns.vx
//@ stub off
//@ include se_fns.vx
} // verus!
fn main() {}
