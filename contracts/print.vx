//@ include tok_pre.vx
//@ include print_spec.vx
//@ macro shows r is Ok ==> final(f).out() =~= old(f).out() + $1, old(f).sure() ==> r is Ok, final(f).sure() == old(f).sure(),
//@ include value_fns.vx
//@ include print_fns.vx
} // verus!
fn main() {}
