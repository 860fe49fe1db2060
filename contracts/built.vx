//@ include tok_pre.vx
//@ include print_spec.vx
//@ include parse_spec.vx
//@ include read_spec.vx
//@ include kin_spec.vx
//@ include built_spec.vx
} // verus!
fn main() {}
