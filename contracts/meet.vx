//@ include prelude_base.vx
//@ include types.vx
//@ include conv.vx
//@ include bare_spec.vx
//@ include nan_spec.vx
//@ include kin_spec.vx
//@ include se_data.vx
//@ include ser_tree.vx
//@ include de_shown.vx
//@ include meet_spec.vx
} // verus!
fn main() {}
