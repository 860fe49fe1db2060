//@ include prelude_base.vx
//@ include types.vx
//@ include conv.vx
//@ include bare_spec.vx
//@ stub make
//@ include make_fns.vx
//@ stub off
//@ include se_spec.vx
//@ stub se
//@ include se_value_fns.vx
//@ include se_args_fns.vx
//@ stub off
//@ source src/se.rs
//@ struct NodeValueSerializer
//@ struct KeySerializer
//@ include ser_spec.vx
//@ include ser_fns.vx
//@ include ser_compose.vx
} // verus!
fn main() {}
