#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

// A documented panic. Reaching it is allowed exactly when the documented
// condition holds; nothing follows it.
#[verifier::external_body]
pub fn vx_panic(Ghost(c): Ghost<bool>) -> !
    requires c,
{ panic!() }

pub fn vx_assert(c: bool)
    requires c,
{ }

// When iteration over mutable references is left early, the elements not
// handed out keep the value they have (vstd states this for references,
// slices, arrays and vectors, not for this iterator).
pub mod vx_axioms {
use super::*;
pub broadcast axiom fn axiom_iter_mut_has_resolved<T>(w: vstd::std_specs::iter::VerusForLoopWrapper<core::slice::IterMut<T>>, j: int)
    requires #[trigger] has_resolved::<vstd::std_specs::iter::VerusForLoopWrapper<core::slice::IterMut<T>>>(w), w.index@ <= j < w.snapshot@.remaining().len(),
    ensures has_resolved::<&mut T>(#[trigger] w.snapshot@.remaining()[j]);
}
pub uninterp spec fn vx_flag(n: int) -> bool;
