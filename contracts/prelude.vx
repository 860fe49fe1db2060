//@ include prelude_base.vx
broadcast use vx_axioms::axiom_iter_mut_has_resolved;
