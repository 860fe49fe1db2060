//@ include prelude_base.vx
//@ include types.vx
//@ include pinput.vx
//@ include lex_spec.vx
broadcast use {vx_in::axiom_off, vx_in::axiom_pos, vx_in::axiom_cpos, vx_lex::lemma_mlc, vx_lex::lemma_block, vx_lex::lemma_ws, vx_lex::lemma_wss, vx_lex::lemma_line, vx_lex::lemma_node_space, vx_lex::lemma_ns0};
//@ include lex_fns.vx
} // verus!
fn main() {}
