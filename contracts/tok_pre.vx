//@ include prelude_base.vx
//@ include types.vx
//@ include pinput.vx
//@ include lex_spec.vx
//@ include tok_spec.vx
//@ include fmtm.vx
//@ include stdm.vx
pub broadcast group group_vx { vx_in::axiom_off, vx_in::axiom_pos, vx_in::axiom_cpos, vx_lex::lemma_mlc, vx_lex::lemma_block, vx_lex::lemma_ws, vx_lex::lemma_wss, vx_lex::lemma_line, vx_lex::lemma_node_space, vx_lex::lemma_ns0, vx_std::lemma_flat, vx_std::lemma_joined, vx_tok::lemma_wsn0, vx_tok::lemma_wsesc, vx_tok::lemma_hexn, vx_tok::lemma_schar, vx_tok::lemma_ident_end, vx_tok::lemma_idstring, vx_tok::lemma_wsx0, vx_tok::lemma_wsesc0, vx_tok::lemma_mlchars, vx_tok::lemma_mlscan, vx_tok::lemma_mlrest, vx_tok::lemma_mlline, vx_tok::lemma_mlbody, vx_tok::lemma_sl, vx_tok::lemma_hash_end, vx_tok::lemma_uspace_end, vx_tok::lemma_rsl, vx_tok::lemma_rchars, vx_tok::lemma_rscan, vx_tok::lemma_rrest, vx_tok::lemma_rline, vx_tok::lemma_rbody, vx_tok::lemma_us_end, vx_tok::lemma_us_run10, vx_tok::lemma_us_run16, vx_tok::lemma_us_run8, vx_tok::lemma_strip_run10, vx_tok::lemma_strip_run16, vx_tok::lemma_strip_run8 }
broadcast use group_vx;
