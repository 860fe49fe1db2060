//@ macro tok quiet(*old(input), *final(input)), out_is(r, final(input).pos(), $1(old(input).text(), old(input).pos())), r matches Err(e) ==> err_in(old(input).text(), e),
//@ source src/v2_parser.rs
//@ comb on
//@ fn newline ret r
    ensures @tok(sp_newline)@
//@ end
//@ fn unicode_space ret r
    ensures @tok(sp_uspace)@
//@ end
//@ fn multi_line_comment ret r
    ensures @tok(sp_mlc)@
    decreases old(input).text().len() - old(input).pos(), 0int,
//@ end
//@ fn commented_block ret r
    ensures @tok(sp_block)@
    decreases old(input).text().len() - old(input).pos(), 1int,
//@ inv #0
    input.same(*old(input)),
//@ body #0
    sp_block(input.text(), old(input).pos()) == sp_block(input.text(), input.pos()),
//@ ens #0
    vx_err0 matches Some(e) ==> (e is Cut <==> sp_block(input.text(), old(input).pos()) is Cut) && (e is Backtrack <==> sp_block(input.text(), old(input).pos()) is Bt), vx_end0 is Some ==> sp_block(input.text(), old(input).pos()) == Out::Ok(input.pos()),
//@ end
//@ fn ws ret r
    ensures @tok(sp_ws)@
//@ end
//@ fn wss ret r
    ensures @tok(sp_wss)@
//@ inv #0
    input.same(*old(input)),
//@ body #0
    sp_wss(input.text(), old(input).pos()) == sp_wss(input.text(), input.pos()),
//@ ens #0
    vx_err0 is None ==> sp_wss(input.text(), old(input).pos()) == sp_wss(input.text(), input.pos()),
    vx_err0 matches Some(e) ==> e is Cut && sp_wss(input.text(), old(input).pos()) is Cut,
//@ end
//@ fn wsp ret r
    ensures @tok(sp_wsp)@
//@ inv #0
    input.same(*old(input)),
//@ body #0
    sp_wsp(input.text(), old(input).pos()) == sp_wss(input.text(), input.pos()),
//@ ens #0
    vx_err0 is None ==> sp_wsp(input.text(), old(input).pos()) == sp_wss(input.text(), input.pos()),
    vx_err0 matches Some(e) ==> e is Cut && sp_wsp(input.text(), old(input).pos()) is Cut,
//@ end
//@ fn single_line_comment ret r
    ensures @tok(sp_slc)@
//@ inv #0
    input.same(*old(input)), is2(input.text(), old(input).pos(), '/', '/'), 
//@ body #0
    sp_line(input.text(), old(input).pos() + 2) == sp_line(input.text(), input.pos()),
//@ ens #0
    vx_err0 is None, sp_line(input.text(), old(input).pos() + 2) == Out::Ok(input.pos()),
//@ end
//@ fn escline ret r
    ensures @tok(sp_escline)@
//@ end
//@ fn node_space ret r
    ensures @tok(sp_node_space)@
//@ end
//@ fn node_space0 ret r
    ensures @tok(sp_ns0)@
//@ inv #0
    input.same(*old(input)),
//@ body #0
    sp_ns0(input.text(), old(input).pos()) == sp_ns0(input.text(), input.pos()),
//@ ens #0
    vx_err0 is None ==> sp_ns0(input.text(), old(input).pos()) == sp_ns0(input.text(), input.pos()),
    vx_err0 matches Some(e) ==> e is Cut && sp_ns0(input.text(), old(input).pos()) is Cut,
//@ end
//@ fn node_space1 ret r
    ensures @tok(sp_ns1)@
//@ inv #0
    input.same(*old(input)),
//@ body #0
    sp_ns1(input.text(), old(input).pos()) == sp_ns0(input.text(), input.pos()),
//@ ens #0
    vx_err0 is None ==> sp_ns1(input.text(), old(input).pos()) == sp_ns0(input.text(), input.pos()),
    vx_err0 matches Some(e) ==> e is Cut && sp_ns1(input.text(), old(input).pos()) is Cut,
//@ end
//@ fn line_space ret r
    ensures @tok(sp_line_space)@
//@ end
//@ fn node_terminator ret r
    ensures @tok(sp_terminator)@
//@ end
