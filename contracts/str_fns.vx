//@ fn empty_line ret r
    ensures @tok(sp_empty_line)@ r matches Ok(s) ==> s@ =~= seq!['\n'],
//@ body #0
    @run(sp_wsx0|vx_s0)@
//@ ens #0
    vx_err0 is None, input.pos() == sp_wsx0(input.text(), vx_s0.pos()),
//@ hint `Ok("\n")` before
    proof { reveal_strlit("\n"); }
//@ end
//@ fn quoted_string_terminator ret r
    ensures @any()@ final(input).nerr() == old(input).nerr(),
//@ end
//@ fn quoted_string_badval ret r
    ensures @any()@ final(input).nerr() == old(input).nerr(),
//@ inv #0
    input.nerr() == old(input).nerr(),
//@ end
//@ fn raw_string_badval ret r
    ensures @any()@ final(input).nerr() == old(input).nerr(),
//@ inv #0
    input.nerr() == old(input).nerr(),
//@ end
//@ fn quoted_string ret r
//@ attr #[verifier::rlimit(60)] // isolate
    ensures @adv()@ @tok(sp_quoted)@ r matches Ok(v) ==> v matches KdlValue::String(s) && s@ =~= sv_quoted(old(input).text(), old(input).pos()),
//@ body #0
    @run(sp_mlscan|vx_s0)@
//@ ens #0
    vx_end0 is Some ==> sp_mlscan(input.text(), vx_s0.pos()) == Out::Ok(input.pos()), vx_err0 is Some ==> !(sp_mlscan(input.text(), vx_s0.pos()) is Ok),
//@ body #1
    @run(sp_wsx0|vx_s1)@
//@ ens #1
    vx_err1 is None, input.pos() == sp_wsx0(input.text(), vx_s1.pos()),
//@ body #2
    @run(sp_mlchars|vx_s2)@
//@ ens #2
    vx_err2 is None ==> sp_mlchars(input.text(), vx_s2.pos()) == Out::Ok(input.pos()), vx_err2 is Some ==> !(sp_mlchars(input.text(), vx_s2.pos()) is Ok),
//@ body #3
    @run(sp_wsx0|vx_s3)@ vx_acc3@ + sv_wsx0(input.text(), input.pos()) =~= sv_wsx0(input.text(), vx_s3.pos()),
//@ at #3 item
    proof { reveal_strlit(""); assert(vx_item3@ =~= (if is1(input.text(), vx_i3.pos(), '\\') { seq![] } else { seq![input.text()[vx_i3.pos()]] })); }
//@ ens #3
    vx_err3 is None, input.pos() == sp_wsx0(input.text(), vx_s3.pos()), vx_acc3@ =~= sv_wsx0(input.text(), vx_s3.pos()),
//@ body #4
    @run2(sp_mlbody|vx_s4|prefix@)@ joined(vx_acc4@) + sv_mlbody(input.text(), input.pos(), prefix@) =~= sv_mlbody(input.text(), vx_s4.pos(), prefix@),
//@ inv #4
    joined(vx_acc4@).len() > 0 ==> joined(vx_acc4@).last() == '\n',
//@ ens #4
    vx_end4 is Some ==> sp_mlbody(input.text(), vx_s4.pos(), prefix@) == Out::Ok(input.pos()) && joined(vx_acc4@) =~= sv_mlbody(input.text(), vx_s4.pos(), prefix@),
    vx_err4 is Some ==> !(sp_mlbody(input.text(), vx_s4.pos(), prefix@) is Ok),
//@ body #5
    @run(sp_wsesc0|vx_s5)@
//@ ens #5
    vx_err5 is None, input.pos() == sp_wsesc0(input.text(), vx_s5.pos()),
//@ body #6
    @run(sp_mlrest|vx_s6)@ flat(vx_acc6@) + sv_mlrest(input.text(), input.pos()) =~= sv_mlrest(input.text(), vx_s6.pos()),
//@ ens #6
    vx_end6 is Some ==> sp_mlrest(input.text(), vx_s6.pos()) == Out::Ok(input.pos()) && flat(vx_acc6@).push('\n') =~= sv_mlrest(input.text(), vx_s6.pos()),
    vx_err6 is Some ==> !(sp_mlrest(input.text(), vx_s6.pos()) is Ok),
//@ body #7
    @run(sp_sl|vx_s7)@ flat(vx_acc7@) + sv_sl(input.text(), input.pos()) =~= sv_sl(input.text(), vx_s7.pos()),
//@ ens #7
    vx_end7 is Some ==> sp_sl(input.text(), vx_s7.pos()) == Out::Ok(input.pos()) && flat(vx_acc7@) =~= sv_sl(input.text(), vx_s7.pos()),
    vx_err7 is Some ==> !(sp_sl(input.text(), vx_s7.pos()) is Ok),
//@ end
//@ fn raw_string ret r
//@ attr #[verifier::rlimit(60)] // isolate
    ensures @adv()@ @tok(sp_raw)@ r matches Ok(v) ==> v matches KdlValue::String(s) && s@ =~= sv_raw(old(input).text(), old(input).pos()),
//@ inv #0
    vx_acc0@ =~= subs(input.text(), vx_s0.pos(), input.pos()),
//@ body #0
    @run(hash_end|vx_s0)@
//@ ens #0
    vx_err0 is None, input.pos() == hash_end(input.text(), vx_s0.pos()),
//@ body #1
    @run2(sp_rscan|vx_s1|hashes@)@
//@ ens #1
    vx_end1 is Some ==> sp_rscan(input.text(), vx_s1.pos(), hashes@) == Out::Ok(input.pos()), vx_err1 is Some ==> sp_rscan(input.text(), vx_s1.pos(), hashes@) is Bt && vx_err1->Some_0 is Backtrack,
//@ body #2
    @run(uspace_end|vx_s2)@
//@ ens #2
    vx_err2 is None, input.pos() == uspace_end(input.text(), vx_s2.pos()),
//@ body #3
    @run2(rchars|vx_s3|hashes@)@
//@ ens #3
    vx_err3 is None, input.pos() == rchars(input.text(), vx_s3.pos(), hashes@),
//@ body #4
    @run(uspace_end|vx_s4)@
//@ ens #4
    vx_err4 is None, input.pos() == uspace_end(input.text(), vx_s4.pos()),
//@ body #5
    @run3(sp_rbody|vx_s5|prefix@|hashes@)@ joined(vx_acc5@) + sv_rbody(input.text(), input.pos(), prefix@, hashes@) =~= sv_rbody(input.text(), vx_s5.pos(), prefix@, hashes@),
//@ inv #5
    joined(vx_acc5@).len() > 0 ==> joined(vx_acc5@).last() == '\n',
//@ ens #5
    vx_end5 is Some ==> sp_rbody(input.text(), vx_s5.pos(), prefix@, hashes@) == Out::Ok(input.pos()) && joined(vx_acc5@) =~= sv_rbody(input.text(), vx_s5.pos(), prefix@, hashes@),
    vx_err5 is Some ==> (match vx_err5->Some_0 { ErrMode::Backtrack(_) => sp_rbody(input.text(), vx_s5.pos(), prefix@, hashes@) is Bt, ErrMode::Cut(_) => sp_rbody(input.text(), vx_s5.pos(), prefix@, hashes@) is Cut }),
//@ body #6
    @run(uspace_end|vx_s6)@
//@ ens #6
    vx_err6 is None, input.pos() == uspace_end(input.text(), vx_s6.pos()),
//@ body #7
    @run2(sp_rrest|vx_s7|hashes@)@ joined(vx_acc7@) + sv_rrest(input.text(), input.pos(), hashes@) =~= sv_rrest(input.text(), vx_s7.pos(), hashes@),
//@ at #7 item
    proof { assert(vx_item7@ =~= seq![input.text()[vx_i7.pos()]]); }
//@ ens #7
    vx_end7 is Some ==> sp_rrest(input.text(), vx_s7.pos(), hashes@) == Out::Ok(input.pos()) && joined(vx_acc7@).push('\n') =~= sv_rrest(input.text(), vx_s7.pos(), hashes@),
    vx_err7 is Some ==> sp_rrest(input.text(), vx_s7.pos(), hashes@) is Bt && vx_err7->Some_0 is Backtrack,
//@ body #8
    @run2(sp_rsl|vx_s8|hashes@)@
//@ inv #8
    vx_acc8@ =~= subs(input.text(), vx_s8.pos(), input.pos()),
//@ ens #8
    vx_end8 is Some ==> sp_rsl(input.text(), vx_s8.pos(), hashes@) == Out::Ok(input.pos()), vx_err8 is Some ==> sp_rsl(input.text(), vx_s8.pos(), hashes@) is Bt && vx_err8->Some_0 is Backtrack,
//@ end
//@ fn string ret r
    ensures @rec(sp_string)@ r is Ok ==> final(input).pos() > old(input).pos(),
        r matches Ok(Some(v)) ==> final(input).nerr() == old(input).nerr() && (v matches KdlValue::String(s) && s@ =~= sv_string(old(input).text(), old(input).pos())),
        r matches Ok(None) ==> final(input).nerr() > old(input).nerr(),
//@ end
