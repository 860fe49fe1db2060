//@ macro rec adv(*old(input), *final(input)), outs(r, *old(input), *final(input), $1(old(input).text(), old(input).pos())), r matches Err(e) ==> err_in(old(input).text(), e),
//@ macro adv !is_bt(r) ==> final(input).pos() > old(input).pos(),
//@ macro any adv(*old(input), *final(input)), r matches Err(e) ==> err_in(old(input).text(), e),
//@ source src/v2_parser.rs
//@ comb on
//@ rewrite `u32::from_str_radix` => `vx_u32_from_hex`
//@ rewrite `char::from_u32` => `vx_char_from_u32`
//@ rewrite `quotes.len()` => `vx_byte_len(quotes)`
//@ rewrite `$x.into_iter().flatten().chain(vec!['\n']).collect::<String>()` => `vx_flat_string_then($x, '\n')`
//@ rewrite `$x.into_iter().flatten().collect::<String>()` => `vx_flat_string($x)`
//@ rewrite `format!("{}\n", $x.join(""))` => `vx_line(vx_join(&$x))`
//@ rewrite `$x.join("")` => `vx_join(&$x)`
//@ rewrite `s.truncate(s.len().saturating_sub(1))` => `vx_drop_last_byte(&mut s)`
//@ rewrite `s.to_string()` => `vx_string(s)`
//@ rewrite `f64::NAN` => `vx_f64_nan()`
//@ rewrite `f64::INFINITY` => `vx_f64_inf()`
//@ rewrite `f64::NEG_INFINITY` => `vx_f64_neg_inf()`
//@ rewrite `str::replace` => `vx_replace`
//@ rewrite `body == "\""` => `vx_str_is(body.as_str(), "\"")`
//@ fn is_disallowed_unicode ret r
    ensures r == disallowed(c),
//@ end
//@ fn disallowed_unicode ret r
    ensures quiet(*old(input), *final(input)), r matches Err(e) ==> err_in(old(input).text(), e),
        r is Ok <==> old(input).pos() < old(input).text().len() && disallowed(old(input).text()[old(input).pos()]), r is Err ==> is_bt(r),
//@ end
//@ fn equals_sign ret r
    ensures quiet(*old(input), *final(input)), r matches Err(e) ==> err_in(old(input).text(), e), r is Err ==> is_bt(r),
        r is Ok <==> is1(old(input).text(), old(input).pos(), '='), r is Ok ==> final(input).pos() == old(input).pos() + 1,
//@ end
//@ fn identifier_char ret r
    ensures @tok(sp_identchar)@ r matches Ok(c) ==> c == old(input).text()[old(input).pos()],
//@ end
//@ fn signum ret r
    ensures quiet(*old(input), *final(input)), r is Ok, final(input).pos() == sign_end(old(input).text(), old(input).pos()),
        r->Ok_0 == !is1(old(input).text(), old(input).pos(), '-'),
//@ end
//@ fn value_terminator ret r
    ensures @tok(sp_vterm)@
//@ end
//@ fn value_terminator_check ret r
    ensures @tok(sp_vtc)@
//@ end
//@ fn badval ret r
    ensures @any()@ r is Ok ==> final(input).pos() > old(input).pos(), final(input).nerr() == old(input).nerr(),
//@ inv #0
    input.pos() > vx_s0.pos(), input.nerr() == old(input).nerr(),
//@ end
//@ fn unambiguous_ident ret r
    ensures @tok(sp_unambiguous)@
//@ inv #1
    vx_acc1@ =~= subs(input.text(), old(input).pos(), input.pos()), ident_end(input.text(), old(input).pos()) == ident_end(input.text(), input.pos()),
//@ ens #1
    vx_err1 is None, input.pos() == ident_end(input.text(), old(input).pos()),
//@ end
//@ fn signed_ident ret r
    ensures @tok(sp_signed)@
//@ inv #1
    ident_end(input.text(), vx_s1.pos()) == ident_end(input.text(), input.pos()),
//@ ens #1
    vx_err1 is None, input.pos() == ident_end(input.text(), vx_s1.pos()),
//@ end
//@ fn dotted_ident ret r
    ensures @tok(sp_dotted)@
//@ inv #1
    ident_end(input.text(), vx_s1.pos()) == ident_end(input.text(), input.pos()),
//@ ens #1
    vx_err1 is None, input.pos() == ident_end(input.text(), vx_s1.pos()),
//@ end
//@ fn identifier_string ret r
    ensures @tok(sp_idstring)@ r matches Ok(v) ==> v matches KdlValue::String(s) && s@ == subs(old(input).text(), old(input).pos(), final(input).pos()),
//@ end
//@ macro run $1(input.text(), $2.pos()) == $1(input.text(), input.pos()),
//@ macro run2 $1(input.text(), $2.pos(), $3) == $1(input.text(), input.pos(), $3),
//@ macro run3 $1(input.text(), $2.pos(), $3, $4) == $1(input.text(), input.pos(), $3, $4),
//@ fn ws_escape ret r
    ensures @tok(sp_wsesc)@
//@ inv #0
    sp_wsn(input.text(), vx_s0.pos()) is Ok,
//@ body #0
    sp_wsn0(input.text(), sp_wsn(input.text(), vx_s0.pos())->Ok_0) == sp_wsn0(input.text(), input.pos()),
//@ ens #0
    vx_err0 is None, input.pos() == sp_wsn0(input.text(), sp_wsn(input.text(), vx_s0.pos())->Ok_0),
//@ end
//@ fn escaped_char ret r
    ensures @tok(sp_esc)@ r matches Ok(c) ==> c as int == sv_esc(old(input).text(), old(input).pos()),
//@ end
//@ fn string_char ret r
    ensures @tok(sp_schar)@ r matches Ok(c) ==> c == sv_schar(old(input).text(), old(input).pos()),
//@ end
