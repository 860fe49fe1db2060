//@ fn keyword ret r
    ensures @tok(sp_keyword)@ r matches Ok(v) ==> Some(v) == kw_at(old(input).text(), old(input).pos() + 1),
//@ end
//@ macro toks quiet(*old(input), *final(input)), out_is(r, final(input).pos(), $1::<$2>(old(input).text(), old(input).pos(), $3)), r matches Err(e) ==> err_in(old(input).text(), e),
//@ macro toks2 quiet(*old(input), *final(input)), out_is(r, final(input).pos(), $1::<$2>(old(input).text(), old(input).pos())), r matches Err(e) ==> err_in(old(input).text(), e),
//@ fn digits ret r
    ensures @tok(sp_digits)@
//@ body #1
    @run2(us_end|vx_s1|10)@
//@ ens #1
    vx_err1 is None, input.pos() == us_end(input.text(), vx_s1.pos(), 10),
//@ end
//@ fn udecimal ret r
    ensures @toks(sp_udec|T|sign@)@ r matches Ok(v) ==> Some(v) == T::of_digits(sign@ + strip(subs(old(input).text(), old(input).pos(), final(input).pos())), 10),
//@ body #1
    @run2(us_end|vx_s1|10)@
//@ inv #1
    joined(vx_acc1@) =~= subs(input.text(), vx_s1.pos(), input.pos()),
//@ ens #1
    vx_err1 is None, input.pos() == us_end(input.text(), vx_s1.pos(), 10),
//@ hint top
    proof { reveal_strlit("_"); reveal_strlit(""); assert("_"@ =~= seq!['_']); }
//@ hint `vx_fmt_done(vx_f, vx_r)` before
    proof { assert(vx_f@ =~= sign@ + (l@ + strip(joined(r@)))); }
//@ end
//@ fn decimal ret r
    ensures @toks2(sp_dec|T)@ r matches Ok(v) ==> Some(v) == sv_dec::<T>(old(input).text(), old(input).pos(), final(input).pos()),
//@ hint top
    proof { reveal_strlit("-"); reveal_strlit(""); assert("-"@ =~= seq!['-']); assert(""@ =~= seq![]); }
//@ end
//@ fn uhex ret r
//@ attr #[verifier::rlimit(40)] // isolate
    ensures quiet(*old(input), *final(input)), out_is(r, final(input).pos(), sp_urad::<T>(old(input).text(), old(input).pos(), sign@, 16, 'x', 'X', Out::Bt)), r matches Err(e) ==> err_in(old(input).text(), e),
        r matches Ok(v) ==> Some(v) == T::of_digits(sign@ + strip(subs(old(input).text(), old(input).pos() + 2, final(input).pos())), 16),
//@ body #1
    @run2(us_end|vx_s1|16)@
//@ inv #1
    joined(vx_acc1@) =~= subs(input.text(), vx_s1.pos(), input.pos()),
//@ ens #1
    vx_err1 is None, input.pos() == us_end(input.text(), vx_s1.pos(), 16),
//@ hint `vx_fmt_done(vx_f, vx_r)` before
    proof { assert(vx_f@ =~= sign@ + (l@ + strip(joined(r@)))); }
//@ hint top
    proof { reveal_strlit("_"); reveal_strlit(""); assert("_"@ =~= seq!['_']); }
//@ end
//@ fn hex ret r
    ensures quiet(*old(input), *final(input)), out_is(r, final(input).pos(), sp_rad::<T>(old(input).text(), old(input).pos(), 16, 'x', 'X', Out::Bt)), r matches Err(e) ==> err_in(old(input).text(), e),
        r matches Ok(v) ==> Some(v) == sv_rad::<T>(old(input).text(), old(input).pos(), final(input).pos(), 16),
//@ hint top
    proof { reveal_strlit("-"); reveal_strlit(""); assert("-"@ =~= seq!['-']); assert(""@ =~= seq![]); }
//@ end
//@ fn uoctal ret r
//@ attr #[verifier::rlimit(40)] // isolate
    ensures quiet(*old(input), *final(input)), out_is(r, final(input).pos(), sp_urad::<T>(old(input).text(), old(input).pos(), sign@, 8, 'o', 'O', Out::Bt)), r matches Err(e) ==> err_in(old(input).text(), e),
        r matches Ok(v) ==> Some(v) == T::of_digits(sign@ + strip(subs(old(input).text(), old(input).pos() + 2, final(input).pos())), 8),
//@ body #1
    @run2(us_end|vx_s1|8)@
//@ inv #1
    joined(vx_acc1@) =~= subs(input.text(), vx_s1.pos(), input.pos()),
//@ ens #1
    vx_err1 is None, input.pos() == us_end(input.text(), vx_s1.pos(), 8),
//@ hint `vx_fmt_done(vx_f, vx_r)` before
    proof { assert(vx_f@ =~= sign@ + (l@ + strip(joined(r@)))); }
//@ hint top
    proof { reveal_strlit("_"); reveal_strlit(""); assert("_"@ =~= seq!['_']); }
//@ end
//@ fn octal ret r
    ensures quiet(*old(input), *final(input)), out_is(r, final(input).pos(), sp_rad::<T>(old(input).text(), old(input).pos(), 8, 'o', 'O', Out::Bt)), r matches Err(e) ==> err_in(old(input).text(), e),
        r matches Ok(v) ==> Some(v) == sv_rad::<T>(old(input).text(), old(input).pos(), final(input).pos(), 8),
//@ hint top
    proof { reveal_strlit("-"); reveal_strlit(""); assert("-"@ =~= seq!['-']); assert(""@ =~= seq![]); }
//@ end
//@ fn ubinary ret r
//@ attr #[verifier::rlimit(40)]
    ensures quiet(*old(input), *final(input)), out_is(r, final(input).pos(), sp_urad::<T>(old(input).text(), old(input).pos(), sign@, 2, 'b', 'B', Out::Cut)), r matches Err(e) ==> err_in(old(input).text(), e),
        r matches Ok(v) ==> Some(v) == T::of_digits(sign@ + strip(subs(old(input).text(), old(input).pos() + 2, final(input).pos())), 2),
//@ body #0
    @run2(us_end|vx_s0|2)@
//@ inv #0
    joined(vx_acc0@) =~= subs(input.text(), vx_s0.pos(), input.pos()),
//@ ens #0
    vx_err0 is None, input.pos() == us_end(input.text(), vx_s0.pos(), 2),
//@ hint `vx_fmt_done(vx_f, vx_r)` before
    proof { assert(vx_f@ =~= sign@ + (x@ + strip(joined(xs@)))); lemma_strip_one(input.text(), old(input).pos() + 2, input.pos()); assert(x@ =~= seq![input.text()[old(input).pos() + 2]]); }
//@ hint top
    proof { reveal_strlit("_"); reveal_strlit(""); assert("_"@ =~= seq!['_']); }
//@ end
//@ fn binary ret r
    ensures quiet(*old(input), *final(input)), out_is(r, final(input).pos(), sp_rad::<T>(old(input).text(), old(input).pos(), 2, 'b', 'B', Out::Cut)), r matches Err(e) ==> err_in(old(input).text(), e),
        r matches Ok(v) ==> Some(v) == sv_rad::<T>(old(input).text(), old(input).pos(), final(input).pos(), 2),
//@ hint top
    proof { reveal_strlit("-"); reveal_strlit(""); assert("-"@ =~= seq!['-']); assert(""@ =~= seq![]); }
//@ end
//@ fn float ret r
    ensures @toks2(sp_float|T)@ r matches Ok(v) ==> Some(v) == T::of_float(strip(subs(old(input).text(), old(input).pos(), final(input).pos()))),
//@ hint top
    proof { reveal_strlit("_"); reveal_strlit(""); assert("_"@ =~= seq!['_']); reveal_strlit("e"); assert("_"@ =~= seq!['_']); assert("e"@ =~= seq!['e']); }
//@ end
//@ fn float_value ret r
    ensures @toks2(sp_float|f64)@ r matches Ok(v) ==> (v matches KdlValue::Float(f) && Some(f) == f64_of(strip(subs(old(input).text(), old(input).pos(), final(input).pos())))),
//@ end
//@ fn integer_value ret r
    ensures @tok(sp_int)@ r matches Ok(v) ==> (v matches KdlValue::Integer(n) && Some(n) == sv_int(old(input).text(), old(input).pos(), final(input).pos())),
//@ end
//@ fn number ret r
    ensures @tok(sp_number)@ r matches Ok(v) ==> Some(v) == sv_number(old(input).text(), old(input).pos(), final(input).pos()),
//@ end
