// ---- Reading back what the printers write: values and names (C02).
pub mod vx_read {
use super::*;
// ---- assumed of the standard library: {:?} of a finite f64 is a decimal numeral
// that parses as that f64
pub open spec fn decs(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> dec(#[trigger] s[k]) }
pub struct FText { pub sign: Seq<char>, pub whole: Seq<char>, pub frac: Seq<char>, pub exp: Seq<char> }
pub open spec fn opt_sign(s: Seq<char>) -> bool { s.len() == 0 || s =~= seq!['-'] }
pub open spec fn f_dot(p: FText) -> Seq<char> { if p.frac.len() > 0 { seq!['.'] + p.frac } else { seq![] } }
pub open spec fn f_exp(p: FText, es: Seq<char>) -> Seq<char> { if p.exp.len() > 0 { seq!['e'] + es + p.exp } else { seq![] } }
pub open spec fn f_shape(s: Seq<char>, p: FText, es: Seq<char>) -> bool {
    &&& opt_sign(p.sign) && opt_sign(es) && decs(p.whole)
    &&& (p.frac.len() > 0 ==> decs(p.frac)) && (p.exp.len() > 0 ==> decs(p.exp)) && p.frac.len() + p.exp.len() > 0
    &&& s =~= p.sign + p.whole + f_dot(p) + f_exp(p, es)
}
pub uninterp spec fn f_parts(f: f64) -> FText;
pub uninterp spec fn f_esign(f: f64) -> Seq<char>;
pub axiom fn axiom_f64_text(f: f64)
    requires f != f64_inf(), f != f64_neg_inf(), !f64_is_nan(f),
    ensures f_shape(f64_text(f), f_parts(f), f_esign(f)), f64_of(f64_text(f)) == Some(f);

// ---- pieces of a text
pub proof fn lemma_at(t: Seq<char>, i: int, a: Seq<char>, b: Seq<char>)
    requires is_at(t, i, a + b),
    ensures is_at(t, i, a), is_at(t, i + a.len(), b),
{
    let s = a + b;
    assert forall|k: int| 0 <= k < s.len() implies t[i + k] == #[trigger] s[k] by { assert(t.subrange(i, i + s.len())[k] == t[i + k]); }
    assert(t.subrange(i, i + a.len()) =~= a) by { assert forall|k: int| 0 <= k < a.len() implies t[i + k] == a[k] by { assert(s[k] == a[k]); } }
    assert(t.subrange(i + a.len(), i + a.len() + b.len()) =~= b) by { assert forall|k: int| 0 <= k < b.len() implies t[i + a.len() + k] == b[k] by { assert(s[a.len() + k] == b[k]); } }
}
pub proof fn lemma_at_k(t: Seq<char>, i: int, a: Seq<char>, k: int)
    requires is_at(t, i, a), 0 <= k < a.len(),
    ensures t[i + k] == a[k], i + k < t.len(),
{ assert(t.subrange(i, i + a.len())[k] == t[i + k]); }
pub proof fn lemma_at_same(t: Seq<char>, i: int, a: Seq<char>, k: int, j: int)
    requires is_at(t, i, a), 0 <= k <= j <= a.len(),
    ensures subs(t, i + k, i + j) == a.subrange(k, j),
{ assert(t.subrange(i, i + a.len()).subrange(k, j) =~= a.subrange(k, j)); assert(subs(t, i + k, i + j) =~= t.subrange(i, i + a.len()).subrange(k, j)); }
// what follows a value cannot belong to it
pub open spec fn stops(t: Seq<char>, j: int) -> bool { j == t.len() || 0 <= j < t.len() && !identchar(t[j]) && t[j] != '"' && t[j] != '#' && t[j] != '(' }
pub proof fn lemma_wss_stops(t: Seq<char>, j: int)
    requires 0 <= j <= t.len(),
    ensures sp_wss(t, j) matches Out::Ok(k) ==> k == j || stops(t, j), sp_ws(t, j) is Ok ==> stops(t, j),
{ if sp_ws(t, j) is Ok { if sp_uspace(t, j) is Ok { } else { assert(is2(t, j, '/', '*')); } } }
pub proof fn lemma_vterm_stops(t: Seq<char>, j: int)
    requires 0 <= j <= t.len(), sp_vterm(t, j) is Ok,
    ensures stops(t, j),
{
    lemma_wss_stops(t, j);
    if sp_node_space(t, j) is Ok {
        match sp_wss(t, j) { Out::Ok(k) => { if k == j { if sp_escline(t, j) is Ok { assert(is1(t, j, '\\')); } } }, _ => {} }
    }
}
// ---- plain names
pub proof fn lemma_ident_run(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), forall|k: int| i <= k < j ==> identchar(#[trigger] t[k]), stops(t, j),
    ensures ident_end(t, i) == j,
    decreases j - i,
{ if i < j { lemma_ident_run(t, i + 1, j) } }
pub proof fn lemma_plain(t: Seq<char>, i: int, s: Seq<char>)
    requires is_at(t, i, s), s.len() > 0, plain(s), sp_vterm(t, i + s.len()) is Ok,
    ensures sp_idstring(t, i) == Out::Ok(i + s.len()), sp_string(t, i) == Out::Ok(i + s.len()), sv_string(t, i) == s, sp_number(t, i) is Bt, sp_keyword(t, i) is Bt,
{
    let j = i + s.len();
    lemma_vterm_stops(t, j);
    assert forall|k: int| i <= k < j implies identchar(#[trigger] t[k]) by { lemma_at_k(t, i, s, k - i); assert(identchar(s[k - i])); }
    assert(identchar(t[i]));
    lemma_at_k(t, i, s, 0);
    if s.len() > 1 { lemma_at_k(t, i, s, 1); }
    if s.len() > 2 { lemma_at_k(t, i, s, 2); }
    lemma_ident_run(t, i, j);
    lemma_ident_run(t, i + 1, j);
    if s.len() > 1 { lemma_ident_run(t, i + 2, j); }
    assert(subs(t, i, j) =~= s);
    assert(t[i] != '#');
}
// ---- numerals
pub proof fn lemma_digits(n: int, radix: int)
    requires n >= 0, radix == 10 || radix == 16,
    ensures digits_of(n, radix).len() > 0, forall|k: int| 0 <= k < digits_of(n, radix).len() ==> is_digit(#[trigger] digits_of(n, radix)[k], radix), num_val(digits_of(n, radix), radix) == n,
    decreases n,
{
    let d = digits_of(n, radix);
    if n < radix {
        assert(d =~= seq![hexdig(n)]);
        assert(d.drop_last() =~= seq![]);
        assert(num_val(d.drop_last(), radix) == 0);
        assert(num_val(d, radix) == digit_val(d.last()));
    } else {
        assert(0 <= n / radix < n && n == (n / radix) * radix + n % radix && 0 <= n % radix < radix) by (nonlinear_arith) requires n >= radix, radix >= 2;
        lemma_digits(n / radix, radix);
        let e = digits_of(n / radix, radix);
        assert(d == e.push(hexdig(n % radix)));
        assert(d.drop_last() =~= e);
        assert forall|k: int| 0 <= k < d.len() implies is_digit(#[trigger] d[k], radix) by { if k < e.len() { assert(d[k] == e[k]); } }
    }
}
pub open spec fn pow16(k: nat) -> int
    decreases k,
{ if k == 0 { 1 } else { 16 * pow16((k - 1) as nat) } }
pub proof fn lemma_hex_len(n: int, k: nat)
    requires 0 <= n < pow16(k), k > 0,
    ensures digits_of(n, 16).len() <= k,
    decreases k,
{
    if n >= 16 {
        if k == 1 { assert(pow16(1) == 16 * pow16(0)); }
        assert(n / 16 < pow16((k - 1) as nat)) by (nonlinear_arith) requires n < 16 * pow16((k - 1) as nat), n >= 0;
        lemma_hex_len(n / 16, (k - 1) as nat);
    }
}
// ---- characters of a quoted string
pub proof fn lemma_hex_run(t: Seq<char>, i: int, j: int, n: int)
    requires 0 <= i <= j <= t.len(), j - i <= n, forall|k: int| i <= k < j ==> sp_is_hex_digit(#[trigger] t[k]), j == t.len() || !sp_is_hex_digit(t[j]),
    ensures runn_is_hex_digit(t, i, n) == j,
    decreases j - i,
{ if i < j { lemma_hex_run(t, i + 1, j, n - 1) } }
pub proof fn lemma_char(t: Seq<char>, i: int, c: char)
    requires is_at(t, i, pr_char(c)),
    ensures pr_char(c).len() > 0, sp_schar(t, i) == Out::Ok(i + pr_char(c).len()), sv_schar(t, i) == c, !is1(t, i, '"'), !(sp_newline(t, i) is Ok), sp_wsesc(t, i) is Bt,
{
    let p = pr_char(c);
    if p.len() > 0 { lemma_at_k(t, i, p, 0); }
    if p.len() > 1 { lemma_at_k(t, i, p, 1); }
    let simple = c == '\\' || c == '"' || c == '\n' || c == '\r' || c == '\t' || c == '\u{8}' || c == '\u{c}';
    if simple {
        assert(p.len() == 2);
        assert(!(sp_wsn(t, i + 1) is Ok));
    } else if disallowed(c) || nlchar(c) {
        let d = digits_of(c as u32 as int, 16);
        lemma_digits(c as u32 as int, 16);
        assert(pow16(6) == 16777216) by (compute);
        lemma_hex_len(c as u32 as int, 6);
        assert(p == seq!['\\', 'u', '{'] + d + seq!['}']);
        assert(p.len() == d.len() + 4);
        let e = i + 3 + d.len();
        assert forall|k: int| i + 3 <= k < e implies sp_is_hex_digit(#[trigger] t[k]) by { lemma_at_k(t, i, p, k - i); assert(p[k - i] == d[k - i - 3]); assert(is_digit(d[k - i - 3], 16)); }
        lemma_at_k(t, i, p, 2);
        lemma_at_k(t, i, p, 3 + d.len() as int);
        assert(t[e] == '}');
        lemma_hex_run(t, i + 3, e, 6);
        lemma_at_same(t, i, p, 3, 3 + d.len() as int);
        assert(p.subrange(3, 3 + d.len() as int) =~= d);
        assert(subs(t, i + 3, e) == d);
        assert(is_scalar(c as u32 as int));
        assert(sp_esc(t, i) == Out::Ok(e + 1));
        assert(sv_esc(t, i) == c as u32 as int);
    } else {
        assert(p =~= seq![c]);
    }
}
pub proof fn lemma_chars_first(s: Seq<char>)
    requires s.len() > 0,
    ensures pr_chars(s) == pr_char(s[0]) + pr_chars(s.subrange(1, s.len() as int)),
    decreases s.len(),
{
    let r = s.subrange(1, s.len() as int);
    if s.len() == 1 { assert(s.drop_last() =~= seq![]); assert(r =~= seq![]); assert(pr_chars(s.drop_last()) =~= seq![]); assert(pr_chars(r) =~= seq![]); assert(pr_char(s[0]) + Seq::<char>::empty() =~= pr_char(s[0])); assert(Seq::<char>::empty() + pr_char(s[0]) =~= pr_char(s[0])); }
    else {
        lemma_chars_first(s.drop_last());
        assert(s.drop_last().subrange(1, s.len() - 1) =~= r.drop_last());
        assert(s.drop_last()[0] == s[0]);
        assert(r.last() == s.last());
        assert((pr_char(s[0]) + pr_chars(r.drop_last())) + pr_char(s.last()) =~= pr_char(s[0]) + (pr_chars(r.drop_last()) + pr_char(s.last())));
    }
}
pub proof fn lemma_sl_reads(t: Seq<char>, i: int, s: Seq<char>)
    requires is_at(t, i, pr_chars(s) + seq!['"']),
    ensures sp_sl(t, i) == Out::Ok(i + pr_chars(s).len()), sv_sl(t, i) == s,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(pr_chars(s) + seq!['"'] =~= seq!['"']);
        lemma_at_k(t, i, pr_chars(s) + seq!['"'], 0);
        assert(s =~= seq![]);
    } else {
        let r = s.subrange(1, s.len() as int);
        let p = pr_char(s[0]);
        lemma_chars_first(s);
        assert(pr_chars(s) + seq!['"'] =~= p + (pr_chars(r) + seq!['"']));
        lemma_at(t, i, p, pr_chars(r) + seq!['"']);
        lemma_char(t, i, s[0]);
        lemma_sl_reads(t, i + p.len(), r);
        assert(seq![s[0]] + r =~= s);
    }
}
pub proof fn lemma_quoted(t: Seq<char>, i: int, s: Seq<char>)
    requires is_at(t, i, seq!['"'] + pr_chars(s) + seq!['"']), sp_vterm(t, i + pr_chars(s).len() + 2) is Ok,
    ensures sp_string(t, i) == Out::Ok(i + pr_chars(s).len() + 2), sv_string(t, i) == s, sp_number(t, i) is Bt, sp_keyword(t, i) is Bt,
{
    let p = pr_chars(s) + seq!['"'];
    let j = i + pr_chars(s).len() + 2;
    lemma_vterm_stops(t, j);
    assert(seq!['"'] + pr_chars(s) + seq!['"'] =~= seq!['"'] + p);
    lemma_at(t, i, seq!['"'], p);
    lemma_at_k(t, i, seq!['"'], 0);
    lemma_sl_reads(t, i + 1, s);
    if s.len() == 0 { assert(pr_chars(s).len() == 0); assert(!is3(t, i, '"', '"', '"')); }
    else { lemma_chars_first(s); assert(pr_chars(s) + seq!['"'] =~= pr_char(s[0]) + (pr_chars(s.subrange(1, s.len() as int)) + seq!['"'])); lemma_at(t, i + 1, pr_char(s[0]), pr_chars(s.subrange(1, s.len() as int)) + seq!['"']); lemma_char(t, i + 1, s[0]); }
}
// a name, or the text of a string
pub proof fn lemma_string_reads(t: Seq<char>, i: int, s: Seq<char>)
    requires is_at(t, i, pr_string(s)), sp_vterm(t, i + pr_string(s).len()) is Ok,
    ensures sp_string(t, i) == Out::Ok(i + pr_string(s).len()), sv_string(t, i) == s, sp_number(t, i) is Bt, sp_keyword(t, i) is Bt,
{ if s.len() > 0 && plain(s) { lemma_plain(t, i, s); } else { lemma_quoted(t, i, s); } }
// ---- numbers
pub proof fn lemma_us_run(t: Seq<char>, i: int, j: int, radix: int)
    requires 0 <= i <= j <= t.len(), forall|k: int| i <= k < j ==> is_digit(#[trigger] t[k], radix), j == t.len() || t[j] != '_' && !is_digit(t[j], radix),
    ensures us_end(t, i, radix) == j,
    decreases j - i,
{ if i < j { lemma_us_run(t, i + 1, j, radix) } }
// decimal digits between i and j
pub open spec fn decs_at(t: Seq<char>, i: int, j: int) -> bool { 0 <= i < j <= t.len() && forall|k: int| i <= k < j ==> dec(#[trigger] t[k]) }
pub proof fn lemma_decs(t: Seq<char>, i: int, d: Seq<char>)
    requires is_at(t, i, d), decs(d),
    ensures decs_at(t, i, i + d.len()),
{ assert forall|k: int| i <= k < i + d.len() implies dec(#[trigger] t[k]) by { lemma_at_k(t, i, d, k - i); assert(dec(d[k - i])); } }
pub proof fn lemma_digs_end(t: Seq<char>, i: int, j: int)
    requires decs_at(t, i, j), j == t.len() || t[j] != '_' && !dec(t[j]),
    ensures sp_digits(t, i) == Out::Ok(j), strip(subs(t, i, j)) == subs(t, i, j),
{
    assert(dec(t[i]));
    assert forall|k: int| i + 1 <= k < j implies is_digit(#[trigger] t[k], 10) by { assert(dec(t[k])); }
    lemma_us_run(t, i + 1, j, 10);
    assert forall|k: int| 0 <= k < subs(t, i, j).len() implies subs(t, i, j)[k] != '_' by { assert(dec(t[i + k])); }
    lemma_strip_digits(subs(t, i, j));
}
pub proof fn lemma_int(t: Seq<char>, i: int, n: i128)
    requires is_at(t, i, pr_int(n as int)), sp_vterm(t, i + pr_int(n as int).len()) is Ok,
    ensures ({ let j = i + pr_int(n as int).len(); sp_number(t, i) == Out::Ok(j) && sv_number(t, i, j) == Some(KdlValue::Integer(n)) }), sp_keyword(t, i) is Bt, sp_string(t, i) is Bt,
{
    let j = i + pr_int(n as int).len();
    let m = if n < 0 { -(n as int) } else { n as int };
    let d = digits_of(m, 10);
    let sg = if n < 0 { seq!['-'] } else { Seq::<char>::empty() };
    assert(pr_int(n as int) =~= sg + d);
    lemma_vterm_stops(t, j);
    lemma_digits(m, 10);
    lemma_at(t, i, sg, d);
    let k = i + sg.len();
    if n < 0 { lemma_at_k(t, i, sg, 0); }
    assert(decs(d)) by { assert forall|x: int| 0 <= x < d.len() implies dec(#[trigger] d[x]) by { assert(is_digit(d[x], 10)); } }
    lemma_decs(t, k, d);
    assert(dec(t[k]));
    assert(sign_end(t, i) == k);
    lemma_digs_end(t, k, j);
    assert(k + 1 == j || dec(t[k + 1]));
    assert(sp_frac(t, j) == Out::Ok(j));
    assert(sp_float_e(t, i) is Bt);
    assert(sp_float_p(t, i) is Bt);
    assert(sp_float::<f64>(t, i) is Bt);
    assert(sp_hex(t, i) is Bt && sp_oct(t, i) is Bt && sp_bin(t, i) is Bt);
    lemma_at_same(t, k, d, 0, d.len() as int);
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(subs(t, k, j) == d);
    assert(minus(t, i) =~= sg);
    let x = minus(t, i) + strip(subs(t, k, j));
    assert(x =~= sg + d);
    assert(!(d[0] == '-') && !(d[0] == '+')) by { assert(dec(d[0])); }
    assert(all_digits(d, 10));
    if n < 0 { assert(x.subrange(1, x.len() as int) =~= d); assert(x[0] == '-'); } else { assert(x =~= d); }
    assert(signed_val(x, 10) == Some(n as int));
    assert(sp_dec::<i128>(t, i) == Out::Ok(j));
}
// sign? digits ('.' digits)? ('e' sign? digits)?, by positions
pub proof fn lemma_float_at(t: Seq<char>, i: int, w: int, fr: int, e: int, j: int)
    requires stops(t, j), decs_at(t, sign_end(t, i), w), 0 <= i, w <= fr <= j, fr > w ==> t[w] == '.' && decs_at(t, w + 1, fr),
        j > fr ==> t[fr] == 'e' && e == sign_end(t, fr + 1) && decs_at(t, e, j), j > w,
    ensures alt2(sp_float_e(t, i), sp_float_p(t, i)) == Out::Ok(j),
{
    let k = sign_end(t, i);
    assert(j < t.len() ==> t[j] != 'e' && t[j] != 'E' && t[j] != '_' && !dec(t[j]) && t[j] != '.');
    lemma_digs_end(t, k, w);
    if fr > w { lemma_digs_end(t, w + 1, fr); }
    assert(sp_frac(t, w) == Out::Ok(fr));
    if j > fr { lemma_digs_end(t, e, j); assert(sp_float_e(t, i) == Out::Ok(j)); }
    else { assert(!is1(t, fr, 'e') && !is1(t, fr, 'E')); assert(sp_float_e(t, i) is Bt); assert(sp_float_p(t, i) == Out::Ok(j)); }
}
pub proof fn lemma_float_pos(t: Seq<char>, i: int, s: Seq<char>, p: FText, es: Seq<char>)
    requires is_at(t, i, s), f_shape(s, p, es), stops(t, i + s.len()),
    ensures ({ let k = i + p.sign.len(); let w = k + p.whole.len(); let fr = w + f_dot(p).len(); let e = fr + 1 + es.len(); let j = i + s.len();
        k == sign_end(t, i) && decs_at(t, k, w) && w <= fr <= j && j > w && (fr > w ==> t[w] == '.' && decs_at(t, w + 1, fr)) && (j > fr ==> t[fr] == 'e' && e == sign_end(t, fr + 1) && decs_at(t, e, j)
            && (forall|x: int| fr <= x < e ==> (#[trigger] t[x]) != '_')) && (p.sign.len() > 0 ==> t[i] == '-') }),
{
    let j = i + s.len();
    let (a, b) = (f_dot(p), f_exp(p, es));
    assert(s == p.sign + p.whole + a + b);
    lemma_at(t, i, p.sign + p.whole + a, b);
    lemma_at(t, i, p.sign + p.whole, a);
    lemma_at(t, i, p.sign, p.whole);
    let k = i + p.sign.len();
    if p.sign.len() > 0 { lemma_at_k(t, i, p.sign, 0); }
    lemma_decs(t, k, p.whole);
    assert(dec(t[k]));
    let w = k + p.whole.len();
    let fr = w + a.len();
    if p.frac.len() > 0 {
        lemma_at(t, w, seq!['.'], p.frac);
        lemma_at_k(t, w, seq!['.'], 0);
        lemma_decs(t, w + 1, p.frac);
    }
    if p.exp.len() > 0 {
        lemma_at(t, fr, seq!['e'] + es, p.exp);
        lemma_at(t, fr, seq!['e'], es);
        lemma_at_k(t, fr, seq!['e'], 0);
        if es.len() > 0 { lemma_at_k(t, fr + 1, es, 0); }
        lemma_decs(t, fr + 1 + es.len(), p.exp);
        assert(dec(t[fr + 1 + es.len()]));
    }
}
pub proof fn lemma_float(t: Seq<char>, i: int, f: f64)
    requires is_at(t, i, f64_text(f)), sp_vterm(t, i + f64_text(f).len()) is Ok, f != f64_inf(), f != f64_neg_inf(), !f64_is_nan(f),
    ensures ({ let j = i + f64_text(f).len(); sp_number(t, i) == Out::Ok(j) && sv_number(t, i, j) == Some(KdlValue::Float(f)) }), sp_keyword(t, i) is Bt, sp_string(t, i) is Bt,
{
    hide(sp_float_e); hide(sp_float_p); hide(sp_number); hide(strip); hide(sp_vterm); hide(sp_string); hide(sp_keyword); hide(sv_number);
    axiom_f64_text(f);
    let (p, es) = (f_parts(f), f_esign(f));
    let s = f64_text(f);
    let j = i + s.len();
    lemma_vterm_stops(t, j);
    lemma_float_pos(t, i, s, p, es);
    let k = i + p.sign.len();
    let w = k + p.whole.len(); let fr = w + f_dot(p).len(); let e = fr + 1 + es.len();
    lemma_float_at(t, i, w, fr, e, j);
    lemma_at_same(t, i, s, 0, s.len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(subs(t, i, j) == s);
    assert(dec(t[k]));
    assert(s.len() > 0);
    assert forall|x: int| 0 <= x < s.len() implies s[x] != '_' by {
        lemma_at_k(t, i, s, x);
        if i + x >= k && i + x < w { assert(dec(t[i + x])); }
        else if i + x > w && i + x < fr { assert(dec(t[i + x])); }
        else if i + x >= e && i + x < j { assert(dec(t[i + x])); }
        else if i + x == i { }
        else if i + x == w { }
        else { assert(t[i + x] != '_'); }
    }
    lemma_strip_digits(s);
    lemma_float_fin(t, i, j, f);
    lemma_number_start(t, i);
}
pub proof fn lemma_float_fin(t: Seq<char>, i: int, j: int, f: f64)
    requires alt2(sp_float_e(t, i), sp_float_p(t, i)) == Out::Ok(j), f64_of(strip(subs(t, i, j))) == Some(f), sp_vterm(t, j) is Ok,
    ensures sp_number(t, i) == Out::Ok(j), sv_number(t, i, j) == Some(KdlValue::Float(f)),
{
    hide(sp_float_e); hide(sp_float_p); hide(sp_int); hide(strip); hide(sp_vterm);
}
// what starts like a number is no string or keyword
pub proof fn lemma_number_start(t: Seq<char>, i: int)
    requires dec_at(t, sign_end(t, i)), 0 <= i < t.len(),
    ensures sp_keyword(t, i) is Bt, sp_string(t, i) is Bt,
{}
pub proof fn lemma_hash_no_string(t: Seq<char>, i: int)
    requires is1(t, i, '#'), i + 1 < t.len(), t[i + 1] != '#', t[i + 1] != '"',
    ensures sp_string(t, i) is Bt,
{ assert(hash_end(t, i + 1) == i + 1); assert(hash_end(t, i) == i + 1); }
pub open spec fn kw_pair(s: Seq<char>, v: KdlValue) -> bool {
    s =~= seq!['t', 'r', 'u', 'e'] && v == KdlValue::Bool(true) || s =~= seq!['f', 'a', 'l', 's', 'e'] && v == KdlValue::Bool(false) || s =~= seq!['n', 'u', 'l', 'l'] && v == KdlValue::Null
        || s =~= seq!['n', 'a', 'n'] && v == KdlValue::Float(f64_nan()) || s =~= seq!['i', 'n', 'f'] && v == KdlValue::Float(f64_inf()) || s =~= seq!['-', 'i', 'n', 'f'] && v == KdlValue::Float(f64_neg_inf())
}
pub proof fn lemma_not_at(t: Seq<char>, i: int, a: Seq<char>, b: Seq<char>)
    requires is_at(t, i, a), a.len() > 1, b.len() > 1, a[0] != b[0] || a[1] != b[1],
    ensures !is_at(t, i, b),
{ lemma_at_k(t, i, a, 0); lemma_at_k(t, i, a, 1); if is_at(t, i, b) { lemma_at_k(t, i, b, 0); lemma_at_k(t, i, b, 1); } }
pub proof fn lemma_kw(t: Seq<char>, i: int, s: Seq<char>, v: KdlValue)
    requires 0 <= i, is_at(t, i, seq!['#'] + s), kw_pair(s, v),
    ensures sp_keyword(t, i) == Out::Ok(i + 1 + s.len()), kw_at(t, i + 1) == Some(v), sp_string(t, i) is Bt,
{
    hide(sp_string); hide(is_at);
    let (a, b, c, d, e, f) = (seq!['t', 'r', 'u', 'e'], seq!['f', 'a', 'l', 's', 'e'], seq!['n', 'u', 'l', 'l'], seq!['n', 'a', 'n'], seq!['i', 'n', 'f'], seq!['-', 'i', 'n', 'f']);
    lemma_at(t, i, seq!['#'], s);
    lemma_at_k(t, i, seq!['#'], 0);
    lemma_at_k(t, i + 1, s, 0);
    if s =~= a { lemma_not_at(t, i + 1, s, b); lemma_not_at(t, i + 1, s, c); lemma_not_at(t, i + 1, s, d); lemma_not_at(t, i + 1, s, e); lemma_not_at(t, i + 1, s, f); }
    else if s =~= b { lemma_not_at(t, i + 1, s, a); lemma_not_at(t, i + 1, s, c); lemma_not_at(t, i + 1, s, d); lemma_not_at(t, i + 1, s, e); lemma_not_at(t, i + 1, s, f); }
    else if s =~= c { lemma_not_at(t, i + 1, s, a); lemma_not_at(t, i + 1, s, b); lemma_not_at(t, i + 1, s, d); lemma_not_at(t, i + 1, s, e); lemma_not_at(t, i + 1, s, f); }
    else if s =~= d { lemma_not_at(t, i + 1, s, a); lemma_not_at(t, i + 1, s, b); lemma_not_at(t, i + 1, s, c); lemma_not_at(t, i + 1, s, e); lemma_not_at(t, i + 1, s, f); }
    else if s =~= e { lemma_not_at(t, i + 1, s, a); lemma_not_at(t, i + 1, s, b); lemma_not_at(t, i + 1, s, c); lemma_not_at(t, i + 1, s, d); lemma_not_at(t, i + 1, s, f); }
    else { lemma_not_at(t, i + 1, s, a); lemma_not_at(t, i + 1, s, b); lemma_not_at(t, i + 1, s, c); lemma_not_at(t, i + 1, s, d); lemma_not_at(t, i + 1, s, e); }
    assert(t[i] == seq!['#'][0] && i < t.len());
    assert(t[i + 1] == s[0] && i + 1 < t.len());
    lemma_hash_no_string(t, i);
}
// The values of the text of a value: as written, all NaNs being one.
pub open spec fn norm(v: KdlValue) -> KdlValue { match v { KdlValue::Float(f) => if f != f64_inf() && f != f64_neg_inf() && f64_is_nan(f) { KdlValue::Float(f64_nan()) } else { v }, v => v } }
pub proof fn lemma_value_reads(t: Seq<char>, i: int, v: KdlValue)
    requires is_at(t, i, pr_value(v)), sp_vterm(t, i + pr_value(v).len()) is Ok,
    ensures sp_val(t, i) == Ov::Ok(i + pr_value(v).len(), sval_of(norm(v))), v is String || sp_string(t, i) is Bt, v matches KdlValue::String(s) ==> sp_string(t, i) == Out::Ok(i + pr_value(v).len()) && sv_string(t, i) == s@,
{
    hide(sp_number); hide(sp_keyword); hide(sp_string); hide(sv_string); hide(sv_number); hide(kw_at); hide(pr_string); hide(pr_int); hide(sp_vterm);
    match v {
        KdlValue::String(s) => lemma_string_reads(t, i, s@),
        KdlValue::Integer(n) => lemma_int(t, i, n),
        KdlValue::Float(f) => {
            if f == f64_inf() { assert(pr_value(v) =~= seq!['#'] + seq!['i', 'n', 'f']); lemma_kw(t, i, seq!['i', 'n', 'f'], v); }
            else if f == f64_neg_inf() { assert(pr_value(v) =~= seq!['#'] + seq!['-', 'i', 'n', 'f']); lemma_kw(t, i, seq!['-', 'i', 'n', 'f'], v); }
            else if f64_is_nan(f) { assert(pr_value(v) =~= seq!['#'] + seq!['n', 'a', 'n']); lemma_kw(t, i, seq!['n', 'a', 'n'], norm(v)); }
            else { lemma_float(t, i, f); }
        },
        KdlValue::Bool(b) => { let s = if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] }; assert(pr_value(v) =~= seq!['#'] + s); lemma_kw(t, i, s, v); },
        KdlValue::Null => { let s = seq!['n', 'u', 'l', 'l']; assert(pr_value(v) =~= seq!['#'] + s); lemma_kw(t, i, s, v); },
    }
}
}
pub use vx_read::*;
