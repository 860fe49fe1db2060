//@ include neat_spec.vx
// ---- What a document without custom formatting prints is read back as that document (C03).
pub mod vx_built {
use super::*;
use super::vx_fmt::spaces;
// nothing to skip at i
pub open spec fn solid(t: Seq<char>, i: int) -> bool { i == t.len() || 0 <= i < t.len() && !uspace(t[i]) && t[i] != '/' && t[i] != '\\' }
pub proof fn lemma_solid(t: Seq<char>, i: int)
    requires 0 <= i, solid(t, i),
    ensures sp_ws(t, i) is Bt, sp_wss(t, i) == Out::Ok(i), sp_escline(t, i) is Bt, sp_node_space(t, i) is Bt, sp_ns0(t, i) == Out::Ok(i), sp_ns1(t, i) is Bt, sp_sd(t, i) is Bt, sp_slc(t, i) is Bt,
{ assert(sp_uspace(t, i) is Bt); assert(!is2(t, i, '/', '*')); assert(!is1(t, i, '\\')); assert(sp_wsp(t, i) is Bt); }
pub open spec fn blank(t: Seq<char>, i: int, j: int) -> bool { 0 <= i <= j <= t.len() && forall|k: int| i <= k < j ==> gapchar(#[trigger] t[k]) }
pub proof fn lemma_spaces(n: int)
    requires n >= 0,
    ensures spaces(n).len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] spaces(n)[k]) == ' ',
    decreases n,
{ if n > 0 { lemma_spaces(n - 1); } }
pub proof fn lemma_blank(t: Seq<char>, i: int, n: int)
    requires n >= 0, is_at(t, i, spaces(n)),
    ensures blank(t, i, i + n),
{ lemma_spaces(n); lemma_gap_at(t, i, spaces(n)); }
pub proof fn lemma_gap_at(t: Seq<char>, i: int, s: Seq<char>)
    requires gap(s), is_at(t, i, s), 0 <= i,
    ensures blank(t, i, i + s.len()),
{ assert forall|k: int| i <= k < i + s.len() implies gapchar(#[trigger] t[k]) by { lemma_at_k(t, i, s, k - i); } }
// white space up to something solid
pub proof fn lemma_blank_wss(t: Seq<char>, i: int, j: int)
    requires blank(t, i, j), solid(t, j),
    ensures sp_wss(t, i) == Out::Ok(j),
    decreases j - i,
{ if i < j { assert(gapchar(t[i])); lemma_blank_wss(t, i + 1, j); } else { lemma_solid(t, i); } }
pub proof fn lemma_gap(t: Seq<char>, i: int, j: int)
    requires blank(t, i, j), solid(t, j), i < j,
    ensures sp_node_space(t, i) == Out::Ok(j), sp_ns0(t, i) == Out::Ok(j), sp_ns1(t, i) == Out::Ok(j),
{
    lemma_blank_wss(t, i, j); assert(gapchar(t[i])); lemma_blank_wss(t, i + 1, j); lemma_solid(t, j);
    assert(sp_ws(t, i) == Out::Ok(i + 1));
    assert(sp_wsp(t, i) == Out::Ok(j));
}
pub proof fn lemma_first(s: Seq<char>)
    ensures pr_string(s).len() > 0, ({ let c = pr_string(s)[0]; c == '"' || identchar(c) }),
{ }
pub proof fn lemma_first_value(v: KdlValue)
    ensures pr_value(v).len() > 0, ({ let c = pr_value(v)[0]; c == '"' || c == '#' || identchar(c) }),
{
    match v {
        KdlValue::String(s) => lemma_first(s@),
        KdlValue::Integer(n) => { lemma_digits(if n < 0 { -(n as int) } else { n as int }, 10); if n >= 0 { assert(is_digit(digits_of(n as int, 10)[0], 10)); } },
        KdlValue::Float(f) => if f != f64_inf() && f != f64_neg_inf() && !f64_is_nan(f) {
            axiom_f64_text(f);
            let p = f_parts(f);
            let s = f64_text(f);
            let r = p.sign + p.whole + f_dot(p) + f_exp(p, f_esign(f));
            assert(s == r);
            assert(dec(p.whole[0]));
            if p.sign.len() > 0 { assert(r[0] == '-'); } else { assert(r[0] == p.whole[0]); }
        },
        _ => {},
    }
}
pub proof fn lemma_name_at(t: Seq<char>, i: int, n: KdlIdentifier)
    requires is_at(t, i, pr_ident(n)), neat_name(n), sp_vterm(t, i + pr_ident(n).len()) is Ok,
    ensures ({ let j = i + pr_ident(n).len(); i < j && sp_string(t, i) == Out::Ok(j) && ident_is(n, name_at(t, i, j)) }), solid(t, i), i < t.len(), t[i] != '(' && t[i] != '{' && t[i] != '}' && !nlchar(t[i]) && t[i] != '\u{feff}',
{ lemma_string_reads(t, i, n.value@); lemma_first(n.value@); lemma_at_k(t, i, pr_ident(n), 0); }
pub open spec fn pr_ty(ty: Option<KdlIdentifier>) -> Seq<char> { match ty { Some(t) => seq!['('] + pr_ident(t) + seq![')'], None => seq![] } }
pub proof fn lemma_ty_at(t: Seq<char>, i: int, n: KdlIdentifier)
    requires is_at(t, i, seq!['('] + pr_ident(n) + seq![')']), neat_name(n),
    ensures ({ let j = i + pr_ident(n).len() + 2; sp_ty(t, i) matches Ov::Ok(k, s) && k == j && ident_is(n, s) }), t[i] == '(',
{
    let p = pr_ident(n);
    let j = i + 1 + p.len();
    lemma_at(t, i, seq!['('] + p, seq![')']);
    lemma_at(t, i, seq!['('], p);
    lemma_at_k(t, i, seq!['('], 0);
    lemma_at_k(t, j, seq![')'], 0);
    assert(sp_vterm(t, j) is Ok);
    lemma_name_at(t, i + 1, n);
    lemma_solid(t, i + 1);
    lemma_solid(t, j);

}
// type and value
pub proof fn lemma_tyval_at(t: Seq<char>, i: int, ty: Option<KdlIdentifier>, v: KdlValue)
    requires is_at(t, i, pr_ty(ty) + pr_value(v)), oneat(ty), sp_vterm(t, i + pr_ty(ty).len() + pr_value(v).len()) is Ok,
    ensures sp_value(t, i) matches Ov::Ok(j, s) && j == i + pr_ty(ty).len() + pr_value(v).len() && oident_is(ty, s.0) && s.1 == sval_of(norm(v)),
        solid(t, i), i < t.len(), t[i] != '{' && t[i] != '}' && t[i] != '=', v is String && ty is None || sp_string(t, i) is Bt,
        v matches KdlValue::String(s) ==> (ty is None ==> sp_string(t, i) == Out::Ok(i + pr_value(v).len()) && sv_string(t, i) == s@),
{
    hide(sp_string); hide(sv_string); hide(sp_vterm); hide(sp_val); hide(sp_ty); hide(sp_ns0); hide(pr_value); hide(pr_ident); hide(sp_node_space);
    lemma_at(t, i, pr_ty(ty), pr_value(v));
    let k = i + pr_ty(ty).len();
    lemma_value_reads(t, k, v);
    lemma_first_value(v);
    lemma_at_k(t, k, pr_value(v), 0);
    match ty {
        Some(n) => { lemma_ty_at(t, i, n); lemma_solid(t, k); lemma_paren(t, i); }
        None => { lemma_no_ty(t, i); }
    }
}
pub proof fn lemma_paren(t: Seq<char>, i: int)
    requires is1(t, i, '('),
    ensures sp_string(t, i) is Bt, sp_keyword(t, i) is Bt, sp_number(t, i) is Bt, sp_val(t, i) is Bt,
{ }
pub proof fn lemma_no_ty(t: Seq<char>, i: int)
    requires 0 <= i < t.len(), t[i] != '(',
    ensures sp_ty(t, i) is Bt,
{}
pub open spec fn entry_same(e: KdlEntry, s: SEntry) -> bool { oident_is(e.name, s.name) && oident_is(e.ty, s.ty) && sval_of(norm(e.value)) == s.val }
// what follows an entry: it ends there and no '=' follows
pub open spec fn entry_ends(t: Seq<char>, j: int) -> bool { sp_vterm(t, j) is Ok && (sp_ns0(t, j) matches Out::Ok(m) && !is1(t, m, '=')) }
pub proof fn lemma_bare_arg(t: Seq<char>, k: int)
    requires sp_string(t, k) is Bt,
    ensures sp_bare(t, k) == sp_arg(t, k),
{}
pub proof fn lemma_entry_at(t: Seq<char>, k: int, e: KdlEntry)
    requires is_at(t, k, pr_entry(e)), neat_entry(e), entry_ends(t, k + pr_entry(e).len()),
    ensures sp_bare(t, k) matches Ov::Ok(j, s) && j == k + pr_entry(e).len() && entry_same(e, s), pr_entry(e).len() > 0, solid(t, k), k < t.len(),
{
    hide(sp_string); hide(sv_string); hide(sp_vterm); hide(sp_value); hide(sp_ns0); hide(pr_value); hide(pr_ident); hide(pr_ty); hide(sp_node_space); hide(solid);
    let j = k + pr_entry(e).len();
    let tv = pr_ty(e.ty) + pr_value(e.value);
    match e.name {
        None => {
            assert(pr_entry(e) =~= tv) by { reveal(pr_ty); }
            lemma_tyval_at(t, k, e.ty, e.value);
            if e.value is String && e.ty is None { assert(pr_ty(e.ty).len() == 0) by { reveal(pr_ty); } } else { lemma_bare_arg(t, k); }
        }
        Some(n) => {
            let p = pr_ident(n);
            assert(pr_entry(e) =~= p + (seq!['='] + tv)) by { reveal(pr_ty); }
            lemma_at(t, k, p, seq!['='] + tv);
            let l = k + p.len();
            lemma_at(t, l, seq!['='], tv);
            lemma_at_k(t, l, seq!['='], 0);
            assert(sp_vterm(t, l) is Ok) by { reveal(sp_vterm); }
            lemma_name_at(t, k, n);
            assert(solid(t, l)) by { reveal(solid); }
            lemma_solid(t, l);
            lemma_tyval_at(t, l + 1, e.ty, e.value);
            lemma_solid(t, l + 1);
        }
    }
    assert(pr_value(e.value).len() > 0) by { lemma_first_value(e.value); }
}
pub open spec fn entries_same(e: Seq<KdlEntry>, s: Seq<SEntry>) -> bool { e.len() == s.len() && forall|k: int| 0 <= k < e.len() ==> entry_same(#[trigger] e[k], s[k]) }
pub proof fn lemma_elead(t: Seq<char>, i: int, j: int)
    requires sp_ns0(t, i) == Out::Ok(j), i <= j <= t.len(), sp_sd(t, j) is Bt,
    ensures sp_elead(t, i) == Out::Ok(j), sp_sdentries(t, j) is Bt,
{ assert(sp_sdentry(t, j) is Bt); }
pub proof fn lemma_entry1(t: Seq<char>, i: int, j: int)
    requires sp_ns0(t, i) == Out::Ok(j), i <= j <= t.len(), sp_sd(t, j) is Bt,
    ensures sp_entry(t, i) == sp_bare(t, j),
{ lemma_elead(t, i, j); }
pub proof fn lemma_entries_at(t: Seq<char>, i: int, s: Seq<KdlEntry>) -> (g: Seq<SEntry>)
    requires is_at(t, i, pr_entries(s)), entries_neat(s), entry_ends(t, i + pr_entries(s).len()),
    ensures sp_entries(t, i, seq![]) == sp_entries(t, i + pr_entries(s).len(), g), entries_same(s, g), s.len() > 0 ==> is1(t, i, ' ') && solid(t, i + 1) && i + 1 < t.len() && t[i + 1] != '=',
    decreases s.len(),
{
    hide(sp_entries); hide(sp_bare); hide(sp_ns0); hide(sp_ns1); hide(sp_vterm); hide(pr_entry); hide(sp_entry); hide(sp_node_space);
    if s.len() == 0 { assert(pr_entries(s).len() == 0); seq![] }
    else {
        let (h, e) = (s.drop_last(), s.last());
        let p = pr_entry(e);
        assert(neat_entry(e)) by { assert(neat_entry(s[s.len() - 1])); }
        assert(entries_neat(h)) by { assert forall|k: int| 0 <= k < h.len() implies neat_entry(#[trigger] h[k]) by { assert(neat_entry(s[k])); } }
        assert(pr_entries(s) == pr_entries(h) + seq![' '] + p);
        lemma_at(t, i, pr_entries(h) + seq![' '], p);
        lemma_at(t, i, pr_entries(h), seq![' ']);
        let j = i + pr_entries(h).len();
        lemma_at_k(t, j, seq![' '], 0);
        lemma_entry_at(t, j + 1, e);
        lemma_gap(t, j, j + 1);
        assert(t[j + 1] != '=') by { lemma_entry_first(t, j + 1, e); }
        assert(sp_vterm(t, j) is Ok) by { reveal(sp_vterm); }
        let g = lemma_entries_at(t, i, h);
        lemma_solid(t, j + 1);
        lemma_entry1(t, j, j + 1);
        lemma_entries1(t, j, g);
        let x = sp_bare(t, j + 1)->Ok_1;
        let r = g.push(x);
        assert forall|k: int| 0 <= k < s.len() implies entry_same(#[trigger] s[k], r[k]) by { if k < h.len() { assert(entry_same(h[k], g[k])); } }
        r
    }
}
pub proof fn lemma_entry_first(t: Seq<char>, k: int, e: KdlEntry)
    requires is_at(t, k, pr_entry(e)), neat_entry(e),
    ensures t[k] != '=', !nlchar(t[k]), t[k] != '\u{feff}',
{
    match e.name {
        Some(n) => { lemma_first(n.value@); assert(pr_entry(e)[0] == pr_ident(n)[0]); }
        None => match e.ty { Some(y) => { assert(pr_entry(e)[0] == '('); }, None => { assert(pr_entry(e) =~= pr_value(e.value)); lemma_first_value(e.value); } }
    }
    assert(pr_entry(e).len() > 0);
    lemma_at_k(t, k, pr_entry(e), 0);
}
// A name, a value and an entry without custom formatting, alone: read back as they are (C02).
pub proof fn lemma_whole(s: Seq<char>)
    ensures is_at(s, 0, s), sp_vterm(s, s.len() as int) is Ok, solid(s, s.len() as int), sp_ls0(s, s.len() as int) == Out::Ok(s.len() as int), entry_ends(s, s.len() as int),
{ assert(s.subrange(0, s.len() as int) =~= s); lemma_solid(s, s.len() as int); assert(sp_line_space(s, s.len() as int) is Bt); }
pub proof fn lemma_name_alone(i: KdlIdentifier)
    requires neat_name(i),
    ensures name_text(pr_ident(i)) matches Some(s) && ident_is(i, s),
{ lemma_whole(pr_ident(i)); lemma_name_at(pr_ident(i), 0, i); }
pub proof fn lemma_entry_alone(e: KdlEntry)
    requires neat_entry(e),
    ensures entry_text(pr_entry(e)) matches Some(s) && entry_same(e, s),
{
    hide(pr_entry); hide(sp_bare); hide(sp_entry); hide(entry_ends); hide(entry_same);
    let t = pr_entry(e);
    lemma_whole(t);
    lemma_entry_at(t, 0, e);
    lemma_entry_first(t, 0, e);
    lemma_solid(t, 0);
    lemma_entry1(t, 0, 0);
    assert(sp_line_space(t, 0) is Bt);
    assert(sp_ls0(t, 0) == Out::Ok(0int));
    assert(entry_same(e, sp_bare(t, 0)->Ok_1) ==> entry_same(e, SEntry { lo: 0, hi: t.len() as int, ..sp_bare(t, 0)->Ok_1 })) by { reveal(entry_same); }
}
pub proof fn lemma_value_alone(v: KdlValue)
    ensures entry_text(pr_value(v)) matches Some(s) && s.name is None && s.ty is None && s.val == sval_of(norm(v)),
{
    let e = KdlEntry { ty: None, value: v, name: None, format: None, span: arbitrary() };
    assert(pr_entry(e) =~= pr_value(v));
    lemma_entry_alone(e);
}
// ---- nodes
pub open spec fn ind(n: KdlNode, indent: nat) -> nat { pr_h1(n, indent).len() }
pub open spec fn node_same(n: KdlNode, s: SNode) -> bool
    decreases n,
{
    ident_is(n.name, s.name) && oident_is(n.ty, s.ty) && entries_same(n.entries@, s.entries)
    && match (n.children, s.children) { (None, None) => true, (Some(d), Some(ss)) => doc_same(d, ss), _ => false }
}
pub open spec fn doc_same(d: KdlDocument, s: Seq<SNode>) -> bool
    decreases d,
{ d.nodes@.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> node_same(#[trigger] d.nodes@[k], s[k]) }
// type and name
pub proof fn lemma_nhead_at(t: Seq<char>, i: int, ty: Option<KdlIdentifier>, n: KdlIdentifier)
    requires is_at(t, i, pr_ty(ty) + pr_ident(n)), oneat(ty), neat_name(n), sp_vterm(t, i + pr_ty(ty).len() + pr_ident(n).len()) is Ok,
    ensures sp_nhead(t, i) matches Ov::Ok(j, s) && j == i + pr_ty(ty).len() + pr_ident(n).len() && i < j && oident_is(ty, s.0) && ident_is(n, s.1), solid(t, i), i < t.len(), t[i] != '{' && t[i] != '}' && !nlchar(t[i]) && t[i] != '\u{feff}',
{
    hide(sp_string); hide(sv_string); hide(sp_vterm); hide(sp_ty); hide(sp_ns0); hide(pr_ident); hide(sp_node_space);
    lemma_at(t, i, pr_ty(ty), pr_ident(n));
    let k = i + pr_ty(ty).len();
    lemma_name_at(t, k, n);
    lemma_solid(t, k);
    match ty { Some(y) => lemma_ty_at(t, i, y), None => lemma_no_ty(t, i) }
}
pub proof fn lemma_bnc_none(t: Seq<char>, m: int)
    requires 0 <= m, solid(t, m), m <= t.len(),
    ensures sp_bnc(t, m) == Out::Ok(m), !is1(t, m, '{') ==> sp_ntail(t, m) == Ov::<Option<Seq<SNode>>>::Ok(m, None),
{
    lemma_solid(t, m); lemma_bnc1(t, m); lemma_ntail(t, m);
    assert(sp_bnc(t, m) == Out::Ok(m));
    assert(!is1(t, m, '{') ==> sp_children(t, m) is Bt);
}
pub proof fn lemma_no_sdchildren(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), sp_ns0(t, i) == Out::Ok(j), sp_sd(t, j) is Bt,
    ensures sp_sdchildren(t, i) is Bt,
{ lemma_sdchildren(t, i); lemma_sdchild(t, j); }
pub proof fn lemma_bnc_gap(t: Seq<char>, m: int)
    requires is2(t, m, ' ', '{'),
    ensures sp_bnc(t, m) == Out::Ok(m + 1),
{
    hide(sp_ns0); hide(sp_ns1); hide(sp_bnc); hide(sp_sdentries); hide(sp_sdchildren); hide(sp_elead); hide(sp_sd);
    lemma_gap(t, m, m + 1); lemma_solid(t, m + 1); lemma_bnc1(t, m);
    lemma_elead(t, m, m + 1);
    lemma_no_sdchildren(t, m + 1, m + 1);
}
// the children block, and the line break that ends the node
pub proof fn lemma_ntail_kids(t: Seq<char>, m: int, j: int, ns: Seq<SNode>)
    requires 0 <= m, is2(t, m, ' ', '{') || is1(t, m, '{'), ({ let a = if is1(t, m, '{') { m } else { m + 1 }; sp_nodes(t, a + 1) == Ov::Ok(j, ns) && a + 1 <= j }), is2(t, j, '}', '\n'),
    ensures sp_ntail(t, m) == Ov::Ok(j + 1, Some(ns)),
{
    hide(sp_nodes); hide(sp_bnc); hide(sp_ns0); hide(sp_sdchildren);
    let a = if is1(t, m, '{') { m } else { m + 1 };
    if is1(t, m, '{') { lemma_bnc_none(t, m); } else { lemma_bnc_gap(t, m); }
    lemma_ntail(t, m);
    assert(sp_children(t, a) == Ov::Ok(j + 1, ns)) by { lemma_children1(t, a); }
    lemma_solid(t, j + 1);
    lemma_no_sdchildren(t, j + 1, j + 1);
}
pub proof fn lemma_children1(t: Seq<char>, i: int)
    ensures sp_children(t, i) == if is1(t, i, '{') { match sp_nodes(t, i + 1) { Ov::Ok(j, ns) => if is1(t, j, '}') { Ov::Ok(j + 1, ns) } else { Ov::Cut }, o => o } } else { Ov::Bt },
{}
// what leads a node
pub open spec fn stand(t: Seq<char>, z: int) -> bool { solid(t, z) && 0 <= z <= t.len() && (z < t.len() ==> !nlchar(t[z])) }
pub proof fn lemma_lead_stand(t: Seq<char>, z: int)
    requires stand(t, z),
    ensures sp_lead(t, z) == Out::Ok(z),
{
    lemma_solid(t, z); lemma_lead1(t, z); lemma_sdnode(t, z);
    assert(sp_line_space(t, z) is Bt);
}
pub proof fn lemma_lead_to(t: Seq<char>, i: int, z: int)
    requires blank(t, i, z), stand(t, z),
    ensures sp_lead(t, i) == Out::Ok(z),
{
    lemma_lead_stand(t, z);
    if i < z { lemma_gap(t, i, z); lemma_lead1(t, i); assert(sp_line_space(t, i) == Out::Ok(z)); }
}
// a line break before it
pub proof fn lemma_lead_nl(t: Seq<char>, i: int, z: int)
    requires is1(t, i, '\n'), blank(t, i + 1, z), stand(t, z),
    ensures sp_lead(t, i) == Out::Ok(z),
{
    lemma_lead_to(t, i + 1, z);
    lemma_solid(t, i); lemma_lead1(t, i);
    assert(sp_line_space(t, i) == Out::Ok(i + 1));
}
pub proof fn lemma_nodes_lead(t: Seq<char>, i: int, j: int)
    requires sp_lead(t, i) == sp_lead(t, j), i <= j, sp_lead(t, j) matches Out::Ok(z) ==> j <= z,
    ensures sp_nodes(t, i) == sp_nodes(t, j),
{ hide(sp_lead); hide(sp_seps); hide(sp_nodes); lemma_nodes1(t, i); lemma_nodes1(t, j); }
pub proof fn lemma_nl_term(t: Seq<char>, j: int)
    requires is1(t, j, '\n'),
    ensures sp_terminator(t, j) == Out::Ok(j + 1), sp_vterm(t, j) is Ok, entry_ends(t, j), solid(t, j),
{ lemma_solid(t, j); assert(!is2(t, j, '\u{d}', '\u{a}')); }
pub proof fn lemma_brace(t: Seq<char>, m: int)
    requires is1(t, m, '{'),
    ensures sp_string(t, m) is Bt, sp_val(t, m) is Bt, sp_ty(t, m) is Bt,
{ }
pub proof fn lemma_brace_bare(t: Seq<char>, m: int)
    requires is1(t, m, '{'),
    ensures sp_bare(t, m) is Bt,
{ hide(sp_string); hide(sp_val); hide(sp_ty); lemma_brace(t, m); }
pub proof fn lemma_open_ends(t: Seq<char>, m: int)
    requires is2(t, m, ' ', '{'),
    ensures sp_vterm(t, m) is Ok, entry_ends(t, m), sp_ns1(t, m) is Ok, sp_entry(t, m) is Bt,
{
    hide(sp_bare); hide(sp_entry); hide(sp_ns0); hide(sp_ns1); hide(sp_node_space); hide(sp_sd);
    lemma_gap(t, m, m + 1); lemma_solid(t, m + 1); lemma_entry1(t, m, m + 1); lemma_brace_bare(t, m + 1);
}
pub proof fn lemma_entries_end(t: Seq<char>, m: int, g: Seq<SEntry>)
    requires is2(t, m, ' ', '{') || is1(t, m, '{') || is1(t, m, '\n'),
    ensures sp_entries(t, m, g) == Ov::Ok(m, g), sp_vterm(t, m) is Ok, entry_ends(t, m),
{
    lemma_entries1(t, m, g);
    if is1(t, m, '\n') { lemma_nl_term(t, m); lemma_solid(t, m); } else if is1(t, m, '{') { lemma_solid(t, m); } else { lemma_open_ends(t, m); }
}
pub open spec fn pr_brace(n: KdlNode) -> Seq<char> { if pr_k1(n).len() > 0 { seq![' ', '{', '\n'] } else { seq!['{', '\n'] } }
pub open spec fn pr_last(n: KdlNode, indent: nat) -> Seq<char> { match n.children { Some(c) => match c.format { Some(f) => f.trailing@, None => spaces(indent as int) }, None => seq![] } }
pub open spec fn pr_all(c: KdlDocument, indent: nat) -> Seq<char> { pr_nodes(c.nodes, c.nodes@.len(), indent) }
pub open spec fn pr_open(n: KdlNode, indent: nat) -> Seq<char> { match n.children { Some(c) => pr_brace(n) + pr_all(c, indent + 4) + pr_last(n, indent) + seq!['}', '\n'], None => seq!['\n'] } }
pub proof fn lemma_pr_node1(n: KdlNode, indent: nat)
    ensures pr_node(n, indent) == pr_head(n, indent) + pr_kids(n, indent) + pr_tail(n),
{}
pub proof fn lemma_pr_nodes1(v: Vec<KdlNode>, k: nat, indent: nat)
    requires 0 < k <= v@.len(),
    ensures pr_nodes(v, k, indent) == pr_nodes(v, (k - 1) as nat, indent) + pr_node(v[k - 1], indent), pr_nodes(v, 0, indent).len() == 0,
{}
pub proof fn lemma_pr_doc1(d: KdlDocument, indent: nat)
    ensures pr_doc(d, indent) == (match d.format { Some(f) => f.leading@, None => seq![] }) + pr_all(d, indent) + (match d.format { Some(f) => f.trailing@, None => seq![] }),
{}
pub proof fn lemma_bare_kids(n: KdlNode, indent: nat)
    requires neat_node(n), n.children is Some,
    ensures pr_kids(n, indent) + pr_tail(n) == pr_open(n, indent),
{
    hide(pr_doc); hide(spaces); hide(pr_all); hide(neat_doc);
    let c = n.children->0;
    let d = pr_doc(c, indent + 4);
    let p = pr_all(c, indent + 4);
    let sp = pr_last(n, indent);
    assert(spaced(n.entries@)) by { if n.entries@.len() > 0 { assert(neat_entry(n.entries@[n.entries@.len() - 1])); } }
    let k2 = pr_k2(n); let k3 = pr_k3(n, indent);
    let o = pr_k1(n) + seq!['{'] + k2 + d + k3 + seq!['}'];
    assert(pr_kids(n, indent) == o);
    assert(pr_tail(n) =~= seq!['\n']);
    lemma_pr_doc1(c, indent + 4);
    assert(k2 + d + k3 =~= seq!['\n'] + p + sp);
    assert(pr_k1(n) + seq!['{'] + seq!['\n'] =~= pr_brace(n));
    assert(o + seq!['\n'] =~= pr_k1(n) + seq!['{'] + (k2 + d + k3) + seq!['}', '\n']);
    assert(pr_k1(n) + seq!['{'] + (seq!['\n'] + p + sp) + seq!['}', '\n'] =~= (pr_k1(n) + seq!['{'] + seq!['\n']) + p + sp + seq!['}', '\n']);
}
pub proof fn lemma_bare_head(n: KdlNode, indent: nat)
    requires neat_node(n),
    ensures pr_head(n, indent) == pr_h1(n, indent) + ((pr_ty(n.ty) + pr_ident(n.name)) + pr_entries(n.entries@)),
{
    hide(pr_ident); hide(pr_entries); hide(spaces); hide(neat_doc);
    let sp = pr_h1(n, indent);
    let h = pr_ty(n.ty) + pr_ident(n.name);
    let es = pr_entries(n.entries@);
    assert(pr_head0(n, indent) =~= sp + h) by {
        match (n.format, n.ty) {
            (Some(f), Some(t)) => { assert(seq!['('] + f.before_ty_name@ + pr_ident(t) + f.after_ty_name@ + seq![')'] =~= pr_ty(n.ty)); assert(f.after_ty@ =~= seq![]); }
            (Some(f), None) => { assert(f.after_ty@ =~= seq![]); }
            (None, Some(t)) => { assert(seq!['('] + Seq::<char>::empty() + pr_ident(t) + Seq::<char>::empty() + seq![')'] =~= pr_ty(n.ty)); }
            _ => {}
        }
    }
    assert((sp + h) + es =~= sp + (h + es));
}
pub proof fn lemma_bare_node_text(n: KdlNode, indent: nat)
    requires neat_node(n),
    ensures pr_node(n, indent) == pr_h1(n, indent) + ((pr_ty(n.ty) + pr_ident(n.name)) + (pr_entries(n.entries@) + pr_open(n, indent))),
{
    hide(pr_ident); hide(pr_entries); hide(pr_doc); hide(spaces); hide(pr_kids); hide(pr_head); hide(pr_node); hide(neat_node);
    let sp = pr_h1(n, indent);
    let h = pr_ty(n.ty) + pr_ident(n.name);
    let es = pr_entries(n.entries@);
    lemma_bare_head(n, indent);
    lemma_pr_node1(n, indent);
    let k = pr_kids(n, indent) + pr_tail(n);
    assert(k == pr_open(n, indent)) by {
        match n.children { Some(c) => lemma_bare_kids(n, indent), None => { reveal(pr_kids); assert(pr_tail(n) =~= seq!['\n']) by { reveal(neat_node); } assert(k =~= seq!['\n']); } }
    }
    assert(sp + (h + es) + pr_kids(n, indent) + pr_tail(n) =~= sp + (h + (es + k)));
}
pub open spec fn kids_same(o: Option<KdlDocument>, s: Option<Seq<SNode>>) -> bool { match (o, s) { (None, None) => true, (Some(d), Some(ss)) => doc_same(d, ss), _ => false } }
pub proof fn lemma_open_pos(n: KdlNode, t: Seq<char>, m: int, d: Seq<char>, sp: Seq<char>)
    requires is_at(t, m, pr_brace(n) + d + sp + seq!['}', '\n']),
    ensures ({ let a = if pr_k1(n).len() > 0 { m + 1 } else { m }; (if pr_k1(n).len() > 0 { is2(t, m, ' ', '{') } else { is1(t, m, '{') }) && is1(t, a + 1, '\n') && is_at(t, a + 2, d) && is_at(t, a + 2 + d.len(), sp) && is2(t, a + 2 + d.len() + sp.len(), '}', '\n') }),
{
    let a = pr_brace(n);
    let b = seq!['}', '\n'];
    lemma_at(t, m, a + d + sp, b);
    lemma_at(t, m, a + d, sp);
    lemma_at(t, m, a, d);
    lemma_at_k(t, m, a, 0); lemma_at_k(t, m, a, 1); if pr_k1(n).len() > 0 { lemma_at_k(t, m, a, 2); }
    let z = m + a.len() + d.len() + sp.len();
    lemma_at_k(t, z, b, 0); lemma_at_k(t, z, b, 1);
}
pub proof fn lemma_neat_node1(n: KdlNode)
    requires neat_node(n),
    ensures neat_format(n.format), oneat(n.ty), neat_name(n.name), entries_neat(n.entries@), n.children matches Some(c) ==> neat_doc(c) && (c.format matches Some(f) ==> neat_end(c, f.trailing@)),
{}
pub proof fn lemma_open_at(n: KdlNode, indent: nat, t: Seq<char>, m: int)
    requires 0 <= m, neat_node(n), is_at(t, m, pr_open(n, indent)),
    ensures ({ let e = m + pr_open(n, indent).len(); m < e && is1(t, e - 1, '\n') && (is2(t, m, ' ', '{') || is1(t, m, '{') || is1(t, m, '\n')) && (sp_ntail(t, m) matches Ov::Ok(j, c) && j == e - 1 && kids_same(n.children, c)) }),
    decreases n, 0nat,
{
    hide(sp_ntail); hide(pr_doc); hide(sp_nodes); hide(spaces); hide(sp_ns0); hide(sp_vterm); hide(sp_lead); hide(is_at); hide(sp_terminator); hide(sp_node_space); hide(neat_node); hide(neat_doc); hide(doc_same); hide(uspace); hide(identchar);
    lemma_neat_node1(n);
    let o = pr_open(n, indent);
    let sp = pr_last(n, indent);
    match n.children {
        None => {
            lemma_at_k(t, m, o, 0);
            lemma_nl_term(t, m);
            lemma_bnc_none(t, m);
        }
        Some(c) => {
            let d = pr_all(c, indent + 4);
            lemma_open_pos(n, t, m, d, sp);
            let a = if pr_k1(n).len() > 0 { m + 1 } else { m };
            let y = a + 2 + d.len();
            let z = y + sp.len();
            assert(neat_end(c, sp)) by { if c.format is None { lemma_spaces(indent as int); } }
            lemma_end_at(c, t, y, sp);
            lemma_doc_at(c, indent + 4, t, a + 2, z);
            let ns = sp_nodes(t, a + 1)->Ok_1;
            lemma_ntail_kids(t, m, z, ns);
        }
    }
}
/// After the last node: blanks, possibly after a line break.
pub open spec fn at_end(t: Seq<char>, d: KdlDocument, e: int, z: int) -> bool { blank(t, e, z) || d.nodes@.len() == 0 && is1(t, e, '\n') && blank(t, e + 1, z) }
pub proof fn lemma_end_at(d: KdlDocument, t: Seq<char>, e: int, s: Seq<char>)
    requires 0 <= e, is_at(t, e, s), neat_end(d, s),
    ensures at_end(t, d, e, e + s.len()),
{
    if gap(s) { lemma_gap_at(t, e, s); } else {
        let r = s.skip(1);
        assert(s =~= seq!['\n'] + r);
        lemma_at(t, e, seq!['\n'], r); lemma_at_k(t, e, s, 0);
        lemma_gap_at(t, e + 1, r);
    }
}
pub proof fn lemma_base_of(n: KdlNode, t: Seq<char>, b: int, l: int, m: int, e: int, h: (Option<SName>, SName), g: Seq<SEntry>, c: Option<Seq<SNode>>)
    requires 0 <= b < l <= m <= e, is1(t, e, '\n'), t[b] != '}' && t[b] != '{', sp_nhead(t, b) == Ov::Ok(l, h), sp_entries(t, l, seq![]) == Ov::Ok(m, g), sp_ntail(t, m) == Ov::Ok(e, c),
        oident_is(n.ty, h.0), ident_is(n.name, h.1), entries_same(n.entries@, g), kids_same(n.children, c),
    ensures sp_base(t, b) matches Ov::Ok(j, s) && j == e && node_same(n, s),
{
    hide(sp_base); hide(sp_entries); hide(sp_ntail); hide(sp_nhead); hide(sp_terminator);
    lemma_base1(t, b);
    lemma_nl_term(t, e);
}
pub proof fn lemma_node_at(n: KdlNode, indent: nat, t: Seq<char>, i: int)
    requires neat_node(n), is_at(t, i, pr_node(n, indent)),
    ensures ({ let b = i + ind(n, indent); let e = i + pr_node(n, indent).len();
        blank(t, i, b) && b < e - 1 && stand(t, b) && t[b] != '}' && t[b] != '\u{feff}' && is1(t, e - 1, '\n') && (sp_base(t, b) matches Ov::Ok(j, s) && j == e - 1 && node_same(n, s)) }),
    decreases n, 1nat,
{
    hide(sp_base); hide(sp_entries); hide(sp_ntail); hide(sp_nhead); hide(pr_ident); hide(pr_entries); hide(pr_doc); hide(pr_node); hide(sp_vterm); hide(pr_ty); hide(spaces); hide(sp_ns0); hide(pr_open); hide(node_same); hide(sp_node_space); hide(entries_same);
    let x = ind(n, indent); let b = i + x; let e = i + pr_node(n, indent).len();
    let h = pr_ty(n.ty) + pr_ident(n.name);
    let es = pr_entries(n.entries@);
    let o = pr_open(n, indent);
    let sp = pr_h1(n, indent);
    lemma_bare_node_text(n, indent);
    assert(gap(sp)) by { lemma_neat_node1(n); if n.format is None { lemma_spaces(indent as int); } }
    lemma_at(t, i, sp, h + (es + o));
    lemma_gap_at(t, i, sp);
    lemma_at(t, b, h, es + o);
    let l = b + h.len();
    lemma_at(t, l, es, o);
    let m = l + es.len();
    assert(e == m + o.len());
    lemma_open_at(n, indent, t, m);
    let ghost g0: Seq<SEntry> = seq![];
    lemma_entries_end(t, m, g0);
    let g = lemma_entries_at(t, l, n.entries@);
    lemma_entries_end(t, m, g);
    assert(sp_vterm(t, l) is Ok) by { if n.entries@.len() > 0 { lemma_gap(t, l, l + 1); reveal(sp_vterm); } else { reveal(pr_entries); } }
    lemma_nhead_at(t, b, n.ty, n.name);
    lemma_base_of(n, t, b, l, m, e - 1, sp_nhead(t, b)->Ok_1, g, sp_ntail(t, m)->Ok_1);
}
// the first k nodes, one after the other
pub proof fn lemma_seq_at(v: Vec<KdlNode>, k: nat, indent: nat, t: Seq<char>, i: int) -> (g: Seq<SNode>)
    requires 0 < k <= v@.len(), forall|y: int| 0 <= y < k ==> neat_node(#[trigger] v@[y]), is_at(t, i, pr_nodes(v, k, indent)),
    ensures ({ let b = i + ind(v@[0], indent); let e = i + pr_nodes(v, k, indent).len();
        blank(t, i, b) && b < e - 1 && stand(t, b) && t[b] != '}' && t[b] != '\u{feff}' && is1(t, e - 1, '\n') && sp_seps(t, b) == sp_seps1(t, e - 1, g) }), g.len() == k, forall|x: int| 0 <= x < k ==> node_same(#[trigger] v@[x], g[x]),
    decreases v, k,
{
    hide(sp_base); hide(sp_seps); hide(sp_seps1); hide(sp_node); hide(pr_node); hide(pr_nodes); hide(sp_lead); hide(sp_terminator);
    let h = (k - 1) as nat;
    let n = v[k - 1];
    assert(neat_node(v@[k - 1]));
    lemma_pr_nodes1(v, k, indent);
    lemma_at(t, i, pr_nodes(v, h, indent), pr_node(n, indent));
    let q = i + pr_nodes(v, h, indent).len();
    let x = ind(n, indent);
    let e = q + pr_node(n, indent).len();
    lemma_node_at(n, indent, t, q);
    lemma_lead_to(t, q, q + x);
    lemma_node1(t, q);
    let s = sp_base(t, q + x)->Ok_1;
    if h == 0 {
        lemma_lead_stand(t, q + x);
        lemma_node1(t, q + x);
        lemma_seps(t, q + x);
        seq![s]
    } else {
        let g = lemma_seq_at(v, h, indent, t, i);
        lemma_nl_term(t, q - 1);
        lemma_seps1(t, q - 1, g);
        g.push(s)
    }
}
// where a list of nodes ends
pub open spec fn closes(t: Seq<char>, z: int) -> bool { 0 <= z && (z == t.len() || is1(t, z, '}')) }
pub proof fn lemma_no_node(t: Seq<char>, e: int, z: int)
    requires blank(t, e, z), closes(t, z),
    ensures sp_node(t, e) is Bt, sp_node(t, z) is Bt, sp_lead(t, e) == Out::Ok(z), sp_lead(t, z) == Out::Ok(z), sp_terminator(t, z) is Bt, stand(t, z),
{ lemma_lead_to(t, e, z); lemma_lead_stand(t, z); lemma_node1(t, e); lemma_node1(t, z); lemma_base1(t, z); lemma_solid(t, z); }
pub proof fn lemma_doc_at(d: KdlDocument, indent: nat, t: Seq<char>, i: int, z: int)
    requires neat_doc(d), 0 <= i, is_at(t, i, pr_all(d, indent)), at_end(t, d, i + pr_all(d, indent).len(), z), closes(t, z),
    ensures sp_nodes(t, i) matches Ov::Ok(j, s) && j == z && doc_same(d, s), is1(t, i - 1, '\n') ==> sp_nodes(t, i - 1) == sp_nodes(t, i),
        sp_lead(t, i) matches Out::Ok(b) && i <= b <= z && (is1(t, i, '\n') || blank(t, i, b) && stand(t, b) && (b < t.len() ==> t[b] != '\u{feff}')),
        d.nodes@.len() == 0 ==> pr_all(d, indent).len() == 0,
    decreases d, 0nat,
{
    hide(sp_base); hide(sp_seps); hide(sp_seps1); hide(sp_node); hide(pr_node); hide(sp_lead); hide(sp_terminator); hide(sp_nodes); hide(pr_nodes);
    let k = d.nodes@.len();
    let p = pr_all(d, indent);
    let e = i + p.len();
    lemma_nodes1(t, i);
    if k == 0 {
        assert(p.len() == 0) by { reveal(pr_nodes); }
        lemma_no_node(t, z, z);
        if blank(t, e, z) { lemma_no_node(t, e, z); if is1(t, i - 1, '\n') { lemma_lead_nl(t, i - 1, z); } }
        else { lemma_lead_nl(t, e, z); if is1(t, i - 1, '\n') { lemma_lead_nl2(t, i - 1); } }
        lemma_seps(t, z);
        if is1(t, i - 1, '\n') { lemma_nodes_lead(t, i - 1, i); }
    } else {
        lemma_no_node(t, e, z);
        assert(forall|x: int| 0 <= x < k ==> neat_node(#[trigger] d.nodes@[x]));
        let g = lemma_seq_at(d.nodes, k, indent, t, i);
        let y = ind(d.nodes@[0], indent);
        lemma_lead_to(t, i, i + y);
        lemma_nl_term(t, e - 1);
        lemma_seps1(t, e - 1, g);
        if is1(t, i - 1, '\n') { lemma_lead_nl(t, i - 1, i + y); lemma_nodes_lead(t, i - 1, i); }
    }
}
pub proof fn lemma_lead_nl2(t: Seq<char>, i: int)
    requires is1(t, i, '\n'), !is2(t, i, '\u{d}', '\u{a}'),
    ensures sp_lead(t, i) == sp_lead(t, i + 1),
{ lemma_lead1(t, i); lemma_solid(t, i); assert(sp_line_space(t, i) == Out::Ok(i + 1)); }
pub proof fn lemma_lead_front(t: Seq<char>, i: int, b: int)
    requires blank(t, 0, i), sp_lead(t, i) == Out::Ok(b), i <= b, is1(t, i, '\n') || blank(t, i, b) && stand(t, b) && (b < t.len() ==> t[b] != '\u{feff}'),
    ensures sp_lead(t, 0) == sp_lead(t, i), bom_end(t, 0) == 0,
{
    hide(sp_lead);
    if 0 < i { assert(gapchar(t[0])); }
    if is1(t, i, '\n') {
        if 0 < i { lemma_gap(t, 0, i); lemma_lead1(t, 0); assert(sp_line_space(t, 0) == Out::Ok(i)); }
    } else {
        assert forall|k: int| 0 <= k < b implies gapchar(#[trigger] t[k]) by { if k < i { assert(gapchar(t[k])); } }
        lemma_lead_to(t, 0, b);
        if 0 < b { assert(gapchar(t[0])); }
    }
}
// The text of a document whose formatting says nothing is a KDL 2.0 document, of the same content (C04).
pub proof fn lemma_neat(d: KdlDocument)
    requires neat_top(d),
    ensures doc_text(pr_doc(d, 0)) matches Some(s) && doc_same(d, s),
{
    hide(sp_nodes); hide(sp_lead); hide(pr_nodes); hide(neat_doc); hide(doc_same);
    let t = pr_doc(d, 0);
    let z = t.len() as int;
    let l: Seq<char> = match d.format { Some(f) => f.leading@, None => seq![] };
    let r: Seq<char> = match d.format { Some(f) => f.trailing@, None => seq![] };
    let p = pr_all(d, 0);
    let i = l.len() as int;
    let e = i + p.len();
    assert(t.subrange(0, z) =~= t);
    lemma_pr_doc1(d, 0);
    lemma_at(t, 0, l + p, r);
    lemma_at(t, 0, l, p);
    assert(neat_end(d, r)) by { reveal(neat_doc); }
    lemma_end_at(d, t, e, r);
    lemma_gap_at(t, 0, l);
    lemma_doc_at(d, 0, t, i, z);
    let b = sp_lead(t, i)->Ok_0;
    lemma_lead_front(t, i, b);
    lemma_nodes_lead(t, 0, i);
}
// A document without custom formatting is such a one (C03).
pub proof fn lemma_built(d: KdlDocument)
    requires bare_doc(d),
    ensures doc_text(pr_doc(d, 0)) matches Some(s) && doc_same(d, s),
{ lemma_bare_doc(d); lemma_neat(d); }
/// Two documents that both have the content of a text have the same data.
pub proof fn lemma_kin_node(a: KdlNode, b: KdlNode, s: SNode)
    requires node_same(a, s), node_is(b, s),
    ensures kin_node(a, b),
    decreases a,
{
    assert forall|k: int| 0 <= k < a.entries@.len() implies kin_entry(#[trigger] a.entries@[k], b.entries@[k]) by { assert(entry_same(a.entries@[k], s.entries[k])); assert(entry_is(b.entries@[k], s.entries[k])); }
    match (a.children, b.children) { (Some(c), Some(d)) => { lemma_kin_doc(c, d, s.children->0); } _ => {} }
}
pub proof fn lemma_kin_doc(a: KdlDocument, b: KdlDocument, s: Seq<SNode>)
    requires doc_same(a, s), doc_is(b, s),
    ensures kin_doc(a, b),
    decreases a,
{
    assert forall|k: int| 0 <= k < a.nodes@.len() implies kin_node(#[trigger] a.nodes@[k], b.nodes@[k]) by { assert(node_same(a.nodes@[k], s[k])); assert(node_is(b.nodes@[k], s[k])); lemma_kin_node(a.nodes@[k], b.nodes@[k], s[k]); }
}
}
pub use vx_built::*;
