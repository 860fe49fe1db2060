//@ macro runo2 input.nerr() == vx_s2.nerr() ==> $1(input.text(), vx_s2.pos()) == $2(input.text(), input.pos()), input.nerr() > vx_s2.nerr() ==> $1(input.text(), vx_s2.pos()) is Cut,
//@ macro endo2 vx_err2 is None && input.nerr() == vx_s2.nerr() ==> $1(input.text(), vx_s2.pos()) == Out::Ok(input.pos()), input.nerr() > vx_s2.nerr() || vx_err2 is Some ==> $1(input.text(), vx_s2.pos()) is Cut, vx_err2 matches Some(e) ==> e is Cut || input.nerr() > vx_s2.nerr(),
//@ macro runo1 input.nerr() == vx_s1.nerr() ==> $1(input.text(), vx_s1.pos()) == $2(input.text(), input.pos()), input.nerr() > vx_s1.nerr() ==> $1(input.text(), vx_s1.pos()) is Cut,
//@ macro endo1 vx_err1 is None && input.nerr() == vx_s1.nerr() ==> $1(input.text(), vx_s1.pos()) == Out::Ok(input.pos()), input.nerr() > vx_s1.nerr() || vx_err1 is Some ==> $1(input.text(), vx_s1.pos()) is Cut, vx_err1 matches Some(e) ==> e is Cut || input.nerr() > vx_s1.nerr(),
//@ macro runo input.nerr() == vx_s0.nerr() ==> $1(input.text(), vx_s0.pos()) == $2(input.text(), input.pos()), input.nerr() > vx_s0.nerr() ==> $1(input.text(), vx_s0.pos()) is Cut,
//@ macro endo vx_err0 is None && input.nerr() == vx_s0.nerr() ==> $1(input.text(), vx_s0.pos()) == Out::Ok(input.pos()), input.nerr() > vx_s0.nerr() || vx_err0 is Some ==> $1(input.text(), vx_s0.pos()) is Cut, vx_err0 matches Some(e) ==> e is Cut || input.nerr() > vx_s0.nerr(),
//@ macro par2 adv(*old(input), *final(input)), outs(r, *old(input), *final(input), $1(old(input).text(), old(input).pos())), r matches Err(e) ==> err_in(old(input).text(), e),
//@ macro hide hide(sp_string); hide(sv_string); hide(sp_ns0); hide(sp_node_space); hide(sp_number); hide(sv_number); hide(sp_keyword); hide(kw_at); hide(kw_end); hide(sp_terminator); hide(sp_line_space); hide(sp_newline); hide(sp_slc); broadcast use {vx_gram::lemma_line_space, vx_gram::lemma_term, vx_gram::lemma_keyword, vx_gram::lemma_number, vx_gram::lemma_string};
//@ macro par adv(*old(input), *final(input)), outv(r, *old(input), *final(input), $1(old(input).text(), old(input).pos())), r matches Err(e) ==> err_in(old(input).text(), e),
//@ fn bom ret r
    ensures @tok(sp_bom)@
//@ end
//@ fn slashdash ret r
    ensures @tok(sp_sd)@ r is Ok ==> final(input).pos() > old(input).pos(),
//@ body #0
    @run(sp_as0|vx_s0)@
//@ ens #0
    vx_err0 is None ==> sp_as0(input.text(), vx_s0.pos()) == Out::Ok(input.pos()), vx_err0 matches Some(e) ==> e is Cut && sp_as0(input.text(), vx_s0.pos()) is Cut,
//@ end
//@ fn badval_ty_char ret r
    ensures @any()@ final(input).nerr() == old(input).nerr(),
//@ end
//@ fn span_from_checkpoint ret r
//@ rewrite `<I: Stream + Location>` => ``
//@ rewrite `input: &I` => `input: &Input`
//@ rewrite `&<I as Stream>::Checkpoint` => `&Checkpoint`
    requires start.text() == input.text(), start.pos() <= input.pos(),
    ensures span_is(r, input.text(), start.pos(), input.pos()),
//@ end
//@ source src/identifier.rs
//@ rewrite `impl Into` => `impl VxInto`
//@ rewrite `SourceSpan::from(0..0)` => `(0usize..0usize).vx_into()`
//@ rewrite `(0..0).into()` => `(0usize..0usize).vx_into()`
//@ fn KdlIdentifier::set_repr
    ensures final(self).value == old(self).value, final(self).span == old(self).span, final(self).repr matches Some(s) && repr.into_ens(s),
//@ end
//@ fn KdlIdentifier::set_span
    ensures final(self).value == old(self).value, final(self).repr == old(self).repr, span.into_ens(final(self).span),
//@ end
//@ fn <From<String> for KdlIdentifier>::from as vx_from_string ret r
    ensures r.value == value, r.repr is None,
//@ end
//@ fn <From<&str> for KdlIdentifier>::from as vx_from_str ret r
//@ rewrite `value.to_string()` => `vx_string(value)`
    ensures r.value@ == value@, r.repr is None,
//@ end
impl<'a> VxInto<KdlIdentifier> for &'a str {
    open spec fn into_ens(self, r: KdlIdentifier) -> bool { r.value@ == self@ && r.repr is None }
    fn vx_into(self) -> (r: KdlIdentifier) { KdlIdentifier::vx_from_str(self) }
}
//@ source src/document.rs
//@ fn KdlDocument::new as vx_new ret r
//@ rewrite `Default::default()` => `KdlDocument::vx_dflt()`
    ensures r.nodes@.len() == 0, r.format is None,
//@ end
//@ fn <Default for KdlDocument>::default as vx_dflt ret r
//@ rewrite `Default::default()` => `VxDefault::vx_default()`
    ensures r.nodes@.len() == 0, r.format is None,
//@ end
//@ stub print
//@ fn KdlDocument::is_empty ret r
    ensures r == (pr_doc(*self, 0).len() == 0),
//@ end
//@ stub pop
//@ rewrite `KdlDocument::new()` => `KdlDocument::vx_new()`
//@ source src/entry.rs
//@ fn KdlEntry::format_mut ret r
    ensures final(self).ty == old(self).ty, final(self).name == old(self).name, final(self).value == old(self).value, final(self).span == old(self).span,
        match old(self).format { Some(f) => (r matches Some(m) && *m == f && final(self).format == Some(*final(m))), None => r is None && final(self).format is None },
//@ end
//@ source src/v2_parser.rs
//@ fn identifier ret r
//@ rewrite `"/BAD_IDENT\\".into()` => `vx_string("/BAD_IDENT\\")`
//@ rewrite `KdlIdentifier::from(s)` => `KdlIdentifier::vx_from_string(s)`
    ensures @rec(sp_string)@ r is Ok ==> final(input).pos() > old(input).pos(),
        r matches Ok(k) ==> final(input).nerr() == old(input).nerr() ==> ident_full(k, name_at(old(input).text(), old(input).pos(), final(input).pos()), old(input).text()),
//@ end
//@ rewrite `$x.unwrap_or_default()` => `vx_or_default($x)`
//@ rewrite `..Default::default()` => `..VxDefault::vx_default()`
//@ fn ty ret r
    ensures @par(sp_ty)@ r is Ok ==> final(input).pos() > old(input).pos(),
        r matches Ok(v) ==> final(input).nerr() == old(input).nerr() ==> (v.1 matches Some(k) && ident_full(k, sp_ty(old(input).text(), old(input).pos())->Ok_1, old(input).text()) && pr_typart(v.0@, k, v.2@) =~= subs(old(input).text(), old(input).pos(), final(input).pos())),
//@ hint top
    @hide()@
//@ inv #0
    input.nerr() == vx_s0.nerr(),
//@ end
//@ fn value ret r
    ensures @par(sp_value)@
        r matches Ok(Some(e)) ==> final(input).nerr() == old(input).nerr() ==> ({ let v = sp_value(old(input).text(), old(input).pos())->Ok_1; plain_value(e) && oident_full(e.ty, v.0, old(input).text()) && sval_of(e.value) == v.1 && pr_tyval(e) =~= subs(old(input).text(), old(input).pos(), final(input).pos()) }),
        r matches Ok(None) ==> final(input).nerr() > old(input).nerr(), r is Ok ==> final(input).pos() > old(input).pos(),
//@ hint top
    @hide()@
//@ end
//@ fn node_entry ret r
    ensures @par(sp_entry)@
        r matches Ok(Some(e)) ==> final(input).nerr() == old(input).nerr() ==> entry_full(e, sp_entry(old(input).text(), old(input).pos())->Ok_1, old(input).text()) && pr_entry(e) =~= subs(old(input).text(), old(input).pos(), final(input).pos()),
        r matches Ok(None) ==> final(input).nerr() > old(input).nerr(), r is Ok ==> final(input).pos() > old(input).pos(),
    decreases old(input).text().len() - old(input).pos(), 2int,
//@ hint top
    @hide()@
//@ hint `value.span = span_from_checkpoint(input, &_start)` after
    proof {
        let (t, i, k, j) = (input.text(), old(input).pos(), _start.pos(), input.pos());
        if input.nerr() == old(input).nerr() {
            if value.name is None { lemma_pr_arg(value, t, i, k, j); }
            else { let l = sp_string(t, k)->Ok_0; let m = sp_ns0(t, l)->Ok_0; let n = sp_ns0(t, m + 1)->Ok_0; lemma_pr_prop(value, t, i, k, l, m, n, j); }
        }
    }
//@ end
//@ fn slashdashed_entries ret r
//@ attr // isolate
    ensures @par2(sp_sdentries)@ r is Ok ==> final(input).pos() > old(input).pos(),
    decreases old(input).text().len() - old(input).pos(), 1int,
//@ hint top
    @hide()@

//@ inv #0
    vx_s0 == *old(input), vx_s0.pos() < input.pos(),
//@ body #0
    @runo(sp_sdentries|sp_sdentries1)@
//@ at #0 sep
    proof { let m = input.pos(); let o = sp_sdentry(input.text(), m); assert(sp_ns1(input.text(), vx_i0.pos()) == Out::Ok(m)); assert(o == match sp_sd(input.text(), m) {
        Out::Ok(j) => if is2(input.text(), j, '/', '-') { Out::Bt } else if m < j <= input.text().len() { match sp_entry(input.text(), j) { Ov::Ok(k, _) => Out::Ok(k), Ov::Bt => Out::Bt, Ov::Cut => Out::Cut } } else { Out::Cut },
        o => o,
    }); assert(vx_i0.pos() < m); }
//@ ens #0
    @endo(sp_sdentries)@
//@ end
//@ fn slashdashed_children ret r
//@ attr // isolate
    ensures @par2(sp_sdchildren)@ r is Ok ==> final(input).pos() > old(input).pos(),
    decreases old(input).text().len() - old(input).pos(), 4int,
//@ hint top
    hide(sp_children); hide(sp_sd); hide(sp_sdchildren1); hide(sp_sdchild); hide(sp_sdchildren);
    @hide()@
    proof { lemma_sdchildren(input.text(), input.pos()); lemma_sdchild(input.text(), sp_ns0(input.text(), input.pos())->Ok_0); }
//@ inv #0
    vx_s0.text() == old(input).text(), old(input).pos() <= vx_s0.pos() < input.pos(),
//@ body #0
    @runo(vx_sdc0|sp_sdchildren1)@
//@ at #0 iter
    proof { lemma_sdchildren1(input.text(), input.pos()); }
//@ at #0 sep
    proof { lemma_sdchild(input.text(), input.pos()); }
//@ ens #0
    @endo(vx_sdc0)@
//@ end
//@ fn before_node_children ret r
    ensures @par2(sp_bnc)@
    decreases old(input).text().len() - old(input).pos(), 5int,
//@ hint top
    @hide()@
//@ end
//@ fn node_children ret r
    ensures @par(sp_children)@ r is Ok ==> final(input).pos() > old(input).pos(),
        r matches Ok(d) ==> final(input).nerr() == old(input).nerr() ==> doc_full(d, sp_children(old(input).text(), old(input).pos())->Ok_1, old(input).text())
            && final(input).pos() >= old(input).pos() + 2 && is1(old(input).text(), old(input).pos(), '{') && is1(old(input).text(), final(input).pos() - 1, '}') && d.format is Some
            && forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(old(input).text(), old(input).pos() + 1, final(input).pos() - 1),
    decreases old(input).text().len() - old(input).pos(), 3int,
//@ hint top
    @hide()@
//@ end
//@ fn slashdashed_node ret r
    ensures @par2(sp_sdnode)@ r is Ok ==> final(input).pos() > old(input).pos(),
    decreases old(input).text().len() - old(input).pos(), 7int,
//@ hint top
    hide(sp_sd); hide(sp_base); hide(sp_sdnode);
    @hide()@
    proof { lemma_sdnode(input.text(), input.pos()); }
//@ end
//@ source src/node.rs
//@ rewrite `SourceSpan::from(0..0)` => `(0usize..0usize).vx_into()`
//@ fn KdlNode::new as vx_new ret r
//@ end
//@ fn KdlNode::format_mut ret r
    ensures final(self).ty == old(self).ty, final(self).name == old(self).name, final(self).entries == old(self).entries, final(self).children == old(self).children, final(self).span == old(self).span,
        match old(self).format { Some(f) => (r matches Some(m) && *m == f && final(self).format == Some(*final(m))), None => r is None && final(self).format is None },
//@ end
pub mod vx_p1 { use super::*; broadcast use group_vx;
proof fn vx_keep(t: Seq<char>, i: int, n: KdlNode, d: KdlDocument, e: KdlEntry, s: SNode) { let b = vx_mentions(t, i, n, d, e, s, t); }
//@ source src/v2_parser.rs
//@ rewrite `e.into_iter().flatten().collect::<Vec<KdlEntry>>()` => `vx_flat_vec(e)`
//@ rewrite `name.repr.as_ref().map(|s| s.is_empty()) != Some(true)` => `!vx_is_empty_text(&name.repr)`
//@ rewrite `KdlIdentifier::from("/BAD_IDENT\\")` => `KdlIdentifier::vx_from_str("/BAD_IDENT\\")`
//@ rewrite `KdlNode::new("<<BAD_NODE>>")` => `KdlNode::vx_new("<<BAD_NODE>>")`
//@ fn base_node ret r
//@ attr // isolate
//@ attr #[verifier::rlimit(120)]
    ensures @par(sp_base)@ r is Ok ==> final(input).pos() > old(input).pos(),
        r matches Ok(n) ==> final(input).nerr() == old(input).nerr() ==> node_full(n, sp_base(old(input).text(), old(input).pos())->Ok_1, old(input).text())
            && (n.format matches Some(f) && f.leading@.len() == 0 && f.trailing@.len() == 0)
            && forall|k: nat| #[trigger] pr_node(n, k) =~= subs(old(input).text(), old(input).pos(), term_end(old(input).text(), final(input).pos())),
    decreases old(input).text().len() - old(input).pos(), 6int,
//@ hint top
    hide(plain_value); hide(entries_full); hide(entries_are); hide(entries_at);
    hide(node_full); hide(node_is); hide(node_at); hide(doc_full); hide(doc_is); hide(doc_at); hide(pr_node); hide(pr_doc); hide(pr_entries); hide(pr_entry); hide(entry_full); hide(pr_oentries); hide(somes);
    hide(sp_base); hide(sp_entries); hide(sp_entry); hide(sp_ntail); hide(sp_bnc); hide(sp_sdchildren); hide(sp_children); hide(sp_ty);
    @hide()@
    let ghost mut vx_g: Seq<SEntry> = seq![];
    proof { lemma_base1(input.text(), input.pos()); lemma_oentries_none(); }
//@ at #0 iter
    let ghost vx_a = vx_acc0@;
    proof { lemma_entries1(input.text(), input.pos(), vx_g); }
//@ at #0 item
    proof {
        let s = sp_entry(input.text(), vx_i0.pos())->Ok_1;
        if input.nerr() == vx_s0.nerr() { assert(vx_acc0@ =~= vx_a.push(vx_acc0@.last())); lemma_oentries_push(vx_a, vx_acc0@.last()->Some_0, vx_g, s, input.text(), vx_s0.pos(), vx_i0.pos(), input.pos()); }
        vx_g = vx_g.push(s);
    }
//@ inv #0
    vx_s0.text() == old(input).text(), old(input).pos() < vx_s0.pos() <= input.pos(),
//@ at #0 done
    proof { if input.nerr() == vx_s0.nerr() { lemma_oentries(vx_acc0@, somes(vx_acc0@), vx_g, input.text()); lemma_entries_full(somes(vx_acc0@), vx_g, input.text()); } }
//@ body #0
    input.nerr() == vx_s0.nerr() ==> oentries_full(vx_acc0@, vx_g, input.text()) && pr_oentries(vx_acc0@) =~= subs(input.text(), vx_s0.pos(), input.pos()),
    input.nerr() == vx_s0.nerr() ==> sp_entries(input.text(), vx_s0.pos(), seq![]) == sp_entries(input.text(), input.pos(), vx_g),
    input.nerr() > vx_s0.nerr() ==> sp_entries(input.text(), vx_s0.pos(), seq![]) is Cut,
//@ ens #0
    vx_err0 is None && input.nerr() == vx_s0.nerr() ==> entries_full(somes(vx_acc0@), vx_g, input.text()) && entries_are(somes(vx_acc0@), vx_g) && entries_at(somes(vx_acc0@), vx_g, input.text()) && pr_entries(somes(vx_acc0@)) =~= subs(input.text(), vx_s0.pos(), input.pos()),
    vx_err0 is None && input.nerr() == vx_s0.nerr() ==> sp_entries(input.text(), vx_s0.pos(), seq![]) == Ov::<Seq<SEntry>>::Ok(input.pos(), vx_g), input.nerr() > vx_s0.nerr() || vx_err0 is Some ==> sp_entries(input.text(), vx_s0.pos(), seq![]) is Cut, vx_err0 matches Some(e) ==> e is Cut || input.nerr() > vx_s0.nerr(),
//@ hint `let children =..` before
    let ghost vx_m = *input;
    proof { lemma_ntail(input.text(), input.pos()); }
//@ hint `let (before_terminator..` before
    let ghost vx_b = *input;
//@ hint tail
    proof {
        if input.nerr() == old(input).nerr() {
            let (t, i, d) = (input.text(), old(input).pos(), input.pos());
            let (m, b, k, l, n) = (vx_m.pos(), vx_b.pos(), _before_ident.pos(), sp_string(t, _before_ident.pos())->Ok_0, vx_ret->Ok_0);
            let j = match sp_ty(t, i) { Ov::Ok(j, _) => j, _ => i };
            let a = if n.children is Some { sp_bnc(t, m)->Ok_0 } else { m };
            lemma_node_full(n, sp_base(t, i)->Ok_1, t);
            assert forall|x: nat| #[trigger] pr_node(n, x) =~= subs(t, i, term_end(t, d)) by { lemma_pr_node(n, x, t, i, j, k, l, m, a, b, d, term_end(t, d)); }
        }
    }
//@ end
}
pub use vx_p1::*;
pub mod vx_p2 { use super::*; broadcast use group_vx;
proof fn vx_keep(t: Seq<char>, i: int, n: KdlNode, d: KdlDocument, e: KdlEntry, s: SNode) { let b = vx_mentions(t, i, n, d, e, s, t); }
//@ fn node ret r
//@ attr // isolate
    ensures @par(sp_node)@ r is Ok ==> final(input).pos() > old(input).pos(),
        r matches Ok(n) ==> final(input).nerr() == old(input).nerr() ==> node_full(n, sp_node(old(input).text(), old(input).pos())->Ok_1, old(input).text())
            && (n.format matches Some(f) && f.leading@ =~= subs(old(input).text(), old(input).pos(), sp_lead(old(input).text(), old(input).pos())->Ok_0) && f.trailing@.len() == 0)
            && forall|k: nat| #[trigger] pr_node(n, k) =~= subs(old(input).text(), old(input).pos(), term_end(old(input).text(), final(input).pos())),
    decreases old(input).text().len() - old(input).pos(), 8int,
//@ hint top
    hide(node_full); hide(pr_node); hide(sp_node); hide(sp_lead); hide(sp_base); hide(sp_sdnode);
    @hide()@
    proof { lemma_node1(input.text(), input.pos()); }
//@ at #0 iter
    proof { lemma_lead1(input.text(), input.pos()); lemma_line_space(input.text(), input.pos()); }
//@ inv #0
    vx_s0 == *old(input),
//@ body #0
    @runo(sp_lead|sp_lead)@
//@ ens #0
    @endo(sp_lead)@
//@ hint `let mut nd..` after
    let ghost vx_nd = nd;
//@ hint tail
    proof {
        if input.nerr() == old(input).nerr() {
            let (t, i) = (input.text(), old(input).pos()); let j = sp_lead(t, i)->Ok_0;
            lemma_lead_full(nd, vx_nd, sp_base(t, j)->Ok_1, t);
            lemma_lead_node(nd, vx_nd, t, i, j, term_end(t, input.pos()));
        }
    }
//@ end
//@ rewrite `ns.get_mut(0)` => `vx_get_mut(&mut ns, 0)`
//@ fn nodes ret r
//@ attr // isolate
    ensures @par(sp_nodes)@
        r matches Ok(d) ==> final(input).nerr() == old(input).nerr() ==> doc_full(d, sp_nodes(old(input).text(), old(input).pos())->Ok_1, old(input).text()) && d.format is Some
            && forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(old(input).text(), old(input).pos(), final(input).pos()),
    decreases old(input).text().len() - old(input).pos(), 9int,
//@ hint top
    hide(node_full); hide(doc_full); hide(nodes_full); hide(nodes_text); hide(pr_node); hide(pr_doc); hide(pr_seq); hide(sp_node); hide(sp_lead); hide(sp_base); hide(sp_sdnode); hide(sp_nodes); hide(sp_seps); hide(sp_seps1);
    @hide()@
    let ghost mut vx_g: Seq<SNode> = seq![];
    proof { lemma_nodes1(input.text(), input.pos()); lemma_lead_end(input.text(), input.pos()); }
//@ at #0 iter
    proof { lemma_lead1(input.text(), input.pos()); lemma_line_space(input.text(), input.pos()); }
//@ inv #0
    vx_s0 == *old(input),
//@ body #0
    @runo(sp_lead|sp_lead)@
//@ ens #0
    @endo(sp_lead)@
//@ at #1 first
    proof {
        let (t, a) = (input.text(), vx_s1.pos());
        let s = sp_node(t, a)->Ok_1;
        if input.nerr() == vx_s1.nerr() { lemma_nodes_none(t, a); assert(vx_acc1@ =~= Seq::<KdlNode>::empty().push(vx_acc1@[0])); lemma_nodes_push(seq![], vx_acc1@[0], seq![], s, t, a, a, term_end(t, input.pos())); }
        vx_g = seq![s];
        assert(Seq::<SNode>::empty().push(s) =~= vx_g);
        lemma_term(t, input.pos());
    }
//@ at #1 iter
    let ghost vx_a = vx_acc1@;
    proof { lemma_seps1(input.text(), input.pos(), vx_g); lemma_term(input.text(), input.pos()); }
//@ at #1 sep
    let ghost vx_k = input.pos();
//@ at #1 item
    proof {
        let t = input.text();
        let s = sp_node(t, vx_k)->Ok_1;
        lemma_term(t, input.pos());
        if input.nerr() == vx_s1.nerr() { assert(vx_acc1@ =~= vx_a.push(vx_acc1@.last())); lemma_nodes_push(vx_a, vx_acc1@.last(), vx_g, s, t, vx_s1.pos(), vx_k, term_end(t, input.pos())); }
        vx_g = vx_g.push(s);
    }
//@ inv #1
    vx_s1.text() == old(input).text(), old(input).pos() <= vx_s1.pos() <= input.pos(),
//@ body #1
    input.nerr() == vx_s1.nerr() ==> sp_seps(input.text(), vx_s1.pos()) == sp_seps1(input.text(), input.pos(), vx_g),
    input.nerr() > vx_s1.nerr() ==> sp_seps(input.text(), vx_s1.pos()) is Cut,
    input.nerr() == vx_s1.nerr() ==> nodes_full(vx_acc1@, vx_g, input.text()) && nodes_text(vx_acc1@, input.text(), vx_s1.pos(), term_end(input.text(), input.pos())) && vx_g.len() > 0 && vx_acc1@.len() > 0
        && (vx_acc1@[0].format matches Some(f) && f.leading@ =~= subs(input.text(), vx_s1.pos(), sp_lead(input.text(), vx_s1.pos())->Ok_0)),
//@ ens #1
    vx_err1 is None && input.nerr() == vx_s1.nerr() ==> sp_seps(input.text(), vx_s1.pos()) == Ov::<Seq<SNode>>::Ok(input.pos(), vx_g), input.nerr() > vx_s1.nerr() || vx_err1 is Some ==> sp_seps(input.text(), vx_s1.pos()) is Cut, vx_err1 matches Some(e) ==> e is Cut || input.nerr() > vx_s1.nerr(),
    vx_err1 is None && input.nerr() == vx_s1.nerr() ==> nodes_full(vx_acc1@, vx_g, input.text()) && nodes_text(vx_acc1@, input.text(), vx_s1.pos(), term_end(input.text(), input.pos())) && vx_g.len() > 0 && vx_acc1@.len() > 0
        && (vx_acc1@[0].format matches Some(f) && f.leading@ =~= subs(input.text(), vx_s1.pos(), sp_lead(input.text(), vx_s1.pos())->Ok_0)),
//@ at #2 iter
    proof { lemma_lead1(input.text(), input.pos()); lemma_line_space(input.text(), input.pos()); }
//@ inv #2
    vx_s2.text() == old(input).text(), old(input).pos() <= vx_s2.pos(),
//@ body #2
    @runo2(sp_lead|sp_lead)@
//@ ens #2
    @endo2(sp_lead)@
//@ hint `let _start..` after
    let ghost vx_st = *input;
    proof { lemma_seps(input.text(), input.pos()); lemma_node1(input.text(), input.pos()); lemma_base_bt(input.text(), input.pos()); lemma_nodes_none(input.text(), input.pos()); lemma_lead_end(input.text(), input.pos()); }
//@ hint `let _span..` after
    let ghost vx_ns = ns@;
    let ghost vx_sp = *input;
//@ hint tail
    proof {
        if input.nerr() == old(input).nerr() {
            let (t, i, a, b, d) = (input.text(), old(input).pos(), vx_st.pos(), vx_sp.pos(), vx_ret->Ok_0);
            reveal_strlit("");
            if vx_ns.len() == 0 { lemma_no_term(t, b); }
            lemma_doc_of(d, vx_ns, vx_g, t, i, a, term_end(t, b), input.pos());
        }
    }
//@ end
}
pub use vx_p2::*;
pub mod vx_p3 { use super::*; broadcast use group_vx;
proof fn vx_keep(t: Seq<char>, i: int, n: KdlNode, d: KdlDocument, e: KdlEntry, s: SNode) { let b = vx_mentions(t, i, n, d, e, s, t); }
//@ source src/document.rs
//@ fn KdlDocument::format_mut ret r
    ensures final(self).nodes == old(self).nodes, final(self).span == old(self).span,
        match old(self).format { Some(f) => (r matches Some(m) && *m == f && final(self).format == Some(*final(m))), None => r is None && final(self).format is None },
//@ end
//@ source src/v2_parser.rs
//@ fn document ret r
    ensures @par(sp_document)@
        r matches Ok(d) ==> final(input).nerr() == old(input).nerr() ==> doc_full(d, sp_document(old(input).text(), old(input).pos())->Ok_1, old(input).text()) && d.format is Some
            && forall|k: nat| #[trigger] pr_doc(d, k) =~= subs(old(input).text(), old(input).pos(), final(input).pos()),
//@ hint top
    hide(doc_full); hide(pr_doc); hide(sp_nodes);
    @hide()@
//@ inv #0
    vx_s0.text() == old(input).text(), input.nerr() == vx_s0.nerr() ==> input.pos() == vx_s0.pos(), input.nerr() > vx_s0.nerr() ==> vx_s0.pos() != vx_s0.text().len(),
//@ ens #0
    input.nerr() == vx_s0.nerr() ==> input.pos() == input.text().len(),
//@ hint `if let Some(bom)..` before
    let ghost vx_d = doc;
//@ hint tail
    proof {
        if input.nerr() == old(input).nerr() {
            let (t, i) = (input.text(), old(input).pos());
            if is1(t, i, '\u{feff}') { lemma_doc_bom(doc, vx_d, sp_nodes(t, i + 1)->Ok_1, t, i, i + 1, input.pos()); }
        }
    }
//@ end
//@ source src/v2_parser.rs
//@ fn padded_node ret r
//@ attr // isolate
    ensures @par(sp_pnode)@
        r matches Ok(n) ==> final(input).nerr() == old(input).nerr() ==> node_full(n, sp_pnode(old(input).text(), old(input).pos())->Ok_1, old(input).text())
            && forall|k: nat| #[trigger] pr_node(n, k) =~= subs(old(input).text(), old(input).pos(), final(input).pos()),
//@ hint top
    hide(node_full); hide(pr_node); hide(sp_node);
    @hide()@
//@ at #0 iter
    proof { lemma_line_space(input.text(), input.pos()); lemma_ls0(input.text(), input.pos()); }
//@ inv #0
    vx_s0.text() == old(input).text(), old(input).pos() <= vx_s0.pos(),
//@ body #0
    @runo(sp_ls0|sp_ls0)@
//@ ens #0
    @endo(sp_ls0)@
//@ hint `if let Some(fmt)..` before
    let ghost vx_nd = node;
//@ hint tail
    proof {
        if input.nerr() == old(input).nerr() {
            let (t, i) = (input.text(), old(input).pos()); let (j, s) = (sp_node(t, i)->Ok_0, sp_node(t, i)->Ok_1);
            lemma_pad_node(node, vx_nd, s, t, i, term_end(t, j), input.pos());
        }
    }
//@ end
//@ fn padded_node_entry ret r
//@ attr // isolate
    ensures @par(sp_pentry)@
        r matches Ok(e) ==> final(input).nerr() == old(input).nerr() ==> entry_full(e, sp_pentry(old(input).text(), old(input).pos())->Ok_1, old(input).text())
            && pr_entry(e) =~= subs(old(input).text(), old(input).pos(), final(input).pos()),
//@ hint top
    hide(pr_entry); hide(sp_entry);
    @hide()@
//@ at #0 iter
    proof { lemma_line_space(input.text(), input.pos()); lemma_ls0(input.text(), input.pos()); }
//@ inv #0
    vx_s0 == *old(input),
//@ body #0
    @runo(sp_ls0|sp_ls0)@
//@ ens #0
    @endo(sp_ls0)@
//@ at #1 iter
    proof { lemma_line_space(input.text(), input.pos()); lemma_ls0(input.text(), input.pos()); }
//@ inv #1
    vx_s1.text() == old(input).text(), old(input).pos() <= vx_s1.pos(),
//@ body #1
    @runo1(sp_ls0|sp_ls0)@
//@ ens #1
    @endo1(sp_ls0)@
//@ hint `if let Some(entry)..` before
    let ghost vx_o = entry;
//@ hint `val.span..` after
    proof {
        let (t, i) = (input.text(), old(input).pos()); let a = sp_ls0(t, i)->Ok_0; let (b, s) = (sp_entry(t, a)->Ok_0, sp_entry(t, a)->Ok_1);
        if input.nerr() == old(input).nerr() { assert(entry_full(vx_o->Some_0, s, t)); lemma_pad_entry(val, vx_o->Some_0, s, t, i, a, b, input.pos()); }
    }
//@ end
// winnow's recoverable_parse: the parser, then the end of the text, and what
// stops it is recorded like the rest.
pub fn vx_recoverable_document<'a>(s: &'a str) -> (r: (&'a str, Option<KdlDocument>, Vec<ErrMode<KdlParseError>>))
    ensures all_in(s@, r.2@), (r.1 is Some && r.2@.len() == 0) <==> doc_text(s@) is Some, r.1 is None ==> r.2@.len() > 0,
        r.1 matches Some(v) ==> r.2@.len() == 0 ==> doc_full(v, doc_text(s@)->Some_0, s@) && forall|k: nat| #[trigger] pr_doc(v, k) =~= s@,
{
    hide(sp_document);
    let mut input = vx_new_input(s);
    let start = input.checkpoint();
    let (o, err) = match document(&mut input) {
        Ok(o) => {
            let t0 = input.checkpoint();
            proof { if input.nerr() == 0 && input.pos() == s@.len() { assert(subs(s@, 0, s@.len() as int) =~= s@); } }
            match vx_eof(&mut input) {
                Ok(_) => (Some(o), None),
                Err(e) => { let t1 = input.checkpoint(); match input.record_err(&t0, &t1, e) { Ok(_) => (Some(o), None), Err(e) => (None, Some(e)) } }
            }
        }
        Err(e) => (None, Some(vx_from_recoverable(&start, &input, e))),
    };
    let mut errs = vx_into_errs(input);
    if let Some(e) = err { errs.push(e); }
    (s, o, errs)
}
pub fn vx_recoverable_padded_node<'a>(s: &'a str) -> (r: (&'a str, Option<KdlNode>, Vec<ErrMode<KdlParseError>>))
    ensures all_in(s@, r.2@), (r.1 is Some && r.2@.len() == 0) <==> node_text(s@) is Some, r.1 is None ==> r.2@.len() > 0,
        r.1 matches Some(v) ==> r.2@.len() == 0 ==> node_full(v, node_text(s@)->Some_0, s@) && forall|k: nat| #[trigger] pr_node(v, k) =~= s@,
{
    hide(sp_pnode);
    let mut input = vx_new_input(s);
    let start = input.checkpoint();
    let (o, err) = match padded_node(&mut input) {
        Ok(o) => {
            let t0 = input.checkpoint();
            proof { if input.nerr() == 0 && input.pos() == s@.len() { assert(subs(s@, 0, s@.len() as int) =~= s@); } }
            match vx_eof(&mut input) {
                Ok(_) => (Some(o), None),
                Err(e) => { let t1 = input.checkpoint(); match input.record_err(&t0, &t1, e) { Ok(_) => (Some(o), None), Err(e) => (None, Some(e)) } }
            }
        }
        Err(e) => (None, Some(vx_from_recoverable(&start, &input, e))),
    };
    let mut errs = vx_into_errs(input);
    if let Some(e) = err { errs.push(e); }
    (s, o, errs)
}
pub fn vx_recoverable_padded_node_entry<'a>(s: &'a str) -> (r: (&'a str, Option<KdlEntry>, Vec<ErrMode<KdlParseError>>))
    ensures all_in(s@, r.2@), (r.1 is Some && r.2@.len() == 0) <==> entry_text(s@) is Some, r.1 is None ==> r.2@.len() > 0,
        r.1 matches Some(v) ==> r.2@.len() == 0 ==> entry_full(v, entry_text(s@)->Some_0, s@) && pr_entry(v) =~= s@,
{
    hide(sp_pentry);
    let mut input = vx_new_input(s);
    let start = input.checkpoint();
    let (o, err) = match padded_node_entry(&mut input) {
        Ok(o) => {
            let t0 = input.checkpoint();
            proof { if input.nerr() == 0 && input.pos() == s@.len() { assert(subs(s@, 0, s@.len() as int) =~= s@); } }
            match vx_eof(&mut input) {
                Ok(_) => (Some(o), None),
                Err(e) => { let t1 = input.checkpoint(); match input.record_err(&t0, &t1, e) { Ok(_) => (Some(o), None), Err(e) => (None, Some(e)) } }
            }
        }
        Err(e) => (None, Some(vx_from_recoverable(&start, &input, e))),
    };
    let mut errs = vx_into_errs(input);
    if let Some(e) = err { errs.push(e); }
    (s, o, errs)
}
pub fn vx_recoverable_identifier<'a>(s: &'a str) -> (r: (&'a str, Option<KdlIdentifier>, Vec<ErrMode<KdlParseError>>))
    ensures all_in(s@, r.2@), (r.1 is Some && r.2@.len() == 0) <==> name_text(s@) is Some, r.1 is None ==> r.2@.len() > 0,
        r.1 matches Some(v) ==> r.2@.len() == 0 ==> ident_full(v, name_text(s@)->Some_0, s@),
{
    hide(sp_string);
    let mut input = vx_new_input(s);
    let start = input.checkpoint();
    let (o, err) = match identifier(&mut input) {
        Ok(o) => {
            let t0 = input.checkpoint();
            proof { if input.nerr() == 0 && input.pos() == s@.len() { assert(subs(s@, 0, s@.len() as int) =~= s@); } }
            match vx_eof(&mut input) {
                Ok(_) => (Some(o), None),
                Err(e) => { let t1 = input.checkpoint(); match input.record_err(&t0, &t1, e) { Ok(_) => (Some(o), None), Err(e) => (None, Some(e)) } }
            }
        }
        Err(e) => (None, Some(vx_from_recoverable(&start, &input, e))),
    };
    let mut errs = vx_into_errs(input);
    if let Some(e) = err { errs.push(e); }
    (s, o, errs)
}
pub fn vx_recoverable_string<'a>(s: &'a str) -> (r: (&'a str, Option<Option<KdlValue>>, Vec<ErrMode<KdlParseError>>))
    ensures all_in(s@, r.2@), (r.1 is Some && r.2@.len() == 0) <==> name_text(s@) is Some, r.1 is None ==> r.2@.len() > 0,
        r.1 matches Some(v) ==> r.2@.len() == 0 ==> (v matches Some(KdlValue::String(x)) && x@ == sv_string(s@, 0)),
{
    hide(sp_string);
    let mut input = vx_new_input(s);
    let start = input.checkpoint();
    let (o, err) = match string(&mut input) {
        Ok(o) => {
            let t0 = input.checkpoint();
            proof { if input.nerr() == 0 && input.pos() == s@.len() { assert(subs(s@, 0, s@.len() as int) =~= s@); } }
            match vx_eof(&mut input) {
                Ok(_) => (Some(o), None),
                Err(e) => { let t1 = input.checkpoint(); match input.record_err(&t0, &t1, e) { Ok(_) => (Some(o), None), Err(e) => (None, Some(e)) } }
            }
        }
        Err(e) => (None, Some(vx_from_recoverable(&start, &input, e))),
    };
    let mut errs = vx_into_errs(input);
    if let Some(e) = err { errs.push(e); }
    (s, o, errs)
}
//@ source src/v2_parser.rs
//@ rewrite `String::from(input)` => `vx_string(input)`
//@ fn failure_from_errs ret r
//@ rewrite `.collect()` => `.vx_collect()`
    requires all_in(input@, errs@), errs@.len() > 0,
    ensures diagnosed(r, input@),
//@ loop `for vx_x in errs.into_iter()`
    invariant
        it.snapshot@.remaining() == errs@, src@ =~= input@, all_in(input@, errs@),
        diags_in(vx_out, input@, it.index@),
//@ hint top
    assert(span_in(input@, SourceSpan { offset: 0, length: 0 })) by { assert(off(input@, 0) == 0); };
//@ end
//@ fn try_parse as try_parse_document ret r
//@ rewrite `<'a, P: ModalParser<Input<'a>, T, KdlParseError>, T>` => `<'a>`
//@ rewrite `mut parser: P,` => ``
//@ rewrite `Result<T, KdlError>` => `Result<KdlDocument, KdlError>`
//@ rewrite `parser.recoverable_parse(LocatingSlice::new(input))` => `vx_recoverable_document(input)`
    ensures r is Ok <==> doc_text(input@) is Some, r matches Err(e) ==> diagnosed(e, input@),
        r matches Ok(v) ==> doc_full(v, doc_text(input@)->Some_0, input@) && forall|k: nat| #[trigger] pr_doc(v, k) =~= input@,
//@ end
//@ fn try_parse as try_parse_padded_node ret r
//@ rewrite `<'a, P: ModalParser<Input<'a>, T, KdlParseError>, T>` => `<'a>`
//@ rewrite `mut parser: P,` => ``
//@ rewrite `Result<T, KdlError>` => `Result<KdlNode, KdlError>`
//@ rewrite `parser.recoverable_parse(LocatingSlice::new(input))` => `vx_recoverable_padded_node(input)`
    ensures r is Ok <==> node_text(input@) is Some, r matches Err(e) ==> diagnosed(e, input@),
        r matches Ok(v) ==> node_full(v, node_text(input@)->Some_0, input@) && forall|k: nat| #[trigger] pr_node(v, k) =~= input@,
//@ end
//@ fn try_parse as try_parse_padded_node_entry ret r
//@ rewrite `<'a, P: ModalParser<Input<'a>, T, KdlParseError>, T>` => `<'a>`
//@ rewrite `mut parser: P,` => ``
//@ rewrite `Result<T, KdlError>` => `Result<KdlEntry, KdlError>`
//@ rewrite `parser.recoverable_parse(LocatingSlice::new(input))` => `vx_recoverable_padded_node_entry(input)`
    ensures r is Ok <==> entry_text(input@) is Some, r matches Err(e) ==> diagnosed(e, input@),
        r matches Ok(v) ==> entry_full(v, entry_text(input@)->Some_0, input@) && pr_entry(v) =~= input@,
//@ end
//@ fn try_parse as try_parse_identifier ret r
//@ rewrite `<'a, P: ModalParser<Input<'a>, T, KdlParseError>, T>` => `<'a>`
//@ rewrite `mut parser: P,` => ``
//@ rewrite `Result<T, KdlError>` => `Result<KdlIdentifier, KdlError>`
//@ rewrite `parser.recoverable_parse(LocatingSlice::new(input))` => `vx_recoverable_identifier(input)`
    ensures r is Ok <==> name_text(input@) is Some, r matches Err(e) ==> diagnosed(e, input@),
        r matches Ok(v) ==> ident_full(v, name_text(input@)->Some_0, input@),
//@ end
//@ fn try_parse as try_parse_string ret r
//@ rewrite `<'a, P: ModalParser<Input<'a>, T, KdlParseError>, T>` => `<'a>`
//@ rewrite `mut parser: P,` => ``
//@ rewrite `Result<T, KdlError>` => `Result<Option<KdlValue>, KdlError>`
//@ rewrite `parser.recoverable_parse(LocatingSlice::new(input))` => `vx_recoverable_string(input)`
    ensures r is Ok <==> name_text(input@) is Some, r matches Err(e) ==> diagnosed(e, input@),
        r matches Ok(v) ==> (v matches Some(KdlValue::String(x)) && x@ == sv_string(input@, 0)),
//@ end
//@ source src/document.rs
//@ fn KdlDocument::parse_v2 ret r
//@ rewrite `crate::v2_parser::try_parse(crate::v2_parser::document, s)` => `try_parse_document(s)`
//@ rewrite `v2_parser::try_parse(v2_parser::document, s)` => `try_parse_document(s)`
    ensures r is Ok <==> doc_text(s@) is Some, r matches Err(e) ==> diagnosed(e, s@),
        r matches Ok(v) ==> doc_full(v, doc_text(s@)->Some_0, s@) && forall|k: nat| #[trigger] pr_doc(v, k) =~= s@,
        r is Ok ==> ord_nodes(doc_text(s@)->Some_0, 0, s@.len() as int),
//@ hint top
    proof { ord_document(s@); }
//@ end
}
pub use vx_p3::*;
