//! Printing extracted items.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::VisitMut;
use crate::desugar::{hints, D};
use crate::find::{norm, Found};
use crate::FnSpec;

/// Token rewriting with `$x` standing for one token tree.
pub fn flat(s: &str) -> Vec<TokenTree> { s.parse::<TokenStream>().unwrap_or_else(|e| { eprintln!("pattern {s}: {e}"); std::process::exit(2) }).into_iter().collect() }
fn tt_eq(a: &TokenTree, b: &TokenTree) -> bool { norm(&a.to_string()) == norm(&b.to_string()) }
fn try_match(p: &[TokenTree], t: &[TokenTree], env: &mut Vec<(String, TokenTree)>) -> Option<usize> {
    let (mut i, mut j) = (0, 0);
    while i < p.len() {
        if let TokenTree::Punct(x) = &p[i] { if x.as_char() == '$' { if let Some(TokenTree::Ident(n)) = p.get(i + 1) {
            let v = t.get(j)?;
            if let Some((_, o)) = env.iter().find(|(k, _)| n == k) { if !tt_eq(o, v) { return None } } else { env.push((n.to_string(), v.clone())) }
            i += 2; j += 1; continue
        } } }
        match (&p[i], t.get(j)?) {
            (TokenTree::Group(a), TokenTree::Group(b)) if a.delimiter() == b.delimiter() => {
                let (a, b): (Vec<_>, Vec<_>) = (a.stream().into_iter().collect(), b.stream().into_iter().collect());
                if try_match(&a, &b, env)? != b.len() { return None }
            }
            (a, b) => if !tt_eq(a, b) { return None }
        }
        i += 1; j += 1;
    }
    Some(j)
}
fn subst(r: &[TokenTree], env: &[(String, TokenTree)]) -> TokenStream {
    let mut o = vec![]; let mut i = 0;
    while i < r.len() {
        if let TokenTree::Punct(x) = &r[i] { if x.as_char() == '$' { if let Some(TokenTree::Ident(n)) = r.get(i + 1) { if let Some((_, v)) = env.iter().find(|(k, _)| n == k) { o.push(v.clone()); i += 2; continue } } } }
        match &r[i] {
            TokenTree::Group(g) => o.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(&g.stream().into_iter().collect::<Vec<_>>(), env)))),
            t => o.push(t.clone()),
        }
        i += 1;
    }
    o.into_iter().collect()
}
pub fn rewrite(ts: TokenStream, p: &[TokenTree], r: &[TokenTree], n: &mut usize) -> TokenStream {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![]; let mut i = 0;
    while i < t.len() {
        let mut env = vec![];
        if let Some(k) = try_match(p, &t[i..], &mut env) { if k > 0 { *n += 1; for (_, v) in env.iter_mut() { if let TokenTree::Group(g) = v { *v = TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rewrite(g.stream(), p, r, n))) } } o.extend(subst(r, &env)); i += k; continue } }
        match &t[i] {
            TokenTree::Group(g) => o.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rewrite(g.stream(), p, r, n)))),
            x => o.push(x.clone()),
        }
        i += 1;
    }
    o.into_iter().collect()
}
/// An item with the rewrites of the unit applied, if any matches.
pub fn rewritten(t: &str, rs: &[(String, String)]) -> String {
    let Ok(mut ts) = t.parse::<TokenStream>() else { return t.into() };
    let mut all = 0;
    for (p, r) in rs { let mut n = 0; ts = rewrite(ts, &flat(p), &flat(r), &mut n); all += n }
    if all == 0 { t.into() } else { print(ts, &[]) }
}
pub fn tokens(i: &syn::ImplItemFn) -> String { let mut i = i.clone(); i.attrs.clear(); i.to_token_stream().to_string() }
pub fn function(s: &FnSpec, f: &Found, file: &syn::File, vac: bool) -> (String, Vec<String>, usize) {
    let mut edits: Vec<String> = vec![];
    let mut ts = f.item.to_token_stream();
    for (p, r) in &s.rewrites {
        let mut n = 0;
        ts = rewrite(ts, &flat(p), &flat(r), &mut n);
        if n > 0 { edits.push(format!("`{p}` → `{r}` ({n}x)")) }
    }
    let mut item: syn::ImplItemFn = syn::parse2(ts.clone()).unwrap_or_else(|e| crate::lost(&format!("fn {} after rewriting: {e}", s.path)));
    item.vis = syn::parse_quote!(pub);
    item.sig.constness = None;
    for (k, a) in item.sig.inputs.iter_mut().enumerate() { if let syn::FnArg::Typed(a) = a { if let syn::Pat::Wild(_) = *a.pat { let id = quote::format_ident!("vx_p{}", k); a.pat = Box::new(syn::parse_quote!(#id)) } } }
    if let Some(n) = &s.as_name { item.sig.ident = quote::format_ident!("{}", n) }
    let mut texts: Vec<String> = vec![];
    if !s.stub.is_empty() { item.block = syn::parse_quote!({ unimplemented!() }) }
    let none = FnSpec { loops: vec![], hints: vec![], ats: vec![], comb: false, eqs: false, path: s.path.clone(), source: s.source.clone(), as_name: s.as_name.clone(), ret: s.ret.clone(), contract: s.contract.clone(), panics: None, rewrites: vec![], attrs: s.attrs.clone(), stub: s.stub.clone(), out: None };
    let vac = vac && s.stub.is_empty();
    let s = if s.stub.is_empty() { s } else { &none };
    // A function that returns a lazy iterator yields the vector of its items instead.
    if let syn::ReturnType::Type(a, t) = &item.sig.output {
        if let syn::Type::ImplTrait(it) = &**t {
            let tx = norm(&it.to_token_stream().to_string());
            if tx.starts_with("implIterator<Item=") {
                let mut inner: Option<syn::Type> = None;
                if let Some(syn::TypeParamBound::Trait(b)) = it.bounds.first() { if let Some(syn::PathSegment { arguments: syn::PathArguments::AngleBracketed(g), .. }) = b.path.segments.last() { for x in &g.args { if let syn::GenericArgument::AssocType(y) = x { inner = Some(y.ty.clone()) } } } }
                if let (Some(ty), Some(syn::Stmt::Expr(tail, None))) = (inner, item.block.stmts.last_mut()) {
                    let old = tail.clone();
                    *tail = syn::parse_quote!(#old.vx_collect());
                    let arrow = *a;
                    item.sig.output = syn::ReturnType::Type(arrow, Box::new(syn::parse_quote!(Vec<#ty>)));
                    edits.push("lazy iterator returned → vector of its items".into());
                }
            }
        }
    }
    if s.comb {
        crate::find::drop_disabled(&mut item.block, &mut edits);
        let sig = item.sig.clone();
        let mut c = crate::comb::Comb::new(s, file, &mut texts, &sig);
        c.visit_block_mut(&mut item.block);
        edits.extend(c.edits.clone());
        for (n, w, _) in &s.ats { if !c.used.contains(&(*n, w.clone())) { crate::lost(&format!("loop {n} {w} in {}", s.path)) } }
    }
    let mut used_hints = vec![false; s.hints.len()];
    let mut s2 = s.clone();
    if let syn::ReturnType::Type(_, t) = &item.sig.output { s2.out = Some((**t).clone()) }
    let s = &s2;
    let mut late_n = vec![0; s.hints.len()];
    hints(s, &mut item.block, &mut texts, &mut used_hints, false, &mut late_n);
    let mut d = D { spec: s, edits: vec![], texts, used_loops: vec![false; s.loops.len()], seen_loops: Default::default(), vac, markers: 0, nloop: 0, used_hints, all_loops: 0, late_n };
    d.visit_block_mut(&mut item.block);
    for (j, u) in d.used_loops.iter().enumerate() { if !u { crate::lost(&format!("loop `{}` #{} in {}", s.loops[j].0, s.loops[j].1, s.path)) } }
    for (j, u) in d.used_hints.iter().enumerate() { if !u { crate::lost(&format!("statement `{}` #{} in {}", s.hints[j].0, s.hints[j].1, s.path)) } }
    edits.extend(d.edits.clone()); edits.sort(); edits.dedup();
    let mut texts = d.texts; let mut markers = d.markers;
    if vac { texts.push("proof { if vx_flag(-1) { assert(false); // vacuity probe\n} }\n".into()); markers += 1; let id = quote::format_ident!("__vxh_{}", texts.len() - 1); let at = s.hints.iter().filter(|h| h.2 == "top").count(); item.block.stmts.insert(at, syn::parse_quote!(#id!();)) }
    texts.push(s.contract.clone());
    let id = quote::format_ident!("__vx_{}", texts.len() - 1);
    item.block.stmts.insert(0, syn::parse_quote!(#id!();));
    // `-> T` becomes `-> (r: T)`.
    let mut sig = item.sig.clone();
    let out = std::mem::replace(&mut sig.output, syn::ReturnType::Default);
    // `mut` on parameters stays: Verus accepts it.
    let wh = sig.generics.where_clause.take();
    let mut o = String::new();
    o.push_str(&format!("// from {}:{}-{} {}\n", s.source, f.line, f.end, s.path));
    let indent = if f.self_ty.is_some() { o.push_str(&format!("impl{} {} {{\n", f.impl_generics, f.self_ty.clone().unwrap())); true } else { false };
    let _ = indent;
    for l in s.attrs.lines() { if !(vac && l.contains("verifier::rlimit")) { o.push_str(l); o.push('\n') } }
    if !s.stub.is_empty() { o.push_str(&format!("#[verifier::external_body] // contract proved in unit {}\n", s.stub)) }
    if s.comb && !s.attrs.contains("// isolate") { o.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n") }
    o.push_str("pub "); o.push_str(print(sig.to_token_stream(), &[]).trim_end());
    if let syn::ReturnType::Type(_, t) = &out { match &s.ret { Some(r) => o.push_str(&format!(" -> ({r}: {})", t.to_token_stream())), None => o.push_str(&format!(" -> {}", t.to_token_stream())) } }
    if let Some(w) = wh { o.push_str(&format!(" {}", w.to_token_stream())) }
    o.push_str(&print(item.block.to_token_stream(), &texts));
    if f.self_ty.is_some() { o.push_str("}\n") }
    (o, edits, markers)
}
pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut p = P { o: String::new(), ind: 0, texts, bol: true };
    p.stream(ts, false);
    p.o.push('\n');
    p.o
}
struct P<'a> { o: String, ind: usize, texts: &'a [String], bol: bool }
impl<'a> P<'a> {
    fn nl(&mut self) { if !self.bol { self.o.push('\n'); self.bol = true } }
    fn put(&mut self, s: &str, space: bool) {
        if self.bol { for _ in 0..self.ind { self.o.push_str("    ") } self.bol = false; self.o.push_str(s) }
        else { if space { self.o.push(' ') } self.o.push_str(s) }
    }
    fn stream(&mut self, ts: TokenStream, in_brace: bool) {
        let t: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut glue = false;
        while i < t.len() {
            match &t[i] {
                TokenTree::Ident(x) => {
                    let n = x.to_string();
                    // for x in vx_it(it, e) → for x in it: e
                    if n == "vx_it" { if let Some(TokenTree::Group(g)) = t.get(i + 1) {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        self.put("it:", true);
                        self.stream(inner[2..].iter().cloned().collect(), false);
                        i += 2; glue = false; continue
                    } }
                    if let Some(k) = n.strip_prefix("__vxh_") { let k: usize = k.parse().unwrap(); self.nl(); self.o.push_str(&self.texts[k]); if !self.o.ends_with('\n') { self.o.push('\n') } self.bol = true; i += 4; glue = false; continue }
                    self.put(&n, !glue); glue = false;
                }
                TokenTree::Literal(x) => { self.put(&x.to_string(), !glue); glue = false }
                TokenTree::Punct(x) => {
                    let c = x.as_char();
                    let tight = matches!(c, ';' | ',' | '.' | '?');
                    self.put(&c.to_string(), !glue && !tight);
                    glue = x.spacing() == Spacing::Joint || c == '\'' || c == '.' || (c == '&' && matches!(t.get(i + 1), Some(TokenTree::Ident(_))));
                    if c == ';' && !matches!(t.get(i + 1), None) { self.nl() }
                    if c == ',' && in_brace { self.nl() }
                    if c == ';' { self.nl() }
                }
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Parenthesis => { self.put("(", !glue && !matches!(i.checked_sub(1).map(|k| &t[k]), Some(TokenTree::Ident(_)))); self.inline(g.stream()); self.o.push(')'); }
                        Delimiter::Bracket => { self.put("[", false); self.inline(g.stream()); self.o.push(']'); }
                        Delimiter::None => { self.stream(g.stream(), false) }
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut skip = 0;
                            if let Some(TokenTree::Ident(x)) = inner.first() { if let Some(k) = x.to_string().strip_prefix("__vx_") {
                                let k: usize = k.parse().unwrap();
                                let tx = &self.texts[k];
                                if !tx.trim().is_empty() { self.nl(); self.o.push_str(tx); if !self.o.ends_with('\n') { self.o.push('\n') } self.bol = true }
                                skip = 4;
                            } }
                            self.put("{", true);
                            if inner.len() > skip {
                                self.nl(); self.ind += 1;
                                self.stream(inner[skip..].iter().cloned().collect(), true);
                                self.ind -= 1; self.nl();
                            }
                            self.put("}", false);
                            let cont = match t.get(i + 1) { Some(TokenTree::Punct(p)) => matches!(p.as_char(), '.' | ',' | ';' | '?' | '=' | '!' | '&' | '|' | '+' | '-' | '*' | '<' | '>'), Some(TokenTree::Ident(x)) => x == "else" || x == "as", Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis, _ => false };
                            if !cont { self.nl() }
                        }
                    }
                    glue = false;
                }
            }
            i += 1;
        }
    }
    fn inline(&mut self, ts: TokenStream) { let save = self.bol; let _ = save; self.stream(ts, false); if self.bol { for _ in 0..self.ind { self.o.push_str("    ") } self.bol = false } }
}
