//! Rewrites applied to every extracted function; each one that is applied is reported.
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use crate::find::{cfg_on, norm};

pub struct D<'a> {
    pub spec: &'a crate::FnSpec,
    pub edits: Vec<String>,
    pub texts: Vec<String>,
    pub used_loops: Vec<bool>,
    pub seen_loops: std::collections::HashMap<String, usize>,
    pub vac: bool,
    pub markers: usize,
    pub nloop: usize,
    pub used_hints: Vec<bool>,
    pub all_loops: usize,
    pub late_n: Vec<usize>,
}
fn marker(n: usize) -> syn::Stmt {
    let id = quote::format_ident!("__vx_{}", n);
    syn::parse_quote!(#id!();)
}
impl<'a> D<'a> {
    fn text(&mut self, t: String) -> usize { self.texts.push(t); self.texts.len() - 1 }
    fn loop_contract(&mut self, header: String, body: &mut syn::Block, dflt: &str) {
        let h = norm(&header);
        let n = self.seen_loops.entry(h.clone()).or_default();
        let k = *n; *n += 1;
        let mut t = None;
        for (j, (hd, ord, tx)) in self.spec.loops.iter().enumerate() {
            if (hd.is_empty() && *ord == self.all_loops) || (norm(hd) == h && *ord == k) { self.used_loops[j] = true; t = Some(tx.clone()) }
        }
        self.all_loops += 1;
        let t = t.unwrap_or_else(|| dflt.to_string());
        if self.vac { let n = self.text(format!("proof {{ if vx_flag({}) {{ assert(false); // vacuity probe\n}} }}\n", self.markers)); self.markers += 1; let id = quote::format_ident!("__vxh_{}", n); body.stmts.insert(0, syn::parse_quote!(#id!();)); }
        let n = self.text(t);
        body.stmts.insert(0, marker(n));
    }
}
fn is_mac(m: &syn::Macro, n: &str) -> bool { m.path.is_ident(n) }
impl<'a> VisitMut for D<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // cfg'd statements
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            let attrs: Vec<syn::Attribute> = match &s {
                syn::Stmt::Local(l) => l.attrs.clone(),
                syn::Stmt::Expr(e, _) => expr_attrs(e),
                syn::Stmt::Macro(m) => m.attrs.clone(),
                syn::Stmt::Item(_) => vec![],
            };
            if cfg_on(&attrs) { b.stmts.push(s) } else { self.edits.push("statement behind a disabled cfg dropped".into()) }
        }
        // A trailing `{ ... }` behind an enabled cfg becomes the tail expression.
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last_mut() { strip_attrs(e) }
        for s in b.stmts.iter_mut() {
            if let syn::Stmt::Local(l) = s { l.attrs.clear() }
            if let syn::Stmt::Expr(e, _) = s { strip_attrs(e) }
            // Statement macros: panic! and assertions.
            if let syn::Stmt::Macro(m) = s {
                if ["format", "write", "writeln"].iter().any(|n| is_mac(&m.mac, n)) {
                    let e = syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    *s = syn::Stmt::Expr(e, m.semi_token);
                } else if is_mac(&m.mac, "panic") {
                    let e = self.panic();
                    *s = syn::Stmt::Expr(e, m.semi_token);
                } else if is_mac(&m.mac, "debug_assert") || is_mac(&m.mac, "assert") {
                    let t = m.mac.tokens.clone();
                    let first: syn::Expr = syn::parse::Parser::parse2(|p: syn::parse::ParseStream| { let e: syn::Expr = p.parse()?; let _: proc_macro2::TokenStream = p.parse()?; Ok(e) }, t).unwrap();
                    self.edits.push("assert!(c) → vx_assert(c) (c must be proved)".into());
                    *s = syn::parse_quote!(vx_assert(#first););
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        strip_attrs(e);
        if self.spec.eqs {
            if let syn::Expr::Binary(b) = e {
                let ne = matches!(b.op, syn::BinOp::Ne(_));
                if ne || matches!(b.op, syn::BinOp::Eq(_)) {
                    self.edits.push("a == b → vx_eq(&a, &b)".into());
                    let (l, r) = (&b.left, &b.right);
                    let mut n: syn::Expr = if ne { syn::parse_quote!(!vx_eq(&#l, &#r)) } else { syn::parse_quote!(vx_eq(&#l, &#r)) };
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
            }
        }
        // if a && let P = b { .. } (no else) becomes nested ifs.
        if let syn::Expr::If(f) = e {
            if f.else_branch.is_none() {
                let mut cs: Vec<syn::Expr> = vec![];
                fn conj(e: &syn::Expr, o: &mut Vec<syn::Expr>) { match e { syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => { conj(&b.left, o); conj(&b.right, o) } x => o.push(x.clone()) } }
                conj(&f.cond, &mut cs);
                if cs.len() > 1 && cs.iter().any(|c| matches!(c, syn::Expr::Let(_))) {
                    self.edits.push("if a && let P = b { .. } → nested ifs".into());
                    let body = &f.then_branch;
                    let mut n: syn::Expr = { let c = cs.last().unwrap(); syn::parse_quote!(if #c #body) };
                    for c in cs.iter().rev().skip(1) { n = syn::parse_quote!(if #c { #n }) }
                    *e = n;
                }
            }
        }
        // A `map` whose outcome is given to `map_err` is Result's.
        if let syn::Expr::MethodCall(o) = e {
            if o.method == "map_err" && o.args.len() == 1 {
                if let (syn::Expr::Closure(q), syn::Expr::MethodCall(i)) = (&o.args[0], &*o.receiver) {
                    if i.method == "map" && i.args.len() == 1 {
                        if let syn::Expr::Closure(p) = &i.args[0] {
                            let (r, a, b, c, d) = (&i.receiver, &p.inputs[0], &p.body, &q.inputs[0], &q.body);
                            let n: syn::Expr = syn::parse_quote!((match #r { Ok(#a) => Ok(#b), Err(#c) => Err(#d) }));
                            self.edits.push("Result::map(closure).map_err(closure) → match".into());
                            *e = n;
                        }
                    }
                }
            }
        }
        // Iterator consumers become loops: the definition of each adapter, written out.
        if let Some((base, stages, sink)) = chain(e) {
            let names: Vec<&str> = stages.iter().map(|(n, _)| n.as_str()).collect();
            self.edits.push(format!("iterator {}{} → loop", names.iter().map(|n| format!("{n}+")).collect::<String>(), sink.0));
            let inner: syn::Block = match sink.0.as_str() {
                "find" => { let (p, c) = clos(sink.1.as_ref().unwrap()); syn::parse_quote!({ let vx_hit = { let #p = &vx_x; #c }; if vx_hit { vx_out = Some(vx_x); break; } }) }
                "position" => { let (p, c) = clos(sink.1.as_ref().unwrap()); syn::parse_quote!({ let vx_hit = { let #p = vx_x; #c }; if vx_hit { vx_out = Some(vx_n); break; } vx_n = vx_n + 1; }) }
                "any" => { let (p, c) = clos(sink.1.as_ref().unwrap()); syn::parse_quote!({ let vx_hit = { let #p = vx_x; #c }; if vx_hit { vx_out = true; break; } }) }
                "all" => { let (p, c) = clos(sink.1.as_ref().unwrap()); syn::parse_quote!({ let vx_hit = { let #p = vx_x; #c }; if !vx_hit { vx_out = false; break; } }) }
                "count" => syn::parse_quote!({ vx_out = vx_out + 1; }),
                _ => syn::parse_quote!({ vx_out.push(vx_x); }),
            };
            let mut body = inner;
            for (n, c) in stages.iter().rev() {
                let (p, c) = clos(c);
                let st = &body.stmts;
                body = match n.as_str() {
                    "filter" => syn::parse_quote!({ let vx_keep = { let #p = &vx_x; #c }; if vx_keep { #(#st)* } }),
                    "filter_map" => syn::parse_quote!({ let vx_some = { let #p = vx_x; #c }; if let Some(vx_x) = vx_some { #(#st)* } }),
                    _ => syn::parse_quote!({ let vx_x = { let #p = vx_x; #c }; #(#st)* }),
                };
            }
            let init: Vec<syn::Stmt> = match sink.0.as_str() { "find" => syn::parse_quote!(let mut vx_out = None;), "position" => syn::parse_quote!(let mut vx_out = None; let mut vx_n: usize = 0;), "any" => syn::parse_quote!(let mut vx_out = false;), "all" => syn::parse_quote!(let mut vx_out = true;), "count" => syn::parse_quote!(let mut vx_out: usize = 0;), _ => syn::parse_quote!(let mut vx_out = Vec::new();) };
            let mut n: syn::Expr = syn::parse_quote!({ #(#init)* for vx_x in #base #body vx_out });
            // Hints may name statements of the new loop.
            if let syn::Expr::Block(b) = &mut n { late_hints(self.spec, &mut b.block, &mut self.texts, &mut self.used_hints, &mut self.late_n) }
            *e = n;
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let syn::Expr::Macro(m) = e {
            if is_mac(&m.mac, "panic") || is_mac(&m.mac, "unreachable") { *e = self.panic(); return }
            for n in ["format", "write", "writeln"] { if is_mac(&m.mac, n) { let t = m.mac.tokens.clone(); *e = self.fmt_macro(n, t); if let syn::Expr::Block(b) = e { late_hints(self.spec, &mut b.block, &mut self.texts, &mut self.used_hints, &mut self.late_n) } visit_mut::visit_expr_mut(self, e); return } }
            if is_mac(&m.mac, "matches") { visit_mut::visit_expr_mut(self, e); return }
        }
        if let syn::Expr::ForLoop(f) = e {
            let header = format!("for {} in {}", f.pat.to_token_stream(), f.expr.to_token_stream());
            self.nloop += 1;
            let it = quote::format_ident!("it");
            // for (i, x) in e.iter().enumerate()
            let mut expr = (*f.expr).clone();
            let mut pre: Vec<syn::Stmt> = vec![];
            if let syn::Expr::MethodCall(mc) = &expr {
                if mc.method == "enumerate" {
                    if let syn::Pat::Tuple(t) = &*f.pat {
                        if t.elems.len() == 2 {
                            let (i, x) = (t.elems[0].clone(), t.elems[1].clone());
                            let cnt = quote::format_ident!("vx_count{}", self.nloop);
                            pre.push(syn::parse_quote!(let mut #cnt: usize = 0;));
                            *f.pat = x;
                            f.body.stmts.insert(0, syn::parse_quote!(#cnt = #cnt + 1;));
                            f.body.stmts.insert(0, syn::parse_quote!(let #i = #cnt;));
                            expr = (*mc.receiver).clone();
                            self.edits.push("for (i, x) in e.enumerate() → a counter beside for x in e".into());
                        }
                    }
                }
            }
            // for x in e.filter(|y| c)
            if let syn::Expr::MethodCall(mc) = &expr {
                if mc.method == "filter" && mc.args.len() == 1 {
                    let (p, c) = clos(&mc.args[0]);
                    let (x, st) = (&f.pat, &f.body.stmts);
                    f.body = syn::parse_quote!({ let vx_keep = { let #p = &vx_x; #c }; if vx_keep { let #x = vx_x; #(#st)* } });
                    *f.pat = syn::parse_quote!(vx_x);
                    expr = (*mc.receiver).clone();
                    self.edits.push("for x in e.filter(c) → for x in e with an if".into());
                    late_hints(self.spec, &mut f.body, &mut self.texts, &mut self.used_hints, &mut self.late_n);
                }
            }
            let expr2: syn::Expr = match &expr {
                syn::Expr::Reference(r) if r.mutability.is_some() => { let v = &r.expr; self.edits.push("for x in &mut v → for x in v.iter_mut()".into()); syn::parse_quote!(#v.iter_mut()) }
                syn::Expr::Reference(r) => { let v = &r.expr; self.edits.push("for x in &v → for x in v.iter()".into()); syn::parse_quote!(#v.iter()) }
                _ => expr.clone(),
            };
            self.loop_contract(header, &mut f.body, "");
            visit_mut::visit_block_mut(self, &mut f.body);
            // Verus names the ghost iterator: `for x in it: e`.
            let (pat, body) = (&f.pat, &f.body);
            let mut e2 = expr2; self.visit_expr_mut(&mut e2);
            let mk = quote!(for #pat in vx_it(#it, #e2) #body);
            let fl: syn::Expr = syn::parse2(mk).unwrap();
            *e = if pre.is_empty() { fl } else { syn::parse_quote!({ #(#pre)* #fl }) };
            return;
        }
        if let syn::Expr::While(w) = e {
            let header = format!("while {}", w.cond.to_token_stream());
            self.loop_contract(header, &mut w.body, "");
        }
        if let syn::Expr::Loop(w) = e {
            let own = match w.body.stmts.first() { Some(syn::Stmt::Macro(m)) => m.mac.path.get_ident().and_then(|i| i.to_string().strip_prefix("__vxc_").map(|k| k.parse::<usize>().unwrap())), _ => None };
            match own {
                Some(k) => {
                    w.body.stmts.remove(0);
                    if self.vac { let n = self.text(format!("proof {{ if vx_flag({}) {{ assert(false); // vacuity probe\n}} }}\n", self.markers)); self.markers += 1; let id = quote::format_ident!("__vxh_{}", n); w.body.stmts.insert(0, syn::parse_quote!(#id!();)); }
                    w.body.stmts.insert(0, marker(k));
                }
                None => self.loop_contract("loop".into(), &mut w.body, ""),
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // Closures given to Option::map and friends.
        if let syn::Expr::MethodCall(mc) = e {
            // Only Result::or_else takes a closure with an argument.
            if mc.method == "or_else" && mc.args.len() == 1 {
                if let syn::Expr::Closure(c) = &mc.args[0] {
                    if c.inputs.len() == 1 {
                        let (r, p, b) = (&mc.receiver, &c.inputs[0], &c.body);
                        let n: syn::Expr = syn::parse_quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => #b }));
                        self.edits.push("Result::or_else(closure) → match".into());
                        *e = n;
                        return;
                    }
                }
            }
            if mc.method == "map_err" && mc.args.len() == 1 {
                if let syn::Expr::Closure(c) = &mc.args[0] {
                    let (r, p, b) = (&mc.receiver, &c.inputs[0], &c.body);
                    let n: syn::Expr = syn::parse_quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }));
                    self.edits.push("Result::map_err(closure) → match".into());
                    *e = n;
                    return;
                }
            }
            if (mc.method == "map" || mc.method == "and_then" || mc.method == "is_some_and" || mc.method == "is_none_or" || mc.method == "map_or" || mc.method == "or_else" || mc.method == "unwrap_or_else") && !mc.args.is_empty() {
                let r = &mc.receiver;
                if let Some(syn::Expr::Closure(c)) = mc.args.last() {
                    let b = &c.body;
                    if c.inputs.len() == 1 {
                        let p = &c.inputs[0];
                        let new: Option<syn::Expr> = match mc.method.to_string().as_str() {
                            "map" => Some(syn::parse_quote!((match #r { Some(#p) => Some(#b), None => None }))),
                            "and_then" => Some(syn::parse_quote!((match #r { Some(#p) => #b, None => None }))),
                            "is_some_and" => Some(syn::parse_quote!((match #r { Some(#p) => #b, None => false }))),
                            "is_none_or" => Some(syn::parse_quote!((match #r { Some(#p) => #b, None => true }))),
                            "map_or" => { let d = &mc.args[0]; Some(syn::parse_quote!((match #r { Some(#p) => #b, None => #d }))) }
                            _ => None,
                        };
                        if let Some(n) = new { self.edits.push(format!("Option::{}(closure) → match", mc.method)); *e = n; }
                    } else if c.inputs.is_empty() && mc.method == "unwrap_or_else" {
                        let n: syn::Expr = syn::parse_quote!((match #r { Some(vx_v) => vx_v, None => #b }));
                        self.edits.push("Option::unwrap_or_else(closure) → match".into());
                        *e = n;
                    }
                }
            }
        }
    }
}
/// The pieces of a format string: literal text, or an argument (with the text of its width).
enum Piece { Lit(String), Arg(syn::Expr, Option<syn::Expr>), As(syn::Expr, &'static str) }
impl<'a> D<'a> {
    fn pieces(&self, f: &str, pos: &[syn::Expr], named: &[(String, syn::Expr)]) -> Vec<Piece> {
        let bad = || -> ! { crate::lost(&format!("format string {f:?} in {}", self.spec.path)) };
        let (mut o, mut lit, mut it, mut next) = (vec![], String::new(), f.chars().peekable(), 0);
        let by_name = |n: &str| -> syn::Expr { match named.iter().find(|(k, _)| k == n) { Some((_, e)) => e.clone(), None => syn::parse_str(n).unwrap_or_else(|_| bad()) } };
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{') }
                '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}') }
                '{' => {
                    let mut t = String::new();
                    loop { match it.next() { Some('}') => break, Some(c) => t.push(c), None => bad() } }
                    let (name, w) = match t.split_once(':') { Some((n, w)) => (n.to_string(), Some(w.to_string())), None => (t, None) };
                    let a = if name.is_empty() { next += 1; pos.get(next - 1).cloned().unwrap_or_else(|| bad()) } else if let Ok(k) = name.parse::<usize>() { pos.get(k).cloned().unwrap_or_else(|| bad()) } else { by_name(&name) };
                    if !lit.is_empty() { o.push(Piece::Lit(std::mem::take(&mut lit))) }
                    match w.as_deref() { Some("?") => { o.push(Piece::As(a, "vx_dbg")); continue } Some("x") => { o.push(Piece::As(a, "vx_hex")); continue } _ => {} }
                    let w = w.map(|w| match w.strip_suffix('$') { Some(n) => by_name(n), None => bad() });
                    o.push(Piece::Arg(a, w));
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() { o.push(Piece::Lit(lit)) }
        o
    }
    /// format!/write!/writeln!: the pieces, one after the other.
    fn fmt_macro(&mut self, n: &str, t: proc_macro2::TokenStream) -> syn::Expr {
        self.edits.push(format!("{n}!(..) → its pieces written one after the other"));
        let args: Vec<syn::Expr> = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated, t).unwrap_or_else(|e| crate::lost(&format!("{n}! in {}: {e}", self.spec.path))).into_iter().collect();
        let mut args = args.into_iter();
        let sink: syn::Expr = if n == "format" { syn::parse_quote!(vx_f) } else { args.next().unwrap_or_else(|| crate::lost("a sink")) };
        let f = match args.next() { Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(), None => String::new(), _ => crate::lost(&format!("{n}! without a literal in {}", self.spec.path)) };
        let (mut pos, mut named) = (vec![], vec![]);
        for a in args { match a { syn::Expr::Assign(x) => named.push((x.left.to_token_stream().to_string(), *x.right)), x => pos.push(x) } }
        let mut p = self.pieces(&f, &pos, &named);
        if n == "writeln" { match p.last_mut() { Some(Piece::Lit(l)) => l.push('\n'), _ => p.push(Piece::Lit("\n".into())) } }
        let calls: Vec<syn::Expr> = p.iter().map(|x| match x {
            Piece::Lit(l) => { let k = self.text(format!("proof {{ reveal_strlit({}); assert({}@ =~= seq![{}]); }}\n", crate::comb::strlit(l), crate::comb::strlit(l), l.chars().map(|c| crate::comb::chrlit(c)).collect::<Vec<_>>().join(", "))); let id = quote::format_ident!("__vxh_{}", k); syn::parse_quote!(({ #id!(); #sink.vx_put(#l) })) }
            Piece::Arg(a, None) => syn::parse_quote!(#sink.vx_arg(&#a)),
            Piece::As(a, m) => { let m = quote::format_ident!("{}", m); syn::parse_quote!(#sink.#m(&#a)) }
            Piece::Arg(a, Some(w)) => syn::parse_quote!(#sink.vx_pad(#a, #w)),
        }).collect();
        let mut it = calls.into_iter().rev();
        let mut e: syn::Expr = it.next().unwrap_or_else(|| syn::parse_quote!(Ok(())));
        for c in it { e = syn::parse_quote!(match #c { Ok(()) => #e, Err(vx_e) => Err(vx_e) }) }
        if n == "format" { syn::parse_quote!({ let mut vx_f = vx_fmt_new(); let vx_r = #e; vx_fmt_done(vx_f, vx_r) }) } else { e }
    }
}
fn clos(e: &syn::Expr) -> (syn::Pat, syn::Expr) {
    match e {
        syn::Expr::Closure(c) => { let p = c.inputs[0].clone(); let p = if let syn::Pat::Type(t) = p { (*t.pat).clone() } else { p }; (p, (*c.body).clone()) }
        // A path such as KdlNode::name.
        f => (syn::parse_quote!(vx_y), syn::parse_quote!(#f(vx_y))),
    }
}
type Stage = (String, syn::Expr);
/// `base.filter(..).map(..).find(..)`: the base, the stages and the consumer.
fn chain(e: &syn::Expr) -> Option<(syn::Expr, Vec<Stage>, (String, Option<syn::Expr>))> {
    let syn::Expr::MethodCall(m) = e else { return None };
    let name = m.method.to_string();
    let sink = match (name.as_str(), m.args.len()) {
        ("find" | "position" | "any" | "all", 1) => (name, Some(m.args[0].clone())),
        ("count" | "vx_collect", 0) => (name, None),
        _ => return None,
    };
    let mut cur = &*m.receiver;
    let mut st = vec![];
    while let syn::Expr::MethodCall(c) = cur {
        match (c.method.to_string().as_str(), c.args.len()) {
            (n @ ("filter" | "map" | "filter_map"), 1) => { st.push((n.to_string(), c.args[0].clone())); cur = &c.receiver }
            _ => break,
        }
    }
    st.reverse();
    // Only iterators: the base has to produce one by name.
    let ok = match cur { syn::Expr::MethodCall(c) => matches!(c.method.to_string().as_str(), "iter" | "iter_mut" | "into_iter" | "chars" | "bytes" | "lines" | "vx_iter"), _ => false };
    if !ok { return None }
    Some((cur.clone(), st, sink))
}
impl<'a> D<'a> {
    fn panic(&mut self) -> syn::Expr {
        let c: proc_macro2::TokenStream = self.spec.panics.clone().unwrap_or("false".into()).replace('@', ".view()").parse().unwrap();
        self.edits.push("panic!(..) → vx_panic(Ghost(documented condition)) (must hold there; never returns)".into());
        syn::parse_quote!(vx_panic(Ghost(#c)))
    }
}
pub fn expr_attrs(e: &syn::Expr) -> Vec<syn::Attribute> {
    match e { syn::Expr::Block(b) => b.attrs.clone(), syn::Expr::If(b) => b.attrs.clone(), syn::Expr::MethodCall(b) => b.attrs.clone(), syn::Expr::Call(b) => b.attrs.clone(), syn::Expr::Assign(b) => b.attrs.clone(), syn::Expr::Match(b) => b.attrs.clone(), syn::Expr::Macro(b) => b.attrs.clone(), syn::Expr::Return(b) => b.attrs.clone(), _ => vec![] }
}
pub fn strip_attrs(e: &mut syn::Expr) {
    match e {
        syn::Expr::Block(b) => b.attrs.clear(), syn::Expr::If(b) => b.attrs.clear(), syn::Expr::MethodCall(b) => b.attrs.clear(), syn::Expr::Call(b) => b.attrs.clear(), syn::Expr::Assign(b) => b.attrs.clear(), syn::Expr::Match(b) => b.attrs.clear(), syn::Expr::Macro(b) => b.attrs.clear(), syn::Expr::Return(b) => b.attrs.clear(),
        syn::Expr::Struct(s) => { s.fields = std::mem::take(&mut s.fields).into_iter().filter(|f| cfg_on(&f.attrs)).map(|mut f| { f.attrs.clear(); f }).collect(); if s.rest.is_some() && !s.fields.empty_or_trailing() { s.fields.push_punct(Default::default()) } }
        _ => {}
    }
}
/// Place proof hints next to the statements they name.
pub fn hints(spec: &crate::FnSpec, body: &mut syn::Block, texts: &mut Vec<String>, used: &mut Vec<bool>, only_late: bool, late_n: &mut Vec<usize>) {
    struct H<'b> { want: String, ord: usize, n: usize, side: &'b str, id: proc_macro2::Ident, done: bool }
    impl<'b> VisitMut for H<'b> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let mut k = 0;
            while k < b.stmts.len() {
                let t = norm(&b.stmts[k].to_token_stream().to_string());
                let hit = match self.want.strip_suffix("..") { Some(p) => t.starts_with(p), None => t.trim_end_matches(';') == self.want.trim_end_matches(';') };
                if !self.done && hit {
                    if self.n == self.ord {
                        let id = &self.id;
                        let s: syn::Stmt = syn::parse_quote!(#id!(););
                        let at = if self.side == "after" { k + 1 } else { k };
                        b.stmts.insert(at, s);
                        self.done = true;
                        return;
                    }
                    self.n += 1;
                }
                visit_mut::visit_stmt_mut(self, &mut b.stmts[k]);
                if self.done { return }
                k += 1;
            }
        }
    }
    for (j, (st, ord, side, tx)) in spec.hints.iter().enumerate() {
        if used[j] { continue }
        if only_late && (side == "top" || side == "tail") { continue }
        if side == "tail" {
            if let Some(syn::Stmt::Expr(e, None)) = body.stmts.pop() {
                let id = quote::format_ident!("__vxh_{}", texts.len());
                texts.push(tx.clone()); used[j] = true;
                match &spec.out { Some(t) => body.stmts.push(syn::parse_quote!(let vx_ret: #t = #e;)), None => body.stmts.push(syn::parse_quote!(let vx_ret = #e;)) }
                body.stmts.push(syn::parse_quote!(#id!();));
                body.stmts.push(syn::Stmt::Expr(syn::parse_quote!(vx_ret), None));
            }
            continue
        }
        let n0 = texts.len();
        let id = quote::format_ident!("__vxh_{}", n0);
        if side == "top" { texts.push(tx.clone()); body.stmts.insert(0, syn::parse_quote!(#id!();)); used[j] = true; continue }
        let mut h = H { want: norm(st), ord: *ord, n: late_n[j], side, id, done: false };
        h.visit_block_mut(body);
        if only_late { late_n[j] = h.n }
        if h.done { texts.push(tx.clone()); used[j] = true }
    }
}
fn late_hints(spec: &crate::FnSpec, body: &mut syn::Block, texts: &mut Vec<String>, used: &mut Vec<bool>, late_n: &mut Vec<usize>) { hints(spec, body, texts, used, true, late_n) }
