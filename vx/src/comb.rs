//! Parser combinators written out: `P.parse_next(input)` becomes the code the
//! combinators of winnow 1.0.4 run, by their definitions (combinator/{core,
//! branch,multi,impls,sequence}.rs, token/mod.rs, ascii/mod.rs, stream/recoverable.rs).
//! Error messages (`context`) are dropped; spans and the backtrack/cut
//! distinction stay. `trace` only traces.
use crate::find::norm;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

pub struct Comb<'a> {
    pub spec: &'a crate::FnSpec,
    pub file: &'a syn::File,
    pub texts: &'a mut Vec<String>,
    pub edits: Vec<String>,
    pub nloop: usize,
    nname: usize,
    locals: HashMap<String, syn::Expr>,
    ret: Option<syn::Type>,
    pub used: Vec<(usize, String)>,
}
type Ty = Option<syn::Type>;
const COMBS: &[&str] = &["alt", "opt", "not", "peek", "cut_err", "preceded", "terminated", "trace", "repeat", "repeat_till", "separated", "one_of", "none_of", "take_while", "resume_after_cut", "Caseless"];
const METHODS: &[&str] = &["void", "take", "value", "map", "verify_map", "try_map", "context", "with_taken", "with_span"];

pub fn strlit(s: &str) -> String { format!("\"{}\"", s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>()) }
pub fn chrlit(c: char) -> String { format!("'\\u{{{:x}}}'", c as u32) }
fn unit() -> syn::Type { syn::parse_quote!(()) }
fn tuple_ty(t: &Ty, i: usize, n: usize) -> Ty {
    match t { Some(syn::Type::Tuple(t)) if t.elems.len() == n => good(t.elems[i].clone()), _ => None }
}
fn good(t: syn::Type) -> Ty { if matches!(t, syn::Type::Infer(_)) { None } else { Some(t) } }
fn generic(t: &Ty, name: &str) -> Ty {
    if let Some(syn::Type::Path(p)) = t { let s = p.path.segments.last()?; if s.ident == name { if let syn::PathArguments::AngleBracketed(a) = &s.arguments { if let Some(syn::GenericArgument::Type(t)) = a.args.first() { return good(t.clone()) } } } }
    None
}
/// The type a closure parameter reveals.
fn pat_ty(p: &syn::Pat) -> Ty {
    match p {
        syn::Pat::Type(t) => good((*t.ty).clone()),
        syn::Pat::Tuple(t) if t.elems.is_empty() => Some(unit()),
        syn::Pat::Tuple(t) => { let e: Vec<syn::Type> = t.elems.iter().map(|x| pat_ty(x).unwrap_or(syn::parse_quote!(_))).collect(); Some(syn::parse_quote!((#(#e),*))) }
        syn::Pat::Paren(p) => pat_ty(&p.pat),
        _ => None,
    }
}
/// Fill in the type of the variable `v` inside a pattern type.
fn with_var(p: &syn::Pat, v: &str, t: &syn::Type) -> Ty {
    match p {
        syn::Pat::Type(x) => good((*x.ty).clone()),
        syn::Pat::Ident(i) if i.ident == v => Some(t.clone()),
        syn::Pat::Tuple(x) if x.elems.is_empty() => Some(unit()),
        syn::Pat::Tuple(x) => { let e: Vec<syn::Type> = x.elems.iter().map(|y| with_var(y, v, t).unwrap_or(syn::parse_quote!(_))).collect(); Some(syn::parse_quote!((#(#e),*))) }
        syn::Pat::Paren(p) => with_var(&p.pat, v, t),
        _ => None,
    }
}
fn strip_pat(p: &syn::Pat) -> syn::Pat { match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() } }
fn path1(e: &syn::Expr) -> Option<String> { if let syn::Expr::Path(p) = e { if p.path.segments.len() == 1 { return Some(p.path.segments[0].ident.to_string()) } } None }
fn bt() -> TokenStream { quote!(Err(vx_bt())) }

impl<'a> Comb<'a> {
    pub fn new(spec: &'a crate::FnSpec, file: &'a syn::File, texts: &'a mut Vec<String>, sig: &syn::Signature) -> Self {
        let ret = match &sig.output { syn::ReturnType::Type(_, t) => generic(&Some((**t).clone()), "PResult"), _ => None };
        Comb { spec, file, texts, edits: vec![], nloop: 0, nname: 0, locals: HashMap::new(), ret, used: vec![] }
    }
    fn name(&mut self, s: &str) -> proc_macro2::Ident { self.nname += 1; format_ident!("{}_{}", s, self.nname) }
    fn raw(&mut self, t: String) -> TokenStream { self.texts.push(t); let id = format_ident!("__vxh_{}", self.texts.len() - 1); quote!(#id!();) }
    fn edit(&mut self, s: &str) { self.edits.push(format!("winnow {s} written out")) }
    fn lost(&self, m: &str) -> ! { crate::lost(&format!("{m} in {}", self.spec.path)) }
    /// Text the unit gives for an anchor of loop `n`.
    fn at(&mut self, n: usize, what: &str) -> TokenStream {
        let mut t = String::new();
        for (i, w, tx) in &self.spec.ats { if *i == n && w == what { t.push_str(tx); self.used.push((n, what.into())) } }
        if t.trim().is_empty() { quote!() } else { self.raw(t) }
    }
    fn arr(&self, e: &syn::Expr) -> Option<Vec<syn::Expr>> {
        match e {
            syn::Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
            syn::Expr::Path(_) => {
                let n = path1(e)?;
                for i in &self.file.items {
                    match i { syn::Item::Static(s) if s.ident == n => return self.arr(&s.expr), syn::Item::Const(s) if s.ident == n => return self.arr(&s.expr), _ => {} }
                }
                None
            }
            _ => None,
        }
    }
    fn range(&self, e: &syn::Expr) -> (usize, Option<usize>) {
        if let syn::Expr::Range(r) = e {
            let num = |x: &Option<Box<syn::Expr>>| -> Option<usize> { x.as_ref().and_then(|x| x.to_token_stream().to_string().parse().ok()) };
            if let Some(lo) = num(&r.start) {
                match (&r.end, &r.limits) { (None, _) => return (lo, None), (Some(_), syn::RangeLimits::Closed(_)) => if let Some(hi) = num(&r.end) { return (lo, Some(hi)) }, _ => {} }
            }
        }
        self.lost("a repetition range that is not understood")
    }
    fn lit_str(&mut self, s: &str) -> TokenStream {
        let cs: Vec<char> = s.chars().collect();
        let q: Vec<String> = cs.iter().map(|c| format!("'\\u{{{:x}}}'", *c as u32)).collect();
        let esc: String = cs.iter().map(|c| format!("\\u{{{:x}}}", *c as u32)).collect();
        let pr = self.raw(format!("proof {{ reveal_strlit(\"{esc}\"); assert(\"{esc}\"@ =~= seq![{}]); }}\n", q.join(", ")));
        let l = format!("\"{esc}\"").parse::<TokenStream>().unwrap();
        let g: Vec<TokenStream> = q.iter().map(|x| x.parse().unwrap()).collect();
        let f = match cs.len() { 1..=3 => format_ident!("vx_lit{}", cs.len()), _ => format_ident!("vx_lit") };
        if cs.len() <= 3 { quote!({ #pr #f(input, #l, #(Ghost(#g)),*) }) } else { quote!({ #pr #f(input, #l) }) }
    }
    fn str_is(&mut self, x: TokenStream, s: &str) -> TokenStream {
        let q: Vec<String> = s.chars().map(|c| format!("'\\u{{{:x}}}'", c as u32)).collect();
        let esc: String = s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect();
        let pr = self.raw(format!("proof {{ reveal_strlit(\"{esc}\"); assert(\"{esc}\"@ =~= seq![{}]); }}\n", q.join(", ")));
        let l = format!("\"{esc}\"").parse::<TokenStream>().unwrap();
        quote!({ #pr vx_str_is(#x, #l) })
    }
    /// Whether an expression builds a parser.
    fn is_parser(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Call(c) => path1(&c.func).is_some_and(|f| COMBS.contains(&f.as_str())),
            syn::Expr::MethodCall(m) => METHODS.contains(&m.method.to_string().as_str()) && self.is_parser(&m.receiver) || m.method == "context",
            syn::Expr::If(i) => i.then_branch.stmts.len() == 1 && matches!(&i.then_branch.stmts[0], syn::Stmt::Expr(x, None) if self.is_parser(x)),
            syn::Expr::Tuple(t) => t.elems.len() > 1 && t.elems.iter().all(|x| self.is_parser(x) || matches!(x, syn::Expr::Lit(_))) && t.elems.iter().any(|x| self.is_parser(x)),
            _ => false,
        }
    }
    fn closure<'e>(&self, e: &'e syn::Expr) -> Option<&'e syn::ExprClosure> { match e { syn::Expr::Closure(c) => Some(c), syn::Expr::Paren(p) => self.closure(&p.expr), _ => None } }
    /// `f(v)` with the closure or path `f` applied.
    fn apply(&mut self, f: &syn::Expr, v: TokenStream) -> TokenStream {
        match self.closure(f) {
            Some(c) if c.inputs.len() == 1 => {
                let p = strip_pat(&c.inputs[0]);
                let mut b = (*c.body).clone();
                self.visit_expr_mut(&mut b);
                match &c.inputs[0] { syn::Pat::Type(t) => { let ty = &t.ty; quote!({ let #p: #ty = #v; #b }) } _ => quote!({ let #p = #v; #b }) }
            }
            Some(_) => self.lost("a closure of more than one argument"),
            None => quote!(#f(#v)),
        }
    }
    fn arg_ty(&self, f: &syn::Expr, exp: &Ty) -> Ty {
        let c = self.closure(f)?;
        let p = c.inputs.first()?;
        if let (Some(v), Some(t)) = (path1(&c.body), exp) { return with_var(p, &v, t) }
        pat_ty(p)
    }
    /// Code of type PResult<T> that runs the parser `e` on `input`.
    pub fn run(&mut self, e: &syn::Expr, exp: Ty) -> TokenStream {
        match e {
            syn::Expr::Paren(p) => self.run(&p.expr, exp),
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => { self.edit("literal"); self.lit_str(&s.value()) }
                syn::Lit::Char(_) => { self.edit("one_of"); self.token(&[syn::Expr::Lit(l.clone())], true) }
                _ => self.lost("a literal parser that is not understood"),
            },
            syn::Expr::Reference(r) => { if let syn::Expr::Index(i) = &*r.expr { let b = &i.expr; self.edit("literal"); return quote!(vx_lit(input, vx_whole(&#b))) } self.lost("a reference used as a parser") }
            syn::Expr::If(i) => {
                let c = &i.cond;
                let (syn::Stmt::Expr(a, None), Some((_, b))) = (&i.then_branch.stmts[0], &i.else_branch) else { self.lost("a conditional parser") };
                let b = match &**b { syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(x, None) => x.clone(), _ => self.lost("a conditional parser") }, _ => self.lost("a conditional parser") };
                let (x, y) = (self.run(a, exp.clone()), self.run(&b, exp));
                quote!(if #c { #x } else { #y })
            }
            syn::Expr::Path(_) => {
                if let Some(n) = path1(e) {
                    if let Some(x) = self.locals.get(&n).cloned() { return self.run(&x, exp) }
                    return match n.as_str() {
                        "eof" => { self.edit("eof"); quote!(vx_eof(input)) }
                        "any" => { self.edit("any"); quote!(vx_any(input)) }
                        "empty" => { self.edit("empty"); quote!(vx_empty(input)) }
                        "fail" => { self.edit("fail"); bt() }
                        "digit1" => self.take_while(1, None, &syn::parse_quote!(AsChar::is_dec_digit)),
                        "hex_digit1" => self.take_while(1, None, &syn::parse_quote!(AsChar::is_hex_digit)),
                        "oct_digit1" => self.take_while(1, None, &syn::parse_quote!(AsChar::is_oct_digit)),
                        _ => { let i = format_ident!("{}", n); quote!(#i(input)) }
                    };
                }
                quote!(#e(input))
            }
            syn::Expr::Tuple(t) => {
                let v: Vec<syn::Expr> = t.elems.iter().cloned().collect();
                self.seq(&v, &exp, |ids| quote!((#(#ids),*)))
            }
            syn::Expr::Closure(c) => { let tx = c.body.to_token_stream().to_string(); if tx.contains('?') || tx.split(|x: char| !x.is_alphanumeric() && x != '_').any(|w| w == "return") { self.lost("a parser closure that returns") } let mut b = (*c.body).clone(); self.visit_expr_mut(&mut b); match &c.output { syn::ReturnType::Type(_, t) => { let v = self.name("vx_c"); quote!({ let #v: #t = #b; #v }) } _ => quote!((#b)) } }
            syn::Expr::Call(c) => {
                let Some(f) = path1(&c.func) else { self.lost("a call used as a parser") };
                let a: Vec<syn::Expr> = c.args.iter().cloned().collect();
                self.call(&f, &a, exp)
            }
            syn::Expr::MethodCall(m) => self.method(m, exp),
            syn::Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(x, None) => { let x = x.clone(); self.run(&x, exp) } _ => self.lost("a block used as a parser") },
            x => self.lost(&format!("parser expression {}", x.to_token_stream())),
        }
    }
    fn seq(&mut self, v: &[syn::Expr], exp: &Ty, out: impl Fn(&[proc_macro2::Ident]) -> TokenStream) -> TokenStream {
        let ids: Vec<_> = v.iter().map(|_| self.name("vx_v")).collect();
        let runs: Vec<TokenStream> = v.iter().enumerate().map(|(i, x)| { let t = tuple_ty(exp, i, v.len()); self.run(x, t) }).collect();
        let fin = out(&ids);
        let mut o = quote!(Ok(#fin));
        for (id, r) in ids.iter().zip(runs.iter()).rev() { o = quote!(match #r { Ok(#id) => #o, Err(vx_e) => Err(vx_e) }) }
        o
    }
    fn token(&mut self, set: &[syn::Expr], member: bool) -> TokenStream {
        let c = quote!(vx_c);
        let t: Vec<TokenStream> = set.iter().map(|x| quote!(#c == #x)).collect();
        let cond = if member { quote!((#(#t)||*)) } else { quote!((!(#(#t)||*))) };
        quote!((match input.vx_peek() { Some(vx_c) => if #cond { input.vx_next(); Ok(vx_c) } else { Err(vx_bt()) }, None => Err(vx_bt()) }))
    }
    fn take_while(&mut self, lo: usize, hi: Option<usize>, pred: &syn::Expr) -> TokenStream {
        self.edit("take_while");
        let n = self.nloop; self.nloop += 1;
        let (f, sp) = match norm(&pred.to_token_stream().to_string()).as_str() {
            "AsChar::is_dec_digit" => (quote!(vx_is_dec_digit), "sp_is_dec_digit".to_string()),
            "AsChar::is_hex_digit" => (quote!(vx_is_hex_digit), "sp_is_hex_digit".to_string()),
            "AsChar::is_oct_digit" => (quote!(vx_is_oct_digit), "sp_is_oct_digit".to_string()),
            _ => match path1(pred) { Some(p) => (pred.to_token_stream(), format!("sp_{p}")), None => self.lost("a take_while predicate") },
        };
        let (s, cp, k) = (format!("vx_s{n}"), format_ident!("vx_cp{n}"), format_ident!("vx_n{n}"));
        let snap = self.raw(format!("let ghost {s} = *input;\n"));
        let mx = hi.map(|h| format!(", vx_n{n} <= {h}")).unwrap_or_default();
        let stop = hi.map(|h| format!(" || vx_n{n} == {h}")).unwrap_or_default();
        let rn = sp.trim_start_matches("sp_");
        let run = match hi { Some(h) => format!("runn_{rn}({s}.text(), {s}.pos(), {h}) == runn_{rn}({s}.text(), input.pos(), {h} - vx_n{n})"), None => format!("run_{rn}({s}.text(), {s}.pos()) == run_{rn}({s}.text(), input.pos())") };
        let mut c = format!("    invariant quiet({s}, *input), {run}, vx_n{n} == input.pos() - {s}.pos(), vx_n{n} <= input.text().len(){mx},\n        forall|vx_k: int| {s}.pos() <= vx_k < input.pos() ==> {sp}(#[trigger] input.text()[vx_k]),\n");
        self.user(n, "inv", &mut c);
        c.push_str(&format!("    ensures input.pos() == input.text().len() || !{sp}(input.text()[input.pos()]){stop},\n"));
        c.push_str(&format!("    decreases input.text().len() - input.pos(),\n"));
        let m = self.raw_contract(c);
        let more = match hi { Some(h) => quote!(#k < #h && ), None => quote!() };
        quote!({ let #cp = input.checkpoint(); #snap let mut #k: usize = 0;
            loop { #m match input.vx_peek() { Some(vx_c) => { if #more #f(vx_c) { input.vx_next(); #k = #k + 1; } else { break; } } None => { break; } } }
            if #k < #lo { input.reset(&#cp); Err(vx_bt()) } else { Ok(vx_taken(input, &#cp)) } })
    }
    fn user(&mut self, n: usize, what: &str, c: &mut String) {
        for (i, w, tx) in &self.spec.ats { if *i == n && w == what { c.push_str(tx); self.used.push((n, what.into())) } }
    }
    fn raw_contract(&mut self, c: String) -> TokenStream { self.texts.push(c); let id = format_ident!("__vxc_{}", self.texts.len() - 1); quote!(#id!();) }
    fn acc_init(&mut self, t: &Ty) -> (TokenStream, u8) {
        let Some(t) = t else { return (quote!(()), 9) };
        if matches!(t, syn::Type::Tuple(x) if x.elems.is_empty()) { return (quote!(()), 0) }
        if generic(&Some(t.clone()), "Vec").is_some() || norm(&t.to_token_stream().to_string()).starts_with("Vec<") { return (quote!(Vec::new()), 1) }
        if norm(&t.to_token_stream().to_string()) == "String" { return (quote!(String::new()), 2) }
        self.lost("what a repetition collects")
    }
    fn acc_ty(t: &Ty) -> TokenStream { match t { Some(t) => quote!(: #t), None => quote!() } }
    fn acc_put(&self, kind: u8, acc: &proc_macro2::Ident, v: &proc_macro2::Ident) -> TokenStream {
        match kind { 0 | 9 => quote!(), 1 => quote!(#acc.push(#v);), _ => quote!(vx_append(&mut #acc, #v);) }
    }
    fn quiet(&self) -> bool { self.spec.contract.contains("quiet(*old(input), *final(input))") }
    fn loop_text(&mut self, n: usize, till: bool) -> String {
        let mut c = format!("    invariant_except_break vx_err{n} is None,{}\n", if till { format!(" vx_end{n} is None,") } else { String::new() });
        self.user(n, "loop", &mut c);
        c.push_str(&format!("    invariant adv(vx_s{n}, *input),{}\n", if self.quiet() { " input.same(*old(input))," } else { "" }));
        self.user(n, "inv", &mut c);
        c.push_str(&format!("    ensures vx_err{n} matches Some(vx_e) ==> err_in(input.text(), vx_e),{}\n", if till { format!(" vx_err{n} is Some || vx_end{n} is Some,") } else { String::new() }));
        self.user(n, "ens", &mut c);
        c.push_str("    decreases input.text().len() - input.pos(),\n");
        c
    }
    fn call(&mut self, f: &str, a: &[syn::Expr], exp: Ty) -> TokenStream {
        match f {
            "trace" => self.run(&a[1], exp),
            "alt" => {
                self.edit("alt");
                let v: Vec<syn::Expr> = match &a[0] { syn::Expr::Tuple(t) => t.elems.iter().cloned().collect(), x => self.arr(x).unwrap_or_else(|| self.lost("the alternatives of alt")) };
                let cp = self.name("vx_cp");
                let runs: Vec<TokenStream> = v.iter().map(|x| self.run(x, exp.clone())).collect();
                let mut o = runs.last().unwrap().clone();
                for r in runs[..runs.len() - 1].iter().rev() { o = quote!(match #r { Err(ErrMode::Backtrack(_)) => { input.reset(&#cp); #o } vx_r => vx_r }) }
                quote!({ let #cp = input.checkpoint(); #o })
            }
            "opt" => { self.edit("opt"); let cp = self.name("vx_cp"); let t = generic(&exp, "Option"); let r = self.run(&a[0], t); quote!({ let #cp = input.checkpoint(); match #r { Ok(vx_v) => Ok(Some(vx_v)), Err(ErrMode::Backtrack(_)) => { input.reset(&#cp); Ok(None) } Err(vx_e) => Err(vx_e) } }) }
            "not" => { self.edit("not"); let cp = self.name("vx_cp"); let r = self.run(&a[0], None); quote!({ let #cp = input.checkpoint(); let vx_res = #r; input.reset(&#cp); match vx_res { Ok(_) => Err(vx_bt()), Err(ErrMode::Backtrack(_)) => Ok(()), Err(vx_e) => Err(vx_e) } }) }
            "peek" => { self.edit("peek"); let cp = self.name("vx_cp"); let r = self.run(&a[0], exp); quote!({ let #cp = input.checkpoint(); let vx_res = #r; input.reset(&#cp); vx_res }) }
            "cut_err" => { self.edit("cut_err"); let r = self.run(&a[0], exp); quote!(match #r { Err(ErrMode::Backtrack(vx_e)) => Err(ErrMode::Cut(vx_e)), vx_r => vx_r }) }
            "preceded" => { self.edit("preceded"); let (x, y) = (self.run(&a[0], None), self.run(&a[1], exp)); quote!(match #x { Ok(_) => #y, Err(vx_e) => Err(vx_e) }) }
            "terminated" => { self.edit("terminated"); let x = self.run(&a[0], exp); let y = self.run(&a[1], None); let v = self.name("vx_v"); quote!(match #x { Ok(#v) => match #y { Ok(_) => Ok(#v), Err(vx_e) => Err(vx_e) }, Err(vx_e) => Err(vx_e) }) }
            "one_of" | "none_of" => { self.edit(f); let v = self.arr(&a[0]).unwrap_or_else(|| self.lost("the set of one_of")); self.token(&v, f == "one_of") }
            "Caseless" => { self.edit("Caseless"); let l = &a[0]; quote!(vx_caseless(input, #l)) }
            "take_while" => { let (lo, hi) = self.range(&a[0]); self.take_while(lo, hi, &a[1]) }
            "resume_after_cut" => {
                self.edits.push("resume_after_cut written out".into());
                let (cp, es) = (self.name("vx_cp"), self.name("vx_es"));
                let t = generic(&exp, "Option");
                let p = self.run(&a[0], t); let r = self.run(&a[1], Some(unit()));
                quote!({ let #cp = input.checkpoint(); match #p { Ok(vx_v) => Ok(Some(vx_v)), Err(ErrMode::Backtrack(vx_e)) => Err(ErrMode::Backtrack(vx_e)),
                    Err(vx_e0) => { let #es = input.checkpoint(); match #r {
                        Ok(_) => match input.record_err(&#cp, &#es, vx_e0) { Ok(()) => Ok(None), Err(vx_e1) => { input.reset(&#es); Err(vx_from_recoverable(&#cp, input, vx_e1)) } },
                        Err(_) => { input.reset(&#es); Err(vx_from_recoverable(&#cp, input, vx_e0)) } } } } })
            }
            "repeat" => {
                let (lo, hi) = self.range(&a[0]);
                if lo > 1 || hi.is_some() { self.lost("a bounded repetition") }
                self.edit("repeat");
                let n = self.nloop; self.nloop += 1;
                let (cp, acc, er, v) = (format_ident!("vx_cp{n}"), format_ident!("vx_acc{n}"), format_ident!("vx_err{n}"), format_ident!("vx_item{n}"));
                let (init, kind) = self.acc_init(&exp);
                let aty = Self::acc_ty(&exp);
                let item = generic(&exp, "Vec");
                let snap = self.raw(format!("let ghost vx_s{n} = *input;\n"));
                let itr = self.raw(format!("let ghost vx_i{n} = *input;\n"));
                let put = self.acc_put(kind, &acc, &v);
                let first = if lo == 1 { Some(self.run(&a[1], item.clone())) } else { None };
                let n1 = self.nloop;
                let body = self.run(&a[1], item);
                let _ = n1;
                let c = self.loop_text(n, false); let m = self.raw_contract(c);
                let (h0, h1, h2) = (self.at(n, "iter"), self.at(n, "item"), self.at(n, "done"));
                let lp = quote!(loop { #m #itr #h0 let #cp = input.checkpoint(); match #body {
                    Ok(#v) => { vx_assert(input.vx_moved(&#cp)); #put #h1 }
                    Err(ErrMode::Backtrack(_)) => { input.reset(&#cp); #h2 break; }
                    Err(vx_e) => { #er = Some(vx_e); break; } } }
                    match #er { Some(vx_e) => Err(vx_e), None => Ok(#acc) });
                match first {
                    None => quote!({ #snap let mut #acc #aty = #init; let mut #er: Option<ErrMode<KdlParseError>> = None; #lp }),
                    Some(f) => { let hf = self.at(n, "first"); quote!({ #snap match #f { Err(vx_e) => Err(vx_e), Ok(#v) => { let mut #acc #aty = #init; let mut #er: Option<ErrMode<KdlParseError>> = None; #put #hf #lp } } }) }
                }
            }
            "repeat_till" => {
                let (lo, hi) = self.range(&a[0]);
                if lo > 1 || hi.is_some() { self.lost("a bounded repetition") }
                self.edit("repeat_till");
                let n = self.nloop; self.nloop += 1;
                let (cp, acc, er, v, end) = (format_ident!("vx_cp{n}"), format_ident!("vx_acc{n}"), format_ident!("vx_err{n}"), format_ident!("vx_item{n}"), format_ident!("vx_end{n}"));
                let (ct, gt) = (tuple_ty(&exp, 0, 2), tuple_ty(&exp, 1, 2));
                let (init, kind) = self.acc_init(&ct);
                let aty = Self::acc_ty(&ct);
                let item = generic(&ct, "Vec");
                let snap = self.raw(format!("let ghost vx_s{n} = *input;\n"));
                let itr = self.raw(format!("let ghost vx_i{n} = *input;\n"));
                let put = self.acc_put(kind, &acc, &v);
                let first = if lo == 1 { Some(self.run(&a[1], item.clone())) } else { None };
                let g = self.run(&a[2], gt);
                let body = self.run(&a[1], item);
                let c = self.loop_text(n, true); let m = self.raw_contract(c);
                let (h0, h1, h2) = (self.at(n, "iter"), self.at(n, "item"), self.at(n, "done"));
                let lp = quote!(loop { #m #itr #h0 let #cp = input.checkpoint(); match #g {
                    Ok(vx_o) => { #end = Some(vx_o); #h2 break; }
                    Err(ErrMode::Backtrack(_)) => { input.reset(&#cp); match #body { Err(vx_e) => { #er = Some(vx_e); break; } Ok(#v) => { vx_assert(input.vx_moved(&#cp)); #put #h1 } } }
                    Err(vx_e) => { #er = Some(vx_e); break; } } }
                    match #er { Some(vx_e) => Err(vx_e), None => match #end { Some(vx_o) => Ok((#acc, vx_o)), None => vx_never() } });
                match first {
                    None => quote!({ #snap let mut #acc #aty = #init; let mut #er: Option<ErrMode<KdlParseError>> = None; let mut #end = None; #lp }),
                    Some(f) => { let hf = self.at(n, "first"); quote!({ #snap match #f { Err(vx_e) => Err(vx_e), Ok(#v) => { let mut #acc #aty = #init; let mut #er: Option<ErrMode<KdlParseError>> = None; let mut #end = None; #put #hf #lp } } }) }
                }
            }
            "separated" => {
                let (lo, hi) = self.range(&a[0]);
                if lo > 1 || hi.is_some() { self.lost("a bounded repetition") }
                self.edit("separated");
                let n = self.nloop; self.nloop += 1;
                let (cp, acc, er, v) = (format_ident!("vx_cp{n}"), format_ident!("vx_acc{n}"), format_ident!("vx_err{n}"), format_ident!("vx_item{n}"));
                let (init, kind) = self.acc_init(&exp);
                let aty = Self::acc_ty(&exp);
                let item = generic(&exp, "Vec");
                let snap = self.raw(format!("let ghost vx_s{n} = *input;\n"));
                let itr = self.raw(format!("let ghost vx_i{n} = *input;\n"));
                let put = self.acc_put(kind, &acc, &v);
                let first = self.run(&a[1], item.clone());
                let sep = self.run(&a[2], None);
                let body = self.run(&a[1], item);
                let c = self.loop_text(n, false); let m = self.raw_contract(c);
                let (hf, h0, hs, h1, h2, h3) = (self.at(n, "first"), self.at(n, "iter"), self.at(n, "sep"), self.at(n, "item"), self.at(n, "done"), self.at(n, "undo"));
                let lp = quote!(loop { #m #itr #h0 let #cp = input.checkpoint(); match #sep {
                    Err(ErrMode::Backtrack(_)) => { input.reset(&#cp); #h2 break; }
                    Err(vx_e) => { #er = Some(vx_e); break; }
                    Ok(_) => { vx_assert(input.vx_moved(&#cp)); #hs match #body {
                        Err(ErrMode::Backtrack(_)) => { input.reset(&#cp); #h3 break; }
                        Err(vx_e) => { #er = Some(vx_e); break; }
                        Ok(#v) => { #put #h1 } } } } }
                    match #er { Some(vx_e) => Err(vx_e), None => Ok(#acc) });
                if lo == 0 {
                    quote!({ #snap let vx_start = input.checkpoint(); let mut #acc #aty = #init; let mut #er: Option<ErrMode<KdlParseError>> = None; match #first { Err(ErrMode::Backtrack(_)) => { input.reset(&vx_start); Ok(#acc) } Err(vx_e) => Err(vx_e), Ok(#v) => { #put #hf #lp } } })
                } else {
                    quote!({ #snap let mut #acc #aty = #init; let mut #er: Option<ErrMode<KdlParseError>> = None; match #first { Err(vx_e) => Err(vx_e), Ok(#v) => { #put #hf #lp } } })
                }
            }
            x => self.lost(&format!("combinator {x}")),
        }
    }
    fn method(&mut self, m: &syn::ExprMethodCall, exp: Ty) -> TokenStream {
        let r = &*m.receiver;
        let n = m.method.to_string();
        self.edit(&format!(".{n}"));
        match n.as_str() {
            "void" => { let x = self.run(r, None); quote!(match #x { Ok(_) => Ok(()), Err(vx_e) => Err(vx_e) }) }
            "take" => { let cp = self.name("vx_cp"); let x = self.run(r, None); quote!({ let #cp = input.checkpoint(); match #x { Ok(_) => Ok(vx_taken(input, &#cp)), Err(vx_e) => Err(vx_e) } }) }
            "with_taken" => { let cp = self.name("vx_cp"); let x = self.run(r, tuple_ty(&exp, 0, 2)); let v = self.name("vx_v"); quote!({ let #cp = input.checkpoint(); match #x { Ok(#v) => { let vx_t = vx_taken(input, &#cp); Ok((#v, vx_t)) } Err(vx_e) => Err(vx_e) } }) }
            "with_span" => { let st = self.name("vx_st"); let x = self.run(r, tuple_ty(&exp, 0, 2)); let v = self.name("vx_v"); quote!({ let #st = input.current_token_start(); match #x { Ok(#v) => { let vx_end = input.previous_token_end(); Ok((#v, (#st..vx_end))) } Err(vx_e) => Err(vx_e) } }) }
            "value" => { let x = self.run(r, None); let v = &m.args[0]; quote!(match #x { Ok(_) => Ok(#v), Err(vx_e) => Err(vx_e) }) }
            "context" => self.run(r, exp),
            "map" => { let t = self.arg_ty(&m.args[0], &exp); let x = self.run(r, t); let v = self.name("vx_v"); let b = self.apply(&m.args[0], quote!(#v)); quote!(match #x { Ok(#v) => Ok(#b), Err(vx_e) => Err(vx_e) }) }
            "verify_map" => { let cp = self.name("vx_cp"); let t = self.arg_ty(&m.args[0], &None); let x = self.run(r, t); let v = self.name("vx_v"); let b = self.apply(&m.args[0], quote!(#v)); quote!({ let #cp = input.checkpoint(); match #x { Ok(#v) => match #b { Some(vx_w) => Ok(vx_w), None => { input.reset(&#cp); Err(vx_bt()) } }, Err(vx_e) => Err(vx_e) } }) }
            "try_map" => { let cp = self.name("vx_cp"); let t = self.arg_ty(&m.args[0], &None); let x = self.run(r, t); let v = self.name("vx_v"); let b = self.apply(&m.args[0], quote!(#v)); quote!({ let #cp = input.checkpoint(); match #x { Ok(#v) => match #b { Ok(vx_w) => Ok(vx_w), Err(_) => { input.reset(&#cp); Err(vx_bt()) } }, Err(vx_e) => Err(vx_e) } }) }
            _ => self.lost(&format!("parser method {n}")),
        }
    }
    fn parse(&self, ts: TokenStream) -> syn::Expr { syn::parse2(ts.clone()).unwrap_or_else(|e| crate::lost(&format!("written-out parser in {}: {e}: {ts}", self.spec.path))) }
}
fn peel<'e>(e: &'e syn::Expr) -> Option<&'e syn::ExprMethodCall> { match e { syn::Expr::MethodCall(m) if m.method == "parse_next" => Some(m), _ => None } }
impl<'a> VisitMut for Comb<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut alias: Vec<(String, syn::Expr)> = vec![];
        let n = old.len();
        for (k, mut s) in old.into_iter().enumerate() {
            // `let p = <parser>;` is put where p is used.
            if let syn::Stmt::Local(l) = &s {
                if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if self.is_parser(&init.expr) { alias.push((i.ident.to_string(), (*init.expr).clone())); self.locals.insert(i.ident.to_string(), (*init.expr).clone()); self.edits.push("parser bound by let put where it is run".into()); continue }
                }
            }
            // The type a let gives.
            if let syn::Stmt::Local(l) = &mut s {
                let want: Ty = match &l.pat { syn::Pat::Type(t) => good((*t.ty).clone()), syn::Pat::Tuple(_) => pat_ty(&l.pat), _ => None };
                if let Some(init) = &mut l.init {
                    let want = match &*init.expr { syn::Expr::Try(_) => want, _ => generic(&want, "PResult") };
                    self.top(&mut init.expr, want);
                }
            } else if let syn::Stmt::Expr(e, semi) = &mut s {
                let want = if semi.is_none() && k + 1 == n { self.ret.clone() } else { None };
                if semi.is_some() { self.top(e, Some(unit())) } else { self.top(e, want) }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        self.top(e, None);
        // `if let A = a && let B = b { .. }`
        loop { let mut did = false; if let syn::Expr::If(i) = e { if i.else_branch.is_none() { if let syn::Expr::Binary(b) = &*i.cond { if matches!(b.op, syn::BinOp::And(_)) && (matches!(&*b.right, syn::Expr::Let(_)) || matches!(&*b.left, syn::Expr::Let(_))) {
            let (l, r, body) = (&b.left, &b.right, &i.then_branch);
            let new: syn::Expr = syn::parse_quote!(if #l { if #r #body });
            self.edits.push("if a && let b → nested if".into());
            *e = new; did = true;
        } } } } if !did { break } }
        // `while C(?) {}` runs its condition in the loop.
        if let syn::Expr::While(w) = e { if w.cond.to_token_stream().to_string().contains("parse_next") {
            let (c, body) = (&w.cond, &w.body.stmts);
            let id = format_ident!("__vxw_0");
            let new: syn::Expr = syn::parse_quote!(loop { #id!(); let vx_go = #c; if !vx_go { break; } #(#body)* });
            self.edits.push("while c {..} → loop { if !c { break } .. }".into());
            *e = new;
        } }
        if let syn::Expr::Loop(l) = e {
            if let Some(syn::Stmt::Macro(m)) = l.body.stmts.first() { if m.mac.path.is_ident("__vxw_0") {
                let n = self.nloop; self.nloop += 1;
                let mut c = format!("    invariant adv(vx_s{n}, *input),\n");
                self.user(n, "inv", &mut c);
                let mut u = String::new(); self.user(n, "ens", &mut u);
                if !u.trim().is_empty() { c.push_str("    ensures\n"); c.push_str(&u) }
                c.push_str("    decreases input.text().len() - input.pos(),\n");
                let m = self.raw_contract(c);
                let snap = self.raw(format!("let ghost vx_s{n} = *input;\n"));
                let itr = self.raw(format!("let ghost vx_i{n} = *input;\n"));
                let (h0, h1) = (self.at(n, "iter"), self.at(n, "done"));
                let _ = h1;
                l.body.stmts.remove(0);
                visit_mut::visit_block_mut(self, &mut l.body);
                let st = &l.body.stmts;
                *e = self.parse(quote!({ #snap loop { #m #itr #h0 #(#st)* } }));
                return;
            } }
        }
        // matches!(s, "a" | "b")
        if let syn::Expr::Macro(m) = e { if m.mac.path.is_ident("matches") {
            let mut parts: Vec<TokenStream> = vec![TokenStream::new()];
            for t in m.mac.tokens.clone() { if parts.len() == 1 && t.to_string() == "," { parts.push(TokenStream::new()) } else { parts.last_mut().unwrap().extend([t]) } }
            if parts.len() == 2 {
                let lits: Vec<String> = parts[1].clone().into_iter().filter(|t| t.to_string() != "|").map(|t| t.to_string()).collect();
                if !lits.is_empty() && lits.iter().all(|l| l.starts_with('"')) {
                    let x = &parts[0];
                    let tests: Vec<TokenStream> = lits.iter().map(|l| { let v: syn::LitStr = syn::parse_str(l).unwrap(); self.str_is(quote!(#x), &v.value()) }).collect();
                    self.edits.push("matches!(str, literals) → comparisons".into());
                    *e = self.parse(quote!((#(#tests)||*)));
                    return;
                }
            }
        } }
        visit_mut::visit_expr_mut(self, e);
        match e {
            // `r.map(|_| a).or_else(|e| b)` on a result that is returned.
            syn::Expr::Return(r) => if let Some(x) = &r.expr { if let syn::Expr::MethodCall(m) = &**x { if m.method == "or_else" { if let Some(c) = self.closure(&m.args[0]) {
                let (p, b) = (strip_pat(&c.inputs[0]), &c.body);
                let (base, ok): (syn::Expr, syn::Expr) = match &*m.receiver { syn::Expr::MethodCall(k) if k.method == "map" => { let c = self.closure(&k.args[0]).unwrap(); let (q, v) = (strip_pat(&c.inputs[0]), &c.body); ((*k.receiver).clone(), syn::parse_quote!(match vx_v { #q => Ok(#v) })) } x => (x.clone(), syn::parse_quote!(Ok(vx_v))) };
                let n = quote!(match #base { Ok(vx_v) => return #ok, Err(#p) => return #b });
                self.edits.push("return r.map(..).or_else(..) → match".into());
                *e = self.parse(n);
            } } } },
            syn::Expr::MethodCall(m) if m.method == "map_err" && m.args.len() == 1 => if let Some(c) = self.closure(&m.args[0]) {
                let (p, r) = (strip_pat(&c.inputs[0]), &m.receiver);
                let mut b = (*c.body).clone();
                if let syn::Expr::Block(k) = &b { if let [syn::Stmt::Expr(x, None)] = &k.block.stmts[..] { b = x.clone() } }
                // ErrMode::map
                let b2: TokenStream = match &b {
                    syn::Expr::MethodCall(k) if k.method == "map" && path1(&k.receiver).is_some() && self.closure(&k.args[0]).is_some() => { let c = self.closure(&k.args[0]).unwrap(); let (q, v, x) = (strip_pat(&c.inputs[0]), &c.body, &k.receiver); quote!(match #x { ErrMode::Backtrack(#q) => ErrMode::Backtrack(#v), ErrMode::Cut(#q) => ErrMode::Cut(#v) }) }
                    x => x.to_token_stream(),
                };
                let n = quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b2) }));
                self.edits.push("Result::map_err(closure) → match".into());
                *e = self.parse(n);
            },
            syn::Expr::MethodCall(m) if m.method == "flatten" && m.args.is_empty() && !matches!(&*m.receiver, syn::Expr::MethodCall(k) if k.method == "into_iter" || k.method == "iter" || k.method == "map") => { let r = &m.receiver; let n = quote!((match #r { Some(vx_v) => vx_v, None => None })); self.edits.push("Option::flatten → match".into()); *e = self.parse(n); }
            syn::Expr::MethodCall(m) if m.method == "or_else" && m.args.len() == 1 => if let Some(c) = self.closure(&m.args[0]) { if c.inputs.is_empty() { let (r, b) = (&m.receiver, &c.body); let n = quote!((match #r { Some(vx_v) => Some(vx_v), None => #b })); self.edits.push("Option::or_else(closure) → match".into()); *e = self.parse(n); } },
            syn::Expr::Try(t) => { let x = &t.expr; let n = quote!((match #x { Ok(vx_ok) => vx_ok, Err(vx_er) => return Err(vx_er) })); self.edits.push("e? → match (same error type)".into()); *e = self.parse(n); }
            syn::Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => { m.method = format_ident!("vx_into") }
            _ => {}
        }
    }
}
impl<'a> Comb<'a> {
    /// Write out a `P.parse_next(input)` (with or without `?`) found at `e`.
    fn top(&mut self, e: &mut syn::Expr, want: Ty) {
        match e {
            syn::Expr::Try(t) => { if peel(&t.expr).is_some() { self.top(&mut t.expr, want) } }
            syn::Expr::MethodCall(m) if m.method == "parse_next" => {
                let r = (*m.receiver).clone();
                if norm(&m.args.to_token_stream().to_string()) != "input" { self.lost("parse_next on something else than input") }
                let ts = self.run(&r, want);
                *e = self.parse(quote!((#ts)));
            }
            // Option/Result methods after the parse keep it as their receiver.
            syn::Expr::MethodCall(_) => {}
            _ => {}
        }
    }
}
