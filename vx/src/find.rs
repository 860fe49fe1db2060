//! Finding items in a parsed source file.
use quote::ToTokens;
use syn::spanned::Spanned;

pub struct Found { pub impl_generics: String, pub self_ty: Option<String>, pub item: syn::ImplItemFn, pub line: usize, pub end: usize }

/// The features the extracted code is built with; `//@ features` replaces the default set.
pub static FEATURES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
fn feature(v: &str) -> bool { let f = FEATURES.lock().unwrap(); let v = v.trim_matches('"'); if f.is_empty() { v == "span" || v == "serde" } else { f.iter().any(|x| x == v) } }
/// Whether the `cfg` attributes hold for the chosen feature set.
pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
    fn eval(m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => !p.is_ident("test") && (p.is_ident("debug_assertions")),
            syn::Meta::NameValue(nv) => { let v = nv.value.to_token_stream().to_string(); nv.path.is_ident("feature") && feature(&v) }
            syn::Meta::List(l) => {
                let inner: Vec<syn::Meta> = l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
                if l.path.is_ident("not") { !inner.first().map(eval).unwrap_or(false) } else if l.path.is_ident("all") { inner.iter().all(eval) } else { inner.iter().any(eval) }
            }
        }
    }
    attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<syn::Meta>().map(|m| eval(&m)).unwrap_or(true))
}
fn ident_of(t: &syn::Type) -> String {
    match t { syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), syn::Type::Reference(r) => format!("&{}", ident_of(&r.elem)), _ => t.to_token_stream().to_string() }
}
pub fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i { if cfg_on(&m.attrs) { if let Some((_, x)) = &m.content { all_items(x, out) } } continue }
        out.push(i)
    }
}
pub fn function(f: &syn::File, path: &str) -> Option<Found> {
    let mut items = vec![]; all_items(&f.items, &mut items);
    let (tr, ty, name): (Option<String>, Option<String>, String) = if let Some(r) = path.strip_prefix('<') {
        let close = r.rfind(">::")?;
        let (t, y) = r[..close].split_once(" for ")?;
        (Some(norm(t)), Some(norm(y)), r[close + 3..].into())
    } else if let Some((t, n)) = path.rsplit_once("::") { (None, Some(t.into()), n.into()) } else { (None, None, path.into()) };
    for i in items {
        match i {
            syn::Item::Fn(x) if ty.is_none() && x.sig.ident == name && cfg_on(&x.attrs) => {
                let item = syn::ImplItemFn { attrs: vec![], vis: x.vis.clone(), defaultness: None, sig: x.sig.clone(), block: (*x.block).clone() };
                return Some(Found { impl_generics: String::new(), self_ty: None, item, line: x.sig.span().start().line, end: x.block.span().end().line });
            }
            syn::Item::Impl(x) if ty.is_some() && cfg_on(&x.attrs) => {
                let t = ident_of(&x.self_ty);
                if Some(&t) != ty.as_ref() && Some(norm(&x.self_ty.to_token_stream().to_string())) != ty { continue }
                match (&tr, &x.trait_) {
                    (None, None) => {}
                    (Some(a), Some((_, p, _))) => { let full = norm(&p.to_token_stream().to_string()); let last = norm(&p.segments.last().to_token_stream().to_string()); if *a != full && *a != last { continue } }
                    _ => continue,
                }
                for m in &x.items {
                    if let syn::ImplItem::Fn(m) = m {
                        if m.sig.ident == name && cfg_on(&m.attrs) {
                            let mut item = m.clone(); item.attrs = vec![];
                            // a type parameter that only the trait mentions cannot stay on an inherent impl
                            let mut gens = x.generics.clone();
                            let st = x.self_ty.to_token_stream().to_string();
                            gens.params = gens.params.into_iter().filter(|p| match p { syn::GenericParam::Type(t) => st.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| t.ident == w), _ => true }).collect();
                            // `Self::X` is what the impl says it is
                            for a in &x.items { if let syn::ImplItem::Type(a) = a {
                                let (pat, to) = (crate::emit::flat(&format!("Self::{}", a.ident)), crate::emit::flat(&a.ty.to_token_stream().to_string()));
                                let mut n = 0;
                                let ts = crate::emit::rewrite(item.to_token_stream(), &pat, &to, &mut n);
                                if n > 0 { item = syn::parse2(ts).ok()? }
                            } }
                            // an impl for `&'a mut T` becomes methods of T that take `&'a mut self`
                            let mut self_ty = (*x.self_ty).clone();
                            if let syn::Type::Reference(r) = &self_ty {
                                if r.mutability.is_some() {
                                    let lt = r.lifetime.clone();
                                    if let Some(syn::FnArg::Receiver(s)) = item.sig.inputs.first_mut() { if s.reference.is_none() { *s = match lt { Some(l) => syn::parse_quote!(&#l mut self), None => syn::parse_quote!(&mut self) } } }
                                    self_ty = (*r.elem).clone();
                                }
                            }
                            return Some(Found { impl_generics: gens.to_token_stream().to_string(), self_ty: Some(self_ty.to_token_stream().to_string()), line: m.sig.span().start().line, end: m.block.span().end().line, item });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
fn clean_fields(f: &mut syn::Fields) {
    let keep = |x: &syn::Field| cfg_on(&x.attrs);
    match f {
        syn::Fields::Named(n) => { n.named = std::mem::take(&mut n.named).into_iter().filter(keep).map(|mut x| { x.attrs.clear(); x.vis = syn::parse_quote!(pub); x }).collect(); }
        syn::Fields::Unnamed(n) => { n.unnamed = std::mem::take(&mut n.unnamed).into_iter().filter(keep).map(|mut x| { x.attrs.clear(); x.vis = syn::parse_quote!(pub); x }).collect(); }
        _ => {}
    }
}
pub fn item(f: &syn::File, kind: &str, name: &str, attrs: &str) -> Option<String> {
    let mut items = vec![]; all_items(&f.items, &mut items);
    for i in items {
        match (kind, i) {
            ("struct", syn::Item::Struct(x)) if x.ident == name && cfg_on(&x.attrs) => { let mut x = x.clone(); x.attrs.clear(); x.vis = syn::parse_quote!(pub); clean_fields(&mut x.fields); return Some(format!("{attrs}\n{}", crate::emit::print(x.to_token_stream(), &[]))) }
            ("enum", syn::Item::Enum(x)) if x.ident == name && cfg_on(&x.attrs) => { let mut x = x.clone(); x.attrs.clear(); x.vis = syn::parse_quote!(pub); for v in x.variants.iter_mut() { v.attrs.clear(); if let syn::Fields::Named(n) = &mut v.fields { for f in n.named.iter_mut() { f.attrs.clear() } } else if let syn::Fields::Unnamed(n) = &mut v.fields { for f in n.unnamed.iter_mut() { f.attrs.clear() } } } return Some(format!("{attrs}\n{}", crate::emit::print(x.to_token_stream(), &[]))) }
            ("const", syn::Item::Const(x)) if x.ident == name && cfg_on(&x.attrs) => { let mut x = x.clone(); x.attrs.clear(); x.vis = syn::parse_quote!(pub); return Some(format!("{attrs}\n{}", crate::emit::print(x.to_token_stream(), &[]))) }
            ("const", syn::Item::Static(x)) if x.ident == name && cfg_on(&x.attrs) => { let mut x = x.clone(); x.attrs.clear(); x.vis = syn::parse_quote!(pub); return Some(format!("{attrs}\n{}", crate::emit::print(x.to_token_stream(), &[]))) }
            _ => {}
        }
    }
    None
}

/// An array of characters or strings: `fn FN() -> (r: TYPE) ensures its elements`.
pub fn array(f: &syn::File, name: &str, fname: &str) -> Option<String> {
    let mut items = vec![]; all_items(&f.items, &mut items);
    for i in items {
        let (ty, e) = match i { syn::Item::Const(x) if x.ident == name && cfg_on(&x.attrs) => (&x.ty, &x.expr), syn::Item::Static(x) if x.ident == name && cfg_on(&x.attrs) => (&x.ty, &x.expr), _ => continue };
        let syn::Expr::Array(a) = &**e else { return None };
        let mut all: Vec<char> = vec![];
        let mut strs = false;
        let (mut ens, mut pf) = (format!("r@.len() == {}", a.elems.len()), String::new());
        for (k, x) in a.elems.iter().enumerate() {
            match x {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(c), .. }) => { all.push(c.value()); ens.push_str(&format!(", r@[{k}] == {}", crate::comb::chrlit(c.value()))) }
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => {
                    let s = s.value();
                    strs = true; all.extend(s.chars());
                    let q = s.chars().map(crate::comb::chrlit).collect::<Vec<_>>().join(", ");
                    ens.push_str(&format!(", r@[{k}]@ == seq![{q}]"));
                    pf.push_str(&format!("reveal_strlit({0}); assert({0}@ =~= seq![{q}]); ", crate::comb::strlit(&s)));
                    for (j, c) in s.chars().enumerate() { pf.push_str(&format!("assert(r@[{k}]@[{j}] == {}); ", crate::comb::chrlit(c))) }
                }
                _ => return None,
            }
        }
        let member = all.iter().map(|c| format!("c == {}", crate::comb::chrlit(*c))).collect::<Vec<_>>().join(" || ");
        ens.push_str(&format!(", forall|c: char| #[trigger] {}(r@, c) == ({member})", if strs { "vx_sin" } else { "vx_cin" }));
        let elems = a.elems.iter().map(|x| match x { syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => crate::comb::strlit(&s.value()), x => x.to_token_stream().to_string() }).collect::<Vec<_>>().join(", ");
        let ty2 = ty.to_token_stream().to_string().replace("& str", "&'static str");
        return Some(format!("// from {name}\npub fn {fname}() -> (r: &'static {})\n    ensures {ens},\n{{ let r: &'static {ty2} = &[{elems}]; proof {{ {pf} }} r }}\n", ty2));
    }
    None
}

/// Drop statements behind a disabled cfg, and the cfg attributes of the others.
pub fn drop_disabled(b: &mut syn::Block, edits: &mut Vec<String>) {
    struct C<'a> { edits: &'a mut Vec<String> }
    impl<'a> syn::visit_mut::VisitMut for C<'a> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let old = std::mem::take(&mut b.stmts);
            for mut s in old {
                let attrs: Vec<syn::Attribute> = match &s { syn::Stmt::Local(l) => l.attrs.clone(), syn::Stmt::Expr(e, _) => crate::desugar::expr_attrs(e), syn::Stmt::Macro(m) => m.attrs.clone(), syn::Stmt::Item(_) => vec![] };
                if !cfg_on(&attrs) { self.edits.push("statement behind a disabled cfg dropped".into()); continue }
                match &mut s { syn::Stmt::Local(l) => l.attrs.clear(), syn::Stmt::Expr(e, _) => crate::desugar::strip_attrs(e), _ => {} }
                b.stmts.push(s)
            }
            syn::visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) { crate::desugar::strip_attrs(e); syn::visit_mut::visit_expr_mut(self, e) }
    }
    use syn::visit_mut::VisitMut;
    C { edits }.visit_block_mut(b);
}
