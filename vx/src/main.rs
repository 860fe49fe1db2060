//! vx: mechanical extraction of functions of /repo into a Verus file.
//!
//! `vx UNIT.vx REPO OUT.rs OUT.json [--vacuity]`
//!
//! The unit file is Verus text with directives. Directives pull items out of
//! the current sources; everything else is copied as it is.
//!
//!   //@ source FILE                 following items come from FILE
//!   //@ rewrite `PATTERN` => `REPLACEMENT`     token rewrite for all following fns ($x: one token tree)
//!   //@ struct NAME [attr...]       the struct, attributes dropped, fields public
//!   //@ enum NAME
//!   //@ const NAME                  the constant or static
//!   //@ constfn NAME as FN          a constant array as a function that states its elements
//!   //@ fn PATH [as NAME] [ret R]   the function; contract text follows
//!   //@ loop `HEADER` [#N]          loop contract text follows (N-th loop with that header; `//@ loop #N`: N-th of all)
//!   //@ hint `STATEMENT` [#N] before|after     proof text follows (`PREFIX..` matches a prefix)
//!   //@ hint top                    proof text at the start of the body
//!   //@ hint tail                   proof text at its end, the value there named vx_ret
//!   //@ stub UNIT|off              only the contracts of the following fns (UNIT proves them)
//!   //@ comb on|off               write out winnow combinators in the following fns
//!   //@ inv #N | ens #N            invariants / ensures for the N-th loop written out (inside a fn)
//!   //@ at #N iter|item|sep|done|undo|first   proof text at that point of it
//!   //@ pin FN ... //@ end          the fn must read exactly like this (tokens), else nothing is obtained
//!   //@ panics EXPR                 the documented condition under which the fn panics
//!   //@ rewrite ...                 inside a fn: for that fn only
//!   //@ end
//!
//! Exit 0: extracted. Exit 3: an anchor is lost (message on stderr).
mod comb;
mod desugar;
mod emit;
mod find;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct FnSpec {
    pub path: String,
    pub source: String,
    pub as_name: Option<String>,
    pub ret: Option<String>,
    pub contract: String,
    pub loops: Vec<(String, usize, String)>,
    pub out: Option<syn::Type>,
    pub hints: Vec<(String, usize, String, String)>,
    pub panics: Option<String>,
    pub rewrites: Vec<(String, String)>,
    pub attrs: String,
    /// Clauses and proof text for the N-th loop written out from a combinator.
    pub ats: Vec<(usize, String, String)>,
    pub comb: bool, pub eqs: bool,
    pub stub: String,
}
pub fn lost(m: &str) -> ! {
    eprintln!("LOST-ANCHOR {m}");
    std::process::exit(3)
}
fn ticks(s: &str) -> Vec<String> {
    s.split('`').enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, x)| x.to_string()).collect()
}
fn ordinal(s: &str) -> usize {
    s.rsplit('`').next().unwrap_or("").split_whitespace().find_map(|w| w.strip_prefix('#').and_then(|n| n.parse().ok())).unwrap_or(0)
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (unit, repo, out, outj) = (&a[1], &a[2], &a[3], &a[4]);
    let vac = a.iter().any(|x| x == "--vacuity");
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    let mut text = String::new();
    // `//@ include FILE` splices another unit file.
    fn splice(p: &std::path::Path, dir: &std::path::Path, out: &mut String) {
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| { eprintln!("{}: {e}", p.display()); std::process::exit(2) });
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//@ include ") { splice(&dir.join(f.trim()), dir, out) } else { out.push_str(l); out.push('\n') }
        }
    }
    splice(std::path::Path::new(unit), &dir, &mut text);
    // `//@ macro NAME TEXT`: `@NAME(a|b)@` stands for TEXT with $1, $2 replaced.
    let mut macros: Vec<(String, String)> = vec![];
    let mut plain = String::new();
    for l in text.lines() {
        if let Some(m) = l.trim().strip_prefix("//@ macro ") { let (n, t) = m.split_once(' ').unwrap(); macros.push((n.to_string(), t.to_string())); continue }
        let mut l = l.to_string();
        for (n, t) in macros.iter().rev() {
            while let Some(i) = l.find(&format!("@{n}(")) {
                let j = l[i..].find(")@").unwrap_or_else(|| { eprintln!("macro {n} in `{l}`"); std::process::exit(2) }) + i;
                let args: Vec<&str> = l[i + n.len() + 2..j].split('|').collect();
                let mut x = t.clone();
                for (k, a) in args.iter().enumerate() { x = x.replace(&format!("${}", k + 1), a.trim()) }
                l = format!("{}{x}{}", &l[..i], &l[j + 2..]);
            }
        }
        plain.push_str(&l); plain.push('\n');
    }
    let text = plain;
    let lines: Vec<&str> = text.lines().collect();
    let mut g = String::new();
    let mut fns: Vec<(String, String, usize, usize, usize, usize, Vec<String>)> = vec![];
    let mut markers = 0usize;
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let mut source = String::new();
    let mut rewrites: Vec<(String, String)> = vec![];
    let mut comb = false;
    let mut eqs = false;
    let (mut stub, mut stub_before) = (String::new(), String::new());
    let mut i = 0;
    let load = |files: &mut BTreeMap<String, syn::File>, s: &str| {
        if !files.contains_key(s) {
            let p = format!("{repo}/{s}");
            let t = std::fs::read_to_string(&p).unwrap_or_else(|_| lost(&format!("source {s}")));
            let f = syn::parse_file(&t).unwrap_or_else(|e| lost(&format!("{s} does not parse: {e}")));
            files.insert(s.to_string(), f);
        }
    };
    while i < lines.len() {
        let l = lines[i].trim();
        let Some(d) = l.strip_prefix("//@ ") else { g.push_str(lines[i]); g.push('\n'); i += 1; continue };
        let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim();
        i += 1;
        match k {
            "source" => { source = rest.to_string(); load(&mut files, &source) }
            "rewrite" => { let t = ticks(rest); rewrites.push((t[0].clone(), t[1].clone())) }
            "features" => *find::FEATURES.lock().unwrap() = rest.split_whitespace().map(|x| x.to_string()).collect(),
            "comb" => comb = rest == "on",
            // `a == b` is a call of vx_eq(&a, &b), whose contract says what equality of that type is.
            "eqs" => eqs = rest == "on",
            // `pop` goes back to what held before the last `stub`.
            "stub" => { let n = match rest { "off" => String::new(), "pop" => stub_before.clone(), x => x.to_string() }; stub_before = std::mem::replace(&mut stub, n) }
            "pin" => {
                let mut want = String::new();
                loop { let l = lines[i]; i += 1; if l.trim() == "//@ end" { break } want.push_str(l); want.push('\n') }
                let f = find::function(&files[&source], rest).unwrap_or_else(|| lost(&format!("fn {rest} in {source}")));
                let (a, b) = (emit::tokens(&f.item), want.parse::<proc_macro2::TokenStream>().unwrap().to_string());
                if find::norm(&a) != find::norm(&b) { lost(&format!("fn {rest} in {source} no longer reads as it was assumed to")) }
            }
            "struct" | "enum" | "const" => {
                let (n, attrs) = rest.split_once(' ').unwrap_or((rest, ""));
                let t = find::item(&files[&source], k, n, attrs).unwrap_or_else(|| lost(&format!("{k} {n} in {source}")));
                let u = emit::rewritten(&t, &rewrites);
                g.push_str(&u);
                g.push('\n');
            }
            // The array constant as a function that says what its elements are.
            "constfn" => {
                let (n, a) = rest.split_once(" as ").unwrap_or((rest, rest));
                g.push_str(&find::array(&files[&source], n.trim(), a.trim()).unwrap_or_else(|| lost(&format!("array {n} in {source}"))));
            }
            "fn" => {
                let mut w = rest.split_whitespace().peekable();
                // Paths may hold spaces inside <...>.
                let mut path = String::new();
                while let Some(x) = w.peek() {
                    if (*x == "as" || *x == "ret") && !path.is_empty() && path.matches('<').count() == path.matches('>').count() { break }
                    if !path.is_empty() { path.push(' ') }
                    path.push_str(w.next().unwrap());
                }
                let mut s = FnSpec { path, source: source.clone(), as_name: None, ret: None, contract: String::new(), loops: vec![], hints: vec![], panics: None, rewrites: rewrites.clone(), attrs: String::new(), ats: vec![], comb, eqs, stub: stub.clone(), out: None };
                while let Some(x) = w.next() { match x { "as" => s.as_name = w.next().map(|x| x.into()), "ret" => s.ret = w.next().map(|x| x.into()), x => { eprintln!("{unit}: bad word {x}"); std::process::exit(2) } } }
                let mut sink = 0; // 0 contract, 1 loop, 2 hint
                loop {
                    if i >= lines.len() { eprintln!("{unit}: fn {} has no end", s.path); std::process::exit(2) }
                    let l = lines[i]; i += 1;
                    let Some(d) = l.trim().strip_prefix("//@ ") else {
                        let t = match sink { 0 => &mut s.contract, 1 => &mut s.loops.last_mut().unwrap().2, 3 => &mut s.ats.last_mut().unwrap().2, _ => &mut s.hints.last_mut().unwrap().3 };
                        t.push_str(l); t.push('\n'); continue
                    };
                    let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
                    match k {
                        "end" => break,
                        "loop" => { s.loops.push((ticks(rest).first().cloned().unwrap_or_default(), ordinal(&rest.replace(' ', " ")), String::new())); sink = 1 }
                        "hint" => {
                            if rest.trim() == "top" || rest.trim() == "tail" { s.hints.push((String::new(), 0, rest.trim().into(), String::new())) }
                            else { let side = if rest.trim_end().ends_with("after") { "after" } else { "before" }; s.hints.push((ticks(rest)[0].clone(), ordinal(rest), side.into(), String::new())) }
                            sink = 2
                        }
                        "inv" | "ens" | "body" => { let k = if k == "body" { "loop" } else { k }; s.ats.push((ordinal(&format!("` {rest}")), k.into(), String::new())); sink = 3 }
                        "at" => { let w = rest.split_whitespace().nth(1).unwrap_or("").to_string(); s.ats.push((ordinal(&format!("` {rest}")), w, String::new())); sink = 3 }
                        "panics" => s.panics = Some(rest.to_string()),
                        "attr" => s.attrs.push_str(&format!("{rest}\n")),
                        "rewrite" => { let t = ticks(rest); s.rewrites.push((t[0].clone(), t[1].clone())) }
                        x => { eprintln!("{unit}: unknown directive {x}"); std::process::exit(2) }
                    }
                }
                let f = find::function(&files[&source], &s.path).unwrap_or_else(|| lost(&format!("fn {} in {source}", s.path)));
                let first = g.lines().count() + 1;
                let (t, edits, m) = emit::function(&s, &f, &files[&s.source], vac);
                markers += m;
                g.push_str(&t); g.push('\n');
                fns.push((s.path.clone(), source.clone(), f.line, f.end, first, g.lines().count(), edits));
            }
            x => { eprintln!("{unit}: unknown directive {x}"); std::process::exit(2) }
        }
    }
    std::fs::write(out, &g).unwrap();
    let j = fns.iter().map(|(p, s, a, b, c, d, e)| format!("{{\"fn\":{},\"source\":{},\"lines\":[{a},{b}],\"generated\":[{c},{d}],\"edits\":[{}]}}", jstr(p), jstr(s), e.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n");
    std::fs::write(outj, format!("{{\"markers\":{markers},\"fns\":[{j}]}}\n")).unwrap();
}
