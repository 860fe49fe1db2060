//! Properties whose case is a text.
use kdl::*;
use kdlcheck::conv;
use kdlcheck::driver::{Out, Prop};
use kdlcheck::ref2::{self, RVal};
use kdlcheck::textgen::G;

fn corpus(id: &str) -> Vec<String> {
    let mut v = vec![];
    for d in [format!("{}/../corpus/all", env!("CARGO_MANIFEST_DIR")), format!("{}/../corpus/{id}", env!("CARGO_MANIFEST_DIR")), "/repo/tests/test_cases/input".to_string()] {
        let mut fs: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        fs.sort();
        for f in fs { if let Ok(s) = std::fs::read_to_string(f) { v.push(s) } }
    }
    v
}
thread_local! { static CORPUS: Vec<String> = corpus("none"); }
pub fn text_of(seed: u64) -> String {
    let mut g = G::new(seed);
    if g.p(1, 6) {
        // A corpus text, cut, spliced with a generated one, or mutated.
        let t = CORPUS.with(|c| if c.is_empty() { String::new() } else { c[g.n(c.len())].clone() });
        if t.len() < 2000 {
            let mut c: Vec<char> = t.chars().collect();
            if g.p(1, 3) { let o: Vec<char> = g.document().chars().collect(); let at = g.n(c.len() + 1); c.splice(at..at, o); }
            for _ in 0..g.n(3) { g.mutate(&mut c) }
            return c.into_iter().collect();
        }
    }
    g.document_mut()
}
pub struct Text(pub String, pub fn(&str) -> Out);
impl Prop for Text {
    fn rule(&self) -> &'static str { "texts from a seeded KDL 2.0 text generator (all trivia forms in all positions, all string and number forms, slashdash, nesting to depth 3), 40% with 1-2 random character edits, and edited or spliced texts of the KDL test suite; non-trivial: the text is accepted (for totality: any text)" }
    fn make(&self, seed: u64) -> String { text_of(seed) }
    fn check(&self, case: &str) -> Out { (self.1)(case) }
    fn fixed(&self) -> Vec<String> { corpus(&self.0) }
}
fn short(s: &str) -> String { format!("{s:?}") }

pub fn roundtrip(t: &str) -> Out {
    let Ok(d) = KdlDocument::parse_v2(t) else { return Out::Trivial };
    let s = d.to_string();
    if s == t { Out::Held } else { Out::Broken(format!("text {} prints as {}", short(t), short(&s))) }
}
pub fn autoformat(t: &str) -> Out {
    let Ok(d) = KdlDocument::parse_v2(t) else { return Out::Trivial };
    let want = conv::doc(&d);
    let hsh = t.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32));
    for k in 0..3u32 {
        let sel = if k == 0 { 0 } else { hsh.rotate_left(k * 11) };
        let b = FormatConfig::builder()
            .indent(["    ", "  ", "\t", "", " "][(sel % 5) as usize])
            .indent_level((sel / 5 % 3) as usize)
            .no_comments(sel / 15 % 2 == 1);
        let mut cfg = b.build();
        if sel / 30 % 2 == 1 { cfg.entry_autoformate_keep = true }
        let mut e = d.clone();
        e.autoformat_config(&cfg);
        let s = e.to_string();
        if conv::doc(&e) != want { return Out::Broken(format!("autoformat {cfg:?} changed the data of {}", short(t))) }
        let Ok(f) = KdlDocument::parse_v2(&s) else { return Out::Broken(format!("autoformat {cfg:?} of {} gives unparsable {}", short(t), short(&s))) };
        if conv::doc(&f) != want { return Out::Broken(format!("autoformat {cfg:?} of {} gives {} with other data", short(t), short(&s))) }
        let mut f2 = f.clone();
        f2.autoformat_config(&cfg);
        let s2 = f2.to_string();
        if s2 != s { return Out::Broken(format!("autoformat {cfg:?} not idempotent on {}: {} then {}", short(t), short(&s), short(&s2))) }
    }
    Out::Held
}
fn diag_ok(e: &KdlError, t: &str) -> Result<(), String> {
    if e.diagnostics.is_empty() { return Err("no diagnostic".into()) }
    if *e.input != t { return Err("error carries another source".into()) }
    for d in &e.diagnostics {
        if *d.input != t { return Err("diagnostic carries another source".into()) }
        let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
        if b > t.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b) { return Err(format!("diagnostic span {a}..{b} outside the text or inside a character")) }
    }
    Ok(())
}
pub fn total(t: &str) -> Out {
    let rs = [
        KdlDocument::parse_v2(t).err().map(|e| ("document", e)),
        t.parse::<KdlDocument>().err().map(|e| ("document from_str", e)),
        t.parse::<KdlNode>().err().map(|e| ("node", e)),
        t.parse::<KdlEntry>().err().map(|e| ("entry", e)),
        t.parse::<KdlIdentifier>().err().map(|e| ("identifier", e)),
    ];
    for (k, e) in rs.into_iter().flatten() {
        if let Err(w) = diag_ok(&e, t) { return Out::Broken(format!("{k} {}: {w}", short(t))) }
    }
    Out::Held
}
struct Sp<'a>(&'a str);
impl<'a> Sp<'a> {
    fn slice(&self, what: &str, s: miette::SourceSpan) -> Result<&'a str, String> {
        self.0.get(s.offset()..s.offset() + s.len()).ok_or_else(|| format!("{what} span {}+{} is not a slice of the text", s.offset(), s.len()))
    }
    fn ident(&self, what: &str, i: &KdlIdentifier, within: miette::SourceSpan) -> Result<(), String> {
        let s = self.slice(what, i.span())?;
        if Some(s) != i.repr() { return Err(format!("{what} {:?} has span text {s:?}", i.repr())) }
        self.inside(what, i.span(), within)
    }
    fn inside(&self, what: &str, s: miette::SourceSpan, w: miette::SourceSpan) -> Result<(), String> {
        if s.offset() < w.offset() || s.offset() + s.len() > w.offset() + w.len() { return Err(format!("{what} span {}+{} not inside {}+{}", s.offset(), s.len(), w.offset(), w.len())) }
        Ok(())
    }
    fn doc(&self, d: &KdlDocument, within: miette::SourceSpan) -> Result<(), String> {
        self.slice("document", d.span())?;
        self.inside("document", d.span(), within)?;
        let mut at = d.span().offset();
        for n in d.nodes() {
            let sp = n.span();
            let s = self.slice("node", sp)?;
            self.inside("node", sp, d.span())?;
            if sp.offset() < at { return Err(format!("node {s:?} overlaps what precedes it")) }
            at = sp.offset() + sp.len();
            // The span text of a node is its written form without leading space and terminator.
            let mut m = n.clone();
            if let Some(f) = m.format_mut() { f.leading.clear(); f.terminator.clear(); f.trailing.clear(); }
            if m.to_string() != s { return Err(format!("node {:?} has span text {s:?}", m.to_string())) }
            if let Some(t) = n.ty() { self.ident("node type", t, sp)? }
            self.ident("node name", n.name(), sp)?;
            let mut at2 = n.name().span().offset() + n.name().span().len();
            for e in n.entries() {
                let sp2 = e.span();
                let s2 = self.slice("entry", sp2)?;
                self.inside("entry", sp2, sp)?;
                if sp2.offset() < at2 { return Err(format!("entry {s2:?} overlaps what precedes it")) }
                at2 = sp2.offset() + sp2.len();
                let mut x = e.clone();
                if let Some(f) = x.format_mut() { f.leading.clear(); f.trailing.clear(); }
                if x.to_string() != s2 { return Err(format!("entry {:?} has span text {s2:?}", x.to_string())) }
                if let Some(t) = e.ty() { self.ident("entry type", t, sp2)? }
                if let Some(t) = e.name() { self.ident("property name", t, sp2)? }
            }
            if let Some(c) = n.children() {
                if c.span().offset() < at2 { return Err("children overlap what precedes them".into()) }
                self.doc(c, sp)?;
            }
        }
        Ok(())
    }
}
pub fn spans(t: &str) -> Out {
    let Ok(d) = KdlDocument::parse_v2(t) else { return Out::Trivial };
    match Sp(t).doc(&d, (0..t.len()).into()) { Ok(()) => if d.nodes().is_empty() { Out::Trivial } else { Out::Held }, Err(e) => Out::Broken(format!("{e}, in {}", short(t))) }
}
pub fn conforms(t: &str) -> Out {
    match (KdlDocument::parse_v2(t), ref2::parse(t)) {
        (_, Err(ref2::Stop::Unspecified(_))) => Out::Trivial,
        (Ok(d), Ok(r)) => if conv::doc(&d) == r { Out::Held } else { Out::Broken(format!("{} read as {:?}, the specification says {:?}", short(t), conv::doc(&d), r)) },
        (Err(_), Err(_)) => Out::Held,
        (Ok(d), Err(ref2::Stop::Reject(at))) => Out::Broken(format!("{} accepted as {:?}, the specification rejects it near character {at}", short(t), conv::doc(&d))),
        (Err(e), Ok(r)) => Out::Broken(format!("{} rejected ({:?}), the specification reads {:?}", short(t), e.diagnostics.first().and_then(|d| d.message.clone()), r)),
    }
}
fn fmt_kept(d: &KdlDocument) -> Option<String> {
    if d.format().is_some() { return Some("document keeps a format".into()) }
    for n in d.nodes() {
        if n.format().is_some() { return Some("node keeps a format".into()) }
        if n.name().repr().is_some() || n.ty().is_some_and(|t| t.repr().is_some()) { return Some("node name or type keeps a repr".into()) }
        for e in n.entries() {
            if e.format().is_some() || e.name().is_some_and(|t| t.repr().is_some()) || e.ty().is_some_and(|t| t.repr().is_some()) { return Some("entry keeps formatting".into()) }
        }
        if let Some(c) = n.children() { if let Some(x) = fmt_kept(c) { return Some(x) } }
    }
    None
}
/// Drops some of the formatting of `d`, as `h` says.
fn some_format(d: &mut KdlDocument, h: &mut u64, k: u32) {
    let mut coin = || { *h ^= *h << 13; *h ^= *h >> 7; *h ^= *h << 17; *h >> 20 & 1 == 1 };
    if k == 0 || coin() { d.clear_format() }
    for n in d.nodes_mut() {
        let mut coin = || { *h ^= *h << 13; *h ^= *h >> 7; *h ^= *h << 17; *h >> 20 & 1 == 1 };
        if k == 0 || coin() { n.clear_format() }
        if coin() { n.name_mut().clear_format() }
        if coin() && let Some(t) = n.ty_mut() { t.clear_format() }
        for e in n.entries_mut() {
            match *h >> 30 & 3 {
                0 => e.clear_format(),
                // Only the entry's own format goes; its name and type keep how they were written.
                1 => { let (f, v) = (e.format().is_some(), e.value().clone()); if f { let (name, ty, span) = (e.name().cloned(), e.ty().cloned(), e.span()); let mut n = KdlEntry::new(v); n.set_name(name); if let Some(t) = ty { n.set_ty(t) } n.set_span(span); *e = n } }
                2 => e.keep_format(),
                _ => if let Some(t) = e.name_mut() { t.clear_format() },
            }
            *h ^= *h << 13; *h ^= *h >> 7; *h ^= *h << 17;
        }
        if let Some(c) = n.children_mut() { some_format(c, h, k) }
    }
}
pub fn clears(t: &str) -> Out {
    let Ok(d) = KdlDocument::parse_v2(t) else { return Out::Trivial };
    let want = conv::doc(&d);
    let mut a = d.clone(); a.clear_format_recursive();
    if conv::doc(&a) != want { return Out::Broken(format!("clear_format_recursive changed the data of {}", short(t))) }
    if let Some(x) = fmt_kept(&a) { return Out::Broken(format!("clear_format_recursive on {}: {x}", short(t))) }
    let mut b = d.clone(); b.clear_format();
    if conv::doc(&b) != want || b.format().is_some() || b.nodes() != d.nodes() { return Out::Broken(format!("clear_format of the document on {}", short(t))) }
    for i in 0..d.nodes().len() {
        let mut c = d.clone();
        let n = &mut c.nodes_mut()[i];
        n.clear_format();
        if conv::node(n) != want[i] || n.format().is_some() || n.entries() != d.nodes()[i].entries() || n.children() != d.nodes()[i].children() { return Out::Broken(format!("clear_format of node {i} of {}", short(t))) }
        let mut c = d.clone();
        let n = &mut c.nodes_mut()[i];
        n.clear_format_recursive();
        if conv::node(n) != want[i] { return Out::Broken(format!("clear_format_recursive of node {i} of {}", short(t))) }
        let mut w = KdlDocument::new(); w.nodes_mut().push(n.clone());
        if let Some(x) = fmt_kept(&w) { return Out::Broken(format!("clear_format_recursive of node {i} of {}: {x}", short(t))) }
        for j in 0..d.nodes()[i].entries().len() {
            let mut e = d.nodes()[i].entries()[j].clone();
            e.clear_format();
            if conv::entry(&e) != want[i].entries[j] || e.format().is_some() || e.name().is_some_and(|t| t.repr().is_some()) || e.ty().is_some_and(|t| t.repr().is_some()) { return Out::Broken(format!("clear_format of entry {j} of node {i} of {}", short(t))) }
        }
    }
    // The same with some of the formatting gone already, or only some of it there.
    let mut h = t.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    for k in 0..3 {
        let mut p = d.clone();
        some_format(&mut p, &mut h, k);
        let had = conv::doc(&p);
        let q = p.clone();
        p.clear_format_recursive();
        if conv::doc(&p) != had { return Out::Broken(format!("clear_format_recursive changed the data of {} with some formatting gone", short(t))) }
        if let Some(x) = fmt_kept(&p) { return Out::Broken(format!("clear_format_recursive on {} with some formatting gone: {x}", short(t))) }
        for (i, n) in q.nodes().iter().enumerate() {
            let mut m = n.clone();
            m.clear_format_recursive();
            let mut w = KdlDocument::new(); w.nodes_mut().push(m);
            if conv::doc(&w)[0] != had[i] { return Out::Broken(format!("clear_format_recursive changed the data of node {i} of {} with some formatting gone", short(t))) }
            if let Some(x) = fmt_kept(&w) { return Out::Broken(format!("clear_format_recursive of node {i} of {} with some formatting gone: {x}", short(t))) }
            for e in n.entries() {
                let mut c = e.clone();
                c.clear_format();
                if conv::entry(&c) != conv::entry(e) || c.format().is_some() || c.name().is_some_and(|t| t.repr().is_some()) || c.ty().is_some_and(|t| t.repr().is_some()) { return Out::Broken(format!("clear_format of an entry of node {i} of {} with some formatting gone", short(t))) }
            }
        }
    }
    let s = a.to_string();
    match KdlDocument::parse_v2(&s) { Ok(x) if conv::doc(&x) == want => Out::Held, _ => Out::Broken(format!("after clear_format_recursive {} prints as {}", short(t), short(&s))) }
}

/// One string literal as the sole argument of a node.
pub struct Strings;
impl Prop for Strings {
    fn rule(&self) -> &'static str { "one string literal of a random form (bare, quoted, raw, multi-line quoted, multi-line raw) with random content, 30% with 1-2 character edits, as argument, name, property key or value; judged by an independent reader written from the specification; non-trivial: the specification determines the outcome" }
    fn make(&self, seed: u64) -> String {
        let mut g = G::new(seed ^ 0x5151);
        let s = g.string_literal();
        let mut c: Vec<char> = s.chars().collect();
        if g.p(3, 10) { for _ in 0..1 + g.n(2) { g.mutate_str(&mut c) } }
        let s: String = c.into_iter().collect();
        match g.n(6) { 0 => s, 1 => format!("n {s}=1"), 2 => format!("n k={s}"), 3 => format!("({s})n {s}\n"), _ => format!("n {s}") }
    }
    fn check(&self, t: &str) -> Out { conforms(t) }
    fn fixed(&self) -> Vec<String> { let mut v = corpus("C08"); for c in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\\\"/#({[<>]}) \n\t\r=!@$%^&*-_+,.;:'?`~|".chars() { v.push(format!("n \"\\{c}\"")); v.push(format!("n \"\\{c}41}}\"")); } for u in ["0", "7f", "7F", "d7ff", "d800", "dbff", "dc00", "dfff", "e000", "10ffff", "110000", "ffffff", "1000000", "000041", "0000041", "", "g", "4 1"] { v.push(format!("n \"\\u{{{u}}}\"")) } v }
}

/// One number literal, judged by arithmetic done here.
pub struct Numbers;
fn int_value(lit: &str) -> Option<Option<i128>> {
    // None: not an integer literal; Some(None): does not fit.
    let (neg, r) = match lit.as_bytes().first()? { b'-' => (true, &lit[1..]), b'+' => (false, &lit[1..]), _ => (false, lit) };
    let (radix, ds) = if let Some(x) = r.strip_prefix("0x") { (16, x) } else if let Some(x) = r.strip_prefix("0o") { (8, x) } else if let Some(x) = r.strip_prefix("0b") { (2, x) } else { (10, r) };
    if !ds.chars().next()?.is_digit(radix) || !ds.chars().all(|c| c == '_' || c.is_digit(radix)) { return None }
    // Magnitude in 5 words of 32 bits; anything larger saturates.
    let mut w = [0u64; 5];
    for d in ds.chars().filter_map(|c| c.to_digit(radix)) {
        let mut carry = d as u64;
        for x in w.iter_mut() { let v = *x * radix as u64 + carry; *x = v & 0xffff_ffff; carry = v >> 32; }
        if carry > 0 || w[4] > 0 { return Some(None) }
    }
    let m = (w[0] as u128) | (w[1] as u128) << 32 | (w[2] as u128) << 64 | (w[3] as u128) << 96;
    Some(if neg { if m <= 1u128 << 127 { Some((m as i128).wrapping_neg()) } else { None } } else if m < 1u128 << 127 { Some(m as i128) } else { None })
}
fn float_shape(lit: &str) -> bool {
    let r = lit.strip_prefix(['-', '+']).unwrap_or(lit);
    let dig = |s: &str| s.chars().next().is_some_and(|c| c.is_ascii_digit()) && s.chars().all(|c| c == '_' || c.is_ascii_digit());
    let (m, e) = match r.find(['e', 'E']) { Some(i) => (&r[..i], Some(&r[i + 1..])), None => (r, None) };
    let (i, f) = match m.find('.') { Some(k) => (&m[..k], Some(&m[k + 1..])), None => (m, None) };
    dig(i) && f.is_none_or(dig) && e.is_none_or(|e| dig(e.strip_prefix(['-', '+']).unwrap_or(e))) && (f.is_some() || e.is_some())
}
impl Prop for Numbers {
    fn rule(&self) -> &'static str { "one number literal (decimal, hexadecimal, octal, binary, float, keyword; any sign, underscores, boundary magnitudes), 20% with one character edit, as argument or property value; judged by separate multi-word arithmetic and by the standard library's decimal-to-float conversion of the literal without underscores; non-trivial: the text has the shape of a number literal" }
    fn make(&self, seed: u64) -> String {
        let mut g = G::new(seed ^ 0x9191);
        let mut s = if g.p(1, 3) { g.boundary_number() } else { g.number_literal() };
        if g.p(1, 5) { let mut c: Vec<char> = s.chars().collect(); let at = g.n(c.len() + 1); let k = ["_", "0", "9", ".", "e", "E", "+", "-", "x", "f", "1"]; let x = g.pick(&k).chars().next().unwrap(); if g.p(1, 2) && at < c.len() { c[at] = x } else { c.insert(at, x) } s = c.into_iter().collect(); }
        match g.n(4) { 0 => format!("n k={s}"), 1 => format!("n (t){s}"), _ => format!("n {s}") }
    }
    fn check(&self, t: &str) -> Out {
        let Some(rest) = t.strip_prefix("n ") else { return Out::Trivial };
        let lit = rest.strip_prefix("k=").or(rest.strip_prefix("(t)")).unwrap_or(rest);
        let got = KdlDocument::parse_v2(t);
        let val = got.as_ref().ok().and_then(|d| d.nodes().first().cloned()).and_then(|n| if n.len() == 1 { Some(conv::val(n.entries()[0].value())) } else { None });
        if let Some(x) = int_value(lit) {
            return match (x, &got) {
                (Some(i), Ok(_)) if val == Some(RVal::Int(i)) => Out::Held,
                (None, Err(_)) => Out::Held,
                (Some(i), _) => Out::Broken(format!("{lit} denotes {i}, parsed as {val:?}")),
                (None, Ok(_)) => Out::Broken(format!("{lit} does not fit 128 bits, parsed as {val:?}")),
            };
        }
        if float_shape(lit) {
            let f: f64 = lit.replace('_', "").parse().unwrap();
            return if val == Some(RVal::Float(f.to_bits())) { Out::Held } else { Out::Broken(format!("{lit} denotes {f:?}, parsed as {val:?}")) };
        }
        let kw = match lit { "#inf" => Some(f64::INFINITY.to_bits()), "#-inf" => Some(f64::NEG_INFINITY.to_bits()), "#nan" => Some(f64::NAN.to_bits()), _ => None };
        if let Some(b) = kw { return if val == Some(RVal::Float(b)) { Out::Held } else { Out::Broken(format!("{lit} parsed as {val:?}")) } }
        conforms(t)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = corpus("C09");
        for k in ["170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "0x7fffffffffffffffffffffffffffffff", "0x80000000000000000000000000000000", "-0x80000000000000000000000000000000", "-0x80000000000000000000000000000001", "0o1777777777777777777777777777777777777777777", "0o2000000000000000000000000000000000000000000", "-0o2000000000000000000000000000000000000000000", "#inf", "#-inf", "#nan", "0x_1", "0b2", "0o8", "1__0", "1_", "1._0", "1.0_", "1e_1", "-0", "-0.0", "+0x0", "0X1", "0O1", "0B1", "-0b1", "1e400", "-1e400", "1e-400", "4.9e-324", "2.2250738585072011e-308", "9007199254740993.0", "0.1e1", "1E+1", "1e-0"] { v.push(format!("n {k}")); v.push(format!("n k={k}")); }
        for b in [127u32, 128, 126, 64, 63] { let one = format!("1{}", "0".repeat(b as usize)); let ones = "1".repeat(b as usize); for s in ["", "-", "+"] { v.push(format!("n {s}0b{one}")); v.push(format!("n {s}0b{ones}")); } }
        v
    }
}
