//! Properties whose case is a value or a sequence of API calls.
use kdl::*;
use kdlcheck::conv;
use kdlcheck::driver::{Out, Prop};
use kdlcheck::ref2::{REntry, RNode, RVal};
use kdlcheck::textgen::G;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn any_char(g: &mut G) -> char {
    let common: Vec<char> = "aab01-+.._\"\\/ \n\t#(){}[];=<>,'é漢😀tfnire\r\u{7f}\u{0}\u{85}\u{a0}\u{2028}\u{feff}\u{200e}\u{202a}\u{2066}\u{b}\u{c}\u{8}\u{1b}\u{3000}\u{d7ff}\u{e000}\u{10ffff}".chars().collect();
    match g.n(10) { 0 => char::from_u32(g.n(0x110000) as u32).unwrap_or('x'), 1 => char::from_u32(g.n(0x300) as u32).unwrap(), 2 => char::from_u32(0x2000 + g.n(0x80) as u32).unwrap(), _ => common[g.n(common.len())] }
}
pub fn any_string(g: &mut G) -> String {
    match g.n(6) {
        0 => g.pick(&["true", "false", "null", "inf", "-inf", "nan", "", "-", "+", ".", "-.", "+.1", "-.1", ".1", "-1", "1a", "--1", "+-1", "..1", "0x1", "#true", "\"\"\"", "r#\"\"#", "a b", "a\nb", "//", "/*", "*/", "/-", "\\", "infinity", "True", "nulls", "-true", "-nan", "+inf"]).to_string(),
        1 => { let a = g.pick(&["true", "false", "null", "inf", "nan", "-inf"]).to_string(); if g.p(1, 2) { format!("{a}{}", any_char(g)) } else { format!("{}{a}", any_char(g)) } }
        2 => { let k = 1 + g.n(3); let mut s: String = (0..k).map(|_| g.pick(&["-", "+", ".", "0", "9", "a", "_", "e", "x"]).to_string()).collect(); if g.p(1, 4) { s.push(any_char(g)) } s }
        _ => { let k = g.n(7); (0..k).map(|_| any_char(g)).collect() }
    }
}
fn any_int(g: &mut G) -> i128 { match g.n(5) { 0 => g.n(20) as i128 - 10, 1 => i128::MIN + g.n(3) as i128, 2 => i128::MAX - g.n(3) as i128, 3 => (1i128 << g.n(127)) - g.n(3) as i128, _ => (((g.next() as u128) << 64 | g.next() as u128) as i128) >> g.n(128) } }
fn any_float(g: &mut G) -> f64 { match g.n(6) { 0 => [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7, 0.1][g.n(12)], 1 => g.n(1000) as f64 / 8.0, 2 => (g.n(2000000) as f64) * 1e15, _ => f64::from_bits(g.next()) } }
fn any_value(g: &mut G) -> KdlValue { match g.n(8) { 0 => KdlValue::Bool(true), 1 => KdlValue::Bool(false), 2 => KdlValue::Null, 3 => KdlValue::Integer(any_int(g)), 4 => KdlValue::Float(any_float(g)), _ => KdlValue::String(any_string(g)) } }

// ---- C02
pub struct Values;
fn decode(case: &str) -> Option<KdlValue> {
    let (k, v) = case.split_once('|')?;
    Some(match k {
        "s" => KdlValue::String(v.to_string()),
        "i" => KdlValue::Integer(v.parse().ok()?),
        "f" => KdlValue::Float(f64::from_bits(u64::from_str_radix(v, 16).ok()?)),
        "b" => KdlValue::Bool(v == "t"),
        "n" => KdlValue::Null,
        _ => return None,
    })
}
fn encode(v: &KdlValue) -> String { match v { KdlValue::String(s) => format!("s|{s}"), KdlValue::Integer(i) => format!("i|{i}"), KdlValue::Float(f) => format!("f|{:x}", f.to_bits()), KdlValue::Bool(b) => format!("b|{}", if *b { "t" } else { "f" }), KdlValue::Null => "n|".into() } }
impl Prop for Values {
    fn rule(&self) -> &'static str { "values (strings over an adversarial alphabet and keyword- and number-like shapes, 128-bit integers around boundaries, floats from random bit patterns, keywords) printed as argument, property value, node name, property name, node type and entry type; non-trivial: every case" }
    fn make(&self, seed: u64) -> String { encode(&any_value(&mut G::new(seed ^ 0x2222))) }
    fn check(&self, case: &str) -> Out {
        let Some(v) = decode(case) else { return Out::Trivial };
        let want = conv::val(&v);
        for text in [format!("n {v}"), format!("n k={v}"), format!("n (t){v} 1"), format!("n {v}{{}}")] {
            // A value directly before a brace needs no space only when quoted; skip that spelling.
            if text.ends_with("{}") { continue }
            match KdlDocument::parse_v2(&text) {
                Ok(d) if d.nodes().len() == 1 && d.nodes()[0].len() >= 1 && conv::val(d.nodes()[0].entries()[0].value()) == want => {}
                Ok(d) => return Out::Broken(format!("{v:?} prints as {:?}, which is read as {:?}", v.to_string(), conv::doc(&d))),
                Err(_) => return Out::Broken(format!("{v:?} prints as {:?}, which is rejected", v.to_string())),
            }
        }
        if let KdlValue::String(s) = &v {
            let i = KdlIdentifier::from(s.as_str());
            let text = format!("({i}){i} ({i}){i}={v}");
            let want = vec![RNode { ty: Some(s.clone()), name: s.clone(), entries: vec![REntry { ty: None, name: Some(s.clone()), val: RVal::Str(s.clone()) }], children: None }];
            let text2 = format!("({i}){i} {i}=({i}){v}");
            let mut want2 = want.clone(); want2[0].entries[0].ty = Some(s.clone());
            let _ = text; let _ = want;
            match KdlDocument::parse_v2(&text2) {
                Ok(d) if conv::doc(&d) == want2 => {}
                Ok(d) => return Out::Broken(format!("name {s:?} prints as {:?}, read as {:?}", i.to_string(), conv::doc(&d))),
                Err(_) => return Out::Broken(format!("name {s:?} prints as {:?}, which is rejected", i.to_string())),
            }
            match KdlIdentifier::parse(&i.to_string()) { Ok(j) if j.value() == s => {}, r => return Out::Broken(format!("identifier {s:?} prints as {:?}, parsed alone as {:?}", i.to_string(), r.map(|x| x.value().to_string()).ok())) }
        }
        Out::Held
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = (0u32..0x3100).chain(0xfe00..0x10010).filter_map(char::from_u32).flat_map(|c| [format!("s|{c}"), format!("s|a{c}b"), format!("s|-{c}"), format!("s|.{c}")]).collect();
        for c in ["true", "false", "null", "inf", "-inf", "nan", "", "+.1", "-.9x", "a\u{7f}"] { v.push(format!("s|{c}")) }
        for c in [i128::MIN, i128::MAX, 0, -1] { v.push(format!("i|{c}")) }
        for c in [0.0, -0.0, 1.0, 1e21, 1e15, 1e16, 1e17, 123456789012345680.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { v.push(format!("f|{:x}", c.to_bits())) }
        v.push("n|".into()); v.push("b|t".into()); v.push("b|f".into());
        v
    }
}

// ---- C03
pub struct Built;
/// A value through one of the conversions into one.
fn as_value(g: &mut G, v: &KdlValue) -> KdlValue {
    if g.p(1, 2) { return v.clone() }
    match v {
        KdlValue::String(s) => match g.n(3) { 0 => KdlValue::from(s.as_str()), 1 => KdlValue::from(s.clone()), _ => KdlValue::from(Some(s.as_str())) },
        KdlValue::Integer(i) => if g.p(1, 2) { KdlValue::from(*i) } else { KdlValue::from(Some(*i)) },
        KdlValue::Float(f) => if g.p(1, 2) { KdlValue::from(*f) } else { KdlValue::from(Some(*f)) },
        KdlValue::Bool(b) => if g.p(1, 2) { KdlValue::from(*b) } else { KdlValue::from(Some(*b)) },
        KdlValue::Null => KdlValue::from(None::<i128>),
    }
}
fn as_ident(g: &mut G, s: &str) -> KdlIdentifier { match g.n(3) { 0 => KdlIdentifier::from(s), 1 => KdlIdentifier::from(s.to_string()), _ => { let mut i = KdlIdentifier::from("x"); i.set_value(s); i } } }
/// Each of these gives what it built together with what the calls say it is.
fn build_entry(g: &mut G) -> (KdlEntry, REntry) {
    let v = any_value(g);
    let mut m = REntry { ty: None, name: None, val: conv::val(&v) };
    let mut e = match g.n(6) {
        0 => { let k = any_string(g); m.name = Some(k.clone()); KdlEntry::new_prop(as_ident(g, &k), as_value(g, &v)) }
        1 => { let k = any_string(g); m.name = Some(k.clone()); KdlEntry::from((as_ident(g, &k), as_value(g, &v))) }
        2 => KdlEntry::from(as_value(g, &v)),
        _ => KdlEntry::new(as_value(g, &v)),
    };
    if g.p(1, 4) { let s = any_string(g); e.set_ty(as_ident(g, &s)); m.ty = Some(s) }
    if g.p(1, 8) { let v = any_value(g); e.set_value(as_value(g, &v)); m.val = conv::val(&v) }
    if g.p(1, 10) { let v = any_value(g); *e.value_mut() = v.clone(); m.val = conv::val(&v) }
    if g.p(1, 10) { let s = any_string(g); e.set_name(Some(as_ident(g, &s))); m.name = Some(s) }
    if g.p(1, 10) && let Some(i) = e.name_mut() { let s = any_string(g); i.set_value(s.clone()); m.name = Some(s) }
    if g.p(1, 10) && let Some(i) = e.ty_mut() { let s = any_string(g); i.set_value(s.clone()); m.ty = Some(s) }
    if g.p(1, 15) { e.set_name(None::<String>); m.name = None }
    (e, m)
}
fn args_of(m: &RNode) -> Vec<usize> { m.entries.iter().enumerate().filter(|(_, e)| e.name.is_none()).map(|x| x.0).collect() }
fn build_node(g: &mut G, d: usize) -> (KdlNode, RNode) {
    let s = any_string(g);
    let mut n = KdlNode::new(as_ident(g, &s));
    let mut m = RNode { ty: None, name: s, entries: vec![], children: None };
    if g.p(1, 4) { let s = any_string(g); if g.p(1, 2) { n.set_ty(as_ident(g, &s)) } else { *n.ty_mut() = Some(as_ident(g, &s)) } m.ty = Some(s) }
    for _ in 0..g.n(5) {
        let args = args_of(&m);
        match g.n(10) {
            0 | 1 => {
                // By name: the last property so named is replaced, or the entry goes to the end.
                let k = if g.p(1, 2) { m.entries.iter().filter_map(|e| e.name.clone()).next().unwrap_or_else(|| any_string(g)) } else { any_string(g) };
                let v = any_value(g);
                n.insert(k.as_str(), KdlEntry::new(as_value(g, &v)));
                let e = REntry { ty: None, name: Some(k.clone()), val: conv::val(&v) };
                match m.entries.iter().rposition(|e| e.name.as_deref() == Some(&k)) { Some(i) => m.entries[i] = e, None => m.entries.push(e) }
            }
            2 => {
                let (v, at) = (any_value(g), g.n(args.len() + 1));
                n.insert(at, KdlEntry::new(as_value(g, &v)));
                m.entries.insert(args.get(at).copied().unwrap_or(m.entries.len()), REntry { ty: None, name: None, val: conv::val(&v) });
            }
            3 if !args.is_empty() => { let at = g.n(args.len()); n.remove(at); m.entries.remove(args[at]); }
            4 if !n.is_empty() => { let (i, v) = (g.n(n.len()), any_value(g)); n.entries_mut()[i].set_value(as_value(g, &v)); m.entries[i].val = conv::val(&v) }
            5 if g.p(1, 2) => { n.retain(|e| e.name().is_some()); m.entries.retain(|e| e.name.is_some()) }
            5 => { n.sort_by_key(|e| e.name().map(|n| n.value().to_string())); m.entries.sort_by_key(|e| e.name.clone()) }
            _ => { let (e, x) = build_entry(g); if g.p(1, 2) { n.push(e) } else { n.entries_mut().push(e) } m.entries.push(x) }
        }
    }
    if d < 3 && g.p(2, 5) {
        let k = g.n(3);
        for _ in 0..k { let (c, x) = build_node(g, d + 1); n.ensure_children().nodes_mut().push(c); m.children.get_or_insert_default().push(x) }
        if g.p(1, 4) { n.ensure_children(); m.children.get_or_insert_default(); }
        if g.p(1, 8) { let mut c = KdlDocument::new(); let (x, y) = build_node(g, 3); c.nodes_mut().push(x); n.set_children(c); m.children = Some(vec![y]) }
        if g.p(1, 12) { n.clear_children(); m.children = None }
        if g.p(1, 12) { n.set_children(KdlDocument::new()); m.children = Some(vec![]) }
        if g.p(1, 12) { *n.children_mut() = None; m.children = None }
    }
    if g.p(1, 10) { let s = any_string(g); n.set_name(as_ident(g, &s)); m.name = s }
    if g.p(1, 10) { let s = any_string(g); n.name_mut().set_value(s.clone()); m.name = s }
    (n, m)
}
fn seed_of(case: &str) -> Option<u64> { case.strip_prefix("seed ")?.trim().parse().ok() }
impl Prop for Built {
    fn rule(&self) -> &'static str { "documents built by a random sequence of constructor, conversion, push, insert, remove, retain, sort, set and children calls with default formatting, compared with a model of the calls, printed and parsed; non-trivial: at least one node" }
    fn make(&self, seed: u64) -> String { format!("seed {seed}") }
    fn shrinkable(&self) -> bool { false }
    fn check(&self, case: &str) -> Out {
        let Some(seed) = seed_of(case) else { return Out::Trivial };
        let mut g = G::new(seed ^ 0x3333);
        let mut d = KdlDocument::new();
        let mut m = vec![];
        for _ in 0..g.n(4) { let (n, x) = build_node(&mut g, 0); d.nodes_mut().push(n); m.push(x) }
        if conv::doc(&d) != m { return Out::Broken(format!("the calls build {m:?}, the document holds {:?}", conv::doc(&d))) }
        let s = d.to_string();
        for (k, t) in [("document", s.clone())].into_iter() {
            match KdlDocument::parse_v2(&t) {
                Ok(x) if conv::doc(&x) == conv::doc(&d) => {}
                Ok(x) => return Out::Broken(format!("{k} {:?} prints as {t:?}, read as {:?}", conv::doc(&d), conv::doc(&x))),
                Err(_) => return Out::Broken(format!("{k} {:?} prints as {t:?}, which is rejected", conv::doc(&d))),
            }
        }
        for n in d.nodes() {
            let t = n.to_string();
            match KdlDocument::parse_v2(&t) { Ok(x) if conv::doc(&x) == vec![conv::node(n)] => {}, _ => return Out::Broken(format!("node {:?} prints as {t:?}", conv::node(n))) }
        }
        if d.nodes().is_empty() { Out::Trivial } else { Out::Held }
    }
}

// ---- C10
pub struct NodeOps;
type M = Vec<(Option<String>, i128)>;
fn key(g: &mut G) -> String { g.pick(&["a", "b", "c"]).to_string() }
fn snapshot(n: &KdlNode) -> M { n.entries().iter().map(|e| (e.name().map(|x| x.value().to_string()), e.value().as_integer().unwrap_or(-1))).collect() }
fn arg_pos(m: &M, k: usize) -> Option<usize> { m.iter().enumerate().filter(|(_, e)| e.0.is_none()).nth(k).map(|x| x.0) }
impl Prop for NodeOps {
    fn rule(&self) -> &'static str { "random histories of get/entry/entry_mut/get_mut/insert/remove/push/retain/clear/index calls by position and by name on nodes parsed from text or built by calls (names written bare or quoted, duplicates likely), each step compared with a list model, the rest of the node compared for equality; non-trivial: every case" }
    fn make(&self, seed: u64) -> String { format!("seed {seed}") }
    fn shrinkable(&self) -> bool { false }
    fn check(&self, case: &str) -> Out {
        let Some(seed) = seed_of(case) else { return Out::Trivial };
        let mut g = G::new(seed ^ 0x1010);
        let mut n = if g.p(1, 2) {
            let mut t = String::from("(ty)name");
            for i in 0..g.n(6) { if g.p(1, 2) { t += &format!("  {i}0") } else { let k = key(&mut g); if g.p(1, 2) { t += &format!(" {k}={i}1") } else { t += &format!(" \"{k}\" = {i}1") } } }
            if g.p(1, 2) { t += " { c 1; }" }
            KdlDocument::parse_v2(&t).unwrap().nodes()[0].clone()
        } else { let mut n = KdlNode::new("name"); n.set_ty("ty"); if g.p(1, 2) { n.ensure_children().nodes_mut().push(KdlNode::new("c")) } n };
        let frame = |n: &KdlNode| { let mut m = n.clone(); m.clear(); m };
        let fr = frame(&n);
        let mut m: M = snapshot(&n);
        let mut log = vec![format!("{m:?}")];
        for step in 0..1 + g.n(10) {
            let v = 1000 + step as i128;
            let args = m.iter().filter(|e| e.0.is_none()).count();
            macro_rules! bad { ($($x:tt)*) => { return Out::Broken(format!("{}; history {}", format!($($x)*), log.join(" ; "))) } }
            match g.n(12) {
                0 => { let k = g.n(args + 2); log.push(format!("get({k})")); let w = arg_pos(&m, k).map(|i| m[i].1); if n.get(k).and_then(|x| x.as_integer()) != w || n.entry(k).map(|e| e.value().clone()) != w.map(KdlValue::Integer) { bad!("get({k}) gives {:?}, expected {w:?}", n.get(k)) } }
                1 => { let k = key(&mut g); log.push(format!("get({k})")); let w = m.iter().rev().find(|e| e.0.as_deref() == Some(&k)).map(|e| e.1); if n.get(k.as_str()).and_then(|x| x.as_integer()) != w || n.entry(k.as_str()).map(|e| e.value().clone()) != w.map(KdlValue::Integer) { bad!("get({k}) gives {:?}, expected {w:?}", n.get(k.as_str())) } }
                2 => { let k = g.n(args + 1); log.push(format!("entry_mut({k})")); match (n.entry_mut(k), arg_pos(&m, k)) { (Some(e), Some(i)) => { e.set_value(v); m[i].1 = v } (None, None) => {} (a, b) => bad!("entry_mut({k}) is {:?}, expected {b:?}", a.is_some()) } }
                3 => { let k = key(&mut g); log.push(format!("get_mut({k})")); match (n.get_mut(k.as_str()), m.iter().rposition(|e| e.0.as_deref() == Some(&k))) { (Some(e), Some(i)) => { *e = v.into(); m[i].1 = v } (None, None) => {} (a, b) => bad!("get_mut({k}) is {:?}, expected {b:?}", a.is_some()) } }
                4 | 5 => { let k = key(&mut g); log.push(format!("insert({k},{v})")); let named = g.p(1, 3); let e = if named { KdlEntry::new_prop(k.as_str(), v) } else { KdlEntry::new(v) };
                    let w = m.iter().rposition(|e| e.0.as_deref() == Some(&k));
                    let r = if g.p(1, 2) { n.insert(k.as_str(), e) } else { n.insert(k.clone(), e) };
                    match w { Some(i) => { if r.as_ref().map(|x| x.value().clone()) != Some(KdlValue::Integer(m[i].1)) { bad!("insert({k}) returned {r:?}") } m[i].1 = v } None => { if r.is_some() { bad!("insert({k}) returned {r:?}") } m.push((Some(k), v)) } } }
                6 | 7 => { let k = g.n(args + 3); log.push(format!("insert({k},{v})")); let named = g.p(1, 8); let e = if named { KdlEntry::new_prop("a", v) } else { KdlEntry::new(v) };
                    let r = catch_unwind(AssertUnwindSafe(|| n.insert(k, e)));
                    match r { Err(_) => { if k <= args && !named { bad!("insert({k}) panicked") } } Ok(r) => { if k > args || named { bad!("insert({k}) did not fail") } if r.is_some() { bad!("insert({k}) returned {r:?}") } let at = arg_pos(&m, k).unwrap_or(m.len()); m.insert(at, (None, v)) } } }
                8 => { let k = g.n(args + 2); log.push(format!("remove({k})")); let r = catch_unwind(AssertUnwindSafe(|| n.remove(k)));
                    match (r, arg_pos(&m, k)) { (Err(_), None) => {} (Ok(Some(e)), Some(i)) => { if e.value() != &KdlValue::Integer(m[i].1) || e.name().is_some() { bad!("remove({k}) returned {e:?}") } m.remove(i); } (r, w) => bad!("remove({k}) gave {:?}, expected {w:?}", r.map(|x| x.is_some()).ok()) } }
                9 => { let k = key(&mut g); log.push(format!("remove({k})")); let r = n.remove(k.as_str()); match (r, m.iter().position(|e| e.0.as_deref() == Some(&k))) { (None, None) => {} (Some(e), Some(i)) => { if e.value() != &KdlValue::Integer(m[i].1) || e.name().map(|x| x.value()) != Some(&k) { bad!("remove({k}) returned {e:?}") } m.remove(i); } (r, w) => bad!("remove({k}) gave {r:?}, expected {w:?}") } }
                10 => { log.push("push".into()); if g.p(1, 2) { n.push(v); m.push((None, v)) } else { let k = key(&mut g); n.push((k.as_str(), v)); m.push((Some(k), v)) } }
                _ => match g.n(4) {
                    0 => { log.push("retain".into()); let c = 1000 + g.n(10) as i128; n.retain(|e| e.value().as_integer() < Some(c)); m.retain(|e| e.1 < c) }
                    1 => { log.push("len".into()); if n.len() != m.len() || n.is_empty() != m.is_empty() { bad!("len {}", n.len()) } }
                    2 => { let k = key(&mut g); log.push(format!("index {k}")); let w = m.iter().rev().find(|e| e.0.as_deref() == Some(&k)).map(|e| e.1); let r = catch_unwind(AssertUnwindSafe(|| n[k.as_str()].clone())).ok(); if r != w.map(KdlValue::Integer) { bad!("[{k}] gives {r:?}") } }
                    _ => { let k = g.n(args + 1); log.push(format!("index {k}")); let w = arg_pos(&m, k).map(|i| m[i].1); let r = catch_unwind(AssertUnwindSafe(|| n[k].clone())).ok(); if r != w.map(KdlValue::Integer) { bad!("[{k}] gives {r:?}") } }
                },
            }
            if snapshot(&n) != m { bad!("node has entries {:?}, expected {m:?}", snapshot(&n)) }
            if frame(&n) != fr { bad!("something besides the entries changed") }
            if n.iter().count() != m.len() { bad!("iter") }
        }
        Out::Held
    }
}

// ---- C11
pub struct DocOps;
impl Prop for DocOps {
    fn rule(&self) -> &'static str { "random documents with repeated node names, arguments mixed with properties and dash-named children, every lookup compared with a scan of the node list, mutable lookups compared by writing through them; non-trivial: every case" }
    fn make(&self, seed: u64) -> String { format!("seed {seed}") }
    fn shrinkable(&self) -> bool { false }
    fn check(&self, case: &str) -> Out {
        let Some(seed) = seed_of(case) else { return Out::Trivial };
        let mut g = G::new(seed ^ 0x1111);
        let names = ["a", "b", "-", "a b"];
        let mut d = KdlDocument::new();
        let mut c = 0i128;
        for _ in 0..g.n(6) {
            let mut n = KdlNode::new(names[g.n(4)]);
            if g.p(1, 2) { let r = format!("{:?}", n.name().value()); n.name_mut().set_repr(r); }
            for _ in 0..g.n(4) { c += 1; if g.p(1, 2) { n.push(c) } else { n.push((key(&mut g), c)) } }
            if g.p(1, 2) { for _ in 0..g.n(4) { let mut k = KdlNode::new(if g.p(2, 3) { "-" } else { "x" }); for _ in 0..g.n(3) { c += 1; if g.p(2, 3) { k.push(c) } else { k.push(("p", c)) } } n.ensure_children().nodes_mut().push(k) } }
            d.nodes_mut().push(n);
        }
        for nm in names {
            let pos = d.nodes().iter().position(|n| n.name().value() == nm);
            let first = pos.map(|i| d.nodes()[i].clone());
            let args: Vec<KdlValue> = first.iter().flat_map(|n| n.entries().iter().filter(|e| e.name().is_none()).map(|e| e.value().clone())).collect();
            let dash: Vec<KdlValue> = first.iter().flat_map(|n| n.children().iter().flat_map(|c| c.nodes().iter().filter(|k| k.name().value() == "-").filter_map(|k| k.entries().iter().find(|e| e.name().is_none()).map(|e| e.value().clone())).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
            if d.get(nm) != first.as_ref() { return Out::Broken(format!("get({nm}) on {d}")) }
            if d.get_arg(nm) != args.first() { return Out::Broken(format!("get_arg({nm}) on {d}")) }
            if d.iter_args(nm).cloned().collect::<Vec<_>>() != args { return Out::Broken(format!("iter_args({nm}) on {d}")) }
            if d.iter_dash_args(nm).cloned().collect::<Vec<_>>() != dash { return Out::Broken(format!("iter_dash_args({nm}) on {d}")) }
            let mut e = d.clone();
            match (e.get_mut(nm), pos) { (Some(n), Some(_)) => n.set_ty("marked"), (None, None) => {}, _ => return Out::Broken(format!("get_mut({nm}) on {d}")) }
            let mut w = d.clone(); if let Some(i) = pos { w.nodes_mut()[i].set_ty("marked") }
            if e != w { return Out::Broken(format!("get_mut({nm}) reached another node of {d}")) }
            let mut e = d.clone();
            match (e.get_arg_mut(nm), args.first()) { (Some(v), Some(_)) => *v = "marked".into(), (None, None) => {}, _ => return Out::Broken(format!("get_arg_mut({nm}) on {d}")) }
            let mut w = d.clone(); if let (Some(i), false) = (pos, args.is_empty()) { let j = w.nodes()[i].entries().iter().position(|e| e.name().is_none()).unwrap(); w.nodes_mut()[i].entries_mut()[j].set_value("marked") }
            if e != w { return Out::Broken(format!("get_arg_mut({nm}) reached another argument of {d}")) }
        }
        let by: Vec<String> = (&d).into_iter().map(|n| n.name().value().to_string()).collect();
        if by != d.nodes().iter().map(|n| n.name().value().to_string()).collect::<Vec<_>>() { return Out::Broken("iteration".into()) }
        Out::Held
    }
}

// ---- C12
pub struct Laws;
fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn law_value(g: &mut G) -> KdlValue { match g.n(7) { 0 => KdlValue::Bool(g.p(1, 2)), 1 => KdlValue::Null, 2 => KdlValue::Integer([0, 1, -1, i128::MAX, i128::MIN][g.n(5)]), 3 | 4 => KdlValue::Float([0.0, -0.0, 1.0, f64::NAN, -f64::NAN, f64::from_bits(0x7ff8000000000001), f64::INFINITY, f64::NEG_INFINITY, f64::from_bits(g.next())][g.n(9)]), _ => KdlValue::String(["", "0", "a", "NaN"][g.n(4)].into()) } }
fn law_ident(g: &mut G) -> KdlIdentifier { let mut i = KdlIdentifier::from(["a", "b", ""][g.n(3)]); if g.p(1, 3) { i.set_repr(["a", "\"a\"", "b"][g.n(3)]) } if g.p(1, 2) { i.set_span((g.n(5), g.n(5))) } i }
fn law_entry(g: &mut G) -> KdlEntry {
    let mut e = KdlEntry::new(law_value(g));
    if g.p(1, 2) { e.set_name(Some(law_ident(g))) }
    if g.p(1, 3) { e.set_ty(law_ident(g)) }
    if g.p(1, 3) { let mut f = KdlEntryFormat::default(); let s = ["", " "][g.n(2)].to_string(); match g.n(9) { 0 => f.value_repr = s, 1 => f.leading = s, 2 => f.trailing = s, 3 => f.after_ty = s, 4 => f.before_ty_name = s, 5 => f.after_ty_name = s, 6 => f.after_key = s, 7 => f.after_eq = s, _ => f.autoformat_keep = g.p(1, 2) } e.set_format(f) }
    if g.p(1, 2) { e.set_span((g.n(5), g.n(5))) }
    e
}
fn law_node(g: &mut G, d: usize) -> KdlNode {
    let mut n = KdlNode::new(law_ident(g));
    if g.p(1, 3) { n.set_ty(law_ident(g)) }
    for _ in 0..g.n(3) { n.push(law_entry(g)) }
    if d < 2 && g.p(1, 3) { n.set_children(law_doc(g, d + 1)) }
    if g.p(1, 3) { let mut f = KdlNodeFormat::default(); let s = ["", " "][g.n(2)].to_string(); match g.n(8) { 0 => f.leading = s, 1 => f.before_ty_name = s, 2 => f.after_ty_name = s, 3 => f.after_ty = s, 4 => f.before_children = s, 5 => f.before_terminator = s, 6 => f.terminator = s, _ => f.trailing = s } n.set_format(f) }
    if g.p(1, 2) { n.set_span((g.n(5), g.n(5))) }
    n
}
fn law_doc(g: &mut G, d: usize) -> KdlDocument {
    let mut x = KdlDocument::new();
    for _ in 0..g.n(3) { x.nodes_mut().push(law_node(g, d)) }
    if g.p(1, 3) { let mut f = KdlDocumentFormat::default(); let s = ["", " "][g.n(2)].to_string(); if g.p(1, 2) { f.leading = s } else { f.trailing = s } x.set_format(f) }
    if g.p(1, 2) { x.set_span((g.n(5), g.n(5))) }
    x
}
fn laws<T: Clone + PartialEq + Hash + std::fmt::Debug>(a: &T, b: &T, c: &T, same: impl Fn(&T, &T) -> bool, respan: impl Fn(&mut T)) -> Result<(), String> {
    for x in [a, b, c] { if x != x { return Err(format!("not reflexive: {x:?}")) } let mut y = x.clone(); respan(&mut y); if x != &y || hash(x) != hash(&y) { return Err(format!("depends on spans: {x:?}")) } }
    for (x, y) in [(a, b), (b, c), (a, c)] {
        if (x == y) != (y == x) { return Err(format!("not symmetric: {x:?} {y:?}")) }
        if (x == y) == (x != y) { return Err(format!("!= is not the negation of ==: {x:?} {y:?}")) }
        if x == y && hash(x) != hash(y) { return Err(format!("equal but hashed apart: {x:?} {y:?}")) }
        if (x == y) != same(x, y) { return Err(format!("== is {}, content says {}: {x:?} {y:?}", x == y, same(x, y))) }
    }
    if a == b && b == c && a != c { return Err(format!("not transitive: {a:?} {b:?} {c:?}")) }
    Ok(())
}
fn k_val(v: &KdlValue) -> String { match v { KdlValue::Float(f) => { let f = if f.is_nan() { 0.0 } else { f.clamp(f64::MIN, f64::MAX) }; if f == 0.0 { "f0".into() } else { format!("f{:x}", f.to_bits()) } }, v => format!("{v:?}") } }
fn k_id(i: &KdlIdentifier) -> String { format!("{:?}/{:?}", i.value(), i.repr()) }
fn k_entry(e: &KdlEntry) -> String { format!("{:?}|{:?}|{}|{:?}", e.name().map(k_id), e.ty().map(k_id), k_val(e.value()), e.format()) }
fn k_node(n: &KdlNode) -> String { format!("{:?}|{}|{:?}|{:?}|{:?}", n.ty().map(k_id), k_id(n.name()), n.entries().iter().map(k_entry).collect::<Vec<_>>(), n.children().map(k_doc), n.format()) }
fn k_doc(d: &KdlDocument) -> String { format!("{:?}|{:?}", d.nodes().iter().map(k_node).collect::<Vec<_>>(), d.format()) }
fn re_entry(e: &mut KdlEntry) { e.set_span((9, 9)); if let Some(i) = e.name_mut() { i.set_span((9, 8)) } if let Some(i) = e.ty_mut() { i.set_span((9, 8)) } }
fn re_node(n: &mut KdlNode) { n.set_span((9, 9)); n.name_mut().set_span((9, 7)); if let Some(t) = n.ty_mut() { t.set_span((9, 6)) } for e in n.entries_mut() { re_entry(e) } if let Some(c) = n.children_mut() { re_doc(c) } }
fn re_doc(d: &mut KdlDocument) { d.set_span((9, 9)); for n in d.nodes_mut() { re_node(n) } }
impl Prop for Laws {
    fn rule(&self) -> &'static str { "triples of values, identifiers, entries, nodes and documents over small pools (float corner cases, formats differing in one field, random spans), the second and third often near copies of the first; reflexive, symmetric, transitive, span-insensitive, hash-compatible and equal exactly when the content is; non-trivial: every case" }
    fn make(&self, seed: u64) -> String { format!("seed {seed}") }
    fn shrinkable(&self) -> bool { false }
    fn check(&self, case: &str) -> Out {
        let Some(seed) = seed_of(case) else { return Out::Trivial };
        let mut g = G::new(seed ^ 0x1212);
        // Near copies: the same generator state with a late divergence.
        macro_rules! triple { ($f:expr) => {{ let s = g.next(); let a = $f(&mut G::new(s)); let b = if g.p(1, 2) { $f(&mut G::new(s)) } else { $f(&mut g) }; let c = if g.p(1, 2) { $f(&mut G::new(s)) } else { $f(&mut g) }; (a, b, c) }} }
        let r = match g.n(5) {
            0 => { let (a, b, c) = triple!(law_value); laws(&a, &b, &c, |x, y| k_val(x) == k_val(y), |_| {}) }
            1 => { let (a, b, c) = triple!(law_ident); laws(&a, &b, &c, |x, y| k_id(x) == k_id(y), |x| x.set_span((9, 9))) }
            2 => { let (a, b, c) = triple!(law_entry); laws(&a, &b, &c, |x, y| k_entry(x) == k_entry(y), re_entry) }
            3 => { let (a, mut b, c) = triple!(|g: &mut G| law_node(g, 0)); if g.p(1, 2) { if let Some(e) = b.entries_mut().last_mut() { *e = law_entry(&mut g) } } laws(&a, &b, &c, |x, y| k_node(x) == k_node(y), re_node) }
            _ => { let (a, b, c) = triple!(|g: &mut G| law_doc(g, 0)); laws(&a, &b, &c, |x, y| k_doc(x) == k_doc(y), re_doc) }
        };
        match r { Ok(()) => Out::Held, Err(e) => Out::Broken(e) }
    }
}
