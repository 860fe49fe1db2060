//! Version fallback, judged by each version's own parser.
use kdl::*;
use kdlcheck::driver::{Out, Prop};
use kdlcheck::textgen::G;
use kdlcheck::{conv, ref2};
use kdlcheck::ref2::{RNode, RVal, REntry};

pub fn val1(v: &kdlv1::KdlValue) -> RVal {
    use kdlv1::KdlValue::*;
    match v {
        RawString(s) | String(s) => RVal::Str(s.clone()),
        Base2(i) | Base8(i) | Base10(i) | Base16(i) => RVal::Int(*i as i128),
        Base10Float(f) => RVal::Float(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() }),
        Bool(b) => RVal::Bool(*b),
        Null => RVal::Null,
    }
}
fn entry1(e: &kdlv1::KdlEntry) -> REntry { REntry { ty: e.ty().map(|t| t.value().into()), name: e.name().map(|t| t.value().into()), val: val1(e.value()) } }
fn node1(n: &kdlv1::KdlNode) -> RNode { RNode { ty: n.ty().map(|t| t.value().into()), name: n.name().value().into(), entries: n.entries().iter().map(entry1).collect(), children: n.children().map(doc1) } }
fn doc1(d: &kdlv1::KdlDocument) -> Vec<RNode> { d.nodes().iter().map(node1).collect() }

pub fn v1_value(g: &mut G) -> String { g.pick(&["true", "false", "null", "1", "-2", "0x1f", "1.5e3", "\"a b\"", "\"q\\\"\\/\\n\"", "r\"c:\\x\"", "r#\"a\"b\"#", "\"\"", "\"l1\nl2\"", "12_3"]).into() }
pub fn v1_ident(g: &mut G) -> String { g.pick(&["a", "node", "x-y", "\"q r\"", "true_", "inf", "+a", "r\"raw\""]).into() }
pub fn v1_node(g: &mut G, d: usize) -> String {
    let mut s = String::new();
    if g.p(1, 10) { s += "/-" }
    if g.p(1, 8) { s += "(ty)" }
    s += &v1_ident(g);
    for _ in 0..g.n(4) {
        s += " ";
        if g.p(1, 10) { s += "/-" }
        if g.p(1, 8) { s += "/* c */ " }
        if g.p(1, 3) { s += &v1_ident(g); s += "=" }
        if g.p(1, 8) { s += "(u8)" }
        s += &v1_value(g);
    }
    if d < 2 && g.p(1, 4) { s += " {"; for _ in 0..g.n(3) { s += &v1_node(g, d + 1); s += g.pick(&[";", "\n", "\n\n"]) } s += "}" }
    s
}
pub fn v1_doc(g: &mut G) -> String { let mut s = String::new(); if g.p(1, 10) { s += "/- kdl-version 1\n" } for _ in 0..g.n(4) { s += &v1_node(g, 0); s += g.pick(&["\n", ";", "\n// c\n", ""]) } s }
/// Whether the kdl 4 parser itself comes to an end on this text: reporting an error it may slice past the
/// end of what is left (kdl 4.7, src/parser.rs, KdlParser::parse), a listed finding. What the fallback does
/// before it asks that parser is still judged.
fn ends(k: &str, s: &str) -> bool {
    std::panic::catch_unwind(|| match k { "d" => { let _ = s.parse::<kdlv1::KdlDocument>(); } "n" => { let _ = s.parse::<kdlv1::KdlNode>(); } "e" => { let _ = s.parse::<kdlv1::KdlEntry>(); } _ => { let _ = s.parse::<kdlv1::KdlIdentifier>(); } }).is_ok()
}
pub struct Fallback;
impl Fallback {
    fn judge<T: PartialEq + std::fmt::Debug>(what: &str, s: &str, got: Result<T, KdlError>, v2: Result<T, KdlError>, v1: Result<T, KdlError>) -> Out {
        match (&v2, &v1) {
            (Ok(x), _) => match got { Ok(y) if y == *x => Out::Held, Ok(y) => Out::Broken(format!("{s:?} as {what} is KDL 2 but reads {y:?}, not {x:?}")), Err(e) => Out::Broken(format!("{s:?} as {what} is KDL 2 but fails: {e:?}")) },
            (_, Ok(x)) => match got { Ok(y) if y == *x => Out::Held, Ok(y) => Out::Broken(format!("{s:?} as {what} is KDL 1 only but reads {y:?}, not {x:?}")), Err(e) => Out::Broken(format!("{s:?} as {what} is KDL 1 but fails: {e:?}")) },
            (Err(a), Err(b)) => match got { Ok(y) => Out::Broken(format!("{s:?} as {what} is in neither version but reads {y:?}")), Err(e) if e == *a || e == *b => if *e.input == s { Out::Held } else { Out::Broken(format!("{s:?} as {what}: the error is about {:?}", e.input)) }, Err(e) => Out::Broken(format!("{s:?} as {what}: neither version reports {e:?}")) },
        }
    }
}
impl Prop for Fallback {
    fn rule(&self) -> &'static str { "random KDL 1 and KDL 2 documents, nodes, entries and identifiers and mutations of them, parsed with version fallback and compared with what each version's own parser gives; parse_v2 compared with an independent KDL 2 reader and every parse_v1 with the kdl 4 crate; non-trivial: every case" }
    fn make(&self, seed: u64) -> String {
        let mut g = G::new(seed ^ 0x1717);
        let mut s = match g.n(10) {
            0..=2 => format!("d|{}", v1_doc(&mut g)),
            3 | 4 => format!("d|{}", g.document()),
            5 => format!("d|{}", g.document_mut()),
            6 => format!("n|{}", v1_node(&mut g, 0)),
            7 => { let p = if g.p(1, 2) { format!("{}=", v1_ident(&mut g)) } else { String::new() }; format!("e|{p}{}", v1_value(&mut g)) }
            8 => format!("i|{}", if g.p(1, 2) { v1_ident(&mut g) } else { g.string_literal() }),
            _ => format!("e|{}", if g.p(1, 2) { g.string_literal() } else { g.number_literal() }),
        };
        if g.p(1, 4) { let mut c: Vec<char> = s.chars().skip(2).collect(); g.mutate(&mut c); s = format!("{}{}", &s[..2], c.into_iter().collect::<String>()) }
        s
    }
    fn fixed(&self) -> Vec<String> { ["d|", "d|a true", "d|a #true", "d|a 1", "d|a true #true", "d|a r\"x\"", "d|a \"l\n \"\n", "d|}", "d|a {", "n|a true", "n|a #true", "n|a }", "e|true", "e|#true", "e|a=null", "e|a=}", "i|r\"x\"", "i|#\"x\"#", "i|}", "i|true"].iter().map(|s| s.to_string()).collect() }
    fn check(&self, case: &str) -> Out {
        let Some((k, s)) = case.split_once('|') else { return Out::Trivial };
        if !["d", "n", "e", "i"].contains(&k) { return Out::Trivial }
        if !ends(k, s) {
            return match k { "d" => match (KdlDocument::parse_v2(s), ref2::parse(s)) { (Ok(x), _) if KdlDocument::parse(s) != Ok(x.clone()) => Out::Broken(format!("{s:?} is KDL 2 but does not read {x:?}")), _ => Out::Trivial }, _ => Out::Trivial };
        }
        match k {
            "d" => {
                let (v2, v1) = (KdlDocument::parse_v2(s), KdlDocument::parse_v1(s));
                let r2 = ref2::parse(s);
                if !matches!(r2, Err(ref2::Stop::Unspecified(_))) && v2.is_ok() != r2.is_ok() { return Out::Broken(format!("{s:?} is {}KDL 2, parse_v2 says otherwise", if v2.is_ok() { "not " } else { "" })) }
                let own: Result<kdlv1::KdlDocument, _> = s.parse();
                match (&v1, &own) { (Ok(a), Ok(b)) if conv::doc(a) == doc1(b) => {}, (Err(_), Err(_)) => {}, _ => return Out::Broken(format!("parse_v1 of {s:?} gives {v1:?}, the KDL 1 parser {own:?}")) }
                match (KdlDocument::v1_to_v2(s), &own) { (Ok(_), Ok(_)) | (Err(_), Err(_)) => {}, _ => return Out::Broken(format!("v1_to_v2 of {s:?} does not take KDL 1 exactly")) }
                let direct: Result<KdlDocument, KdlError> = s.parse();
                if direct != KdlDocument::parse(s) { return Out::Broken(format!("{s:?}: from_str and parse differ")) }
                Self::judge("a document", s, KdlDocument::parse(s), v2, v1)
            }
            "n" => {
                let own: Result<kdlv1::KdlNode, _> = s.parse();
                let v1 = KdlNode::parse_v1(s);
                match (&v1, &own) { (Ok(a), Ok(b)) if conv::node(a) == node1(b) => {}, (Err(_), Err(_)) => {}, _ => return Out::Broken(format!("KdlNode::parse_v1 of {s:?} gives {v1:?}, the KDL 1 parser {own:?}")) }
                if s.parse::<KdlNode>() != KdlNode::parse(s) { return Out::Broken(format!("{s:?}: a node's from_str and parse differ")) }
                // One node on its own, where reading it as a document says what it is.
                match (KdlNode::parse(s), ref2::parse(s), v1) {
                    (Ok(x), Ok(r), _) if r.len() == 1 => if conv::node(&x) == r[0] { Out::Held } else { Out::Broken(format!("{s:?} as a node is KDL 2 but reads {x:?}")) },
                    (Err(e), _, Ok(_)) => Out::Broken(format!("{s:?} as a node is KDL 1 but fails: {e:?}")),
                    (Err(e), _, Err(_)) => if *e.input == s { Out::Held } else { Out::Broken(format!("{s:?} as a node: the error is about {:?}", e.input)) },
                    _ => Out::Held,
                }
            }
            "e" => {
                let own: Result<kdlv1::KdlEntry, _> = s.parse();
                let v1 = KdlEntry::parse_v1(s);
                match (&v1, &own) { (Ok(a), Ok(b)) if conv::entry(a) == entry1(b) => {}, (Err(_), Err(_)) => {}, _ => return Out::Broken(format!("KdlEntry::parse_v1 of {s:?} gives {v1:?}, the KDL 1 parser {own:?}")) }
                if s.parse::<KdlEntry>() != KdlEntry::parse(s) { return Out::Broken(format!("{s:?}: an entry's from_str and parse differ")) }
                let r2 = ref2::parse(&format!("n {s}")).ok().filter(|d| d.len() == 1 && d[0].entries.len() == 1 && d[0].children.is_none()).map(|d| d[0].entries[0].clone());
                match (KdlEntry::parse(s), r2, v1) {
                    (Ok(x), Some(r), _) => if conv::entry(&x) == r { Out::Held } else { Out::Broken(format!("{s:?} as an entry is KDL 2 but reads {x:?}")) },
                    (Err(e), _, Ok(_)) => Out::Broken(format!("{s:?} as an entry is KDL 1 but fails: {e:?}")),
                    (Err(e), _, Err(_)) => if *e.input == s { Out::Held } else { Out::Broken(format!("{s:?} as an entry: the error is about {:?}", e.input)) },
                    _ => Out::Held,
                }
            }
            _ => {
                let own: Result<kdlv1::KdlIdentifier, _> = s.parse();
                let v1 = KdlIdentifier::parse_v1(s);
                match (&v1, &own) { (Ok(a), Ok(b)) if a.value() == b.value() => {}, (Err(_), Err(_)) => {}, _ => return Out::Broken(format!("KdlIdentifier::parse_v1 of {s:?} gives {v1:?}, the KDL 1 parser {own:?}")) }
                if s.parse::<KdlIdentifier>() != KdlIdentifier::parse(s) { return Out::Broken(format!("{s:?}: a name's from_str and parse differ")) }
                match (KdlIdentifier::parse(s), v1) {
                    (Err(e), Ok(_)) => Out::Broken(format!("{s:?} as a name is KDL 1 but fails: {e:?}")),
                    (Err(e), Err(_)) => if *e.input == s { Out::Held } else { Out::Broken(format!("{s:?} as a name: the error is about {:?}", e.input)) },
                    _ => Out::Held,
                }
            }
        }
    }
}
