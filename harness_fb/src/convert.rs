//! Conversion between the versions, judged by an independent KDL 2 reader and by the kdl 4 crate.
use crate::fallback::{v1_doc, v1_ident, v1_node, v1_value, val1};
use kdl::*;
use kdlcheck::driver::{Out, Prop};
use kdlcheck::ref2::RVal;
use kdlcheck::textgen::G;
use kdlcheck::{conv, ref2};

/// What a text is as a name, read as KDL 2; None where the specification leaves it open.
fn name2(t: &str) -> Option<Result<String, ()>> {
    match ref2::parse(t) {
        Err(ref2::Stop::Unspecified(_)) => None,
        Ok(d) if d.len() == 1 && d[0].ty.is_none() && d[0].entries.is_empty() && d[0].children.is_none() => Some(Ok(d[0].name.clone())),
        _ => Some(Err(())),
    }
}
fn arg2(t: &str) -> Option<Result<RVal, ()>> {
    match ref2::parse(&format!("n {t}")) {
        Err(ref2::Stop::Unspecified(_)) => None,
        Ok(d) if d.len() == 1 && d[0].entries.len() == 1 && d[0].children.is_none() && d[0].entries[0].name.is_none() && d[0].entries[0].ty.is_none() => Some(Ok(d[0].entries[0].val.clone())),
        _ => Some(Err(())),
    }
}
fn name1(t: &str) -> Option<String> { let t = t.to_string(); std::panic::catch_unwind(move || t.parse::<kdlv1::KdlIdentifier>().ok().map(|i| i.value().to_string())).ok().flatten() }
fn arg1(t: &str) -> Option<RVal> { let t = t.to_string(); std::panic::catch_unwind(move || t.parse::<kdlv1::KdlEntry>().ok().filter(|e| e.name().is_none() && e.ty().is_none()).map(|e| val1(e.value()))).ok().flatten() }

type R = Result<(), String>;
fn name(i: &KdlIdentifier, v2: bool) -> R {
    let t = i.to_string();
    if v2 { match name2(&t) { None => Ok(()), Some(Ok(x)) if x == i.value() => Ok(()), o => Err(format!("the name {:?} is written {t:?}, which KDL 2 reads as {o:?}", i.value())) } }
    else { match name1(&t) { Some(x) if x == i.value() => Ok(()), o => Err(format!("the name {:?} is written {t:?}, which KDL 1 reads as {o:?}", i.value())) } }
}
fn entry(a: &KdlEntry, b: &KdlEntry, v2: bool) -> R {
    if let Some(n) = b.name() { name(n, v2)? }
    if let Some(n) = b.ty() { name(n, v2)? }
    let t = match b.format() { Some(f) => f.value_repr.clone(), None => b.value().to_string() };
    if !v2 && b.format().is_none() { return Err(format!("{:?} has no KDL 1 text", b.value())) }
    let want = conv::val(b.value());
    match b.value() {
        KdlValue::Integer(i) => match a.format() { Some(f) => if f.value_repr != t { return Err(format!("the number {:?} became {t:?}", f.value_repr)) }, None => if t != i.to_string() { return Err(format!("the number {i} is written {t:?}")) } },
        KdlValue::Float(_) => if let Some(f) = a.format() { if f.value_repr != t { return Err(format!("the number {:?} became {t:?}", f.value_repr)) } },
        _ if v2 => match arg2(&t) { None => {}, Some(Ok(x)) if x == want => {}, o => return Err(format!("{want:?} is written {t:?}, which KDL 2 reads as {o:?}")) },
        _ => match arg1(&t) { Some(x) if x == want => {}, o => return Err(format!("{want:?} is written {t:?}, which KDL 1 reads as {o:?}")) },
    }
    // Everything around the value's text stays.
    // (KDL 1 has no space inside an entry.)
    let bare = |f: &KdlEntryFormat| if v2 { f.clone() } else { KdlEntryFormat { after_ty: "".into(), before_ty_name: "".into(), after_ty_name: "".into(), after_key: "".into(), after_eq: "".into(), ..f.clone() } };
    match (a.format().map(bare).as_ref(), b.format()) {
        (Some(f), Some(g)) => if (KdlEntryFormat { value_repr: t, ..f.clone() }) != *g { return Err(format!("the formatting {f:?} became {g:?}")) },
        (None, None) => {}
        (None, Some(_)) if !v2 => {}
        (f, g) => return Err(format!("the formatting {f:?} became {g:?}")),
    }
    Ok(())
}
fn node(a: &KdlNode, b: &KdlNode, v2: bool) -> R {
    name(b.name(), v2)?;
    if let Some(t) = b.ty() { name(t, v2)? }
    for (x, y) in a.entries().iter().zip(b.entries()) { entry(x, y, v2)? }
    if let (Some(x), Some(y)) = (a.children(), b.children()) { doc(x, y, v2)? }
    Ok(())
}
fn doc(a: &KdlDocument, b: &KdlDocument, v2: bool) -> R {
    let n = a.nodes().len();
    if a.format() != b.format() { return Err("the document's own formatting changed".into()) }
    for (k, (x, y)) in a.nodes().iter().zip(b.nodes()).enumerate() {
        node(x, y, v2)?;
        // KDL 1 has no space inside a type annotation, and its last node has a terminator.
        let last = !v2 && k + 1 == n;
        let bare = |f: &KdlNodeFormat| if v2 { f.clone() } else { KdlNodeFormat { after_ty: "".into(), before_ty_name: "".into(), after_ty_name: "".into(), terminator: if last && f.terminator.is_empty() { ";".into() } else { f.terminator.clone() }, ..f.clone() } };
        match (x.format().map(bare).as_ref(), y.format()) {
            (f, g) if f == g => {}
            (None, Some(g)) if last && (KdlNodeFormat { leading: "".into(), ..g.clone() }) == (KdlNodeFormat { leading: "".into(), before_ty_name: "".into(), after_ty_name: "".into(), after_ty: "".into(), before_children: "".into(), before_terminator: "".into(), terminator: "\n".into(), trailing: "".into() }) => {}
            (f, g) => return Err(format!("the node formatting {f:?} became {g:?}")),
        }
    }
    Ok(())
}
// What the kdl 4 crate keeps of a KDL 1 text, against what reading that text as KDL 1 keeps.
fn read_name(a: &kdlv1::KdlIdentifier, b: &KdlIdentifier) -> R { if a.value() == b.value() && a.repr() == b.repr() { Ok(()) } else { Err(format!("the name {a:?} is read as {b:?}")) } }
fn read_ty(a: Option<&kdlv1::KdlIdentifier>, b: Option<&KdlIdentifier>) -> R { match (a, b) { (None, None) => Ok(()), (Some(a), Some(b)) => read_name(a, b), _ => Err(format!("{a:?} is read as {b:?}")) } }
fn read_entry(a: &kdlv1::KdlEntry, b: &KdlEntry) -> R {
    read_ty(a.ty(), b.ty())?;
    read_ty(a.name(), b.name())?;
    let want = KdlEntryFormat { value_repr: a.value_repr().unwrap_or("").into(), leading: a.leading().unwrap_or("").into(), trailing: a.trailing().unwrap_or("").into(), ..Default::default() };
    if val1(a.value()) != conv::val(b.value()) || b.format() != Some(&want) { return Err(format!("the entry {a:?} is read as {b:?}")) }
    Ok(())
}
fn read_node(a: &kdlv1::KdlNode, b: &KdlNode) -> R {
    read_ty(a.ty(), b.ty())?;
    read_name(a.name(), b.name())?;
    if a.entries().len() != b.entries().len() || a.children().is_some() != b.children().is_some() { return Err(format!("the node {a:?} is read as {b:?}")) }
    for (x, y) in a.entries().iter().zip(b.entries()) { read_entry(x, y)? }
    if let (Some(x), Some(y)) = (a.children(), b.children()) { read_doc(x, y)? }
    let Some(f) = b.format() else { return Err(format!("the node {a:?} is read without its formatting")) };
    let end = format!("{}{}{}", f.before_terminator, f.terminator, f.trailing);
    if f.leading != a.leading().unwrap_or("") || f.before_children != a.before_children().unwrap_or("") || !f.before_ty_name.is_empty() || !f.after_ty_name.is_empty() || !f.after_ty.is_empty()
        || end.strip_prefix(a.trailing().unwrap_or("")).is_none_or(|x| !x.is_empty() && x != "\n") { return Err(format!("the text around the node {a:?} is read as {f:?}")) }
    Ok(())
}
fn read_doc(a: &kdlv1::KdlDocument, b: &KdlDocument) -> R {
    if a.nodes().len() != b.nodes().len() { return Err(format!("{} nodes are read as {}", a.nodes().len(), b.nodes().len())) }
    for (x, y) in a.nodes().iter().zip(b.nodes()) { read_node(x, y)? }
    match b.format() { Some(f) if f.leading == a.leading().unwrap_or("") && f.trailing == a.trailing().unwrap_or("") => Ok(()), f => Err(format!("the document's own text {:?} {:?} is read as {f:?}", a.leading(), a.trailing())) }
}
/// Reading `s` as KDL 1 gives what the kdl 4 crate reads, text included.
fn reads(k: &str, s: &str) -> R {
    let r = std::panic::catch_unwind(|| match k {
        "e" => s.parse::<kdlv1::KdlEntry>().ok().map(|a| KdlEntry::parse_v1(s).map_err(|e| format!("{e:?}")).and_then(|b| read_entry(&a, &b))),
        "n" => s.parse::<kdlv1::KdlNode>().ok().map(|a| KdlNode::parse_v1(s).map_err(|e| format!("{e:?}")).and_then(|b| read_node(&a, &b))),
        _ => s.parse::<kdlv1::KdlDocument>().ok().map(|a| KdlDocument::parse_v1(s).map_err(|e| format!("{e:?}")).and_then(|b| read_doc(&a, &b))),
    });
    match r { Ok(Some(Err(e))) => Err(e), _ => Ok(()) }
}
fn turn(d: &mut KdlDocument, v2: bool) -> R {
    let a = d.clone();
    let r = std::panic::catch_unwind(|| { let mut d = a.clone(); if v2 { d.ensure_v2() } else { d.ensure_v1() } d });
    *d = r.map_err(|_| "converting panics".to_string())?;
    if conv::doc(&a) != conv::doc(d) { return Err(format!("converting changes what {a:?} holds: {d:?}")) }
    doc(&a, d, v2)
}
fn any_string(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..g.n(7) {
        match g.n(4) {
            0 => s.push((b'a' + g.n(26) as u8) as char),
            1 => s += g.pick(&[",", "<", ">", "#", "/", "\"", "\\", "(", ")", "{", "}", "[", "]", "=", ";", " ", "\n", "\r", "\t", "-", "+", ".", "_", "0", "7", "r", "\u{8}", "\u{c}"]),
            2 => s += g.pick(&["\u{0}", "\u{1b}", "\u{7f}", "\u{85}", "\u{a0}", "\u{bd}", "\u{301}", "\u{200d}", "\u{feff}", "\u{2028}", "\u{200e}", "\u{1f600}", "\u{3000}", "\u{b}", "\u{e000}", "\u{10ffff}", "\u{378}"]),
            _ => s += g.pick(&["true", "null", "inf", "nan", "0x", "r#", "1.5", "e", "//", "/*", "/-", "*/", "\"\"\""]),
        }
    }
    s
}
pub struct Convert;
impl Prop for Convert {
    fn rule(&self) -> &'static str { "KDL 1 documents, nodes and entries read and compared, text included, with what the kdl 4 crate keeps of them; random KDL 1 and KDL 2 documents, whole or with some of their formatting gone, and documents built from random strings, converted to the other version, back and again; after each step the data is compared with what it was, every name and string, boolean and null is read by itself under the target version (an independent KDL 2 reader, the kdl 4 crate), and everything else's text is compared with what it was; non-trivial: every document that parses" }
    fn make(&self, seed: u64) -> String {
        let mut g = G::new(seed ^ 0x1616);
        match g.n(8) {
            0..=2 => format!("1|{}", v1_doc(&mut g)),
            3 => format!("2|{}", g.document()),
            4 if g.p(1, 2) => if g.p(1, 2) { format!("p|{}", g.document()) } else { format!("q|{}", v1_doc(&mut g)) },
            4 => format!("2|{} {}={}", g.string_literal(), g.string_literal(), g.string_literal()),
            5 if g.p(1, 2) => {
                let mut s = String::new();
                if g.p(1, 2) { s += g.pick(&[" ", "  ", "\t", "/* c */ ", "\\\n"]) }
                let n = g.p(1, 2);
                if n { s += &v1_node(&mut g, 0) } else { if g.p(1, 2) { s += &v1_ident(&mut g); s += "=" } if g.p(1, 4) { s += "(u8)" } s += &v1_value(&mut g) }
                if g.p(1, 2) { s += g.pick(&[" ", "  ", ";", "\n", " /* c */", " // c\n", " \\\n"]) }
                format!("{}|{s}", if n { "n" } else { "e" })
            }
            5 => format!("2|n ({}){} {}", g.string_literal(), g.string_literal(), g.number_literal()),
            6 => { let mut c: Vec<char> = v1_doc(&mut g).chars().collect(); g.mutate(&mut c); format!("1|{}", c.into_iter().collect::<String>()) }
            _ => format!("b|{}", any_string(&mut g)),
        }
    }
    fn fixed(&self) -> Vec<String> { ["1|n inf=1", "1|n r#\"a b\"#=1", "1|n (a#b)\"x\"", "1|n \"a\\/b\" \"l\nm\" r\"c:\\\"", "2|<a> a,b=1", "2|n \"\"\"\n  a\n  b\n  \"\"\"", "2|n #\"a\"b\"# a/b \"a/b\" #true #null", "2|n \"\\s\"=\"\\u{0}\"", "b|true", "b|", "b|a,b", "b|\u{bd}", "b|a/\"\\\n", "b|r\"x\"", "b|-1"].iter().map(|s| s.to_string()).collect() }
    fn check(&self, case: &str) -> Out {
        let Some((k, s)) = case.split_once('|') else { return Out::Trivial };
        if matches!(k, "1" | "e" | "n") && let Err(e) = reads(k, s) { return Out::Broken(format!("{case:?} read as KDL 1: {e}")) }
        if matches!(k, "e" | "n") { return Out::Held }
        let (mut d, first) = match k {
            "1" => match std::panic::catch_unwind(|| KdlDocument::parse_v1(s)) { Ok(Ok(d)) => (d, true), _ => return Out::Trivial },
            "2" => match KdlDocument::parse_v2(s) { Ok(d) => (d, false), _ => return Out::Trivial },
            // With some of the formatting gone.
            "p" | "q" => {
                let r = std::panic::catch_unwind(|| if k == "p" { KdlDocument::parse_v2(s) } else { KdlDocument::parse_v1(s) });
                let Ok(Ok(mut d)) = r else { return Out::Trivial };
                let mut h = s.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) | 1;
                some_format(&mut d, &mut h);
                (d, h >> 40 & 1 == 1)
            }
            "b" => {
                let mut n = KdlNode::new(s);
                n.set_ty(s);
                n.push(s);
                n.push((s, s));
                let mut e = KdlEntry::new(s);
                e.set_ty(s);
                n.push(e);
                for v in [KdlValue::Bool(true), KdlValue::Bool(false), KdlValue::Null, KdlValue::Integer(i128::MIN), KdlValue::Integer(7)] { n.push(v) }
                let mut c = KdlDocument::new();
                c.nodes_mut().push(KdlNode::new(s));
                n.set_children(c);
                let mut d = KdlDocument::new();
                d.nodes_mut().push(n.clone());
                d.nodes_mut().push(n);
                (d, s.len() % 2 == 0)
            }
            _ => return Out::Trivial,
        };
        let before = conv::doc(&d);
        let d0 = d.clone();
        let text = match k { "1" => Some(KdlDocument::v1_to_v2(s)), "2" => Some(KdlDocument::v2_to_v1(s)), _ => None };
        for (i, v2) in [first, !first, first].into_iter().enumerate() {
            if let Err(e) = turn(&mut d, v2) { return Out::Broken(format!("{case:?} to KDL {}: {e}", if v2 { 2 } else { 1 })) }
            if let (0, Some(t)) = (i, &text) { match t { Ok(t) if *t == d.to_string() => {}, t => return Out::Broken(format!("{case:?}: converting the text gives {t:?}, converting the document {:?}", d.to_string())) } }
        }
        // KDL 1 text without slashdash and of characters KDL 2 reads alike: the whole of the converted text reads in KDL 2 as the same data.
        if let ("1", Some(Ok(t))) = (k, &text) && !s.contains("/-") && !s.contains(|c: char| c.is_control() && !"\t\n\r".contains(c) || "\u{feff}\u{200e}\u{200f}\u{202a}\u{202b}\u{202c}\u{202d}\u{202e}\u{2066}\u{2067}\u{2068}\u{2069}".contains(c)) {
            match ref2::parse(t) { Err(ref2::Stop::Unspecified(_)) => {}, Ok(x) if x == before => {}, x => return Out::Broken(format!("{case:?} is converted to {t:?}, which KDL 2 reads as {x:?}")) }
        }
        // KDL 2 text without slashdash, line continuations between nodes, or what only KDL 2 has: as well.
        if let ("2", Some(Ok(t))) = (k, &text) && !s.contains("/-") && plain1(&d0) {
            match std::panic::catch_unwind(|| KdlDocument::parse_v1(t)) { Ok(Ok(x)) if conv::doc(&x) == before => {}, x => return Out::Broken(format!("{case:?} is converted to {t:?}, which KDL 1 reads as {:?}", x.map(|x| x.map(|x| conv::doc(&x))).map_err(|_| "panic"))) }
        }
        Out::Held
    }
}
fn some_format(d: &mut KdlDocument, h: &mut u64) {
    let mut coin = || { *h ^= *h << 13; *h ^= *h >> 7; *h ^= *h << 17; *h >> 20 & 1 == 1 };
    if coin() { d.clear_format() }
    for n in d.nodes_mut() {
        let mut coin = || { *h ^= *h << 13; *h ^= *h >> 7; *h ^= *h << 17; *h >> 20 & 1 == 1 };
        if coin() { n.clear_format() }
        if coin() { n.name_mut().clear_format() }
        if coin() && let Some(t) = n.ty_mut() { t.clear_format() }
        for e in n.entries_mut() {
            let number = matches!(e.value(), KdlValue::Float(_));
            if coin() && !number { e.clear_format() }
            if coin() && let Some(t) = e.name_mut() { t.clear_format() }
        }
        if let Some(c) = n.children_mut() { some_format(c, h) }
    }
}
/// Nothing in the text of this document is beyond KDL 1 and the kdl 4 crate.
fn plain1(d: &KdlDocument) -> bool {
    let ok = |s: &str| !s.contains(['\\', '\u{b}']);
    d.format().is_none_or(|f| ok(&f.leading) && ok(&f.trailing)) && d.nodes().iter().all(|n| {
        n.format().is_none_or(|f| ok(&f.leading) && ok(&f.trailing) && !f.before_children.contains('\u{b}') && !f.before_terminator.contains('\u{b}') && !f.terminator.contains('\u{b}')) && n.children().is_none_or(plain1)
            && n.entries().iter().all(|e| e.format().is_none_or(|f| !f.leading.contains('\u{b}') && !f.trailing.contains('\u{b}')) && match e.value() {
                KdlValue::Integer(i) => i64::try_from(*i).is_ok() && e.format().is_none_or(|f| f.value_repr.len() < 25),
                KdlValue::Float(f) => f.is_finite() && e.format().is_none_or(|f| f.value_repr.len() < 18 && !f.value_repr.starts_with('#')),
                _ => true,
            })
    })
}
