//! Serde properties.
use kdl::*;
use kdlcheck::driver::{Out, Prop};
use kdlcheck::textgen::G;
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::Serialize;
use std::cell::RefCell;
use std::fmt;

// ---- C13
pub struct Numbers;
#[derive(serde::Deserialize, serde::Serialize)]
struct Child<T> { n: T }
#[derive(serde::Deserialize)]
struct Node<T> { n: T }
#[derive(serde::Deserialize, serde::Serialize)]
struct Arg<T> { #[serde(rename = "#0")] v: T }
#[derive(serde::Deserialize, serde::Serialize)]
struct Prop_<T> { #[serde(rename = "#@p")] v: T }
#[derive(serde::Deserialize, serde::Serialize)]
struct All<T> { #[serde(rename = "#args")] v: Vec<T> }
#[derive(serde::Deserialize, serde::Serialize)]
struct Rest<T> { #[serde(rename = "#0")] a: T, #[serde(rename = "#rest")] v: Vec<T> }
#[derive(serde::Deserialize, serde::Serialize)]
struct New<T>(T);
#[derive(serde::Deserialize, serde::Serialize)]
enum Kind<T> { One(T), Two(T, T), Rec { n: T }, Arg { #[serde(rename = "#0")] v: T }, Prop { #[serde(rename = "#@p")] v: T }, All { #[serde(rename = "#args")] v: Vec<T> }, Rest { #[serde(rename = "#0")] a: T, #[serde(rename = "#rest")] v: Vec<T> } }
impl<T> Kind<T> { fn last(self) -> Option<T> { match self { Kind::One(n) | Kind::Two(_, n) | Kind::Rec { n } | Kind::Arg { v: n } | Kind::Prop { v: n } => Some(n), Kind::All { v } | Kind::Rest { v, .. } => v.into_iter().last() } } }
fn read_all<T: de::DeserializeOwned>(lit: &str) -> Vec<(&'static str, Option<T>)> {
    let mut v = vec![];
    v.push(("node", kdl::de::from_str::<Node<T>>(&format!("n {lit}")).ok().map(|x| x.n)));
    v.push(("argument", kdl::de::from_str::<Node<Arg<T>>>(&format!("n {lit} q=1")).ok().map(|x| x.n.v)));
    v.push(("property", kdl::de::from_str::<Node<Prop_<T>>>(&format!("n 1 p={lit}")).ok().map(|x| x.n.v)));
    v.push(("plain property", kdl::de::from_str::<Node<Child<T>>>(&format!("n n={lit}")).ok().map(|x| x.n.n)));
    v.push(("arguments", kdl::de::from_str::<Node<All<T>>>(&format!("n {lit} {lit}")).ok().and_then(|x| { let mut i = x.n.v.into_iter(); i.next(); i.next() })));
    v.push(("sequence", kdl::de::from_str::<Node<Vec<T>>>(&format!("n {lit} {lit}")).ok().and_then(|x| x.n.into_iter().nth(1))));
    v.push(("tuple", kdl::de::from_str::<Node<(T, T)>>(&format!("n {lit} {lit}")).ok().map(|x| x.n.1)));
    v.push(("child", kdl::de::from_str::<Node<Child<T>>>(&format!("n {{ n {lit}; }}")).ok().map(|x| x.n.n)));
    v.push(("option", kdl::de::from_str::<Node<Option<T>>>(&format!("n {lit}")).ok().and_then(|x| x.n)));
    v.push(("rest", kdl::de::from_str::<Node<Rest<T>>>(&format!("n 1 {lit}")).ok().and_then(|x| x.n.v.into_iter().next())));
    v.push(("newtype", kdl::de::from_str::<Node<New<T>>>(&format!("n {lit}")).ok().map(|x| x.n.0)));
    v.push(("map", kdl::de::from_str::<Node<std::collections::BTreeMap<String, T>>>(&format!("n {{ k {lit}; }}")).ok().and_then(|mut x| x.n.remove("k"))));
    for (k, s) in [("newtype variant", format!("One {lit}")), ("tuple variant", format!("Two 1 {lit}")), ("variant field", format!("Rec {{ n {lit}; }}")), ("variant argument", format!("Arg {lit}")), ("variant property", format!("Prop p={lit}")), ("variant arguments", format!("All 1 {lit}")), ("variant rest", format!("Rest 1 {lit}"))] {
        v.push((k, kdl::de::from_str::<Kind<T>>(&s).ok().and_then(|x| x.last())));
        v.push((k, kdl::de::from_str::<Node<Kind<T>>>(&format!("n {{ {s}; }}")).ok().and_then(|x| x.n.last())));
    }
    v.push(("repeated", kdl::de::from_str::<Node<Vec<T>>>(&format!("n 1\nn {lit}")).ok().and_then(|x| x.n.into_iter().nth(1))));
    v
}
fn written<T: Serialize>(v: T) -> Vec<(&'static str, Option<KdlValue>)> {
    let first = |s: Result<String, kdl::se::Error>, f: &dyn Fn(&KdlDocument) -> Option<KdlValue>| s.ok().and_then(|s| KdlDocument::parse_v2(&s).ok()).and_then(|d| f(&d));
    let v = &v;
    vec![
        ("field", first(kdl::se::to_string(&Child { n: v }), &|d| d.get_arg("n").cloned())),
        ("document", first(kdl::se::to_string(v), &|d| d.get_arg("-").cloned())),
        ("element", first(kdl::se::to_string(&Child { n: vec![v, v] }), &|d| d.get("n")?.get(1).cloned())),
        ("argument", first(kdl::se::to_string(&Child { n: Arg { v } }), &|d| d.get("n")?.get(0).cloned())),
        ("arguments", first(kdl::se::to_string(&Child { n: All { v: vec![v, v] } }), &|d| d.get("n")?.get(1).cloned())),
        ("property", first(kdl::se::to_string(&Child { n: Prop_ { v } }), &|d| d.get("n")?.get("p").cloned())),
        ("child", first(kdl::se::to_string(&Child { n: Child { n: v } }), &|d| d.get("n")?.children()?.get_arg("n").cloned())),
        ("rest", first(kdl::se::to_string(&Child { n: Rest { a: v, v: vec![v] } }), &|d| d.get("n")?.get(1).cloned())),
        ("newtype", first(kdl::se::to_string(&Child { n: New(v) }), &|d| d.get_arg("n").cloned())),
        ("option", first(kdl::se::to_string(&Child { n: Some(v) }), &|d| d.get_arg("n").cloned())),
        ("tuple", first(kdl::se::to_string(&Child { n: (1, v) }), &|d| d.get("n")?.get(1).cloned())),
        ("map", first(kdl::se::to_string(&Child { n: std::collections::BTreeMap::from([("k", v)]) }), &|d| d.get("n")?.children()?.get_arg("k").cloned())),
        ("top sequence", first(kdl::se::to_string(&vec![v, v]), &|d| d.nodes().get(1)?.get(0).cloned())),
        ("newtype variant", first(kdl::se::to_string(&Kind::One(v)), &|d| d.get_arg("One").cloned())),
        ("tuple variant", first(kdl::se::to_string(&Kind::Two(v, v)), &|d| d.nodes().get(1)?.get(0).cloned())),
        ("variant field", first(kdl::se::to_string(&Kind::Rec { n: v }), &|d| d.get("Rec")?.children()?.get_arg("n").cloned())),
        ("variant argument", first(kdl::se::to_string(&Kind::Arg { v }), &|d| d.get_arg("Arg").cloned())),
        ("variant property", first(kdl::se::to_string(&Kind::Prop { v }), &|d| d.get("Prop")?.get("p").cloned())),
        ("variant arguments", first(kdl::se::to_string(&Kind::All { v: vec![v, v] }), &|d| d.get("All")?.get(1).cloned())),
        ("variant rest", first(kdl::se::to_string(&Kind::Rest { a: v, v: vec![v] }), &|d| d.get("Rest")?.get(1).cloned())),
        ("nested newtype variant", first(kdl::se::to_string(&Child { n: Kind::One(v) }), &|d| d.get("n")?.children()?.get_arg("One").cloned())),
        ("nested tuple variant", first(kdl::se::to_string(&Child { n: Kind::Two(v, v) }), &|d| d.get("n")?.children()?.get("Two")?.get(1).cloned())),
        ("nested variant field", first(kdl::se::to_string(&Child { n: Kind::Rec { n: v } }), &|d| d.get("n")?.children()?.get("Rec")?.children()?.get_arg("n").cloned())),
        ("nested variant argument", first(kdl::se::to_string(&Child { n: Kind::Arg { v } }), &|d| d.get_arg("n").cloned())),
        ("nested variant property", first(kdl::se::to_string(&Child { n: Kind::Prop { v } }), &|d| d.get("n")?.get("p").cloned())),
        ("nested variant arguments", first(kdl::se::to_string(&Child { n: Kind::All { v: vec![v, v] } }), &|d| d.get("n")?.get(1).cloned())),
        ("nested variant rest", first(kdl::se::to_string(&Child { n: Kind::Rest { a: v, v: vec![v] } }), &|d| d.get("n")?.get(1).cloned())),
    ]
}
impl Prop for Numbers {
    fn rule(&self) -> &'static str { "an integer or float (boundaries of every width, random bit patterns) read as every numeric type from 27 positions (node, argument, property, sequence, tuple, child, option, remaining arguments, map, repeated node, enum variants of every kind), compared with exact conversion, and written from every numeric type at 27 positions and parsed back; non-trivial: every case" }
    fn make(&self, seed: u64) -> String {
        let mut g = G::new(seed ^ 0x1313);
        if g.p(1, 3) { let f = match g.n(4) { 0 => f64::from_bits(g.next()), 1 => f32::from_bits(g.next() as u32) as f64, 2 => g.n(1 << 20) as f64, _ => g.n(1000) as f64 / 16.0 }; return format!("f|{:x}", f.to_bits()) }
        let w = [7u32, 8, 15, 16, 31, 32, 63, 64, 127][g.n(9)];
        let i: i128 = match g.n(4) { 0 => ((g.next() as u128) << 64 | g.next() as u128) as i128 >> g.n(128), _ => { let b = if w == 127 { i128::MAX } else { 1i128 << w }; let x = b.wrapping_add(g.n(5) as i128 - 2); if g.p(1, 2) { x.wrapping_neg() } else { x } } };
        format!("i|{i}")
    }
    fn shrinkable(&self) -> bool { false }
    fn fixed(&self) -> Vec<String> { let mut v = vec![]; for w in [7u32, 8, 15, 16, 31, 32, 63, 64] { for d in [-2i128, -1, 0, 1] { v.push(format!("i|{}", (1i128 << w) + d)); v.push(format!("i|{}", -(1i128 << w) + d)); } } for i in [0, i128::MAX, i128::MIN, i128::MAX - 1] { v.push(format!("i|{i}")) } for f in [0.0f64, -0.0, 1.0, 1.5, 255.0, 256.0, 1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324] { v.push(format!("f|{:x}", f.to_bits())) } v }
    fn check(&self, case: &str) -> Out {
        if let Some(i) = case.strip_prefix("i|").and_then(|s| s.parse::<i128>().ok()) {
            let lit = i.to_string();
            macro_rules! int { ($($t:ty),*) => { $( {
                let want = <$t>::try_from(i).ok();
                for (k, got) in read_all::<$t>(&lit) { if got != want { return Out::Broken(format!("{lit} read as {} from {k}: {got:?}, expected {want:?}", stringify!($t))) } }
            } )* } }
            int!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
            for (k, got) in read_all::<f64>(&lit) { if let Some(f) = got { if f != i as f64 { return Out::Broken(format!("{lit} read as f64 from {k}: {f:?}")) } } else if i64::try_from(i).is_ok() || u64::try_from(i).is_ok() { return Out::Broken(format!("{lit} as f64 from {k} is refused")) } }
            macro_rules! wr { ($($t:ty),*) => { $( if let Ok(x) = <$t>::try_from(i) { for (k, got) in written::<$t>(x) { if got != Some(KdlValue::Integer(i)) { return Out::Broken(format!("{x}{} written as {k}: {got:?}", stringify!($t))) } } } )* } }
            wr!(i8, i16, i32, i64, u8, u16, u32, u64);
            return Out::Held;
        }
        let Some(f) = case.strip_prefix("f|").and_then(|s| u64::from_str_radix(s, 16).ok()).map(f64::from_bits) else { return Out::Trivial };
        let lit = KdlValue::Float(f).to_string();
        macro_rules! noint { ($($t:ty),*) => { $( for (k, got) in read_all::<$t>(&lit) { if got.is_some() { return Out::Broken(format!("{lit} read as {} from {k}: {got:?}", stringify!($t))) } } )* } }
        noint!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
        for (k, got) in read_all::<f64>(&lit) { if !got.is_some_and(|x| same(x, f)) { return Out::Broken(format!("{lit} read as f64 from {k}: {got:?}")) } }
        for (k, got) in read_all::<f32>(&lit) { if !got.is_some_and(|x| same(x as f64, f as f32 as f64)) { return Out::Broken(format!("{lit} read as f32 from {k}: {got:?}")) } }
        for (k, got) in written(f) { if !matches!(got, Some(KdlValue::Float(x)) if same(x, f)) { return Out::Broken(format!("{lit} written as {k}: {got:?}")) } }
        let h = f as f32;
        for (k, got) in written(h) { if !matches!(got, Some(KdlValue::Float(x)) if same(x, h as f64)) { return Out::Broken(format!("{h:?}f32 written as {k}: {got:?}")) } }
        Out::Held
    }
}

// ---- C15
#[derive(Debug, Clone, PartialEq)]
enum T { Unit, Bool(bool), Int(i128), Float(u64), Str(String), Seq(Vec<T>), Map(Vec<(String, T)>), Absent }
struct TV;
impl<'de> Visitor<'de> for TV {
    type Value = T;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "anything") }
    fn visit_bool<E>(self, v: bool) -> Result<T, E> { Ok(T::Bool(v)) }
    fn visit_i64<E>(self, v: i64) -> Result<T, E> { Ok(T::Int(v as i128)) }
    fn visit_u64<E>(self, v: u64) -> Result<T, E> { Ok(T::Int(v as i128)) }
    fn visit_i128<E>(self, v: i128) -> Result<T, E> { Ok(T::Int(v)) }
    fn visit_f64<E>(self, v: f64) -> Result<T, E> { Ok(T::Float(v.to_bits())) }
    fn visit_str<E>(self, v: &str) -> Result<T, E> { Ok(T::Str(v.into())) }
    fn visit_unit<E>(self) -> Result<T, E> { Ok(T::Unit) }
    fn visit_none<E>(self) -> Result<T, E> { Ok(T::Absent) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<T, D::Error> { d.deserialize_any(TV) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<T, A::Error> { let mut v = vec![]; while let Some(x) = a.next_element()? { v.push(x) } Ok(T::Seq(v)) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<T, A::Error> { let mut v = vec![]; while let Some(k) = a.next_key::<String>()? {
            // A type view may be asked for as an option too.
            let x = if k.ends_with("#type") && OPT.with(|o| *o.borrow()) { a.next_value::<Opt>()?.0 } else { a.next_value()? };
            v.push((k, x))
        }
        Ok(T::Map(v))
    }
}
struct Opt(T);
impl<'de> Deserialize<'de> for Opt { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Opt, D::Error> { d.deserialize_option(TV).map(Opt) } }
thread_local! { static OPT: RefCell<bool> = const { RefCell::new(false) }; }
impl<'de> Deserialize<'de> for T { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> { d.deserialize_any(TV) } }
fn t_val(v: &KdlValue) -> T { match v { KdlValue::String(s) => T::Str(s.clone()), KdlValue::Integer(i) => T::Int(*i), KdlValue::Float(f) => T::Float(f.to_bits()), KdlValue::Bool(b) => T::Bool(*b), KdlValue::Null => T::Unit } }
fn t_doc(d: &KdlDocument) -> Vec<(String, T)> {
    let mut v: Vec<(String, T)> = vec![];
    for (i, n) in d.nodes().iter().enumerate() {
        let nm = n.name().value();
        if d.nodes()[..i].iter().any(|m| m.name().value() == nm) { continue }
        let same: Vec<&KdlNode> = d.nodes().iter().filter(|m| m.name().value() == nm).collect();
        v.push((nm.into(), if same.len() == 1 { t_node(same[0]) } else { T::Seq(same.into_iter().map(t_node).collect()) }));
    }
    v
}
fn t_map(n: &KdlNode) -> Vec<(String, T)> {
    let mut v: Vec<(String, T)> = n.entries().iter().filter_map(|e| Some((e.name()?.value().to_string(), t_val(e.value())))).collect();
    if let Some(c) = n.children() { v.extend(t_doc(c)) }
    v
}
fn t_node(n: &KdlNode) -> T {
    if n.entries().is_empty() && n.children().is_none() { return T::Bool(true) }
    let props = n.entries().iter().any(|e| e.name().is_some());
    let args: Vec<T> = n.entries().iter().filter(|e| e.name().is_none()).map(|e| t_val(e.value())).collect();
    if !props && n.children().is_none() { return if args.len() == 1 { args[0].clone() } else { T::Seq(args) } }
    T::Map(t_map(n))
}
const FIELDS: [&[&str]; 14] = [
    &["#0", "#1", "#rest", "x"],
    &["#args", "#name", "#type"],
    &["#1", "#1#type", "#@x", "#@x#type", "y"],
    &["x", "y", "zed"],
    &["#rest", "#2", "#0", "#@y"],
    &["#args", "#rest", "#0#type"],
    &["#type", "#@x", "x", "#rest"],
    &["#name"],
    &["X", "xy", "x"],
    &["x_", "zed", "x-", "#@X"],
    &["#10", "#1", "#rest", "\u{e9}"],
    &["", "#@xy", "#@x", "Y"],
    &["ZED", "#11#type", "#@X#type", "#args"],
    &["\u{c9}", "z", "x ", "#0", "#0#type", "#1#type"],
];
thread_local! { static SEL: RefCell<usize> = const { RefCell::new(0) }; }
struct Rec(T);
impl<'de> Deserialize<'de> for Rec { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Rec, D::Error> { let k = SEL.with(|s| *s.borrow()); d.deserialize_struct("Rec", FIELDS[k], TV).map(Rec) } }
#[derive(serde::Deserialize)]
struct One { n: Rec }
/// The same record as a struct variant.
struct Var(T);
struct VV;
impl<'de> Visitor<'de> for VV {
    type Value = T;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a variant") }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<T, A::Error> {
        let (k, v): (String, A::Variant) = a.variant()?;
        if k != "n" { return Err(de::Error::custom("another variant")) }
        de::VariantAccess::struct_variant(v, FIELDS[SEL.with(|s| *s.borrow())], TV)
    }
}
impl<'de> Deserialize<'de> for Var { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Var, D::Error> { d.deserialize_enum("Var", &["n"], VV).map(Var) } }
fn rec_expect(n: &KdlNode, f: &str) -> Vec<T> {
    let args: Vec<&KdlEntry> = n.entries().iter().filter(|e| e.name().is_none()).collect();
    if f == "#name" { return vec![T::Str(n.name().value().into())] }
    if f == "#type" { return n.ty().iter().map(|t| T::Str(t.value().into())).collect() }
    if f == "#args" { return vec![T::Seq(args.iter().map(|e| t_val(e.value())).collect())] }
    let k = SEL.with(|s| *s.borrow());
    if f == "#rest" { return vec![T::Seq(args.iter().enumerate().filter(|(i, _)| !FIELDS[k].contains(&format!("#{i}").as_str())).map(|(_, e)| t_val(e.value())).collect())] }
    if let Some(p) = f.strip_prefix("#@") {
        let (p, ty) = match p.strip_suffix("#type") { Some(p) => (p, true), None => (p, false) };
        return n.entries().iter().filter(|e| e.name().is_some_and(|x| x.value() == p)).filter_map(|e| if ty { e.ty().map(|t| T::Str(t.value().into())) } else { Some(t_val(e.value())) }).collect();
    }
    if let Some(p) = f.strip_prefix('#') {
        let (p, ty) = match p.strip_suffix("#type") { Some(p) => (p, true), None => (p, false) };
        return args.get(p.parse::<usize>().unwrap()).into_iter().filter_map(|e| if ty { e.ty().map(|t| T::Str(t.value().into())) } else { Some(t_val(e.value())) }).collect();
    }
    let m: Vec<T> = t_map(n).into_iter().filter(|(k, _)| k == f).map(|x| x.1).collect();
    if m.is_empty() { vec![T::Bool(false)] } else { m }
}
pub struct Shapes;
impl Prop for Shapes {
    fn rule(&self) -> &'static str { "random documents over few node and property names (repetition likely; types, arguments, properties, children to depth 3) deserialised into a recording map or record type or struct variant with fourteen field lists (positional, all, remaining, property, type, name, plain) and compared with a direct reading of the parsed document; non-trivial: every case" }
    fn make(&self, seed: u64) -> String {
        fn name_(g: &mut G) -> String { if g.p(1, 2) { g.pick(&["x", "y"]).into() } else { g.pick(&["x", "X", "xy", "y", "Y", "z", "c", "x_", "x-", "zed", "ZED", "\"\"", "\"x \"", "\u{e9}", "\u{c9}"]).into() } }
        fn node(g: &mut G, d: usize, name: &str) -> String {
            let mut s = String::new();
            if g.p(1, 5) { s += "(ty)" }
            s += name;
            let many = if g.p(1, 6) { 15 } else { 5 };
            for _ in 0..g.n(many) { let v = g.pick(&["1", "#true", "#false", "#null", "a", "\"x y\"", "2.5", "#inf", "340282366920938463463374607431", "18446744073709551615", "-3"]).to_string(); let t = if g.p(1, 4) { "(u)" } else { "" }; if g.p(1, 2) { s += &format!(" {t}{v}") } else { let k = if g.p(1, 40) { "\"#0\"".to_string() } else { name_(g) }; s += &format!(" {k}={t}{v}") } }
            if d < 3 && g.p(2, 5) { s += " { "; for _ in 0..g.n(4) { let k = name_(g); s += &node(g, d + 1, &k); s += "; " } s += "}" }
            s
        }
        let mut g = G::new(seed ^ 0x1515);
        let k = g.n(FIELDS.len() + 4);
        if k >= FIELDS.len() { let mut s = String::from("map|"); for _ in 0..g.n(6) { let nm = g.pick(&["a", "b", "c", "\"a b\"", "A", "ab", "\"\"", "\"a \""]).to_string(); s += &node(&mut g, 0, &nm); s += "\n" } s }
        else { format!("{}{k}|{}", if g.p(1, 4) { "v" } else { "" }, node(&mut g, 0, "n")) }
    }
    fn check(&self, case: &str) -> Out {
        let Some((k, text)) = case.split_once('|') else { return Out::Trivial };
        let Ok(d) = KdlDocument::parse_v2(text) else { return Out::Trivial };
        if k == "map" {
            let want = T::Map(t_doc(&d));
            return match kdl::de::from_str::<T>(text) { Ok(t) if t == want => Out::Held, Ok(t) => Out::Broken(format!("{text:?} as a map gives {t:?}, expected {want:?}")), Err(e) => Out::Broken(format!("{text:?} as a map fails: {e}")) };
        }
        let (variant, k) = match k.strip_prefix('v') { Some(k) => (true, k), None => (false, k) };
        let Ok(k) = k.parse::<usize>() else { return Out::Trivial };
        if k >= FIELDS.len() || d.nodes().len() != 1 || d.nodes()[0].name().value() != "n" { return Out::Trivial }
        SEL.with(|s| *s.borrow_mut() = k);
        OPT.with(|o| *o.borrow_mut() = text.len() % 2 == 0);
        let n = &d.nodes()[0];
        // A quoted property name that looks like a view name is outside the model.
        let names: Vec<String> = t_map(n).into_iter().map(|x| x.0).collect();
        if names.iter().any(|x| x.starts_with('#')) { return Out::Trivial }
        let read = if variant { kdl::de::from_str::<Var>(text).map(|v| v.0) } else { kdl::de::from_str::<One>(text).map(|o| o.n.0) };
        let got = match read { Ok(o) => match o { T::Map(m) => m, x => return Out::Broken(format!("{text:?} as a record gives {x:?}")) }, Err(e) => return Out::Broken(format!("{text:?} as a record {:?} fails: {e}", FIELDS[k])) };
        for f in FIELDS[k] {
            let w = rec_expect(n, f);
            let g: Vec<T> = got.iter().filter(|x| x.0 == *f).map(|x| x.1.clone()).collect();
            if g != w { return Out::Broken(format!("{text:?} as a record {:?}: {f} is {g:?}, expected {w:?}", FIELDS[k])) }
        }
        for (x, v) in &got {
            if FIELDS[k].contains(&x.as_str()) { continue }
            if x.starts_with('#') || !names.contains(x) { return Out::Broken(format!("{text:?} as a record {:?}: {x} was not asked for", FIELDS[k])) }
            let all: Vec<T> = t_map(n).into_iter().filter(|y| y.0 == *x).map(|y| y.1).collect();
            if !all.contains(v) { return Out::Broken(format!("{text:?}: {x} is {v:?}")) }
        }
        Out::Held
    }
}
