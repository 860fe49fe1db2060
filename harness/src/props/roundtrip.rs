//! C14: typed data through `kdl::se::to_string` and `kdl::de::from_str`.
//!
//! Types are made at run time (`Ty`), values of them (`V`) are serialized and read back the way
//! serde's derive and its implementations for `Vec`, `Option`, `HashMap`, tuples and newtypes do;
//! a few derived types are round tripped beside them.
use kdlcheck::driver::{Out, Prop};
use kdlcheck::textgen::G;
use serde::de::{self, DeserializeSeed, Deserialize, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct};
use serde::{Serialize, Serializer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Ty { Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Str, Char, Opt(Box<Ty>), Seq(Box<Ty>), Tuple(Vec<Ty>), TupleStruct(Vec<Ty>), Newtype(Box<Ty>), Map(Box<Ty>), Rec(Vec<(&'static str, Ty)>) }
#[derive(Clone, Debug)]
enum V { B(bool), I(i128), F32(f32), F64(f64), S(String), C(char), O(Option<Box<V>>), L(Vec<V>), M(BTreeMap<String, V>) }
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::B(a), V::B(b)) => a == b, (V::I(a), V::I(b)) => a == b, (V::S(a), V::S(b)) => a == b, (V::C(a), V::C(b)) => a == b,
            (V::F32(a), V::F32(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (V::F64(a), V::F64(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (V::O(a), V::O(b)) => a == b, (V::L(a), V::L(b)) => a == b, (V::M(a), V::M(b)) => a == b,
            _ => false,
        }
    }
}
struct W<'a>(&'a Ty, &'a V);
impl Serialize for W<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, V::B(b)) => s.serialize_bool(*b),
            (Ty::I8, V::I(i)) => s.serialize_i8(*i as i8), (Ty::I16, V::I(i)) => s.serialize_i16(*i as i16), (Ty::I32, V::I(i)) => s.serialize_i32(*i as i32), (Ty::I64, V::I(i)) => s.serialize_i64(*i as i64),
            (Ty::U8, V::I(i)) => s.serialize_u8(*i as u8), (Ty::U16, V::I(i)) => s.serialize_u16(*i as u16), (Ty::U32, V::I(i)) => s.serialize_u32(*i as u32), (Ty::U64, V::I(i)) => s.serialize_u64(*i as u64),
            (Ty::F32, V::F32(f)) => s.serialize_f32(*f), (Ty::F64, V::F64(f)) => s.serialize_f64(*f),
            (Ty::Str, V::S(x)) => s.serialize_str(x), (Ty::Char, V::C(c)) => s.serialize_char(*c),
            (Ty::Opt(_), V::O(None)) => s.serialize_none(),
            (Ty::Opt(t), V::O(Some(v))) => s.serialize_some(&W(t, v)),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("N", &W(t, v)),
            (Ty::Seq(t), V::L(l)) => { let mut q = s.serialize_seq(Some(l.len()))?; for x in l { q.serialize_element(&W(t, x))? } q.end() }
            (Ty::Tuple(t), V::L(l)) => { let mut q = s.serialize_tuple(l.len())?; for (t, x) in t.iter().zip(l) { q.serialize_element(&W(t, x))? } q.end() }
            (Ty::TupleStruct(t), V::L(l)) => { let mut q = s.serialize_tuple_struct("T", l.len())?; for (t, x) in t.iter().zip(l) { q.serialize_field(&W(t, x))? } q.end() }
            (Ty::Map(t), V::M(m)) => { let mut q = s.serialize_map(Some(m.len()))?; for (k, x) in m { q.serialize_entry(k, &W(t, x))? } q.end() }
            (Ty::Rec(t), V::L(l)) => { let mut q = s.serialize_struct("R", l.len())?; for ((k, t), x) in t.iter().zip(l) { q.serialize_field(k, &W(t, x))? } q.end() }
            (t, v) => unreachable!("{v:?} is no {t:?}"),
        }
    }
}
struct D<'a>(&'a Ty);
impl<'de> DeserializeSeed<'de> for D<'_> {
    type Value = V;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<V, X::Error> {
        Ok(match self.0 {
            Ty::Bool => V::B(bool::deserialize(d)?),
            Ty::I8 => V::I(i8::deserialize(d)? as i128), Ty::I16 => V::I(i16::deserialize(d)? as i128), Ty::I32 => V::I(i32::deserialize(d)? as i128), Ty::I64 => V::I(i64::deserialize(d)? as i128),
            Ty::U8 => V::I(u8::deserialize(d)? as i128), Ty::U16 => V::I(u16::deserialize(d)? as i128), Ty::U32 => V::I(u32::deserialize(d)? as i128), Ty::U64 => V::I(u64::deserialize(d)? as i128),
            Ty::F32 => V::F32(f32::deserialize(d)?), Ty::F64 => V::F64(f64::deserialize(d)?),
            Ty::Str => V::S(String::deserialize(d)?), Ty::Char => V::C(char::deserialize(d)?),
            Ty::Opt(_) => d.deserialize_option(DV(self.0))?,
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", DV(self.0))?,
            Ty::Seq(_) => d.deserialize_seq(DV(self.0))?,
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), DV(self.0))?,
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("T", t.len(), DV(self.0))?,
            Ty::Map(_) => d.deserialize_map(DV(self.0))?,
            Ty::Rec(t) => d.deserialize_struct("R", names(t), DV(self.0))?,
        })
    }
}
thread_local! { static NAMES: RefCell<BTreeMap<Vec<&'static str>, &'static [&'static str]>> = const { RefCell::new(BTreeMap::new()) }; }
fn names(t: &[(&'static str, Ty)]) -> &'static [&'static str] {
    let v: Vec<&'static str> = t.iter().map(|x| x.0).collect();
    NAMES.with(|n| *n.borrow_mut().entry(v.clone()).or_insert_with(|| Box::leak(v.into_boxed_slice())))
}
struct DV<'a>(&'a Ty);
impl<'de> Visitor<'de> for DV<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) }
    fn visit_none<E>(self) -> Result<V, E> { Ok(V::O(None)) }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> { if matches!(self.0, Ty::Opt(_)) { Ok(V::O(None)) } else { Err(E::invalid_type(de::Unexpected::Unit, &self)) } }
    fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<V, X::Error> { let Ty::Opt(t) = self.0 else { return Err(de::Error::invalid_type(de::Unexpected::Option, &self)) }; Ok(V::O(Some(Box::new(D(t).deserialize(d)?)))) }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<V, X::Error> { let Ty::Newtype(t) = self.0 else { return Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)) }; D(t).deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut l = vec![];
        match self.0 {
            Ty::Seq(t) => while let Some(x) = a.next_element_seed(D(t))? { l.push(x) },
            Ty::Newtype(t) => l.push(a.next_element_seed(D(t))?.ok_or_else(|| de::Error::invalid_length(0, &"one"))?),
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => for (i, t) in ts.iter().enumerate() { l.push(a.next_element_seed(D(t))?.ok_or_else(|| de::Error::invalid_length(i, &"more"))?) },
            Ty::Rec(ts) => for (i, (_, t)) in ts.iter().enumerate() { l.push(a.next_element_seed(D(t))?.ok_or_else(|| de::Error::invalid_length(i, &"more"))?) },
            _ => return Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
        Ok(V::L(l))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Ty::Map(t) => { let mut m = BTreeMap::new(); while let Some(k) = a.next_key::<String>()? { m.insert(k, a.next_value_seed(D(t))?); } Ok(V::M(m)) }
            Ty::Rec(ts) => {
                let mut got: Vec<Option<V>> = ts.iter().map(|_| None).collect();
                while let Some(k) = a.next_key_seed(Key)? {
                    match ts.iter().position(|t| t.0 == k) {
                        Some(i) => { if got[i].is_some() { return Err(de::Error::duplicate_field(ts[i].0)) } got[i] = Some(a.next_value_seed(D(&ts[i].1))?) }
                        None => { a.next_value::<IgnoredAny>()?; }
                    }
                }
                let mut l = vec![];
                for (g, (k, t)) in got.into_iter().zip(ts) { l.push(match (g, t) { (Some(v), _) => v, (None, Ty::Opt(_)) => V::O(None), _ => return Err(de::Error::missing_field(k)) }) }
                Ok(V::L(l))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
}
/// A field name, asked for the way derive does.
struct Key;
impl<'de> DeserializeSeed<'de> for Key { type Value = String; fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<String, X::Error> { d.deserialize_identifier(self) } }
impl<'de> Visitor<'de> for Key { type Value = String; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "field identifier") } fn visit_str<E>(self, v: &str) -> Result<String, E> { Ok(v.into()) } }
thread_local! { static TOP: RefCell<Rc<Ty>> = RefCell::new(Rc::new(Ty::Bool)); }
struct Top(V);
impl<'de> Deserialize<'de> for Top { fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Top, X::Error> { let t = TOP.with(|t| t.borrow().clone()); D(&t).deserialize(d).map(Top) } }

// ---- types and values
const PLAIN: [&str; 12] = ["a", "b", "name", "x y", "\u{e9}", "", "true", "1", "-", "no-thing", "z_z", "\n"];
fn scalar(g: &mut G, depth: usize) -> Ty {
    let t = match g.n(15) { 0..3 => Ty::Bool, 3 => Ty::I8, 4 => Ty::I16, 5 => Ty::I32, 6 => Ty::I64, 7 => Ty::U8, 8 => Ty::U16, 9 => Ty::U32, 10 => Ty::U64, 11 => Ty::F32, 12 => Ty::F64, 13 => Ty::Str, _ => Ty::Char };
    if depth > 0 && g.p(1, 8) { Ty::Newtype(Box::new(t)) } else { t }
}
fn opt_scalar(g: &mut G) -> Ty { let t = scalar(g, 1); if g.p(1, 3) { Ty::Opt(Box::new(t)) } else { t } }
fn list(g: &mut G) -> Ty {
    match g.n(4) {
        0 => { let n = 1 + g.n(4); Ty::Tuple((0..n).map(|_| scalar(g, 1)).collect()) }
        1 => { let n = 2 + g.n(3); Ty::TupleStruct((0..n).map(|_| scalar(g, 1)).collect()) }
        _ => Ty::Seq(Box::new(scalar(g, 1))),
    }
}
fn record(g: &mut G, depth: usize, top: bool) -> Ty {
    let mut f: Vec<(&'static str, Ty)> = vec![];
    let views = !top && g.p(1, 2);
    // A plain field is not named like a property of the same record.
    let mut plain: Vec<&'static str> = if views { PLAIN.iter().copied().filter(|x| !x.is_empty()).collect() } else { PLAIN.to_vec() };
    let mut next = 0;
    let mut props = vec!["#@p", "#@q", "#@a b", "#@"];
    let all = views && g.p(1, 5);
    let mut taken = false;
    for _ in 0..g.n(6) {
        if views && g.p(1, 2) {
            if g.p(1, 2) && !props.is_empty() { let i = g.n(props.len()); f.push((props.remove(i), opt_scalar(g))) }
            else if all { if !taken { taken = true; f.push(("#args", Ty::Seq(Box::new(scalar(g, 1))))) } }
            else if !taken && g.p(1, 3) { taken = true; f.push(("#rest", Ty::Seq(Box::new(scalar(g, 1))))) }
            else if !taken && next < 3 { f.push((["#0", "#1", "#2"][next], opt_scalar(g))); next += 1 }
        } else { let i = g.n(plain.len()); f.push((plain.remove(i), value(g, depth))) }
    }
    Ty::Rec(f)
}
fn value(g: &mut G, depth: usize) -> Ty {
    match g.n(if depth > 2 { 5 } else { 9 }) { 0..3 => opt_scalar(g), 3 | 4 => list(g), 5 => Ty::Map(Box::new(map_value(g, depth + 1))), 6 if g.p(1, 3) => Ty::Newtype(Box::new(record(g, depth + 1, false))), _ => record(g, depth + 1, false) }
}
fn map_value(g: &mut G, depth: usize) -> Ty { match value(g, depth) { Ty::Opt(t) => *t, t => t } }
fn string(g: &mut G) -> String {
    match g.n(6) {
        0 => String::new(),
        1 => g.pick(&["true", "#true", "null", "inf", "-1", "0x1", "a b", "\"", "\\", "\n", "\r\n", "\u{2028}", "\u{1f600}", "#\"", "\"\"\"", "  ", "\t", "\u{7}", "-", "--", ".", "+1", "é", "\u{feff}", "\u{85}", "=", "a;b", "/*", "//", "(ty)"]).into(),
        2 => (0..g.n(12)).map(|_| ch(g)).collect(),
        _ => (0..g.n(5)).map(|_| (b'a' + g.n(4) as u8) as char).collect(),
    }
}
fn ch(g: &mut G) -> char { match g.n(5) { 0 => char::from_u32(g.next() as u32 % 0x110000).unwrap_or('\u{fffd}'), 1 => g.pick(&["\"", "\\", "\n", "\r", "#", "/", "{", ";", "\u{2028}", "\u{0}", "\u{200e}", " "]).chars().next().unwrap(), _ => (g.n(0x80) as u8) as char } }
fn val(g: &mut G, t: &Ty) -> V {
    fn int(g: &mut G, lo: i128, hi: i128) -> V { V::I(match g.n(6) { 0 => lo, 1 => hi, 2 => 0, 3 => (g.n(200) as i128 - 100).clamp(lo, hi), _ => { let r = ((g.next() as u128) << 64 | g.next() as u128) % ((hi - lo) as u128 + 1); lo + r as i128 } }) }
    match t {
        Ty::Bool => V::B(g.p(1, 2)),
        Ty::I8 => int(g, i8::MIN as i128, i8::MAX as i128), Ty::I16 => int(g, i16::MIN as i128, i16::MAX as i128), Ty::I32 => int(g, i32::MIN as i128, i32::MAX as i128), Ty::I64 => int(g, i64::MIN as i128, i64::MAX as i128),
        Ty::U8 => int(g, 0, u8::MAX as i128), Ty::U16 => int(g, 0, u16::MAX as i128), Ty::U32 => int(g, 0, u32::MAX as i128), Ty::U64 => int(g, 0, u64::MAX as i128),
        Ty::F32 => V::F32(match g.n(4) { 0 => f32::from_bits(g.next() as u32), 1 => g.n(1000) as f32, 2 => [0.0, -0.0, f32::MAX, f32::INFINITY, f32::NAN, f32::MIN_POSITIVE][g.n(6)], _ => g.n(1000) as f32 / 7.0 }),
        Ty::F64 => V::F64(match g.n(4) { 0 => f64::from_bits(g.next()), 1 => g.n(1000) as f64, 2 => [0.0, -0.0, f64::MAX, f64::NEG_INFINITY, f64::NAN, 5e-324][g.n(6)], _ => g.n(1000) as f64 / 7.0 }),
        Ty::Str => V::S(string(g)), Ty::Char => V::C(ch(g)),
        Ty::Opt(t) => V::O(if g.p(1, 2) { Some(Box::new(val(g, t))) } else { None }),
        Ty::Newtype(t) => val(g, t),
        Ty::Seq(t) => { let n = g.n(4); V::L((0..n).map(|_| val(g, t)).collect()) }
        Ty::Tuple(t) | Ty::TupleStruct(t) => V::L(t.iter().map(|t| val(g, t)).collect()),
        Ty::Map(t) => { let n = g.n(4); V::M((0..n).map(|_| (if g.p(1, 2) { g.pick(&["a", "b", "c", "x y", "#0", "#@p", "#args", "", "-"]).to_string() } else { string(g) }, val(g, t))).collect()) }
        Ty::Rec(t) => V::L(t.iter().map(|t| val(g, &t.1)).collect()),
    }
}
fn top(g: &mut G) -> Ty { match g.n(8) { 0 => list(g), 1 => Ty::Map(Box::new(map_value(g, 0))), 2 if g.p(1, 2) => Ty::Newtype(Box::new(record(g, 0, true))), _ => record(g, 0, true) } }
const KNOWN: &str = "flag=false";
fn is_bool(t: &Ty) -> bool { match t { Ty::Bool => true, Ty::Newtype(t) => is_bool(t), _ => false } }
fn flags(t: &Ty, v: &mut V) { match (t, v) { (Ty::Newtype(t), v) => flags(t, v), (Ty::Rec(ts), V::L(l)) => for (t, x) in ts.iter().zip(l) { if is_bool(&t.1) { *x = V::B(true) } }, _ => {} } }
pub struct Typed;
impl Prop for Typed {
    fn rule(&self) -> &'static str { "types made at run time (records to depth 4 with plain, positional, property, all and remaining fields, maps with string keys, sequences, tuples, tuple structs, newtypes, optional scalars, all scalar types) with values of them, serialized, read back the way serde's derive and std implementations read, and compared; non-trivial: every case" }
    fn make(&self, seed: u64) -> String { format!("{seed}") }
    fn shrinkable(&self) -> bool { false }
    fn fixed(&self) -> Vec<String> { vec![KNOWN.into()] }
    fn check(&self, case: &str) -> Out {
        let (t, seed) = if case == KNOWN { (Ty::Rec(vec![("flag", Ty::Bool)]), None) } else { match case.parse::<u64>() { Ok(s) => (Ty::Bool, Some(s)), _ => return Out::Trivial } };
        let mut g = G::new(seed.unwrap_or(0) ^ 0x1414);
        let t = Rc::new(if seed.is_some() { top(&mut g) } else { t });
        let mut v = if seed.is_some() { val(&mut g, &t) } else { V::L(vec![V::B(false)]) };
        // A false field of the record that is the whole document is left out and not restored: a known finding.
        if case != KNOWN { flags(&t, &mut v) }
        let text = match kdl::se::to_string(&W(&t, &v)) { Ok(s) => s, Err(e) => return Out::Broken(format!("{v:?} of {t:?} is not written: {e}")) };
        TOP.with(|x| *x.borrow_mut() = t.clone());
        match kdl::de::from_str::<Top>(&text) {
            Ok(Top(w)) if w == v => Out::Held,
            Ok(Top(w)) => Out::Broken(format!("{v:?} of {t:?} is written as {text:?} and read as {w:?}")),
            Err(e) => Out::Broken(format!("{v:?} of {t:?} is written as {text:?}, which is refused: {e}")),
        }
    }
}
