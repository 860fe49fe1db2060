//! The language server, spoken to over its standard input and output, judged by the parser's own diagnostics
//! and by positions counted as the protocol counts them.
use kdlcheck::driver::{js, Out, Prop};
use kdlcheck::textgen::G;
use miette::Diagnostic as _;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

/// A server process and what it says, read by a thread of its own so that silence can be noticed.
struct Server { p: Child, i: ChildStdin, o: mpsc::Receiver<Value>, id: u64, ranged: bool }
impl Drop for Server { fn drop(&mut self) { let _ = self.p.kill(); let _ = self.p.wait(); } }
impl Server {
    fn start() -> Server {
        let exe = std::env::var("KDL_LSP").unwrap_or_else(|_| std::env::current_exe().unwrap().parent().unwrap().join("../lsp/debug/kdl-lsp").to_string_lossy().into_owned());
        let mut p = Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env("RUST_LOG", "off").spawn().expect("kdl-lsp");
        let (i, o) = (p.stdin.take().unwrap(), p.stdout.take().unwrap());
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut o = BufReader::new(o);
            loop {
                let mut len = 0;
                loop {
                    let mut l = String::new();
                    if o.read_line(&mut l).unwrap_or(0) == 0 { return }
                    if l.trim().is_empty() { break }
                    if let Some(n) = l.to_ascii_lowercase().strip_prefix("content-length:") { len = n.trim().parse().unwrap() }
                }
                let mut b = vec![0; len];
                if o.read_exact(&mut b).is_err() { return }
                if let Ok(v) = serde_json::from_slice(&b) { if tx.send(v).is_err() { return } }
            }
        });
        let mut s = Server { p, i, o: rx, id: 0, ranged: false };
        let c = s.ask("initialize", json!({"processId": null, "rootUri": null, "capabilities": {}})).expect("initialize")["capabilities"].clone();
        // An editor sends what the server asks for: without these it would send nothing, or ranges.
        let sync = &c["textDocumentSync"];
        let change = if sync.is_object() { &sync["change"] } else { sync };
        assert!(change == 1 || change == 2, "the server asks for no changes: {c}");
        assert!(!sync.is_object() || sync["openClose"] == true, "the server asks for no open and close: {c}");
        assert!(!c["diagnosticProvider"].is_null(), "the server offers no diagnostics: {c}");
        s.ranged = change == 2;
        s.tell("initialized", json!({})).expect("initialized");
        s
    }
    fn send(&mut self, v: Value) -> Result<(), String> {
        let b = v.to_string();
        write!(self.i, "Content-Length: {}\r\n\r\n{b}", b.len()).and_then(|_| self.i.flush()).map_err(|e| format!("the server is gone: {e}"))
    }
    fn tell(&mut self, m: &str, p: Value) -> Result<(), String> { self.send(json!({"jsonrpc": "2.0", "method": m, "params": p})) }
    fn ask(&mut self, m: &str, p: Value) -> Result<Value, String> {
        self.id += 1;
        let id = self.id;
        self.send(json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}))?;
        loop {
            match self.o.recv_timeout(Duration::from_secs(20)) {
                Ok(v) if v["id"] == json!(id) => return if v["error"].is_null() { Ok(v["result"].clone()) } else { Err(format!("error answer: {}", v["error"])) },
                Ok(_) => {}
                Err(mpsc::RecvTimeoutError::Timeout) => return Err("no answer within 20 s".into()),
                Err(_) => return Err("the server ended".into()),
            }
        }
    }
}
thread_local! { static S: RefCell<(Option<Server>, u64)> = const { RefCell::new((None, 0)) }; }

#[derive(Clone, Debug)]
enum Op { Open(String, String), Change(String, Vec<String>), Save(String, Option<String>), Close(String), Ask(String) }
fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| match o {
        Op::Open(u, t) => format!("open {u} {}\n", js(t)),
        Op::Change(u, t) => format!("change {u} [{}]\n", t.iter().map(|t| js(t)).collect::<Vec<_>>().join(",")),
        Op::Save(u, t) => format!("save {u} {}\n", t.as_ref().map_or("null".into(), |t| js(t))),
        Op::Close(u) => format!("close {u}\n"),
        Op::Ask(u) => format!("ask {u}\n"),
    }).collect()
}
fn read(s: &str) -> Option<Vec<Op>> {
    let name = |u: &str| (!u.is_empty() && u.chars().all(|c| c.is_ascii_alphanumeric())).then(|| u.to_string());
    s.split('\n').filter(|l| !l.is_empty()).map(|l| {
        let mut it = l.splitn(3, ' ');
        let (k, u, rest) = (it.next()?, name(it.next()?)?, it.next().unwrap_or("null"));
        let v: Value = serde_json::from_str(rest).ok()?;
        Some(match k {
            "open" => Op::Open(u, v.as_str()?.into()),
            "change" => Op::Change(u, v.as_array()?.iter().map(|x| x.as_str().map(String::from)).collect::<Option<_>>()?),
            "save" => Op::Save(u, v.as_str().map(String::from)),
            "close" => Op::Close(u),
            "ask" => Op::Ask(u),
            _ => return None,
        })
    }).collect()
}
/// Line and UTF-16 column of a byte offset, lines ending at LF, CRLF and CR. Inside a character: that character.
/// A column past the end of the line (between the two characters of a CRLF) is the end of the line.
fn position(t: &str, mut off: usize) -> (u64, u64) {
    off = off.min(t.len());
    while !t.is_char_boundary(off) { off -= 1 }
    let b = t.as_bytes();
    let (mut line, mut start) = (0, 0);
    loop {
        // the line [start, e) and where the next one starts
        let mut e = start;
        while e < b.len() && b[e] != b'\n' && b[e] != b'\r' { e += 1 }
        let next = if e == b.len() { None } else if b[e] == b'\r' && b.get(e + 1) == Some(&b'\n') { Some(e + 2) } else { Some(e + 1) };
        match next {
            Some(n) if off >= n => { line += 1; start = n; }
            _ => return (line, t[start..off.min(e)].encode_utf16().count() as u64),
        }
    }
}
/// The reported position, its column brought to the end of the line if past it.
fn clip(t: &str, p: &Value) -> Option<(u64, u64)> {
    let (l, c) = (p["line"].as_u64()?, p["character"].as_u64()?);
    let (mut line, mut start) = (0, 0);
    let b = t.as_bytes();
    loop {
        let mut e = start;
        while e < b.len() && b[e] != b'\n' && b[e] != b'\r' { e += 1 }
        if line == l { return Some((l, c.min(t[start..e].encode_utf16().count() as u64))) }
        if e == b.len() { return None }
        start = if b[e] == b'\r' && b.get(e + 1) == Some(&b'\n') { e + 2 } else { e + 1 };
        line += 1;
    }
}
/// What must be reported for a text; nothing if the parser does not come to an end on it (C17's finding).
fn expected(t: &str) -> Option<Vec<(u64, u64, u64, u64, u64, String)>> {
    let r = std::panic::catch_unwind(|| t.parse::<kdl::KdlDocument>()).ok()?;
    Some(match r {
        Ok(_) => vec![],
        Err(e) => e.diagnostics.iter().map(|d| {
            let (a, b) = (position(t, d.span.offset()), position(t, d.span.offset() + d.span.len()));
            (a.0, a.1, b.0, b.1, match d.severity() { Some(miette::Severity::Advice) => 4, Some(miette::Severity::Warning) => 2, Some(miette::Severity::Error) => 1, None => 0 }, d.to_string())
        }).collect(),
    })
}
fn play(sv: &mut Server, n: u64, ops: &[Op]) -> Result<Out, String> {
    let mut texts: HashMap<&str, String> = HashMap::new();
    let mut seen = false;
    // names that differ little: one a prefix of another, in case, scheme, query, fragment and an escape
    let uri = |u: &str| match u { "b" => format!("file:///kdlcheck/{n}/a.kdlx"), "c" => format!("untitled:/kdlcheck/{n}/a.kdl"), "d" => format!("file:///kdlcheck/{n}/A.kdl"), "e" => format!("file:///kdlcheck/{n}/a.kdl?b"), "f" => format!("file:///kdlcheck/{n}/a.kdl#b"), "g" => format!("file:///kdlcheck/{n}/%61.kdl"), _ => format!("file:///kdlcheck/{n}/{u}.kdl") };
    for (k, o) in ops.iter().enumerate() {
        match o {
            Op::Open(u, t) => { texts.insert(u, t.clone()); sv.tell("textDocument/didOpen", json!({"textDocument": {"uri": uri(u), "languageId": "kdl", "version": k, "text": t}}))? }
            Op::Change(u, ts) => {
                if sv.ranged {
                    // insertions at the start
                    let Some(old) = texts.get(u.as_str()).cloned() else { continue };
                    texts.insert(u, ts.iter().rev().cloned().collect::<String>() + &old);
                } else if let Some(t) = ts.last() { texts.insert(u, t.clone()); }
                let z = json!({"line": 0, "character": 0});
                let ranged = sv.ranged;
                sv.tell("textDocument/didChange", json!({"textDocument": {"uri": uri(u), "version": k}, "contentChanges": ts.iter().map(|t| if ranged { json!({"range": {"start": z, "end": z}, "text": t}) } else { json!({"text": t}) }).collect::<Vec<_>>()}))?
            }
            Op::Save(u, t) => {
                if let Some(t) = t { texts.insert(u, t.clone()); }
                sv.tell("textDocument/didSave", json!({"textDocument": {"uri": uri(u)}, "text": t}))?
            }
            Op::Close(u) => { texts.remove(u.as_str()); sv.tell("textDocument/didClose", json!({"textDocument": {"uri": uri(u)}}))? }
            Op::Ask(u) => {
                let t = texts.get(u.as_str()).map(|t| t.as_str());
                let Some(want) = t.map_or(Some(vec![]), expected) else { return Ok(Out::Trivial) };
                let r = sv.ask("textDocument/diagnostic", json!({"textDocument": {"uri": uri(u)}}))?;
                let Some(items) = r["items"].as_array() else { return Ok(Out::Broken(format!("not a full report: {r}"))) };
                let t = t.unwrap_or("");
                if items.len() != want.len() { return Ok(Out::Broken(format!("{} diagnostics reported for {t:?}, the parser gives {}: {r}", items.len(), want.len()))) }
                for (i, w) in items.iter().zip(&want) {
                    seen = true;
                    let (a, b) = (clip(t, &i["range"]["start"]), clip(t, &i["range"]["end"]));
                    if a != Some((w.0, w.1)) || b != Some((w.2, w.3)) { return Ok(Out::Broken(format!("{t:?}: reported at {}, but the diagnostic is from line {} column {} to line {} column {}", i["range"], w.0, w.1, w.2, w.3))) }
                    if i["severity"].as_u64().unwrap_or(0) != w.4 || i["message"].as_str() != Some(&w.5) { return Ok(Out::Broken(format!("{t:?}: reported {i}, but the diagnostic is {w:?}"))) }
                }
            }
        }
    }
    Ok(if seen { Out::Held } else { Out::Trivial })
}
pub struct Lsp;
fn text(g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..g.n(4) {
        match g.n(6) {
            0 => s += &g.document_mut(),
            1 => s += g.pick(&["a \"\u{1f600}\u{1f600}\" bad=\n", "n \"é\" 0xZ\r", "/* \u{2028}\u{85}\u{c} */ x 1 #bad\r\n", "// \u{b}\u{2029}\n)(\n", "\"\"\"\nq\u{1f600}", "a {\r\n b \u{1f600}=\"\r\n}", "\u{feff}a 1 2=3\n", "a\r\rb \"\\q\" \"\\u{110000}\"\n", "漢字 \"漢\" #x \u{1f600}#y\n", "}"]),
            2 => s += g.pick(&["\n", "\r", "\r\n", "\n\r", "\u{85}", "\u{2028}", "\u{c}", "\u{b}", "\t", "\u{1f600}", "é"]),
            _ => { let d = g.document(); let c: Vec<char> = d.chars().collect(); let mut c = c; for _ in 0..1 + g.n(3) { g.mutate(&mut c) } s.extend(c) }
        }
        s += g.pick(&["\n", "\r\n", "\r", "", "\u{2028}\n"]);
    }
    s
}
impl Prop for Lsp {
    fn rule(&self) -> &'static str { "histories of open, change, save and close notifications over up to three documents with names that differ little with generated texts (any line break, astral characters, damaged KDL 1 and 2), and a diagnostics request after some of them; each answer compared with what parsing the current text gives; non-trivial: at least one diagnostic was reported" }
    fn make(&self, seed: u64) -> String {
        let mut g = G::new(seed ^ 0x1919);
        let us = if g.p(1, 2) { ["a", "b", "c"] } else { let o = ["b", "c", "d", "e", "f", "g"]; ["a", o[g.n(6)], o[g.n(6)]] };
        let mut ops = vec![];
        let n = 1 + g.n(6);
        for _ in 0..n {
            let u = us[g.n(3).min(g.n(3))].to_string();
            ops.push(match g.n(8) {
                0..=2 => Op::Open(u.clone(), text(&mut g)),
                3 | 4 => Op::Change(u.clone(), (0..[1, 1, 2, 3, 0][g.n(5)]).map(|_| text(&mut g)).collect()),
                5 => Op::Save(u.clone(), Some(text(&mut g))),
                6 => Op::Save(u.clone(), None),
                _ => Op::Close(u.clone()),
            });
            if g.p(3, 4) { ops.push(Op::Ask(u)) } else if g.p(1, 2) { ops.push(Op::Ask(us[g.n(3)].into())) }
        }
        show(&ops)
    }
    fn check(&self, case: &str) -> Out {
        let Some(ops) = read(case) else { return Out::Trivial };
        S.with(|c| {
            let (s, n) = &mut *c.borrow_mut();
            *n += 1;
            if s.is_none() { *s = Some(Server::start()) }
            match play(s.as_mut().unwrap(), *n, &ops) {
                Ok(o) => o,
                Err(e) => { *s = None; Out::Broken(e) }
            }
        })
    }
    fn fixed(&self) -> Vec<String> {
        ["a \"\u{1f600}\" #bad", "a \"\\q\"\r\nb \"\\q\"\rc \"\\q\"\nd \"\\q\"", "/*\u{2028}\u{b}\u{c}\u{85}\u{2029}*/ #x", "é漢\u{1f600} #x", "a {", "\u{feff}#x", "a\r\n\r\n#x\r\n", "", "a \"unfinished", "node \"\"\"\n  \u{1f600}\n x\"\"\""].iter().flat_map(|t| {
            let t = t.to_string();
            [vec![Op::Open("a".into(), t.clone()), Op::Ask("a".into())], vec![Op::Open("a".into(), "ok".into()), Op::Change("a".into(), vec!["mid {".into(), t.clone()]), Op::Ask("a".into())],
             vec![Op::Open("a".into(), t.clone()), Op::Close("a".into()), Op::Ask("a".into())], vec![Op::Open("a".into(), "x {".into()), Op::Save("a".into(), Some(t.clone())), Op::Ask("a".into()), Op::Change("a".into(), vec![]), Op::Ask("a".into())]]
        }).map(|o| show(&o)).collect()
    }
}
