//! Independent reference reader for KDL 2.0, written from the KDL 2.0 grammar
//! and prose (not from /repo). Used only by the bounded stand-ins and by the
//! counterexample search; nothing here counts as a proof.

#[derive(Clone, Debug, PartialEq)]
pub enum RVal {
    Str(String),
    Int(i128),
    Float(u64), // bits; NaN canonical
    Bool(bool),
    Null,
}
#[derive(Clone, Debug, PartialEq)]
pub struct REntry {
    pub ty: Option<String>,
    pub name: Option<String>,
    pub val: RVal,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RNode {
    pub ty: Option<String>,
    pub name: String,
    pub entries: Vec<REntry>,
    pub children: Option<Vec<RNode>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// The text is not KDL 2.0.
    Reject(usize),
    /// Revisions of the specification disagree, or its prose and grammar do;
    /// no verdict is drawn from such a text.
    Unspecified(usize),
}
type R<T> = Result<T, Stop>;

pub fn is_newline(c: char) -> bool {
    matches!(c, '\r' | '\n' | '\u{85}' | '\u{b}' | '\u{c}' | '\u{2028}' | '\u{2029}')
}
pub fn is_uspace(c: char) -> bool {
    matches!(c, '\t' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
pub fn is_disallowed(c: char) -> bool {
    matches!(c, '\u{0}'..='\u{8}' | '\u{e}'..='\u{1f}' | '\u{7f}' | '\u{200e}' | '\u{200f}'
        | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{feff}')
}
pub fn is_identch(c: char) -> bool {
    !is_uspace(c) && !is_newline(c) && !is_disallowed(c)
        && !matches!(c, '\\' | '/' | '(' | ')' | '{' | '}' | ';' | '[' | ']' | '"' | '#' | '=')
}

pub struct P {
    s: Vec<char>,
    i: usize,
    depth: usize,
}

enum Item {
    Lit(char),
    Esc(char),
    Nl,
}

pub fn parse(text: &str) -> R<Vec<RNode>> {
    let mut p = P { s: text.chars().collect(), i: 0, depth: 0 };
    if p.peek() == Some('\u{feff}') {
        p.i += 1;
    }
    let ns = p.nodes(true)?;
    if p.i != p.s.len() {
        return Err(Stop::Reject(p.i));
    }
    Ok(ns)
}

impl P {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.s.get(self.i + k).copied()
    }
    fn looking(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.at(k) == Some(c))
    }
    fn rej<T>(&self) -> R<T> {
        Err(Stop::Reject(self.i))
    }
    fn unspec<T>(&self) -> R<T> {
        Err(Stop::Unspecified(self.i))
    }
    fn newline(&mut self) -> bool {
        match self.peek() {
            Some('\r') => {
                self.i += 1;
                if self.peek() == Some('\n') {
                    self.i += 1;
                }
                true
            }
            Some(c) if is_newline(c) => {
                self.i += 1;
                true
            }
            _ => false,
        }
    }
    fn mlc(&mut self) -> R<bool> {
        if !self.looking("/*") {
            return Ok(false);
        }
        let mut d = 0usize;
        loop {
            if self.looking("/*") {
                d += 1;
                self.i += 2;
            } else if self.looking("*/") {
                d -= 1;
                self.i += 2;
                if d == 0 {
                    return Ok(true);
                }
            } else {
                match self.peek() {
                    None => return self.rej(),
                    Some(c) if is_disallowed(c) => return self.unspec(),
                    _ => self.i += 1,
                }
            }
        }
    }
    fn ws(&mut self) -> R<bool> {
        match self.peek() {
            Some(c) if is_uspace(c) => {
                self.i += 1;
                Ok(true)
            }
            _ => self.mlc(),
        }
    }
    fn wss(&mut self) -> R<usize> {
        let mut n = 0;
        while self.ws()? {
            n += 1;
        }
        Ok(n)
    }
    fn slc(&mut self) -> R<bool> {
        if !self.looking("//") {
            return Ok(false);
        }
        while let Some(c) = self.peek() {
            if is_newline(c) {
                self.newline();
                return Ok(true);
            }
            if is_disallowed(c) {
                return self.unspec();
            }
            self.i += 1;
        }
        Ok(true)
    }
    /// node-space*, true when at least one was consumed
    fn nsp(&mut self) -> R<bool> {
        let mut any = false;
        loop {
            if self.wss()? > 0 {
                any = true;
            }
            if self.peek() == Some('\\') {
                self.i += 1;
                self.wss()?;
                if self.peek().is_none() || self.newline() || self.slc()? {
                    any = true;
                    continue;
                }
                return self.rej();
            }
            return Ok(any);
        }
    }
    fn lsp(&mut self) -> R<()> {
        loop {
            if self.nsp()? || self.newline() || self.slc()? {
                continue;
            }
            return Ok(());
        }
    }
    fn nodes(&mut self, top: bool) -> R<Vec<RNode>> {
        self.depth += 1;
        if self.depth > 200 {
            return self.unspec();
        }
        let mut out = vec![];
        loop {
            self.lsp()?;
            match self.peek() {
                None => break,
                Some('}') if !top => break,
                _ => {}
            }
            let mut sd = false;
            if self.looking("/-") {
                sd = true;
                self.i += 2;
                self.lsp()?;
            }
            let n = self.node()?;
            if !sd {
                out.push(n);
            }
            // terminator
            match self.peek() {
                None => {}
                Some(';') => self.i += 1,
                Some('}') if !top => {}
                _ => {
                    if !self.newline() && !self.slc()? {
                        return self.rej();
                    }
                }
            }
        }
        self.depth -= 1;
        Ok(out)
    }
    fn ty(&mut self) -> R<Option<String>> {
        if self.peek() != Some('(') {
            return Ok(None);
        }
        self.i += 1;
        self.nsp()?;
        let Some(s) = self.string()? else { return self.rej() };
        self.nsp()?;
        if self.peek() != Some(')') {
            return self.rej();
        }
        self.i += 1;
        Ok(Some(s))
    }
    fn node(&mut self) -> R<RNode> {
        let ty = self.ty()?;
        self.nsp()?;
        let Some(name) = self.string()? else { return self.rej() };
        let mut n = RNode { ty, name, entries: vec![], children: None };
        let mut seen_children = false;
        loop {
            let sp = self.nsp()?;
            if self.looking("/-") {
                if !sp {
                    return self.unspec();
                }
                self.i += 2;
                self.lsp()?;
                if self.peek() == Some('{') {
                    self.block()?;
                    seen_children = true;
                } else {
                    if seen_children {
                        return self.rej();
                    }
                    self.entry()?;
                }
            } else if self.peek() == Some('{') {
                if n.children.is_some() {
                    return self.rej();
                }
                n.children = Some(self.block()?);
                seen_children = true;
            } else if sp && matches!(self.peek(), Some(c) if c == '(' || c == '"' || c == '#' || is_identch(c)) {
                if seen_children {
                    return self.rej();
                }
                let e = self.entry()?;
                n.entries.push(e);
            } else {
                return Ok(n);
            }
        }
    }
    fn block(&mut self) -> R<Vec<RNode>> {
        self.i += 1;
        let ns = self.nodes(false)?;
        if self.peek() != Some('}') {
            return self.rej();
        }
        self.i += 1;
        Ok(ns)
    }
    fn entry(&mut self) -> R<REntry> {
        if self.peek() != Some('(') {
            if let Some(s) = self.string()? {
                let save = self.i;
                let r = self.nsp();
                if r.is_ok() && self.peek() == Some('=') {
                    self.i += 1;
                    self.nsp()?;
                    let (ty, val) = self.value()?;
                    return Ok(REntry { ty, name: Some(s), val });
                }
                if let Err(e @ Stop::Unspecified(_)) = r {
                    return Err(e);
                }
                self.i = save;
                return Ok(REntry { ty: None, name: None, val: RVal::Str(s) });
            }
        }
        let (ty, val) = self.value()?;
        Ok(REntry { ty, name: None, val })
    }
    fn value(&mut self) -> R<(Option<String>, RVal)> {
        let ty = self.ty()?;
        if ty.is_some() {
            self.nsp()?;
        }
        if let Some(s) = self.string()? {
            return Ok((ty, RVal::Str(s)));
        }
        match self.peek() {
            Some('#') => {
                for (k, v) in [
                    ("#true", RVal::Bool(true)),
                    ("#false", RVal::Bool(false)),
                    ("#null", RVal::Null),
                    ("#inf", RVal::Float(f64::INFINITY.to_bits())),
                    ("#-inf", RVal::Float(f64::NEG_INFINITY.to_bits())),
                    ("#nan", RVal::Float(f64::NAN.to_bits())),
                ] {
                    let n = k.chars().count();
                    if self.looking(k) && !matches!(self.at(n), Some(c) if is_identch(c) || c == '#' || c == '"') {
                        self.i += n;
                        return Ok((ty, v));
                    }
                }
                self.rej()
            }
            Some(c) if c == '+' || c == '-' || c.is_ascii_digit() => Ok((ty, self.number()?)),
            _ => self.rej(),
        }
    }
    fn number(&mut self) -> R<RVal> {
        let mut neg = false;
        if let Some(c @ ('+' | '-')) = self.peek() {
            neg = c == '-';
            self.i += 1;
        }
        let digits = |p: &mut P, radix: u32| -> R<String> {
            let mut t = String::new();
            match p.peek() {
                Some(c) if c.is_digit(radix) => {}
                _ => return p.rej(),
            }
            while let Some(c) = p.peek() {
                if c.is_digit(radix) {
                    t.push(c);
                } else if c != '_' {
                    break;
                }
                p.i += 1;
            }
            Ok(t)
        };
        let toint = |p: &P, t: &str, radix: u32, neg: bool| -> R<i128> {
            let mut v: i128 = 0;
            for c in t.chars() {
                let d = c.to_digit(radix).unwrap() as i128;
                v = match v.checked_mul(radix as i128).and_then(|v| if neg { v.checked_sub(d) } else { v.checked_add(d) }) {
                    Some(v) => v,
                    None => return p.rej(), // outside the integer type: an error, never a wrapped value
                };
            }
            Ok(v)
        };
        if self.peek() == Some('0') {
            let radix = match self.at(1) {
                Some('x') => 16,
                Some('o') => 8,
                Some('b') => 2,
                Some('X' | 'O' | 'B') => return self.unspec(),
                _ => 0,
            };
            if radix != 0 {
                self.i += 2;
                let t = digits(self, radix)?;
                if matches!(self.peek(), Some(c) if is_identch(c)) {
                    return self.rej();
                }
                return Ok(RVal::Int(toint(self, &t, radix, neg)?));
            }
        }
        let int = digits(self, 10)?;
        let mut text = String::new();
        if neg {
            text.push('-');
        }
        text.push_str(&int);
        let mut float = false;
        if self.peek() == Some('.') {
            float = true;
            self.i += 1;
            text.push('.');
            text.push_str(&digits(self, 10)?);
        }
        if let Some('e' | 'E') = self.peek() {
            float = true;
            self.i += 1;
            text.push('e');
            if let Some(c @ ('+' | '-')) = self.peek() {
                self.i += 1;
                text.push(c);
            }
            text.push_str(&digits(self, 10)?);
        }
        if matches!(self.peek(), Some(c) if is_identch(c) || c == '"' || c == '#' || c == '(') {
            return self.rej();
        }
        if float {
            Ok(RVal::Float(text.parse::<f64>().map_err(|_| Stop::Reject(self.i))?.to_bits()))
        } else {
            Ok(RVal::Int(toint(self, &int, 10, neg)?))
        }
    }
    /// Ok(None): not a string at this position (nothing consumed)
    fn string(&mut self) -> R<Option<String>> {
        match self.peek() {
            Some('"') => self.quoted().map(Some),
            Some('#') => {
                let mut n = 0;
                while self.at(n) == Some('#') {
                    n += 1;
                }
                if self.at(n) == Some('"') {
                    self.raw(n).map(Some)
                } else {
                    Ok(None)
                }
            }
            Some(c) if is_identch(c) => {
                let signed = c == '+' || c == '-';
                let c1 = if signed { self.at(1) } else { Some(c) };
                if matches!(c1, Some(d) if d.is_ascii_digit()) {
                    return Ok(None); // number
                }
                if c1 == Some('.') {
                    let c2 = self.at(if signed { 2 } else { 1 });
                    if matches!(c2, Some(d) if d.is_ascii_digit()) {
                        return self.rej();
                    }
                }
                let st = self.i;
                while matches!(self.peek(), Some(c) if is_identch(c)) {
                    self.i += 1;
                }
                let t: String = self.s[st..self.i].iter().collect();
                if t == "-inf" {
                    return self.unspec();
                }
                if matches!(t.as_str(), "true" | "false" | "null" | "inf" | "nan") {
                    return self.rej();
                }
                Ok(Some(t))
            }
            _ => Ok(None),
        }
    }
    /// after a backslash: the escape, None for a whitespace escape
    fn escape(&mut self) -> R<Option<char>> {
        let Some(c) = self.peek() else { return self.rej() };
        self.i += 1;
        Ok(Some(match c {
            '\\' => '\\',
            '"' => '"',
            'b' => '\u{8}',
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            's' => ' ',
            'u' => {
                if self.peek() != Some('{') {
                    return self.rej();
                }
                self.i += 1;
                let mut v = 0u32;
                let mut n = 0;
                while let Some(d) = self.peek().and_then(|c| c.to_digit(16)) {
                    v = v * 16 + d;
                    n += 1;
                    self.i += 1;
                    if n > 6 {
                        return self.rej();
                    }
                }
                if n == 0 || self.peek() != Some('}') {
                    return self.rej();
                }
                self.i += 1;
                match char::from_u32(v) {
                    Some(c) => c,
                    None => return self.rej(),
                }
            }
            c if is_uspace(c) || is_newline(c) => {
                while matches!(self.peek(), Some(c) if is_uspace(c) || is_newline(c)) {
                    self.i += 1;
                }
                return Ok(None);
            }
            _ => return self.rej(),
        }))
    }
    fn quoted(&mut self) -> R<String> {
        if self.looking("\"\"\"") {
            self.i += 3;
            if !self.newline() {
                return self.rej();
            }
            let mut lines: Vec<Vec<Item>> = vec![vec![]];
            let mut wsesc = false;
            loop {
                if self.looking("\"\"\"") {
                    self.i += 3;
                    break;
                }
                let Some(c) = self.peek() else { return self.rej() };
                if c == '\\' {
                    self.i += 1;
                    match self.escape()? {
                        Some(c) => lines.last_mut().unwrap().push(Item::Esc(c)),
                        None => wsesc = true,
                    }
                } else if is_newline(c) {
                    self.newline();
                    lines.push(vec![]);
                } else if is_disallowed(c) {
                    return self.rej();
                } else {
                    self.i += 1;
                    lines.last_mut().unwrap().push(Item::Lit(c));
                }
            }
            return self.dedent(lines, wsesc);
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let Some(c) = self.peek() else { return self.rej() };
            if c == '"' {
                self.i += 1;
                return Ok(out);
            }
            if c == '\\' {
                self.i += 1;
                if let Some(c) = self.escape()? {
                    out.push(c);
                }
            } else if is_newline(c) || is_disallowed(c) {
                return self.rej();
            } else {
                self.i += 1;
                out.push(c);
            }
        }
    }
    fn dedent(&mut self, mut lines: Vec<Vec<Item>>, wsesc: bool) -> R<String> {
        let last = lines.pop().unwrap();
        let mut prefix = vec![];
        for it in &last {
            match it {
                Item::Lit(c) if is_uspace(*c) => prefix.push(*c),
                _ => return self.rej(),
            }
        }
        let mut out: Vec<String> = vec![];
        for l in &lines {
            let blank = l.iter().all(|it| matches!(it, Item::Lit(c) if is_uspace(*c)));
            if blank {
                if wsesc && !l.is_empty() {
                    // whitespace-only line next to a whitespace escape: prose and grammar leave room
                    return self.unspec();
                }
                out.push(String::new());
                continue;
            }
            if l.len() < prefix.len()
                || !l.iter().zip(&prefix).all(|(it, p)| matches!(it, Item::Lit(c) if c == p))
            {
                return self.rej();
            }
            out.push(
                l[prefix.len()..]
                    .iter()
                    .map(|it| match it {
                        Item::Lit(c) | Item::Esc(c) => *c,
                        Item::Nl => '\n',
                    })
                    .collect(),
            );
        }
        Ok(out.join("\n"))
    }
    fn raw(&mut self, n: usize) -> R<String> {
        self.i += n;
        let close = |p: &P, q: usize| -> bool {
            (0..q).all(|k| p.at(k) == Some('"')) && (0..n).all(|k| p.at(q + k) == Some('#'))
        };
        if self.looking("\"\"\"") && matches!(self.at(3), Some(c) if is_newline(c)) {
            self.i += 3;
            self.newline();
            let mut lines: Vec<Vec<Item>> = vec![vec![]];
            loop {
                if close(self, 3) {
                    self.i += 3 + n;
                    break;
                }
                let Some(c) = self.peek() else { return self.rej() };
                if is_newline(c) {
                    self.newline();
                    lines.push(vec![]);
                } else if is_disallowed(c) {
                    return self.rej();
                } else {
                    self.i += 1;
                    lines.last_mut().unwrap().push(Item::Lit(c));
                }
            }
            return self.dedent(lines, false);
        }
        self.i += 1;
        let st = self.i;
        let mut out = String::new();
        loop {
            if close(self, 1) && !(self.i == st && self.looking("\"\"") && false) {
                self.i += 1 + n;
                break;
            }
            let Some(c) = self.peek() else { return self.rej() };
            if is_newline(c) || is_disallowed(c) {
                return self.rej();
            }
            out.push(c);
            self.i += 1;
        }
        if out == "\"" {
            return self.rej();
        }
        if out.starts_with("\"\"") {
            return self.unspec();
        }
        Ok(out)
    }
}
