//! Seeded generator of KDL-like texts: mostly valid, with mutations.
pub struct G { s: u64 }
impl G {
    pub fn new(seed: u64) -> G { let mut g = G { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 }; g.next(); g.next(); g }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { (self.next() % k as u64) as usize }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a>(&mut self, v: &[&'a str]) -> &'a str { v[self.n(v.len())] }
    fn nl(&mut self) -> &'static str { if self.p(2, 3) { "\n" } else { self.pick(&["\r\n", "\r", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}"]) } }
    fn usp(&mut self) -> &'static str { if self.p(3, 4) { " " } else { self.pick(&["\t", "\u{a0}", "\u{1680}", "\u{2003}", "\u{200a}", "\u{202f}", "\u{205f}", "\u{3000}"]) } }
    fn mlc(&mut self) -> String { self.pick(&["/**/", "/* c */", "/* a /* b */ c */", "/***/", "/*/**/*/", "/* \n */", "/*é*/"]).to_string() }
    fn ws(&mut self) -> String { if self.p(5, 6) { self.usp().into() } else { self.mlc() } }
    fn wss(&mut self) -> String { let k = self.n(3); (0..k).map(|_| self.ws()).collect() }
    fn slc(&mut self) -> String { let b = self.pick(&["", " c", "é", "/", " x\ty ", "{"]); let n = self.nl(); format!("//{b}{n}") }
    fn escline(&mut self) -> String { let w = self.wss(); let e = if self.p(1, 4) { self.slc() } else { self.nl().into() }; format!("\\{w}{e}") }
    fn nsp1(&mut self) -> String { if self.p(1, 8) { let a = self.wss(); let b = self.escline(); let c = self.wss(); format!("{a}{b}{c}") } else { let a = self.ws(); let b = if self.p(1, 5) { self.wss() } else { String::new() }; a + &b } }
    fn nsp0(&mut self) -> String { if self.p(4, 5) { String::new() } else { self.nsp1() } }
    fn lsp(&mut self) -> String { match self.n(4) { 0 | 1 => self.nl().into(), 2 => self.nsp1(), _ => self.slc() } }
    fn lsps(&mut self) -> String { let k = if self.p(1, 2) { 0 } else { self.n(3) }; (0..k).map(|_| self.lsp()).collect() }
    fn ident(&mut self) -> String { self.pick(&["a", "b", "foo", "-", "+", ".", "-.", "+.", "--a", "-a", ".a", "+.a", "é", "a-b", "a.b", "r", "e1", "x0", "_", "漢", "trueish", "<>", ",", "'", "kdl", "-é"]).to_string() }
    fn esc(&mut self) -> String { self.pick(&["\\n", "\\r", "\\t", "\\b", "\\f", "\\s", "\\\\", "\\\"", "\\u{41}", "\\u{1F600}", "\\u{0}", "\\u{10ffff}", "\\u{200e}", "\\u{2028}", "\\u{7f}"]).to_string() }
    fn schar(&mut self) -> String { match self.n(8) { 0 => self.esc(), 1 => { let n = 1 + self.n(2); let b: String = (0..n).map(|_| if self.p(1, 2) { self.nl() } else { self.usp() }).collect(); format!("\\{b}") } _ => self.pick(&["a", "b", " ", "é", "漢", "😀", "#", "/", "'", "{", "\t", "1"]).into() } }
    fn quoted(&mut self) -> String { let k = self.n(5); let b: String = (0..k).map(|_| self.schar()).collect(); format!("\"{b}\"") }
    fn mquoted(&mut self) -> String {
        let k = self.n(4);
        let pre: String = { let k = self.n(3); (0..k).map(|_| self.usp()).collect() };
        let mut s = format!("\"\"\"{}", self.nl());
        for _ in 0..k {
            if self.p(1, 5) { let j = self.n(3); for _ in 0..j { s.push_str(self.usp()); } } else {
                if !self.p(1, 30) { s.push_str(&pre); }
                let j = self.n(5);
                for _ in 0..j { if self.p(1, 8) { s.push_str(self.pick(&["\"", "\"\""])); s.push('x') } else { s.push_str(&self.schar()); } }
            }
            s.push_str(self.nl());
        }
        s.push_str(&pre); if self.p(1, 12) { s.push('\\'); s.push_str(self.nl()); s.push_str(&pre); }
        s.push_str("\"\"\""); s
    }
    fn raw(&mut self) -> String {
        let h = "#".repeat(1 + self.n(3));
        if self.p(2, 3) {
            let k = self.n(5);
            let b: String = (0..k).map(|_| self.pick(&["a", "\\", "\\n", "\"", " ", "é", "#", "\"\"", "x"])).collect();
            format!("{h}\"{b}\"{h}")
        } else {
            let pre: String = { let k = self.n(3); (0..k).map(|_| self.usp()).collect() };
            let mut s = format!("{h}\"\"\"{}", self.nl());
            for _ in 0..self.n(4) {
                if self.p(1, 5) { let j = self.n(3); for _ in 0..j { s.push_str(self.usp()); } } else {
                    s.push_str(&pre);
                    for _ in 0..self.n(5) { s.push_str(self.pick(&["a", "\\", "\"", " ", "é", "#", "\"\"", "x", "\\n"])); }
                }
                s.push_str(self.nl());
            }
            s.push_str(&pre); s.push_str("\"\"\""); s.push_str(&h); s
        }
    }
    fn string(&mut self) -> String { match self.n(8) { 0..=3 => self.ident(), 4 | 5 => self.quoted(), 6 => self.raw(), _ => self.mquoted() } }
    fn digits(&mut self, set: &str) -> String { let v: Vec<char> = set.chars().collect(); let k = 1 + self.n(5); let mut s: String = (0..k).map(|_| v[self.n(v.len())]).collect(); if self.p(1, 4) { s.push('_'); } if self.p(1, 4) { s.push_str("_0"); } s }
    fn number(&mut self) -> String {
        let sg = self.pick(&["", "", "", "+", "-"]);
        let b = match self.n(8) {
            0 => format!("0x{}", self.digits("0123456789abcdefABCDEF")),
            1 => format!("0o{}", self.digits("01234567")),
            2 => format!("0b{}", self.digits("01")),
            3 => format!("{}.{}", self.digits("0123456789"), self.digits("0123456789")),
            4 => format!("{}e{}{}", self.digits("0123456789"), self.pick(&["", "+", "-"]), self.n(30)),
            5 => format!("{}.{}E{}{}", self.digits("0123456789"), self.digits("0123456789"), self.pick(&["", "+", "-"]), self.n(400)),
            6 => self.pick(&["170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "170141183460469231731687303715884105729", "0x7fffffffffffffffffffffffffffffff", "0x80000000000000000000000000000000", "123456789012345678901234567890.5", "0", "1234567890123456789012345678901234567890123.5", "0.0", "1e400", "00012"]).to_string(),
            _ => self.digits("0123456789"),
        };
        format!("{sg}{b}")
    }
    fn value(&mut self) -> String {
        let t = if self.p(1, 6) { let t = self.ty(); let s = self.nsp0(); t + &s } else { String::new() };
        let v = match self.n(6) { 0 => self.pick(&["#true", "#false", "#null", "#inf", "#-inf", "#nan"]).into(), 1 | 2 => self.number(), _ => self.string() };
        t + &v
    }
    fn ty(&mut self) -> String { let a = self.nsp0(); let s = self.string(); let b = self.nsp0(); format!("({a}{s}{b})") }
    fn entry(&mut self) -> String { if self.p(1, 2) { self.value() } else { let k = self.string(); let a = self.nsp0(); let b = self.nsp0(); let v = self.value(); format!("{k}{a}={b}{v}") } }
    fn node(&mut self, d: usize) -> String {
        let mut s = String::new();
        if self.p(1, 8) { s += &self.ty(); s += &self.nsp0(); }
        s += &self.string();
        for _ in 0..self.n(4) {
            s += &self.nsp1();
            if self.p(1, 8) { s += "/-"; s += &self.lsps(); }
            s += &self.entry();
        }
        if d < 3 {
            if self.p(1, 12) { s += &self.nsp1(); s += "/-"; s += &self.lsps(); s += &self.block(d + 1); }
            if self.p(1, 3) { s += &self.nsp1(); s += &self.block(d + 1); }
            if self.p(1, 12) { s += &self.nsp1(); s += "/-"; s += &self.lsps(); s += &self.block(d + 1); }
        }
        s += &self.nsp0();
        s
    }
    fn block(&mut self, d: usize) -> String { let b = self.nodes(d, true); format!("{{{b}}}") }
    fn nodes(&mut self, d: usize, inner: bool) -> String {
        let mut s = self.lsps();
        let k = if d == 0 { 1 + self.n(3) } else { self.n(3) };
        for i in 0..k {
            if self.p(1, 10) { s += "/-"; s += &self.lsps(); }
            s += &self.node(d);
            if i + 1 == k && self.p(1, 3) && (inner || true) { return s; }
            s += &match self.n(5) { 0 => ";".to_string(), 1 => self.slc(), _ => self.nl().into() };
            s += &self.lsps();
        }
        s
    }
    pub fn document(&mut self) -> String { let mut s = String::new(); if self.p(1, 20) { s.push('\u{feff}'); } s += &self.nodes(0, false); s }
    pub fn string_literal(&mut self) -> String { match self.n(8) { 0 => self.ident(), 1 | 2 => self.quoted(), 3 | 4 => self.raw(), _ => self.mquoted() } }
    pub fn number_literal(&mut self) -> String { self.number() }
    pub fn boundary_number(&mut self) -> String {
        let sg = self.pick(&["", "", "+", "-"]);
        let base: u128 = match self.n(6) { 0 => 1 << 127, 1 => (1 << 127) - 1, 2 => u64::MAX as u128, 3 => 1u128 << self.n(128), 4 => u128::MAX, _ => ((self.next() as u128) << 64 | self.next() as u128) >> self.n(128) };
        let v = match self.n(4) { 0 => base.wrapping_add(1), 1 => base.wrapping_sub(1), 2 => base.wrapping_add(self.n(1000) as u128), _ => base };
        let d = match self.n(5) { 0 => format!("0x{v:x}"), 1 => format!("0o{v:o}"), 2 => format!("0b{v:b}"), 3 => format!("0x{v:X}"), _ => format!("{v}") };
        let mut c: Vec<char> = d.chars().collect();
        let lo = if d.starts_with("0x") || d.starts_with("0o") || d.starts_with("0b") { 3 } else { 1 };
        if self.p(1, 3) && c.len() >= lo { for _ in 0..1 + self.n(3) { let at = lo + self.n(c.len() + 1 - lo); c.insert(at, '_'); } }
        if self.p(1, 10) && lo == 1 { let z = self.n(5); for _ in 0..z { c.insert(0, '0') } }
        let d: String = c.into_iter().collect();
        format!("{sg}{d}")
    }
    pub fn mutate(&mut self, c: &mut Vec<char>) {
        let ins: Vec<char> = "{}()[];=\"#\\/- \n\r\t1a.+_*xue\u{0}\u{7f}\u{2028}\u{feff}\u{200e}".chars().collect();
        let at = self.n(c.len() + 1);
        match self.n(5) {
            0 if at < c.len() => { c.remove(at); }
            1 if at < c.len() => { c[at] = ins[self.n(ins.len())]; }
            2 if at < c.len() => { let e = (at + 1 + self.n(8)).min(c.len()); c.drain(at..e); }
            3 if at < c.len() => { let e = (at + 1 + self.n(8)).min(c.len()); let x: Vec<char> = c[at..e].to_vec(); let to = self.n(c.len() + 1); c.splice(to..to, x); }
            _ => c.insert(at, ins[self.n(ins.len())]),
        }
    }
    pub fn mutate_str(&mut self, c: &mut Vec<char>) {
        let ins: Vec<char> = "\"\"##\\\\ \n\r\tnu{}41su\u{0}\u{7f}\u{2028}\u{85}\u{a0}\u{200e}/".chars().collect();
        let at = self.n(c.len() + 1);
        match self.n(3) { 0 if at < c.len() => { c.remove(at); } 1 if at < c.len() => { c[at] = ins[self.n(ins.len())]; } _ => c.insert(at, ins[self.n(ins.len())]) }
    }
    pub fn document_mut(&mut self) -> String {
        let s = self.document();
        if self.p(3, 5) { return s; }
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..1 + self.n(2) {
            let ins: Vec<char> = "{}()[];=\"#\\/- \n\r\t1a.+_*xue\u{0}\u{7f}\u{2028}\u{feff}\u{200e}".chars().collect();
            let at = self.n(c.len() + 1);
            match self.n(3) { 0 if at < c.len() => { c.remove(at); } 1 if at < c.len() => { c[at] = ins[self.n(ins.len())]; } _ => c.insert(at, ins[self.n(ins.len())]) }
        }
        c.into_iter().collect()
    }
}
