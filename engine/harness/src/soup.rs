//! Texts that need not be meaningful: grammatical programs without types or scopes, and damaged programs.

use crate::tape::Gen;

pub struct Soup<'a> {
    pub g: &'a mut Gen,
    pub depth: usize,
    types: Vec<String>,
    vars: Vec<String>,
}

const TYPES: &[&str] = &["A", "B", "Ca", "D", "v32", "v64", "utf8", "utf16", "nope"];
const VARS: &[&str] = &["a", "b", "c", "k", "K", "zz", "reader", "value"];
const SCALARS: &[&str] = &[
    "u8", "i8", "u16", "u32", "u64", "i32", "i64", "u128", "i128", "i16", "u16le", "u32le", "i64le", "u128le",
];
const FLAGS: &[&str] = &["auto", "tagged_enum", "nope"];
const XFS: &[&str] = &["gzip", "base64", "xadd", "xmul", "nope"];
const FNS: &[&str] = &["len", "blen", "pad", "sum", "bits", "nope"];
const BIN: &[&str] = &[
    "+", "-", "*", "/", "%", "<<", ">>", ">>>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "?:",
];

impl<'a> Soup<'a> {
    pub fn new(g: &'a mut Gen) -> Self {
        Soup { g, depth: 0, types: vec![], vars: vec![] }
    }
    /// pieces for a document that has these names
    pub fn inside(g: &'a mut Gen, types: Vec<String>, vars: Vec<String>, depth: usize) -> Self {
        Soup { g, depth, types, vars }
    }
    fn var(&mut self) -> String {
        if !self.vars.is_empty() && self.g.pct(70) {
            return self.g.pick(&self.vars).clone();
        }
        self.g.pick(VARS).to_string()
    }
    fn tname(&mut self) -> String {
        if !self.types.is_empty() && self.g.pct(70) {
            return self.g.pick(&self.types).clone();
        }
        self.g.pick(TYPES).to_string()
    }
    fn scalar(&mut self) -> String {
        self.g.pick(SCALARS).to_string()
    }
    pub fn int(&mut self) -> String {
        let v: u128 = match self.g.w(&[10, 3, 2, 2]) {
            0 => self.g.n(9) as u128,
            1 => self.g.n(300) as u128,
            2 => {
                let bits = *self.g.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127]);
                (1u128 << bits).wrapping_add(self.g.n(3) as u128).wrapping_sub(1)
            }
            _ => (self.g.u64() as u128) << self.g.n(65),
        };
        let mut s = if self.g.pct(20) { format!("0x{:x}", v) } else { format!("{}", v) };
        if self.g.pct(1) {
            s = self.g.pick(&["0x", "340282366920938463463374607431768211456", "00", "007"]).to_string();
        }
        if self.g.pct(25) {
            s.push_str(&self.scalar());
        }
        s
    }
    fn str(&mut self) -> String {
        let n = self.g.n(5);
        let mut s = String::from("\"");
        for _ in 0..n {
            s.push_str(match self.g.n(8) {
                0 => "\\00",
                1 => "\\ff",
                2 => "\\\"",
                3 => "é",
                4 => "\\n",
                5 => "7",
                _ => "a",
            });
        }
        s.push('"');
        s
    }
    fn args(&mut self) -> String {
        let n = self.g.w(&[2, 5, 2, 1]);
        let v: Vec<String> = (0..n).map(|_| self.expr()).collect();
        format!("({}{})", v.join(", "), if n > 0 && self.g.pct(10) { "," } else { "" })
    }
    pub fn expr(&mut self) -> String {
        self.depth += 1;
        let r = if self.depth > 5 {
            match self.g.w(&[4, 4]) {
                0 => self.int(),
                _ => self.var(),
            }
        } else {
            match self.g.w(&[20, 20, 18, 5, 6, 4, 5, 4, 3, 4, 4, 4]) {
                0 => self.int(),
                1 => self.var(),
                2 => {
                    let (a, b) = (self.expr(), self.expr());
                    format!("{} {} {}", a, self.g.pick(BIN), b)
                }
                3 => format!("{}{}", self.g.pick(&["!", "-", "~", "--", "!!"]), self.expr()),
                4 => {
                    let t = self.ty();
                    format!("{} :> {}", self.expr(), t)
                }
                5 => {
                    let (a, b, c) = (self.expr(), self.expr(), self.expr());
                    format!("{} ? {} : {}", a, b, c)
                }
                6 => {
                    let f = if self.g.pct(90) { self.g.pick(FNS).to_string() } else { self.var() };
                    format!("{}{}", f, self.args())
                }
                7 => format!("{}[{}]", self.expr(), self.expr()),
                8 => format!("{}.{}", self.expr(), self.g.pick(&["f0", "f1", "a", "nope", "0"])),
                9 => format!("{}::{}", self.tname(), self.g.pick(&["x", "y", "f0", "f1", "nope"])),
                10 => self.str(),
                _ => self.g.pick(&["true", "false"]).to_string(),
            }
        };
        self.depth -= 1;
        if self.g.pct(15) {
            format!("({})", r)
        } else {
            r
        }
    }
    fn len(&mut self) -> String {
        match self.g.n(5) {
            0 => "..".into(),
            1 => format!("..{}", self.expr()),
            _ => self.expr(),
        }
    }
    pub fn ty(&mut self) -> String {
        self.depth += 1;
        let mut r = match self.g.w(&[10, 6, 3, 2, if self.depth > 3 { 0 } else { 4 }, if self.depth > 1 { 1 } else { 8 }, if self.depth > 1 { 1 } else { 8 }]) {
            0 => self.scalar(),
            1 => {
                let t = self.tname();
                if self.g.pct(30) {
                    format!("{}{}", t, self.args())
                } else {
                    t
                }
            }
            2 => self.g.pick(&["f32", "f64"]).to_string(),
            3 => "bool".into(),
            4 => self.container(),
            5 => {
                let n = self.g.range(1, 3);
                let mut v = vec![];
                for i in 0..n {
                    let k = self.g.pick(&["x", "y", "f0", "f1"]).to_string();
                    v.push(match self.g.w(&[6, if i > 0 { 4 } else { 0 }, 1]) {
                        0 => format!("{} = {}", k, self.expr()),
                        1 => k,
                        _ => format!("{} = default", k),
                    });
                }
                format!("enum {} {{ {} }}", self.scalar(), v.join(", "))
            }
            _ => {
                let n = self.g.range(1, 3);
                let mut v = vec![];
                for i in 0..n {
                    let k = self.g.pick(&["x", "y", "f0", "f1", "all"]).to_string();
                    v.push(if i == 0 || self.g.pct(50) { format!("{} = {}", k, self.expr()) } else { k });
                }
                format!("bitfield {} {{ {} }}", self.scalar(), v.join(", "))
            }
        };
        if self.g.pct(20) {
            r = format!("{}[{}]", r, self.len());
            if self.g.pct(10) {
                r = format!("{}[{}]", r, self.len());
            }
        }
        self.depth -= 1;
        r
    }
    fn container(&mut self) -> String {
        let mut s = String::from("container ");
        if self.g.pct(20) {
            let e = self.expr();
            s.push_str(&format!("[{}] ", e));
        }
        if self.g.pct(15) {
            s.push_str("+tagged_enum ");
        }
        if self.g.pct(2) {
            s.push_str(&format!("+{} ", self.g.pick(FLAGS)));
        }
        s.push('{');
        let n = self.g.w(&[1, 3, 5, 4, 2]);
        let keep = self.vars.len();
        for _ in 0..n {
            if self.g.pct(6) {
                let e = self.expr();
                s.push_str(&format!(".pad: {}, ", e));
                continue;
            }
            let k = self.g.pick(&["a", "b", "c", "d", "e"]).to_string();
            let f = self.field();
            s.push_str(&format!("{}: {}, ", k, f));
            self.vars.push(k);
        }
        self.vars.truncate(keep + 3);
        s.push('}');
        s
    }
    pub fn field(&mut self) -> String {
        let mut s = self.ty();
        if self.g.pct(12) {
            s.push_str(&format!(" = {}", self.expr()));
        }
        if self.g.pct(6) {
            s.push_str(&format!(" +{}", self.g.pick(FLAGS)));
        }
        if self.g.pct(18) {
            s.push_str(&format!(" {{ {} }}", self.expr()));
        }
        while self.g.pct(12) {
            s.push_str(&format!(" -> {}", self.g.pick(XFS)));
            if self.g.pct(40) {
                s.push_str(&self.args());
            }
            if self.g.pct(20) {
                s.push_str(&format!(" {{ {} }}", self.expr()));
            }
        }
        s
    }
    pub fn decl(&mut self) -> String {
        self.vars.clear();
        match self.g.w(&[12, 3, 2, 1]) {
            0 => {
                let name = self.g.pick(TYPES).to_string();
                let mut s = format!("type {}", name);
                if self.g.pct(25) {
                    let n = self.g.range(1, 2);
                    let mut v = vec![];
                    for _ in 0..n {
                        let k = self.g.pick(&["k", "m"]).to_string();
                        let t = if self.g.pct(80) { self.scalar() } else { self.ty() };
                        let d = if self.g.pct(40) { format!(" ? {}", self.expr()) } else { String::new() };
                        v.push(format!("{}: {}{}", k, t, d));
                        self.vars.push(k);
                    }
                    s.push_str(&format!("({})", v.join(", ")));
                }
                let f = self.field();
                s.push_str(&format!(" = {};", f));
                self.types.push(name);
                s
            }
            1 => {
                let t = if self.g.pct(85) { self.scalar() } else { self.ty() };
                let k = self.g.pick(&["K", "M"]).to_string();
                let e = self.expr();
                format!("const {}: {} = {};", k, t, e)
            }
            2 => {
                let k = *self.g.pick(&["gzip", "base64", "xadd", "xmul", "nope", "v32", "len"]);
                format!("import_ffi {} as {};", k, self.g.pick(&["transform", "type", "function"]))
            }
            _ => {
                let a = self.tname();
                let al = if self.g.pct(40) { format!(" as {}", self.tname()) } else { String::new() };
                format!("import {}{} from {};", a, al, self.g.pick(&["\"one\"", "\"two\"", "\"three\"", "\"four\"", "\"none\""]))
            }
        }
    }
    pub fn program(&mut self) -> String {
        let n = self.g.range(1, 4);
        let mut s = String::new();
        if self.g.pct(60) {
            s.push_str("import_ffi xadd as transform;\nimport_ffi xmul as transform;\n");
        }
        for _ in 0..n {
            let d = self.decl();
            s.push_str(&d);
            s.push('\n');
        }
        s
    }
}

const WORDS: &[&str] = &[
    "type", "as", "import", "from", "import_ffi", "transform", "function", "const", "container", "enum", "default",
    "bitfield", "bool", "true", "false", "u8", "i64le", "u128", "f32", "f64", "=", ",", ";", ":", "::", ":>", "?", "?:",
    "[", "]", "{", "}", "(", ")", "..", ".", "->", "+", "-", "*", "/", "%", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==",
    "!=", "!", "~", "&", "&&", "|", "||", "^", "a", "b", "A", "0", "1", "255", "256", "0x", "0xff", "\"", "\"a\"",
    "\"\\ff\"", "//", "/*", "*/", "\\", "\n", "é", "\u{0}", "auto", "tagged_enum", "pad", "len", "blen", "v32", "utf8", "gzip", "@",
];

/// words and the space between them, good enough to cut and splice
pub fn words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut last = 0u8;
    for c in t.chars() {
        let k = if c.is_alphanumeric() || c == '_' {
            1
        } else if c.is_whitespace() {
            2
        } else {
            3
        };
        if k == last && k != 3 {
            v.last_mut().unwrap().push(c);
        } else {
            v.push(c.to_string());
        }
        last = k;
    }
    v
}

pub fn mutate(g: &mut Gen, a: &str, b: &str) -> String {
    let mut v = words(a);
    let other = words(b);
    let n = g.range(1, 4);
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let i = g.n(v.len());
        match g.w(&[4, 4, 5, 3, 3, 2, 2, 1]) {
            0 => {
                v.remove(i);
            }
            1 => {
                let w = v[i].clone();
                v.insert(i, w);
            }
            2 => v[i] = g.pick(WORDS).to_string(),
            3 => {
                let w = g.pick(WORDS).to_string();
                v.insert(i, w);
            }
            4 => {
                let j = g.n(v.len());
                v.swap(i, j);
            }
            5 => {
                let j = g.n(other.len());
                let m = g.n(other.len() - j).min(12);
                let piece = other[j..j + m].to_vec();
                v.splice(i..i, piece);
            }
            6 => {
                let j = (i + g.n(12)).min(v.len());
                v.drain(i..j);
            }
            _ => {
                let mut w: Vec<char> = v[i].chars().collect();
                let k = g.n(w.len());
                w[k] = char::from_u32(g.n(256) as u32).unwrap();
                v[i] = w.into_iter().collect();
            }
        }
    }
    v.concat()
}

pub fn words_only(g: &mut Gen) -> String {
    let n = g.n(40);
    (0..n).map(|_| g.pick(WORDS).to_string()).collect::<Vec<_>>().join(" ")
}
