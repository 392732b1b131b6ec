//! C21: a reference tokenizer, written from the grammar, and the checks against it.

use crate::direct::Direct;
use crate::front;
use crate::gen::{self, Cfg};
use crate::run::{h64, Stats, Tier};
use crate::soup::{self, Soup};
use crate::tape::Gen;
use protospec_build::{parse, tokenize, Token};
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Word(String),
    Int(String),
    Str(Vec<u8>),
    Line(String),
    Block(String),
    Op(String),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub a: usize,
    pub b: usize,
}

pub const OPS: [&str; 37] = [
    ">>>", "==", "?:", "||", "&&", "..", ":>", "::", "<=", "<<", ">=", ">>", "->", "!=", "=", ",", ";", "?", "[", "]", "{", "}", "(", ")", "+", "*", "%", "^", "~", "|", "/", "&", ".", ":", "<",
    ">", "-",
];

pub const KEYWORDS: [&str; 36] = [
    "type", "as", "import", "import_ffi", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "i16le", "i32le", "i64le", "i128le", "u16le", "u32le", "u64le", "u128le", "transform",
    "function", "const", "container", "f32", "f64", "enum", "default", "bitfield", "bool", "from", "true", "false", "",
];

/// the tokens of a text with their byte ranges, or where the first thing is that is no token
pub fn lex(s: &str) -> Result<Vec<Tok>, usize> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let lossy = |x: &[u8]| String::from_utf8_lossy(x).into_owned();
    while i < b.len() {
        let a = i;
        if matches!(b[i], b' ' | b'\t' | b'\n' | b'\r' | 12) {
            i += 1;
            continue;
        }
        let rest = &s.as_bytes()[i..];
        let t = if rest.starts_with(b"//") {
            let n = rest.iter().position(|x| *x == b'\n').unwrap_or(rest.len());
            i += n;
            T::Line(lossy(&rest[2..n]))
        } else if rest.starts_with(b"/*") {
            let mut j = 2;
            while j + 1 < rest.len() && &rest[j..j + 2] != b"*/" {
                j += 1;
            }
            if j + 1 >= rest.len() {
                return Err(a);
            }
            i += j + 2;
            T::Block(lossy(&rest[2..j]))
        } else if rest[0] == b'"' {
            let mut v = vec![];
            let mut j = 1;
            loop {
                let Some(c) = rest.get(j) else { return Err(a) };
                j += 1;
                match c {
                    b'"' => break,
                    b'\\' => {
                        let Some(c) = rest.get(j) else { return Err(a) };
                        j += 1;
                        match (*c as char).to_digit(16) {
                            None => v.push(*c),
                            Some(h) => match rest.get(j).and_then(|c| (*c as char).to_digit(16)) {
                                None => v.push(h as u8),
                                Some(l) => {
                                    j += 1;
                                    v.push((h * 16 + l) as u8);
                                }
                            },
                        }
                    }
                    c => v.push(*c),
                }
            }
            i += j;
            T::Str(v)
        } else if rest[0].is_ascii_digit() {
            let hex = rest.starts_with(b"0x");
            let mut j = if hex { 2 } else { 1 };
            while j < rest.len() && (if hex { rest[j].is_ascii_hexdigit() } else { rest[j].is_ascii_digit() }) {
                j += 1;
            }
            i += j;
            T::Int(lossy(&rest[..j]))
        } else if rest[0].is_ascii_alphabetic() || rest[0] == b'_' {
            let n = rest.iter().position(|c| !c.is_ascii_alphanumeric() && *c != b'_').unwrap_or(rest.len());
            i += n;
            T::Word(lossy(&rest[..n]))
        } else if rest.starts_with(b"!=") {
            i += 2;
            T::Op("!=".into())
        } else if rest[0] == b'!' {
            i += 1;
            T::Op("!".into())
        } else if let Some(o) = OPS.iter().find(|o| rest.starts_with(o.as_bytes())) {
            i += o.len();
            T::Op(o.to_string())
        } else {
            return Err(a);
        };
        out.push(Tok { t, a, b: i });
    }
    Ok(out)
}

/// line and column (in bytes), both from 1
pub fn place(s: &str, at: usize) -> (u64, u64) {
    let h = &s.as_bytes()[..at];
    let line = h.iter().filter(|c| **c == b'\n').count();
    let start = h.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    (line as u64 + 1, (at - start) as u64 + 1)
}

fn read(t: &Token) -> Result<T, String> {
    Ok(match t {
        Token::Ident(s) => {
            if KEYWORDS.contains(&&**s) {
                return Err(format!("{} is a keyword, but was read as a name", s));
            }
            T::Word(s.clone())
        }
        Token::String(v) => T::Str(v.clone()),
        Token::Int(s) => T::Int(s.clone()),
        Token::CommentLine(s) => T::Line(s.clone()),
        Token::CommentBlock(s) => T::Block(s.clone()),
        t => {
            let s = t.to_string().trim().to_string();
            if s.as_bytes()[0].is_ascii_alphabetic() {
                if !KEYWORDS.contains(&&*s) {
                    return Err(format!("{} is a name, but was read as a keyword", s));
                }
                T::Word(s)
            } else {
                T::Op(s)
            }
        }
    })
}

/// the numbers behind the last @ of a message
fn located(m: &str) -> Vec<u64> {
    let Some(p) = m.rfind('@') else { return vec![] };
    m[p + 1..].split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

fn error_place(text: &str, at: usize, m: &str) -> Result<(), String> {
    let n = located(m);
    let (l, c) = place(text, at);
    if n == [at as u64] || n == [at as u64 + 1] || (n.len() >= 2 && n[..2] == [l, c]) {
        Ok(())
    } else {
        Err(format!("an error does not say where the malformed token is [{}:{}, byte {}, but the error says: {}]", l, c, at, m))
    }
}

pub fn against(text: &str, want: &Result<Vec<Tok>, usize>) -> Result<(), String> {
    let got = match front::quiet(|| tokenize(text, false)) {
        Err(p) => return Err(format!("the tokenizer panicked: [{}]", p)),
        Ok(g) => g,
    };
    let (got, want) = match (got, want) {
        (Err(e), Err(at)) => {
            error_place(text, *at, &e.to_string())?;
            return match parse(text) {
                Ok(_) => Err("a text with a malformed token was parsed".into()),
                Err(e) => error_place(text, *at, &e.to_string()),
            };
        }
        (Err(e), Ok(_)) => return Err(format!("a well-formed text is refused: [{}]", e)),
        (Ok(_), Err(at)) => return Err(format!("the malformed token is not refused [at byte {}]", at)),
        (Ok(g), Ok(w)) => (g, w),
    };
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("a token is missing [{:?}]", w)) };
        let t = read(&g.token)?;
        if t != w.t {
            return Err(format!("a token is read wrongly [{:?}, should be {:?}]", t, w.t));
        }
        let s = &g.span;
        let line = matches!(w.t, T::Line(_));
        if (s.line_start, s.col_start) != place(text, w.a) {
            return Err(format!("a token starts elsewhere [{:?} at {:?}, but the span is {}]", w.t, place(text, w.a), s));
        }
        let e = (s.line_stop, s.col_stop);
        let next = (w.b + 1).min(text.len());
        let past = (place(text, w.b).0, place(text, w.b).1 + 1);
        if e != place(text, w.b) && !(line && (e == place(text, next) || e == past)) {
            return Err(format!("a token ends elsewhere [{:?} at {:?}, but the span is {}]", w.t, place(text, w.b), s));
        }
    }
    if got.len() != want.len() {
        return Err("a token too many".into());
    }
    let n = want.iter().filter(|t| !matches!(t.t, T::Line(_) | T::Block(_))).count();
    if tokenize(text, true).map(|x| x.len()).unwrap_or(usize::MAX) != n {
        return Err("stripping comments does not strip exactly the comments".into());
    }
    Ok(())
}

type At = ((u64, u64), (u64, u64));
fn at(v: &Value) -> Option<At> {
    let s = v.get("span")?;
    let n = |k: &str| s.get(k).and_then(|x| x.as_u64());
    Some(((n("line_start")?, n("col_start")?), (n("line_stop")?, n("col_stop")?)))
}

fn spans_in(v: &Value, out: &mut Vec<At>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| spans_in(x, out)),
        Value::Object(o) => {
            out.extend(at(v));
            o.values().for_each(|x| spans_in(x, out));
        }
        _ => {}
    }
}

const EXPRS: [&str; 8] = ["Binary", "Unary", "Cast", "ArrayIndex", "EnumAccess", "Ternary", "Call", "Member"];

/// spans of the syntax tree: leaves exactly, nodes at token boundaries, expressions around their parts
pub fn nodes(v: &Value, toks: &[(Tok, (u64, u64), (u64, u64))]) -> Result<usize, String> {
    let mut n = 0;
    match v {
        Value::Array(a) => {
            for x in a {
                n += nodes(x, toks)?;
            }
        }
        Value::Object(o) => {
            if let Some((a, b)) = at(v) {
                n += 1;
                let i = toks.binary_search_by_key(&a, |t| t.1).ok();
                let j = toks.binary_search_by_key(&b, |t| t.2).ok();
                let (Some(i), Some(j)) = (i, j) else {
                    return Err(format!("a node does not lie at tokens [{}]", v));
                };
                if j < i {
                    return Err(format!("a node ends before it starts [{}]", v));
                }
                let leaf = match (o.get("name"), o.get("value"), o.get("content"), o.len()) {
                    (Some(Value::String(s)), _, _, 2) => Some(T::Word(s.clone())),
                    (_, Some(Value::String(s)), _, _) => Some(T::Int(s.clone())),
                    (_, Some(Value::Bool(b)), _, _) => Some(T::Word(b.to_string())),
                    (_, _, Some(c), 2) => Some(T::Str(c.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect())),
                    _ => None,
                };
                if let Some(l) = leaf {
                    if toks[i].0.t != l || i != j {
                        return Err(format!("a span does not cover its text [{} is {:?}]", v, toks[i].0.t));
                    }
                }
            }
            for (k, x) in o {
                if o.len() == 1 && EXPRS.contains(&&**k) {
                    if let Some((a, b)) = at(x) {
                        let mut inner = vec![];
                        x.as_object().unwrap().values().for_each(|y| spans_in(y, &mut inner));
                        if inner.iter().any(|(c, d)| *c < a || *d > b) {
                            return Err(format!("the span of an expression does not cover its parts [{}: {}]", k, x));
                        }
                    }
                }
                n += nodes(x, toks)?;
            }
        }
        _ => {}
    }
    Ok(n)
}

fn word(g: &mut Gen) -> String {
    match g.n(4) {
        0 => KEYWORDS[g.n(35)].to_string(),
        1 => format!("{}{}", KEYWORDS[g.n(35)], g.pick(&["s", "_", "8", "le", "A", "0x"])),
        2 => {
            let k = KEYWORDS[g.n(35)];
            let n = g.n(k.len());
            let k = k[..n].to_string();
            if k.is_empty() {
                "_".into()
            } else if g.pct(50) {
                k.to_uppercase()
            } else {
                k
            }
        }
        _ => {
            let n = g.range(1, 8);
            let mut s = String::new();
            for i in 0..n {
                let c: &[u8] = if i == 0 { b"abcxyzABCXYZ_" } else { b"abcdefxyzABCDEFXYZ_0123456789" };
                s.push(*g.pick(c) as char);
            }
            s
        }
    }
}

fn int(g: &mut Gen) -> String {
    let n = if g.pct(10) { g.range(20, 60) } else { g.range(1, 6) };
    let hex = g.pct(40);
    let mut s = String::from(if hex { "0x" } else { "" });
    for _ in 0..n {
        s.push(*g.pick(if hex { b"0123456789abcdefABCDEF" as &[u8] } else { b"0123456789" }) as char);
    }
    s
}

fn raw(g: &mut Gen) -> String {
    match g.n(6) {
        0 => g.pick(&["é", "日", "🦀", "\u{0}", "\u{7f}", "ß"]).to_string(),
        1 => "\n".into(),
        2 => g.pick(&["/", "*", "'", " ", "\r", "\t", "//", "/ *"]).to_string(),
        _ => (g.range(b'a' as usize, b'z' as usize) as u8 as char).to_string(),
    }
}

/// a string literal and its value
pub fn string(g: &mut Gen) -> (String, Vec<u8>) {
    let mut s = String::from("\"");
    let mut v: Vec<u8> = vec![];
    let mut open = false; // a one-digit escape precedes
    let n = g.n(8);
    for _ in 0..n {
        match g.n(6) {
            0 => {
                let b = g.byte();
                let t = if g.pct(50) { format!("{:02x}", b) } else { format!("{:02X}", b) };
                s.push('\\');
                s.push_str(&t);
                v.push(b);
                open = false;
            }
            1 => {
                let d = g.n(16);
                s.push_str(&format!("\\{:x}", d));
                v.push(d as u8);
                open = true;
            }
            2 => {
                let c = *g.pick(b"\"\\ghnrstxz#/*\n ");
                s.push('\\');
                s.push(c as char);
                v.push(c);
                open = false;
            }
            _ => {
                let t = raw(g);
                if open && t.as_bytes()[0].is_ascii_hexdigit() {
                    s.push('g');
                    v.push(b'g');
                }
                s.push_str(&t);
                v.extend_from_slice(t.as_bytes());
                open = false;
            }
        }
    }
    s.push('"');
    (s, v)
}

fn comment(g: &mut Gen, block: bool) -> String {
    let n = g.n(6);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&raw(g));
    }
    if block {
        if g.pct(20) {
            s.push_str("/*");
        }
        if g.pct(20) {
            s.push('*');
        }
        s.replace("*/", "* ")
    } else {
        s.replace('\n', " ")
    }
}

pub fn space(g: &mut Gen) -> &'static str {
    *g.pick(&[" ", "\n", "  ", "\t", "\r\n", "\n\n", "\u{c}", " \n "])
}

/// must these two be kept apart?
pub fn apart(a: &str, b: &str) -> bool {
    let (x, y) = (a.as_bytes()[a.len() - 1], b.as_bytes()[0]);
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    if w(x) && w(y) {
        return true;
    }
    if x == b'"' || y == b'"' {
        return false;
    }
    let p = [x, y];
    p == *b"//" || p == *b"/*" || p == *b"!=" || OPS.iter().any(|o| o.as_bytes().windows(2).any(|w| w == p))
}

/// a text made of tokens that are known
fn made(g: &mut Gen) -> (String, Vec<Tok>) {
    let n = g.range(1, 14);
    let mut s = String::new();
    let mut out: Vec<Tok> = vec![];
    let mut last = String::new();
    for _ in 0..n {
        let (text, t) = match g.w(&[5, 3, 3, 6, 1, 1]) {
            0 => {
                let w = word(g);
                (w.clone(), T::Word(w))
            }
            1 => {
                let w = int(g);
                (w.clone(), T::Int(w))
            }
            2 => {
                let (s, v) = string(g);
                (s, T::Str(v))
            }
            3 => {
                let i = g.n(OPS.len() + 1);
                let o = OPS.get(i).unwrap_or(&"!").to_string();
                (o.clone(), T::Op(o))
            }
            4 => {
                let c = comment(g, false);
                (format!("//{}", c), T::Line(c))
            }
            _ => {
                let c = comment(g, true);
                (format!("/*{}*/", c), T::Block(c))
            }
        };
        if matches!(out.last(), Some(Tok { t: T::Line(_), .. })) {
            s.push('\n');
        } else if !last.is_empty() && apart(&last, &text) {
            s.push_str(space(g));
        }
        if g.pct(60) {
            s.push_str(space(g));
        }
        let a = s.len();
        s.push_str(&text);
        out.push(Tok { t, a, b: s.len() });
        last = text;
    }
    if g.pct(40) {
        if g.pct(50) {
            s.push('\n');
        } else if !matches!(out.last(), Some(Tok { t: T::Line(_), .. })) {
            s.push(' ');
        }
    }
    (s, out)
}

fn text(g: &mut Gen) -> (String, Option<Vec<Tok>>, &'static str) {
    match g.w(&[40, 20, 15, 10, 20, 5]) {
        0 => {
            let (s, t) = made(g);
            (s, Some(t), "known tokens")
        }
        1 => {
            let (s, _) = made(g);
            let (s2, _) = made(g);
            (soup::mutate(g, &s, &s2), None, "damaged tokens")
        }
        2 => {
            let n = g.n(40);
            let b: Vec<u8> = (0..n).map(|_| if g.pct(30) { g.byte() } else { *g.pick(b" \"\\/*;=:1a0xf{}[]()\n<>|&.?!-_\r@#$'`,%^~+") }).collect();
            (String::from_utf8_lossy(&b).into_owned(), None, "characters")
        }
        3 => (Soup::new(g).program(), None, "grammatical"),
        4 => {
            let p = crate::respell::any_tree(g);
            let st = crate::respell::style(g);
            (crate::respell::write(&p, st, g), None, "syntax tree")
        }
        _ => (gen::document(g, &Cfg { decls: (1, 3), ..Cfg::default() }).spec.text(), None, "document"),
    }
}

pub struct Tokens;

impl Direct for Tokens {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Sequences of tokens chosen by the generator, damaged ones, characters, and grammatical texts; the tokens read are compared with the chosen ones and with a reference tokenizer, spelling, value and span of each, and every span of the syntax tree with the tokens it covers. Non-trivial: at least three tokens or a malformed one (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 250_000,
            Tier::Thorough => 12_000_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let (s, known, kind) = text(g);
        st.evaluations += 1;
        st.class(kind);
        let want = lex(&s);
        if let Some(k) = known {
            let same = matches!(&want, Ok(w) if w.len() == k.len() && w.iter().zip(&k).all(|(x, y)| x.t == y.t && x.a == y.a && x.b == y.b));
            assert!(same, "the reference tokenizer disagrees with the generator: {:?}\n{:?}\n{:?}", s, want, k);
        }
        against(&s, &want).map_err(|e| (e, s.clone()))?;
        match &want {
            Ok(w) => {
                if w.len() >= 3 {
                    st.hit(h64(s.as_bytes()));
                }
                if let Ok(Ok(p)) = front::quiet(|| parse(&s)) {
                    st.class("parsed");
                    let v = serde_json::to_value(&p).unwrap();
                    let w: Vec<_> = w.iter().filter(|t| !matches!(t.t, T::Line(_) | T::Block(_))).map(|t| (t.clone(), place(&s, t.a), place(&s, t.b))).collect();
                    let n = nodes(&v, &w).map_err(|e| (e, s.clone()))?;
                    st.evaluations += n;
                }
            }
            Err(_) => {
                st.class("malformed");
                st.hit(h64(s.as_bytes()));
            }
        }
        st.sample(4, || json!({"text": s, "kind": kind, "tokens": want.as_ref().map(|w| w.len()).map_err(|a| format!("malformed at byte {}", a))}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        text(g).0
    }
}

/// used by the other checks: where a message points
pub fn message_place(m: &str) -> Vec<u64> {
    located(m)
}
