//! Reference semantics: an evaluator, an encoder and a decoder for `spec::Spec`, written from the
//! README and SPEC, sharing no code with the crate under test.

use crate::spec::*;
use rt::xf::{Kind as XK, Step};
use rt::Val;
use std::collections::HashMap;
use std::io::{Read, Write};

/// Why a model run has no answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// the document says this must be refused
    Reject(&'static str),
    /// the documents do not say what happens here
    Unspec(&'static str),
}
pub type M<T> = Result<T, Stop>;
fn unspec<T>(s: &'static str) -> M<T> {
    Err(Stop::Unspec(s))
}
fn reject<T>(s: &'static str) -> M<T> {
    Err(Stop::Reject(s))
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// unsigned values as themselves, signed ones as `i128 as u128`
    Int(Sc, u128),
    Bool(bool),
    Str(Vec<u8>),
    Enum(DId, u32, u128),
    /// anything only passed around
    Other(Ty, Val),
    None,
    Some(Box<V>),
}

impl V {
    pub fn u(&self) -> u128 {
        match self {
            V::Int(_, x) => *x,
            x => panic!("model: int expected, got {:?}", x),
        }
    }
    pub fn b(&self) -> bool {
        match self {
            V::Bool(x) => *x,
            x => panic!("model: bool expected, got {:?}", x),
        }
    }
}

#[derive(Clone)]
pub enum Node {
    B(Vec<u8>),
    Xf(XK, u8, Vec<Node>),
    B64(Vec<Node>),
    Gz(Vec<Node>),
}

fn push(o: &mut Vec<Node>, b: &[u8]) {
    if let Some(Node::B(v)) = o.last_mut() {
        v.extend_from_slice(b);
    } else {
        o.push(Node::B(b.to_vec()));
    }
}

pub fn b64(b: &[u8]) -> Vec<u8> {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i)) as usize & 63]);
            } else {
                o.push(b'=');
            }
        }
    }
    o
}

pub fn gz(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

pub fn step_enc(k: XK, key: u8, b: &[u8]) -> Vec<u8> {
    let mut s = Step::new(k, key as u64);
    b.iter().map(|x| s.enc(*x)).collect()
}
pub fn step_dec(k: XK, key: u8, b: &[u8]) -> Vec<u8> {
    let mut s = Step::new(k, key as u64);
    b.iter().map(|x| s.dec(*x)).collect()
}

/// the bytes of an encoding, with compressed parts at the given level
pub fn realize(n: &[Node], level: u32) -> Vec<u8> {
    let mut o = vec![];
    for x in n {
        match x {
            Node::B(b) => o.extend_from_slice(b),
            Node::Xf(k, key, i) => o.extend(step_enc(*k, *key, &realize(i, level))),
            Node::B64(i) => o.extend(b64(&realize(i, level))),
            Node::Gz(i) => o.extend(gz(&realize(i, level), level)),
        }
    }
    o
}
pub fn has_gz(n: &[Node]) -> bool {
    n.iter().any(|x| match x {
        Node::B(_) => false,
        Node::Xf(_, _, i) | Node::B64(i) => has_gz(i),
        Node::Gz(_) => true,
    })
}

/// Does `b` spell exactly this encoding, whatever the compressor chose?
pub fn matches(n: &[Node], b: &[u8]) -> Result<(), String> {
    let k = begins(n, b)?;
    if k == b.len() {
        Ok(())
    } else {
        Err(format!("{} bytes too many: {}", b.len() - k, hex(&b[k..])))
    }
}

/// How much of the beginning of `b` spells this encoding?
fn begins(n: &[Node], b: &[u8]) -> Result<usize, String> {
    let all = b.len();
    let mut b = b;
    for x in n {
        if !has_gz(std::slice::from_ref(x)) {
            let e = realize(std::slice::from_ref(x), 6);
            if b.len() < e.len() || b[..e.len()] != e[..] {
                return Err(format!("expected {} here, found {}", hex(&e), hex(&b[..b.len().min(e.len())])));
            }
            b = &b[e.len()..];
            continue;
        }
        match x {
            Node::Xf(k, key, i) => {
                b = &b[begins(i, &step_dec(*k, *key, b))?..];
            }
            Node::B64(i) => {
                // valid base64 of something matching
                let mut t = vec![];
                for c in b.chunks(4) {
                    if c.len() < 4 {
                        return Err("base64 not a multiple of four".into());
                    }
                    let mut n = 0u32;
                    let mut k = 0;
                    for (j, d) in c.iter().enumerate() {
                        let v = match d {
                            b'A'..=b'Z' => d - b'A',
                            b'a'..=b'z' => d - b'a' + 26,
                            b'0'..=b'9' => d - b'0' + 52,
                            b'+' => 62,
                            b'/' => 63,
                            b'=' => {
                                k += 1;
                                0
                            }
                            _ => return Err("not base64".into()),
                        };
                        n |= (v as u32) << (18 - 6 * j);
                    }
                    t.extend_from_slice(&n.to_be_bytes()[1..4 - k.min(2)]);
                }
                if b64(&t) != b {
                    return Err("not canonical base64".into());
                }
                matches(i, &t)?;
                b = &[];
            }
            Node::Gz(i) => {
                let mut d = flate2::bufread::GzDecoder::new(b);
                let mut t = vec![];
                d.read_to_end(&mut t).map_err(|e| format!("not a gzip stream: {}", e))?;
                let rest = d.into_inner();
                matches(i, &t).map_err(|e| format!("inside gzip: {}", e))?;
                b = rest;
            }
            Node::B(_) => unreachable!(),
        }
    }
    Ok(all - b.len())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 200 {
            s.push_str("..");
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    if s.is_empty() {
        s.push_str("(nothing)");
    }
    s
}

#[derive(Clone, Default)]
pub struct Env {
    pub f: HashMap<String, V>,
    pub a: HashMap<String, V>,
    /// encoded sizes for blen
    pub blen: HashMap<String, u64>,
}

pub fn fit(s: Sc, x: i128, wide: Option<u128>) -> Option<u128> {
    // x is the exact result, or `wide` when it does not fit an i128
    match wide {
        Some(u) => (!s.signed() && u <= s.umax()).then_some(u),
        None => {
            if s.signed() {
                (x >= s.imin() && x <= s.umax() as i128).then_some(x as u128)
            } else {
                (x >= 0 && x as u128 <= s.umax()).then_some(x as u128)
            }
        }
    }
}

pub fn arith(o: Op, s: Sc, a: u128, b: u128) -> M<u128> {
    let r = if s.signed() {
        let (x, y) = (a as i128, b as i128);
        match o {
            Op::Add => x.checked_add(y),
            Op::Sub => x.checked_sub(y),
            Op::Mul => x.checked_mul(y),
            Op::Div => x.checked_div(y),
            Op::Mod => x.checked_rem(y),
            Op::BitAnd => Some(x & y),
            Op::BitOr => Some(x | y),
            Op::BitXor => Some(x ^ y),
            Op::Shl => {
                if y < 0 || y >= s.bits() as i128 {
                    None
                } else {
                    // bits shifted out are lost
                    let sh = 128 - s.bits();
                    Some(((x as u128) << y << sh) as i128 >> sh)
                }
            }
            Op::Shr | Op::Sar => {
                if y < 0 || y >= s.bits() as i128 {
                    None
                } else if o == Op::Shr && x < 0 {
                    return unspec(">> of a negative number");
                } else {
                    Some(x >> y)
                }
            }
            _ => unreachable!(),
        }
        .filter(|r| *r >= s.imin() && *r <= s.umax() as i128)
        .map(|r| r as u128)
    } else {
        let m = s.umax();
        match o {
            Op::Add => a.checked_add(b),
            Op::Sub => a.checked_sub(b),
            Op::Mul => a.checked_mul(b),
            Op::Div => a.checked_div(b),
            Op::Mod => a.checked_rem(b),
            Op::BitAnd => Some(a & b),
            Op::BitOr => Some(a | b),
            Op::BitXor => Some(a ^ b),
            Op::Shl => (b < s.bits() as u128).then(|| (a << b) & m),
            Op::Shr | Op::Sar => {
                if o == Op::Sar && a >> (s.bits() - 1) != 0 {
                    return unspec(">>> of an unsigned number with its top bit set");
                }
                (b < s.bits() as u128).then(|| a >> b)
            }
            _ => unreachable!(),
        }
        .filter(|r| *r <= m)
    };
    match r {
        Some(x) => Ok(x),
        None => reject("arithmetic overflow"),
    }
}

/// two's complement conversion, as every integer cast
pub fn wrap(from: Sc, to: Sc, x: u128) -> u128 {
    let _ = from;
    let b = to.bits();
    if to.signed() {
        let sh = 128 - b;
        ((x << sh) as i128 >> sh) as u128
    } else if b == 128 {
        x
    } else {
        x & ((1u128 << b) - 1)
    }
}

impl Spec {
    /// Val -> V for a value of this type
    pub fn lift(&self, t: &Ty, v: &Val) -> V {
        match (t, v) {
            (Ty::Sc(s, _), Val::U(x)) => V::Int(*s, *x),
            (Ty::Sc(s, _), Val::I(x)) => V::Int(*s, *x as u128),
            (Ty::Var(s), Val::I(x)) => V::Int(*s, *x as u128),
            (Ty::Bool, Val::Bool(b)) => V::Bool(*b),
            (Ty::Ref(d, _), v) => {
                let f = self.decls[*d].field();
                match (&f.ty, v) {
                    (Ty::Enum(e), Val::Var(i, p)) => {
                        let rep = match p.first() {
                            Some(Val::U(x)) => *x,
                            Some(Val::I(x)) => *x as u128,
                            _ => self.enum_value(e, *i as usize).unwrap_or(0),
                        };
                        V::Enum(*d, *i, rep)
                    }
                    (Ty::Bits(b), Val::U(x)) => V::Other(t.clone(), Val::U(*x & b.rep.umax())),
                    _ => V::Other(t.clone(), v.clone()),
                }
            }
            (t, v) => V::Other(t.clone(), v.clone()),
        }
    }
    pub fn lower(&self, v: &V) -> Val {
        match v {
            V::Int(s, x) => {
                if s.signed() {
                    Val::I(*x as i128)
                } else {
                    Val::U(*x)
                }
            }
            V::Bool(b) => Val::Bool(*b),
            V::Str(s) => Val::List(s.iter().map(|x| Val::U(*x as u128)).collect()),
            V::Enum(d, i, rep) => {
                let e = match &self.decls[*d].field().ty {
                    Ty::Enum(e) => e,
                    _ => unreachable!(),
                };
                if matches!(e.items[*i as usize].1, Some(None)) {
                    Val::Var(*i, vec![self.lower(&V::Int(e.rep, *rep))])
                } else {
                    Val::Var(*i, vec![])
                }
            }
            V::Other(_, v) => v.clone(),
            V::None => Val::None,
            V::Some(v) => Val::some(self.lower(v)),
        }
    }

    pub fn enum_value(&self, e: &EnumT, i: usize) -> M<u128> {
        let mut k = i;
        let mut off = 0u128;
        loop {
            match &e.items[k].1 {
                Some(Some(x)) => {
                    let b = self.eval(x, &Env::default())?.u();
                    return arith(Op::Add, e.rep, b, off);
                }
                Some(None) => return unspec("value of a default variant"),
                None => {
                    off += 1;
                    k -= 1;
                }
            }
        }
    }
    pub fn bit_value(&self, e: &BitsT, i: usize) -> M<u128> {
        let mut k = i;
        let mut off = 0u128;
        loop {
            match &e.items[k].1 {
                Some(x) => {
                    let b = self.eval(x, &Env::default())?.u();
                    let r = arith(Op::Shl, e.rep, b, off)?;
                    if r == 0 || r >> off != b {
                        return unspec("flag shifted out");
                    }
                    return Ok(r);
                }
                None => {
                    off += 1;
                    k -= 1;
                }
            }
        }
    }
    pub fn bit_all(&self, e: &BitsT) -> M<u128> {
        let mut all = 0;
        for i in 0..e.items.len() {
            all |= self.bit_value(e, i)?;
        }
        Ok(all)
    }

    fn as_int(&self, v: &V) -> (Sc, u128) {
        match v {
            V::Int(s, x) => (*s, *x),
            V::Enum(d, _, rep) => match &self.decls[*d].field().ty {
                Ty::Enum(e) => (e.rep, *rep),
                _ => unreachable!(),
            },
            V::Other(Ty::Ref(d, _), Val::U(x)) => match &self.decls[*d].field().ty {
                Ty::Bits(b) => (b.rep, *x),
                _ => panic!("model: not an integer"),
            },
            v => panic!("model: not an integer: {:?}", v),
        }
    }

    pub fn eval(&self, e: &Expr, env: &Env) -> M<V> {
        Ok(match e {
            Expr::Int(v, s, ..) => V::Int(*s, *v),
            Expr::Bool(b) => V::Bool(*b),
            Expr::Str(s) => V::Str(s.clone()),
            Expr::Field(n) => match env.f.get(n) {
                Some(v) => v.clone(),
                // its calculation failed
                None => return Err(Stop::Unspec("field without a value")),
            },
            Expr::Input(n) => env.a[n].clone(),
            Expr::Const(d) => match &self.decls[*d].kind {
                Kind::Const { expr, .. } => self.eval(expr, &Env::default())?,
                _ => unreachable!(),
            },
            Expr::EnumV(d, i) => match &self.decls[*d].field().ty {
                Ty::Enum(t) => V::Enum(*d, *i as u32, self.enum_value(t, *i)?),
                Ty::Bits(t) => V::Other(Ty::Ref(*d, vec![]), Val::U(self.bit_value(t, *i)?)),
                _ => unreachable!(),
            },
            Expr::Un(u, x) => {
                let x = self.eval(x, env)?;
                match (u, x) {
                    (Un::Not, V::Bool(b)) => V::Bool(!b),
                    (Un::BitNot, V::Int(s, x)) => V::Int(s, wrap(s, s, !x)),
                    (Un::Neg, V::Int(s, x)) => V::Int(s, arith(Op::Sub, s, 0, x)?),
                    (u, x) => panic!("model: {:?} {:?}", u, x),
                }
            }
            Expr::Bin(Op::Elvis, a, b) => match self.eval(a, env)? {
                V::None => self.eval(b, env)?,
                V::Some(v) => {
                    // the alternative is evaluated as well; it must not fail
                    self.eval(b, env)?;
                    *v
                }
                v => panic!("model: elvis on {:?}", v),
            },
            Expr::Bin(Op::Or, a, b) => {
                V::Bool(self.eval(a, env)?.b() || self.eval(b, env)?.b())
            }
            Expr::Bin(Op::And, a, b) => {
                V::Bool(self.eval(a, env)?.b() && self.eval(b, env)?.b())
            }
            Expr::Bin(o, a, b) => {
                let (x, y) = (self.eval(a, env)?, self.eval(b, env)?);
                match o {
                    Op::Eq | Op::Ne => {
                        let eq = match (&x, &y) {
                            (V::Int(_, a), V::Int(_, b)) => a == b,
                            (V::Bool(a), V::Bool(b)) => a == b,
                            (V::Enum(_, a, ra), V::Enum(_, b, rb)) => a == b && ra == rb,
                            (V::Other(_, a), V::Other(_, b)) => a == b,
                            (V::Str(a), V::Str(b)) => a == b,
                            (V::Other(_, Val::List(l)), V::Str(s)) | (V::Str(s), V::Other(_, Val::List(l))) => {
                                l.len() == s.len()
                                    && l.iter().zip(s).all(|(a, b)| *a == Val::U(*b as u128))
                            }
                            (a, b) => panic!("model: {:?} == {:?}", a, b),
                        };
                        V::Bool(eq == (*o == Op::Eq))
                    }
                    Op::Lt | Op::Gt | Op::Le | Op::Ge => {
                        let (s, a) = self.as_int(&x);
                        let (_, b) = self.as_int(&y);
                        let c = if s.signed() { (a as i128).cmp(&(b as i128)) } else { a.cmp(&b) };
                        V::Bool(match o {
                            Op::Lt => c.is_lt(),
                            Op::Gt => c.is_gt(),
                            Op::Le => c.is_le(),
                            _ => c.is_ge(),
                        })
                    }
                    o => {
                        let (s, a) = self.as_int(&x);
                        let (s2, b) = self.as_int(&y);
                        assert!(s == s2, "model: operand types differ in {:?}", e);
                        V::Int(s, arith(*o, s, a, b)?)
                    }
                }
            }
            Expr::Coerce(x, s) => {
                let x = self.eval(x, env)?;
                let (f, x) = self.as_int(&x);
                V::Int(*s, wrap(f, *s, x))
            }
            Expr::Cast(x, t) => {
                let x = self.eval(x, env)?;
                match &**t {
                    Ty::Sc(s, _) => {
                        let (f, x) = self.as_int(&x);
                        V::Int(*s, wrap(f, *s, x))
                    }
                    t => panic!("model: cast to {:?}", t),
                }
            }
            Expr::Tern(c, a, b) => {
                if self.eval(c, env)?.b() {
                    self.eval(a, env)?
                } else {
                    self.eval(b, env)?
                }
            }
            Expr::Idx(a, i) => {
                let i = self.eval(i, env)?.u();
                match self.eval(a, env)? {
                    V::Other(Ty::Arr(t, _), Val::List(l)) => match l.get(i as usize) {
                        Some(v) if i < l.len() as u128 => self.lift(&t, v),
                        _ => return reject("index out of range"),
                    },
                    v => panic!("model: index of {:?}", v),
                }
            }
            Expr::Member(x, d, i) => {
                let x = match self.eval(x, env)? {
                    V::Other(_, Val::U(x)) => x,
                    v => panic!("model: member of {:?}", v),
                };
                match &self.decls[*d].field().ty {
                    Ty::Bits(b) => V::Bool(x & self.bit_value(b, *i)? != 0),
                    _ => unreachable!(),
                }
            }
            Expr::Call(f, args) => {
                let r = match f {
                    Fun::Blen => match &args[0] {
                        Expr::Field(n) => match env.blen.get(n) {
                            Some(x) => *x as u128,
                            None => panic!("model: blen of {} unknown", n),
                        },
                        _ => unreachable!(),
                    },
                    Fun::Len => match self.eval(&args[0], env)? {
                        V::Other(_, Val::List(l)) => l.len() as u128,
                        V::Other(Ty::Utf16(_), Val::Str(s)) => {
                            String::from_utf8(s).unwrap().encode_utf16().count() as u128
                        }
                        V::Other(_, Val::Str(s)) => s.len() as u128,
                        V::Str(s) => s.len() as u128,
                        V::Bool(_) => 1,
                        V::Other(Ty::F32, _) => 4,
                        V::Other(Ty::F64, _) => 8,
                        v @ (V::Int(..) | V::Enum(..) | V::Other(..)) => {
                            self.as_int(&v).0.bytes() as u128
                        }
                        v => panic!("model: len of {:?}", v),
                    },
                    Fun::Pad => {
                        let p = self.eval(&args[0], env)?.u();
                        let b = self.eval(&args[1], env)?.u();
                        if p == 0 {
                            return reject("pad to a multiple of zero");
                        }
                        (p - b % p) % p
                    }
                    Fun::Bits => {
                        let x = self.eval(&args[0], env)?;
                        let (s, x) = self.as_int(&x);
                        return Ok(V::Int(Sc::U8, wrap(s, s.unsigned(), x).count_ones() as u128))
                    }
                    Fun::Sum => match self.eval(&args[0], env)? {
                        V::Other(Ty::Arr(t, _), Val::List(l)) => {
                            let mut n = Some(0i128);
                            for x in &l {
                                let (s, x) = self.as_int(&self.lift(&t, x));
                                if !s.signed() && x > i128::MAX as u128 {
                                    return reject("sum of a value outside u64");
                                }
                                n = n.and_then(|n| n.checked_add(x as i128));
                            }
                            match n {
                                Some(n) if n >= 0 && n <= u64::MAX as i128 => n as u128,
                                _ => return reject("sum outside u64"),
                            }
                        }
                        v => panic!("model: sum of {:?}", v),
                    },
                };
                V::Int(Sc::U64, r)
            }
        })
    }

    // -------------------------------------------------------------- encoding

    fn put_sc(s: Sc, le: bool, x: u128, o: &mut Vec<Node>) {
        let n = s.bytes();
        if le {
            push(o, &x.to_le_bytes()[..n]);
        } else {
            push(o, &x.to_be_bytes()[16 - n..]);
        }
    }

    pub fn apply_xf(&self, xf: &[Xf], env: &Env, mut inner: Vec<Node>) -> M<Vec<Node>> {
        // left to right on the way out
        for x in xf {
            if let Some(c) = &x.cond {
                if !self.eval(c, env)?.b() {
                    continue;
                }
            }
            inner = vec![match x.kind {
                XfKind::Add | XfKind::Mul => {
                    let key = match x.args.first() {
                        Some(a) => self.eval(a, env)?.u() as u8,
                        None => 0,
                    };
                    let k = if x.kind == XfKind::Add { XK::Add } else { XK::Mul };
                    Node::Xf(k, key, inner)
                }
                XfKind::Gzip => Node::Gz(inner),
                XfKind::Base64 => Node::B64(inner),
            }];
        }
        Ok(inner)
    }

    pub fn enc_ty(&self, t: &Ty, v: &Val, env: &Env, o: &mut Vec<Node>) -> M<()> {
        match (t, v) {
            (Ty::Sc(s, le), Val::U(x)) => Self::put_sc(*s, *le, *x, o),
            (Ty::Sc(s, le), Val::I(x)) => Self::put_sc(*s, *le, *x as u128, o),
            (Ty::F32, Val::U(x)) => push(o, &(*x as u32).to_be_bytes()),
            (Ty::F64, Val::U(x)) => push(o, &(*x as u64).to_be_bytes()),
            (Ty::Bool, Val::Bool(b)) => push(o, &[*b as u8]),
            (Ty::Var(s), Val::I(x)) => {
                let mut x = wrap(*s, s.unsigned(), *x as u128);
                loop {
                    let b = (x & 127) as u8;
                    x >>= 7;
                    push(o, &[if x != 0 { b | 128 } else { b }]);
                    if x == 0 {
                        break;
                    }
                }
            }
            (Ty::Utf8Nul, Val::Str(s)) => {
                if s.contains(&0) {
                    return reject("NUL inside a NUL-terminated string");
                }
                push(o, s);
                push(o, &[0]);
            }
            (Ty::Utf8(l), Val::Str(s)) => {
                if self.eval(l, env)?.u() != s.len() as u128 {
                    return reject("string length disagrees with its declaration");
                }
                push(o, s);
            }
            (Ty::Utf16(l), Val::Str(s)) => {
                let u: Vec<u16> = String::from_utf8(s.clone()).unwrap().encode_utf16().collect();
                if self.eval(l, env)?.u() != u.len() as u128 {
                    return reject("string length disagrees with its declaration");
                }
                for c in u {
                    push(o, &c.to_be_bytes());
                }
            }
            (Ty::Arr(e, l), Val::List(vs)) => {
                if let Len::Fixed(n) = l {
                    if self.eval(n, env)?.u() != vs.len() as u128 {
                        return reject("array length disagrees with its declaration");
                    }
                }
                let mut all = vec![];
                let mut starts = vec![];
                for x in vs {
                    let mut one = vec![];
                    self.enc_ty(e, x, env, &mut one)?;
                    if let Len::Fixed(_) = l {
                        o.extend(one);
                    } else {
                        starts.push(all.len());
                        all.extend(realize(&one, 6));
                        o.extend(one);
                    }
                }
                // an element that looks like the end of the array cannot be represented
                if let Len::Term(t) = l {
                    let t = self.term(t)?;
                    all.extend(&t);
                    push(o, &t);
                    if starts.iter().any(|x| all[*x..].starts_with(&t)) {
                        return reject("element looks like the terminator");
                    }
                } else if starts.iter().any(|x| *x == all.len()) {
                    return reject("empty element at the end of an unbounded array");
                }
            }
            (Ty::Ref(d, a), v) => {
                let args = self.args_of(*d, a, env)?;
                self.enc_decl(*d, &args, v, o)?;
            }
            (t, v) => panic!("model: encode {:?} as {:?}", v, t),
        }
        Ok(())
    }

    fn term(&self, t: &Expr) -> M<Vec<u8>> {
        match self.eval(t, &Env::default())? {
            V::Str(s) => Ok(s),
            _ => unreachable!(),
        }
    }

    pub fn args_of(&self, d: DId, a: &[Expr], env: &Env) -> M<Vec<V>> {
        let decl = self.decls[d].args();
        let mut out = vec![];
        for x in a {
            out.push(self.eval(x, env)?);
        }
        self.default_args(decl, &mut out)?;
        Ok(out)
    }
    /// fill in the defaults of trailing arguments
    pub fn default_args(&self, decl: &[Arg], out: &mut Vec<V>) -> M<()> {
        for a in &decl[out.len()..] {
            match &a.default {
                Some(x) => {
                    let v = self.eval(x, &Env::default())?;
                    out.push(v);
                }
                None => panic!("model: missing argument"),
            }
        }
        Ok(())
    }

    pub fn decl_env(&self, d: DId, args: &[V]) -> Env {
        let mut env = Env::default();
        for (a, v) in self.decls[d].args().iter().zip(args) {
            env.a.insert(a.name.clone(), v.clone());
        }
        env
    }

    pub fn enc_decl(&self, d: DId, args: &[V], v: &Val, o: &mut Vec<Node>) -> M<()> {
        let f = self.decls[d].field();
        let mut env = self.decl_env(d, args);
        let mut inner = vec![];
        match &f.ty {
            Ty::Enum(e) => {
                let rep = match v {
                    Val::Var(_, p) if !p.is_empty() => match &p[0] {
                        Val::U(x) => *x,
                        Val::I(x) => *x as u128,
                        _ => unreachable!(),
                    },
                    Val::Var(i, _) => self.enum_value(e, *i as usize)?,
                    _ => unreachable!(),
                };
                Self::put_sc(e.rep, e.le, rep, &mut inner);
            }
            Ty::Bits(b) => match v {
                Val::U(x) => Self::put_sc(b.rep, b.le, *x, &mut inner),
                _ => unreachable!(),
            },
            Ty::Cont(c) if c.tagged => {
                let (i, p) = match v {
                    Val::Var(i, p) => (*i as usize, p),
                    _ => unreachable!(),
                };
                let sel = match self.select(c, &env)? {
                    Some(s) => s,
                    None => return reject("no variant's condition holds"),
                };
                if sel != i {
                    return reject("variant disagrees with the conditions");
                }
                let vf = match &c.items[i] {
                    Item::Field(_, f) => f,
                    _ => unreachable!(),
                };
                let mut one = vec![];
                match &vf.ty {
                    Ty::Cont(s) => {
                        self.bind(s, p, &mut env)?;
                        self.enc_cont(s, &mut env, &mut one)?;
                    }
                    t => self.enc_ty(t, &p[0], &env, &mut one)?,
                }
                inner = self.apply_xf(&vf.xf, &env, one)?;
                self.check_len(c, &env, &inner)?;
            }
            Ty::Cont(c) => {
                let p = match v {
                    Val::Rec(p) => p,
                    _ => unreachable!(),
                };
                self.bind(c, p, &mut env)?;
                self.enc_cont(c, &mut env, &mut inner)?;
            }
            t => {
                let x = match v {
                    Val::Rec(p) => &p[0],
                    _ => unreachable!("{:?} for {:?}", v, t),
                };
                match &f.cond {
                    None => self.enc_ty(t, x, &env, &mut inner)?,
                    Some(c) => {
                        if !self.eval(c, &env)?.b() {
                            return Ok(());
                        }
                        match x {
                            Val::None => return reject("condition holds but there is no value"),
                            Val::Some(x) => self.enc_ty(t, x, &env, &mut inner)?,
                            _ => unreachable!(),
                        }
                    }
                }
            }
        }
        let inner = self.apply_xf(&f.xf, &env, inner)?;
        o.extend(inner);
        Ok(())
    }

    pub fn select(&self, c: &Cont, env: &Env) -> M<Option<usize>> {
        for (i, it) in c.items.iter().enumerate() {
            if let Item::Field(_, f) = it {
                match &f.cond {
                    None => return Ok(Some(i)),
                    Some(x) => {
                        if self.eval(x, env)?.b() {
                            return Ok(Some(i));
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    /// put the fields of a struct value in scope; calculated ones get their computed value
    pub fn bind(&self, c: &Cont, p: &[Val], env: &mut Env) -> M<()> {
        let fl = flatten(c);
        assert_eq!(fl.len(), p.len(), "model: struct shape");
        for (f, v) in fl.iter().zip(p) {
            if f.field.calc.is_some() {
                continue;
            }
            let lifted = if f.opt {
                match v {
                    Val::None => V::None,
                    Val::Some(x) => V::Some(Box::new(self.lift(&f.field.ty, x))),
                    _ => unreachable!(),
                }
            } else {
                self.lift(&f.field.ty, v)
            };
            env.f.insert(f.name.to_string(), lifted);
        }
        Ok(())
    }

    fn has_blen(e: &Expr) -> Option<String> {
        match e {
            Expr::Call(Fun::Blen, a) => match &a[0] {
                Expr::Field(n) => Some(n.clone()),
                _ => None,
            },
            Expr::Call(_, a) => a.iter().find_map(Self::has_blen),
            Expr::Un(_, x) | Expr::Cast(x, _) | Expr::Coerce(x, _) => Self::has_blen(x),
            Expr::Member(x, ..) => Self::has_blen(x),
            Expr::Bin(_, a, b) | Expr::Idx(a, b) => {
                Self::has_blen(a).or_else(|| Self::has_blen(b))
            }
            Expr::Tern(a, b, c) => {
                Self::has_blen(a).or_else(|| Self::has_blen(b)).or_else(|| Self::has_blen(c))
            }
            _ => None,
        }
    }

    /// find a nested container by field name
    fn find_cont<'a>(c: &'a Cont, n: &str) -> Option<&'a Cont> {
        for it in &c.items {
            if let Item::Field(m, f) = it {
                if let Ty::Cont(s) = &f.ty {
                    if m == n {
                        return Some(s);
                    }
                    if let Some(x) = Self::find_cont(s, n) {
                        return Some(x);
                    }
                }
            }
        }
        None
    }

    /// calculated fields of `c`, in dependency order
    pub fn calc(&self, c: &Cont, env: &mut Env) -> M<()> {
        // those in conditional containers are calculated when these are encoded
        fn present<'a>(c: &'a Cont, out: &mut Vec<(&'a str, &'a Field)>) {
            for it in &c.items {
                if let Item::Field(n, f) = it {
                    match &f.ty {
                        Ty::Cont(_) if f.cond.is_some() => (),
                        Ty::Cont(s) => present(s, out),
                        _ => out.push((n, f)),
                    }
                }
            }
        }
        let mut fl = vec![];
        present(c, &mut fl);
        for round in 0..2 {
            // plain ones first: a length may have to cover a calculated field
            // (present only if a measured field says so: calculated with those)
            let measured = |f: &Field| f.calc.as_ref().map_or(false, |x| Self::has_blen(x).is_some());
            let late = |f: &Field| {
                let mut d = vec![];
                if let Some(k) = &f.cond {
                    crate::gen::expr_fields(k, &mut d);
                }
                measured(f) || fl.iter().any(|o| measured(o.1) && d.iter().any(|n| n == o.0))
            };
            let mut left: Vec<_> = fl.iter().rev().filter(|f| f.1.calc.is_some() && (round == 0) != late(f.1)).collect();
            while !left.is_empty() {
                // one whose operands are known, of later fields first
                let ready = |f: &Field| {
                    let mut d = vec![];
                    for x in f.calc.iter().chain(&f.cond) {
                        crate::gen::expr_fields(x, &mut d);
                    }
                    !left.iter().any(|o| d.iter().any(|n| n == o.0))
                };
                let k = left.iter().position(|f| ready(f.1)).unwrap_or(0);
                let f = left.remove(k);
                if let Some(x) = &f.1.calc {
                    let b = Self::has_blen(x);
                    {
                        if let Some(n) = b {
                            let s = Self::find_cont(c, &n).expect("model: blen target");
                            let mut o = vec![];
                            let mut e2 = env.clone();
                            self.enc_items(s, &mut e2, &mut o)?;
                            if has_gz(&o) {
                                return unspec("blen over a compressed part");
                            }
                            env.blen.insert(n, realize(&o, 6).len() as u64);
                        }
                        // what is absent is not calculated
                        let v = match &f.1.cond {
                            None => self.eval(x, env)?,
                            Some(k) => {
                                if self.eval(k, env)?.b() {
                                    V::Some(Box::new(self.eval(x, env)?))
                                } else {
                                    V::None
                                }
                            }
                        };
                        env.f.insert(f.0.to_string(), v);
                    }
                }
            }
        }
        Ok(())
    }

    pub fn enc_cont(&self, c: &Cont, env: &mut Env, o: &mut Vec<Node>) -> M<()> {
        self.calc(c, env)?;
        let mut i = vec![];
        self.enc_items(c, env, &mut i)?;
        self.check_len(c, env, &i)?;
        o.extend(i);
        Ok(())
    }

    fn check_len(&self, c: &Cont, env: &Env, i: &[Node]) -> M<()> {
        if let Some(l) = &c.len {
            let l = self.eval(l, env)?.u();
            if has_gz(i) {
                return unspec("length of a compressed part");
            }
            if l != realize(i, 6).len() as u128 {
                return reject("container length disagrees with its contents");
            }
        }
        Ok(())
    }

    pub fn enc_items(&self, c: &Cont, env: &mut Env, o: &mut Vec<Node>) -> M<()> {
        for it in &c.items {
            match it {
                Item::Pad(e) => {
                    let n = self.eval(e, env)?.u();
                    if n > 4096 {
                        return unspec("large pad");
                    }
                    push(o, &vec![0; n as usize]);
                }
                Item::Field(n, f) => {
                    if let Some(c) = &f.cond {
                        if !self.eval(c, env)?.b() {
                            continue;
                        }
                    }
                    let mut one = vec![];
                    match &f.ty {
                        Ty::Cont(s) => {
                            let saved = env.clone();
                            if f.cond.is_some() {
                                // inside, the fields are present
                                for x in flatten(s) {
                                    if x.opt || x.field.calc.is_some() {
                                        continue;
                                    }
                                    match env.f.get(x.name) {
                                        Some(V::Some(v)) => {
                                            let v = (**v).clone();
                                            env.f.insert(x.name.to_string(), v);
                                        }
                                        Some(V::None) => {
                                            return reject("condition holds but there is no value")
                                        }
                                        _ => {}
                                    }
                                }
                            }
                            if f.cond.is_some() {
                                self.calc(s, env)?;
                            }
                            let r = self.enc_items(s, env, &mut one).and_then(|_| match self.check_len(s, env, &one) {
                                // the length is whatever the document calculates from blen()
                                Err(Stop::Reject(_)) if env.blen.contains_key(n) => unspec("calculated container length does not fit"),
                                r => r,
                            });
                            *env = saved;
                            r?;
                        }
                        t => {
                            let v = env.f.get(n).cloned().expect("model: value of a field");
                            let v = match v {
                                V::None => return reject("condition holds but there is no value"),
                                V::Some(v) => *v,
                                v => v,
                            };
                            self.enc_ty(t, &self.lower(&v), env, &mut one)?;
                        }
                    }
                    let one = self.apply_xf(&f.xf, env, one)?;
                    o.extend(one);
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- decoding

    pub fn dec_ty(&self, t: &Ty, env: &Env, c: &mut Cur) -> M<Val> {
        Ok(match t {
            Ty::Sc(s, le) => {
                let x = c.sc(*s, *le)?;
                self.lower(&V::Int(*s, x))
            }
            Ty::F32 => Val::U(c.sc(Sc::U32, false)?),
            Ty::F64 => Val::U(c.sc(Sc::U64, false)?),
            Ty::Bool => Val::Bool(c.take(1)?[0] != 0),
            Ty::Var(s) => {
                let mut x = 0u128;
                let mut i = 0u32;
                loop {
                    let b = c.take(1)?[0];
                    let d = (b & 127) as u128;
                    if i * 7 + 7 > s.bits() && d >> (s.bits() - i * 7) != 0 {
                        return reject("variable-length integer wider than its type");
                    }
                    x |= d << (i * 7);
                    i += 1;
                    if b & 128 == 0 {
                        break;
                    }
                    if i * 7 >= s.bits() {
                        return reject("variable-length integer longer than its type");
                    }
                }
                Val::I(wrap(s.unsigned(), *s, x) as i128)
            }
            Ty::Utf8Nul => {
                let mut s = vec![];
                loop {
                    if c.left() == 0 {
                        return reject("NUL-terminated string without a NUL");
                    }
                    let b = c.take(1)?[0];
                    if b == 0 {
                        break;
                    }
                    s.push(b);
                }
                if String::from_utf8(s.clone()).is_err() {
                    return reject("invalid UTF-8");
                }
                Val::Str(s)
            }
            Ty::Utf8(l) => {
                let n = self.eval(l, env)?.u();
                let s = c.take_big(n)?.to_vec();
                if String::from_utf8(s.clone()).is_err() {
                    return reject("invalid UTF-8");
                }
                Val::Str(s)
            }
            Ty::Utf16(l) => {
                let n = self.eval(l, env)?.u();
                let s = c.take_big(n.saturating_mul(2))?;
                let u: Vec<u16> = s.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
                match String::from_utf16(&u) {
                    Ok(s) => Val::Str(s.into_bytes()),
                    Err(_) => return reject("invalid UTF-16"),
                }
            }
            Ty::Arr(e, l) => {
                let mut vs = vec![];
                match l {
                    Len::Fixed(n) => {
                        let n = self.eval(n, env)?.u();
                        let mut i = 0;
                        while i < n {
                            let at = c.pos;
                            vs.push(self.dec_ty(e, env, c)?);
                            i += 1;
                            if c.pos == at && n > 10_000 {
                                return unspec("huge array of empty elements");
                            }
                        }
                    }
                    Len::Unbounded => {
                        while c.left() > 0 {
                            let at = c.pos;
                            vs.push(self.dec_ty(e, env, c)?);
                            if c.pos == at {
                                return reject("unbounded array of empty elements");
                            }
                        }
                    }
                    Len::Term(t) => {
                        let t = self.term(t)?;
                        loop {
                            if c.left() == 0 {
                                return reject("terminated array without its terminator");
                            }
                            if c.rest().starts_with(&t) {
                                c.take(t.len())?;
                                break;
                            }
                            if c.left() < t.len() {
                                return reject("terminated array without its terminator");
                            }
                            let at = c.pos;
                            vs.push(self.dec_ty(e, env, c)?);
                            if c.pos == at {
                                return reject("terminated array of empty elements");
                            }
                        }
                    }
                }
                Val::List(vs)
            }
            Ty::Ref(d, a) => {
                let args = self.args_of(*d, a, env)?;
                self.dec_decl(*d, &args, c)?
            }
            t => panic!("model: decode {:?}", t),
        })
    }

    /// run `f` behind the field's transforms
    fn behind<T>(&self, xf: &[Xf], env: &Env, c: &mut Cur, f: &mut dyn FnMut(&mut Cur) -> M<T>) -> M<T> {
        // right to left on the way in: the last transform is the outermost
        let x = match xf.last() {
            None => return f(c),
            Some(x) => x,
        };
        let rest = &xf[..xf.len() - 1];
        if let Some(k) = &x.cond {
            if !self.eval(k, env)?.b() {
                return self.behind(rest, env, c, f);
            }
        }
        match x.kind {
            XfKind::Add | XfKind::Mul => {
                let key = match x.args.first() {
                    Some(a) => self.eval(a, env)?.u() as u8,
                    None => 0,
                };
                let k = if x.kind == XfKind::Add { XK::Add } else { XK::Mul };
                let mut i = Cur { data: step_dec(k, key, c.rest()), pos: 0, fuzzy: c.fuzzy };
                let r = self.behind(rest, env, &mut i, f)?;
                c.pos += i.pos;
                c.fuzzy |= i.fuzzy;
                Ok(r)
            }
            XfKind::Gzip => {
                let all = c.rest();
                let mut d = flate2::bufread::GzDecoder::new(all);
                let mut t = vec![];
                if d.read_to_end(&mut t).is_err() {
                    // a decoder may have made something of the sound part of it before
                    let mut i = Cur { data: t, pos: 0, fuzzy: true };
                    if let Err(Stop::Unspec(s)) = self.behind(rest, env, &mut i, f) {
                        return unspec(s);
                    }
                    return reject("damaged gzip stream");
                }
                let n = all.len() - d.into_inner().len();
                let mut i = Cur { data: t, pos: 0, fuzzy: false };
                // what is left of it is skipped
                let r = self.behind(rest, env, &mut i, f)?;
                c.pos += n;
                Ok(r)
            }
            XfKind::Base64 => {
                let mut t = vec![];
                let r = c.rest();
                // only canonical text has a specified meaning
                for q in r.chunks(4) {
                    if q.len() < 4 || t.len() % 3 != 0 {
                        return unspec("damaged base64");
                    }
                    let v: Vec<Option<u32>> = q
                        .iter()
                        .map(|d| match d {
                            b'A'..=b'Z' => Some((d - b'A') as u32),
                            b'a'..=b'z' => Some((d - b'a' + 26) as u32),
                            b'0'..=b'9' => Some((d - b'0' + 52) as u32),
                            b'+' => Some(62),
                            b'/' => Some(63),
                            _ => None,
                        })
                        .collect();
                    let k = v.iter().filter(|x| x.is_none()).count();
                    let mut n = 0u32;
                    for (j, x) in v.iter().enumerate() {
                        n |= x.unwrap_or(0) << (18 - 6 * j);
                    }
                    let b = n.to_be_bytes();
                    t.extend_from_slice(&b[1..4usize.saturating_sub(k).max(1)]);
                }
                if b64(&t) != r {
                    return unspec("damaged base64");
                }
                let mut i = Cur { data: t, pos: 0, fuzzy: false };
                let r = self.behind(rest, env, &mut i, f)?;
                c.pos = c.data.len();
                c.fuzzy = true;
                Ok(r)
            }
        }
    }

    fn constrict<T>(&self, l: &Option<Expr>, env: &Env, c: &mut Cur, f: &mut dyn FnMut(&mut Cur) -> M<T>) -> M<T> {
        match l {
            None => f(c),
            Some(e) => {
                let n = self.eval(e, env)?.u();
                let m = (c.left() as u128).min(n) as usize;
                let mut i = Cur { data: c.rest()[..m].to_vec(), pos: 0, fuzzy: false };
                let r = f(&mut i)?;
                if (m as u128) < n {
                    return reject("stream ends inside a bounded container");
                }
                // what is not read is skipped
                c.pos += m;
                Ok(r)
            }
        }
    }

    pub fn dec_decl(&self, d: DId, args: &[V], c: &mut Cur) -> M<Val> {
        let f = self.decls[d].field();
        let env = self.decl_env(d, args);
        if let Some(k) = &f.cond {
            if !self.eval(k, &env)?.b() {
                return Ok(Val::Rec(vec![Val::None]));
            }
        }
        self.behind(&f.xf, &env, c, &mut |c| match &f.ty {
            Ty::Enum(e) => {
                let x = c.sc(e.rep, e.le)?;
                for i in 0..e.items.len() {
                    if matches!(e.items[i].1, Some(None)) {
                        return Ok(Val::Var(i as u32, vec![self.lower(&V::Int(e.rep, x))]));
                    }
                    if self.enum_value(e, i)? == x {
                        return Ok(Val::Var(i as u32, vec![]));
                    }
                }
                reject("no such enum value")
            }
            Ty::Bits(b) => {
                let x = c.sc(b.rep, b.le)?;
                if x & !self.bit_all(b)? & b.rep.umax() != 0 {
                    return reject("undeclared flag");
                }
                Ok(Val::U(x))
            }
            Ty::Cont(t) if t.tagged => {
                let mut env = env.clone();
                let e0 = env.clone();
                self.constrict(&t.len, &e0, c, &mut |c| {
                    let i = match self.select(t, &env)? {
                        Some(i) => i,
                        None => return reject("no variant's condition holds"),
                    };
                    let vf = match &t.items[i] {
                        Item::Field(_, f) => f,
                        _ => unreachable!(),
                    };
                    let e1 = env.clone();
                    let p = self.behind(&vf.xf, &e1, c, &mut |c| match &vf.ty {
                        Ty::Cont(s) => {
                            self.dec_cont(s, &mut env, c)?;
                            Ok(self.collect(s, &env))
                        }
                        ty => Ok(vec![self.dec_ty(ty, &env, c)?]),
                    })?;
                    Ok(Val::Var(i as u32, p))
                })
            }
            Ty::Cont(t) => {
                let mut env = env.clone();
                self.dec_cont(t, &mut env, c)?;
                Ok(Val::Rec(self.collect(t, &env)))
            }
            t => {
                let x = self.dec_ty(t, &env, c)?;
                Ok(Val::Rec(vec![if f.cond.is_some() { Val::some(x) } else { x }]))
            }
        })
    }

    pub fn collect(&self, c: &Cont, env: &Env) -> Vec<Val> {
        flatten(c)
            .iter()
            .map(|f| match env.f.get(f.name) {
                None => Val::None,
                Some(v) => {
                    let x = self.lower(v);
                    if f.opt && !matches!(x, Val::None | Val::Some(_)) {
                        Val::some(x)
                    } else {
                        x
                    }
                }
            })
            .collect()
    }

    fn dec_cont(&self, t: &Cont, env: &mut Env, c: &mut Cur) -> M<()> {
        let e0 = env.clone();
        self.constrict(&t.len, &e0, c, &mut |c| {
            for it in &t.items {
                match it {
                    Item::Pad(e) => {
                        let n = self.eval(e, env)?.u();
                        c.take_big(n)?;
                    }
                    Item::Field(n, f) => {
                        let on = match &f.cond {
                            None => true,
                            Some(k) => self.eval(k, env)?.b(),
                        };
                        match &f.ty {
                            Ty::Cont(s) => {
                                if on {
                                    let e1 = env.clone();
                                    self.behind(&f.xf, &e1, c, &mut |c| self.dec_cont(s, env, c))?;
                                }
                                if f.cond.is_some() {
                                    // from outside, what it holds is optional
                                    for x in flatten(s) {
                                        let v = match env.f.remove(x.name) {
                                            _ if !on => V::None,
                                            Some(v @ (V::None | V::Some(_))) => v,
                                            Some(v) => V::Some(Box::new(v)),
                                            None => V::None,
                                        };
                                        env.f.insert(x.name.to_string(), v);
                                    }
                                }
                            }
                            ty => {
                                let v = if on {
                                    let e1 = env.clone();
                                    let x = self.behind(&f.xf, &e1, c, &mut |c| self.dec_ty(ty, &e1, c))?;
                                    let x = self.lift(ty, &x);
                                    if f.cond.is_some() {
                                        V::Some(Box::new(x))
                                    } else {
                                        x
                                    }
                                } else {
                                    V::None
                                };
                                env.f.insert(n.clone(), v);
                            }
                        }
                    }
                }
            }
            Ok(())
        })
    }
}

pub struct Cur {
    pub data: Vec<u8>,
    pub pos: usize,
    /// how much was consumed is not specified (a compressed or base64 part)
    pub fuzzy: bool,
}
impl Cur {
    pub fn new(d: &[u8]) -> Cur {
        Cur { data: d.to_vec(), pos: 0, fuzzy: false }
    }
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    pub fn rest(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    pub fn take(&mut self, n: usize) -> M<&[u8]> {
        if self.left() < n {
            return reject("end of stream");
        }
        self.pos += n;
        Ok(&self.data[self.pos - n..self.pos])
    }
    pub fn take_big(&mut self, n: u128) -> M<&[u8]> {
        if n > self.left() as u128 {
            return reject("end of stream");
        }
        self.take(n as usize)
    }
    pub fn sc(&mut self, s: Sc, le: bool) -> M<u128> {
        let b = self.take(s.bytes())?;
        let mut x = 0u128;
        if le {
            for c in b.iter().rev() {
                x = x << 8 | *c as u128;
            }
        } else {
            for c in b {
                x = x << 8 | *c as u128;
            }
        }
        Ok(wrap(s, s, x))
    }
}
