//! Generators: documents, and values that a document can represent.

use crate::model::*;
use crate::spec::*;
use crate::tape::Gen;
use rt::Val;
use std::collections::{HashMap, HashSet};

/// What a check wants its documents to be made of.  All numbers are weights or percentages.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub decls: (usize, usize),
    /// scalar newtype, array newtype, container, enum, bitfield, tagged enum, foreign newtype
    pub kinds: [usize; 7],
    /// scalar, float, bool, array, reference, varint, utf8 (NUL), utf8(n), utf16(n), nested
    pub ft: [usize; 10],
    pub fields: (usize, usize),
    pub cond: usize,
    pub calc: usize,
    pub pad: usize,
    pub xf: usize,
    pub xf_cond: usize,
    /// gzip / base64 among transforms at the end of a stream
    pub codec: usize,
    pub keywords: usize,
    pub strings: bool,
    /// base64 has no asynchronous form
    pub no_base64: bool,
    pub nested_len: usize,
    pub args: usize,
    pub consts: usize,
    pub depth: usize,
    pub recurse: usize,
    pub len_idiom: usize,
    /// fixed, unbounded, terminated
    pub lens: [usize; 3],
    /// expressions instead of plain operands
    pub rich: usize,
    pub decl_cond: usize,
    pub decl_xf: usize,
    pub defaults: usize,
    pub no_opt_scope: bool,
    pub only_tail_ok: bool,
    /// documents where fields share the names of other things
    pub share: usize,
    /// depth of constant expressions, and how many boundary operands they have
    pub cdepth: usize,
    pub edge: usize,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            decls: (1, 5),
            kinds: [2, 2, 10, 2, 2, 2, 1],
            ft: [12, 1, 2, 6, 5, 2, 1, 1, 1, 3],
            fields: (1, 6),
            cond: 20,
            calc: 20,
            pad: 8,
            xf: 8,
            xf_cond: 30,
            codec: 20,
            keywords: 4,
            strings: true,
            no_base64: false,
            nested_len: 40,
            args: 20,
            consts: 30,
            depth: 2,
            recurse: 0,
            len_idiom: 40,
            lens: [8, 2, 2],
            rich: 50,
            decl_cond: 8,
            decl_xf: 6,
            defaults: 25,
            no_opt_scope: false,
            only_tail_ok: false,
            share: 25,
            cdepth: 2,
            edge: 1,
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Hints {
    /// of a document which is no tree of declarations
    pub text: String,
    /// the second form of the document has types of another shape
    pub unlike: std::cell::Cell<bool>,
    /// integer fields and arguments that lengths depend on: keep the values small
    pub small: HashSet<String>,
    /// arrays and strings whose length field is calculated from them
    pub free: HashSet<String>,
    /// length field -> nested container whose size it must hold
    pub patched: HashMap<String, String>,
    /// decls that read to the end of the stream
    pub tail: HashSet<DId>,
    pub recursive: HashSet<DId>,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub spec: Spec,
    pub hints: Hints,
}

#[derive(Clone)]
struct SF {
    name: String,
    ty: Ty,
    opt: bool,
}
#[derive(Clone, Default)]
struct Cx {
    f: Vec<SF>,
    a: Vec<Arg>,
    konst: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum ET {
    Int(Sc),
    Bool,
    Enum(DId),
    Bits(DId),
    Arr(Sc),
    Other,
}

pub struct SG<'a> {
    pub g: &'a mut Gen,
    pub cfg: &'a Cfg,
    pub spec: Spec,
    pub h: Hints,
    /// expressions may have no value
    lax: bool,
    n: usize,
    cur: DId,
}

pub fn document(g: &mut Gen, cfg: &Cfg) -> Doc {
    let mut s = SG { g, cfg, spec: Spec::default(), h: Hints::default(), lax: false, n: 0, cur: 0 };
    s.build();
    let (spec, h) = (s.spec, s.h);
    let mut d = Doc { spec, hints: h };
    if cfg.share > 0 && g.pct(cfg.share) {
        crate::names::share(g, &mut d.spec, &mut d.hints);
    }
    d.spec.need_ffi();
    d
}

/// a few constants, and an expression (of the given type, or bool) that may use them and may have no value
pub fn constant(g: &mut Gen, cfg: &Cfg) -> (Spec, Option<Sc>, Expr) {
    let mut s = SG { g, cfg, spec: Spec::default(), h: Hints::default(), lax: false, n: 0, cur: 0 };
    for _ in 0..s.g.n(4) {
        match s.g.n(4) {
            0 => s.d_enum(),
            1 => s.d_bits(),
            _ => s.konst(),
        }
    }
    s.lax = true;
    let cx = Cx { konst: true, ..Cx::default() };
    let d = s.g.range(0, cfg.cdepth);
    if s.g.pct(25) {
        let e = s.boolean(&cx, d.max(1));
        (s.spec, None, e)
    } else {
        let sc = *s.g.pick(&SCS);
        let e = s.int(&cx, sc, true, d);
        (s.spec, Some(sc), e)
    }
}

/// words of Rust which mean nothing in documents
const KEYWORDS: &[&str] = &[
    "fn", "match", "ref", "self", "loop", "mod", "move", "in", "where", "dyn", "async", "await", "impl", "let", "mut", "pub", "struct",
    "trait", "static", "super", "crate", "while", "for", "if", "else", "return", "break", "unsafe", "try", "yield", "box", "Self", "do",
];

impl<'a> SG<'a> {
    fn id(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    /// in place of another name with this number
    fn keyword(&mut self, i: usize) -> Option<String> {
        let k = KEYWORDS.get(i)?;
        self.g.pct(self.cfg.keywords).then(|| k.to_string())
    }
    fn fname(&mut self) -> String {
        let i = self.id();
        if let Some(k) = self.keyword(i) {
            return k;
        }
        let p = *self.g.pick(&["f_", "val_", "x", "innerData", "hdr_len", "B", "some_long_name_", "_u"]);
        format!("{}{}", p, i)
    }

    fn build(&mut self) {
        let n = self.g.range(self.cfg.decls.0, self.cfg.decls.1);
        for i in 0..n {
            if self.g.pct(self.cfg.consts) {
                self.konst();
            }
            let last = i + 1 == n;
            let mut k = self.cfg.kinds;
            if last && n > 1 {
                // finish with something that uses the others
                k[3] /= 2;
                k[4] /= 2;
                k[0] /= 2;
            }
            if k.iter().all(|x| *x == 0) {
                k = self.cfg.kinds;
            }
            self.cur = self.spec.decls.len();
            match self.g.w(&k) {
                3 => self.d_enum(),
                4 => self.d_bits(),
                5 => self.d_tagged(),
                2 => self.d_cont(),
                x => self.d_new(x),
            }
        }
    }
    fn add(&mut self, name: String, kind: Kind) -> DId {
        self.spec.decls.push(Decl { name, kind });
        self.spec.decls.len() - 1
    }

    fn konst(&mut self) {
        let i = self.id();
        match self.g.w(&[6, 2, 2]) {
            0 => {
                let s = *self.g.pick(&SCS);
                let e = self.int(&Cx { konst: true, ..Cx::default() }, s, true, self.cfg.cdepth);
                self.add(format!("K{}", i), Kind::Const { ty: Ty::Sc(s, false), expr: e });
            }
            1 => {
                let e = self.boolean(&Cx { konst: true, ..Cx::default() }, self.cfg.cdepth);
                self.add(format!("k_bool_{}", i), Kind::Const { ty: Ty::Bool, expr: e });
            }
            _ => {
                let s = self.string();
                let ty = Ty::Arr(Box::new(Ty::Sc(Sc::U8, false)), Len::Unbounded);
                self.add(format!("STR{}", i), Kind::Const { ty, expr: Expr::Str(s) });
            }
        }
    }
    fn string(&mut self) -> Vec<u8> {
        let n = self.g.range(1, 4);
        (0..n)
            .map(|_| match self.g.n(6) {
                0 => b'a',
                1 => 0,
                2 => b'"',
                3 => b'\\',
                4 => 0xff,
                _ => self.g.byte(),
            })
            .collect()
    }
    fn enum_rep(&mut self) -> (Sc, bool) {
        let s = *self.g.pick(&SCS);
        (s, self.g.pct(25))
    }
    fn d_enum(&mut self) {
        let i = self.id();
        let (rep, le) = self.enum_rep();
        let n = self.g.range(1, 5);
        let cx = Cx { konst: true, ..Cx::default() };
        let mut items: Vec<(String, Option<Option<Expr>>)> = vec![];
        let mut seen: Vec<u128> = vec![];
        for k in 0..n {
            let name = self.keyword(k).unwrap_or_else(|| format!("{}{}", self.g.pick(&["V", "Item", "aB"]), k));
            let dflt = k + 1 == n && self.g.pct(if k > 0 { 35 } else { 10 });
            let mut it = if dflt {
                Some(None)
            } else if k == 0 || self.g.pct(40) {
                Some(Some(self.int(&cx, rep, true, self.cfg.cdepth)))
            } else {
                None
            };
            if !dflt {
                for _ in 0..6 {
                    let mut t = EnumT { rep, le, items: items.clone() };
                    t.items.push((name.clone(), it.clone()));
                    let ok = match self.spec.enum_value(&t, k) {
                        Ok(v) if !seen.contains(&v) => {
                            seen.push(v);
                            true
                        }
                        _ => false,
                    };
                    if ok {
                        items = t.items;
                        break;
                    }
                    let m = rep.umax().min(250) as usize;
                    it = Some(Some(int(self.g.range(0, m) as u128, rep)));
                }
            } else {
                items.push((name, it));
            }
        }
        if items.is_empty() {
            items.push(("V".into(), Some(Some(int(1, rep)))));
        }
        let name = self.keyword(i).unwrap_or_else(|| format!("E{}", i));
        self.add(name, Kind::Type { args: vec![], field: Field::plain(Ty::Enum(EnumT { rep, le, items })) });
    }
    fn d_bits(&mut self) {
        let i = self.id();
        let rep = *self.g.pick(&UNS);
        let le = self.g.pct(25);
        let n = self.g.range(1, 6);
        let cx = Cx { konst: true, ..Cx::default() };
        let mut items: Vec<(String, Option<Expr>)> = vec![];
        for k in 0..n {
            let name = self.keyword(k).unwrap_or_else(|| format!("{}{}", self.g.pick(&["x", "Flag", "has_"]), k));
            let mut it = if k == 0 || self.g.pct(35) {
                Some(match self.g.n(3) {
                    0 => int(1u128 << self.g.n(rep.bits() as usize), rep),
                    1 => {
                        // a mask of several bits
                        let v = 3u128 << self.g.n(rep.bits() as usize - 1);
                        Expr::Int(v & rep.umax(), rep, false, true)
                    }
                    _ => self.int(&cx, rep, true, self.cfg.cdepth),
                })
            } else {
                None
            };
            for _ in 0..6 {
                let mut t = BitsT { rep, le, items: items.clone() };
                t.items.push((name.clone(), it.clone()));
                if matches!(self.spec.bit_value(&t, k), Ok(v) if v != 0) {
                    items = t.items;
                    break;
                }
                it = Some(int(1u128 << self.g.n(rep.bits() as usize), rep));
            }
        }
        if items.is_empty() {
            items.push(("x".into(), Some(int(1, rep))));
        }
        let name = self.keyword(i).unwrap_or_else(|| format!("Bf{}", i));
        self.add(name, Kind::Type { args: vec![], field: Field::plain(Ty::Bits(BitsT { rep, le, items })) });
    }

    fn d_args(&mut self, force: bool) -> Vec<Arg> {
        let mut v = vec![];
        if !force && !self.g.pct(self.cfg.args) {
            return v;
        }
        let n = self.g.range(1, 3);
        let mut dflt = false;
        for _ in 0..n {
            let i = self.id();
            let ty = self.arg_ty();
            dflt = dflt || (!force && self.g.pct(self.cfg.defaults));
            let default = if dflt {
                let cx = Cx { konst: true, ..Cx::default() };
                let e = match &ty {
                    Ty::Sc(s, _) => int(self.g.n(5) as u128, *s),
                    Ty::Bool => self.boolean(&cx, 1),
                    Ty::Ref(d, _) => match self.enum_lit(*d) {
                        Some(e) => e,
                        None => {
                            dflt = false;
                            v.push(Arg { name: format!("a{}", i), ty, default: None });
                            continue;
                        }
                    },
                    _ => unreachable!(),
                };
                Some(e)
            } else {
                None
            };
            v.push(Arg { name: format!("a{}", i), ty, default });
        }
        // optional ones last
        if let Some(p) = v.iter().position(|a| a.default.is_some()) {
            for a in &mut v[p..] {
                if a.default.is_none() {
                    a.default = match &a.ty {
                        Ty::Sc(s, _) => Some(int(2, *s)),
                        Ty::Bool => Some(Expr::Bool(true)),
                        _ => None,
                    };
                }
            }
            if v[p..].iter().any(|a| a.default.is_none()) {
                for a in &mut v {
                    a.default = None;
                }
            }
        }
        v
    }
    fn arg_ty(&mut self) -> Ty {
        let enums: Vec<DId> = (0..self.spec.decls.len())
            .filter(|d| self.spec.decls[*d].is_type() && matches!(self.spec.decls[*d].field().ty, Ty::Enum(_)))
            .collect();
        match self.g.w(&[6, 2, if enums.is_empty() { 0 } else { 3 }]) {
            0 => Ty::Sc(*self.g.pick(&SCS), false),
            1 => Ty::Bool,
            _ => Ty::Ref(*self.g.pick(&enums), vec![]),
        }
    }

    fn decl_cond(&mut self, cx: &Cx) -> Option<Expr> {
        if self.g.pct(self.cfg.decl_cond) {
            Some(self.boolean(cx, 2))
        } else {
            None
        }
    }

    /// type X = scalar / array / foreign ...
    fn d_new(&mut self, kind: usize) {
        let i = self.id();
        let args = self.d_args(false);
        let cx = Cx { f: vec![], a: args.clone(), konst: false };
        let mut tail = false;
        let ty = match kind {
            0 => self.sc_ty(),
            1 => {
                let (t, tl) = self.arr(&cx, true, None);
                tail = tl;
                t
            }
            _ => match self.g.n(4) {
                0 => Ty::Var(self.var_sc()),
                1 => Ty::Utf8Nul,
                2 => Ty::Utf8(Box::new(self.len_expr(&cx))),
                _ => Ty::Utf16(Box::new(self.len_expr(&cx))),
            },
        };
        let cond = self.decl_cond(&cx);
        let xf = if self.g.pct(self.cfg.decl_xf) { self.xf(&cx, true, &mut tail) } else { vec![] };
        let name = self.keyword(i).unwrap_or_else(|| format!("T{}", i));
        let d = self.add(name, Kind::Type { args, field: Field { ty, calc: None, cond, xf } });
        if tail {
            self.h.tail.insert(d);
        }
    }
    fn var_sc(&mut self) -> Sc {
        *self.g.pick(&[Sc::I8, Sc::I16, Sc::I32, Sc::I64, Sc::I128])
    }
    fn sc_ty(&mut self) -> Ty {
        match self.g.w(&[8, 1, 1, 2]) {
            0 => {
                let s = *self.g.pick(&SCS);
                Ty::Sc(s, self.g.pct(25))
            }
            1 => Ty::F32,
            2 => Ty::F64,
            _ => Ty::Bool,
        }
    }

    fn d_cont(&mut self) {
        let i = self.id();
        let args = self.d_args(false);
        let cx = Cx { f: vec![], a: args.clone(), konst: false };
        // recursion needs its own declaration number: reserve it
        let name = self.keyword(i).unwrap_or_else(|| format!("C{}", i));
        let d = self.add(name, Kind::Type { args: args.clone(), field: Field::plain(Ty::Bool) });
        let mut tail = false;
        let mut rec = false;
        let len = if self.g.pct(8) { Some(self.g.range(2, 24)) } else { None };
        let mut c = if let Some(n) = len {
            // exactly n bytes, whatever is inside
            let mut c = self.cont(&cx, &mut true.clone(), 0, false, false);
            if !matches!(c.items.last(), Some(Item::Field(_, f)) if matches!(f.ty, Ty::Arr(_, Len::Unbounded))) {
                let nm = self.fname();
                c.items.push(Item::Field(
                    nm,
                    Field::plain(Ty::Arr(Box::new(Ty::Sc(Sc::U8, false)), Len::Unbounded)),
                ));
            }
            c.len = Some(int(n as u128, Sc::U64));
            c
        } else {
            self.cont(&cx, &mut tail, 1, true, false)
        };
        if args.is_empty() && self.g.pct(self.cfg.recurse) {
            let n1 = self.fname();
            let n2 = self.fname();
            self.h.small.insert(n1.clone());
            rec = true;
            let at = if tail { 0 } else { c.items.len() };
            c.items.insert(at, Item::Field(n1.clone(), Field::plain(Ty::Sc(Sc::U8, false))));
            c.items.insert(
                at + 1,
                Item::Field(
                    n2,
                    Field::plain(Ty::Arr(Box::new(Ty::Ref(d, vec![])), Len::Fixed(Box::new(Expr::Coerce(Box::new(Expr::Field(n1)), Sc::U64))))),
                ),
            );
        }
        let xf = if !tail && self.g.pct(self.cfg.decl_xf) {
            let mut t = false;
            let x = self.xf(&cx, true, &mut t);
            tail |= t;
            x
        } else {
            vec![]
        };
        if rec && tail {
            // a self-reference may not read to the end
            let c2: Vec<Item> = std::mem::take(&mut c.items)
                .into_iter()
                .filter(|it| !matches!(it, Item::Field(_, f) if f.ty == Ty::Arr(Box::new(Ty::Ref(d, vec![])), Len::Unbounded) || matches!(&f.ty, Ty::Arr(t, _) if **t == Ty::Ref(d, vec![]))))
                .collect();
            c.items = c2;
            rec = false;
        }
        if rec {
            self.h.recursive.insert(d);
        }
        if tail {
            self.h.tail.insert(d);
        }
        self.spec.decls[d].kind = Kind::Type { args, field: Field { ty: Ty::Cont(Box::new(c)), calc: None, cond: None, xf } };
    }

    /// a constant length, and something that can fill it
    fn bound(&mut self, c: &mut Cont) {
        let n = self.g.range(2, 24);
        if !matches!(c.items.last(), Some(Item::Field(_, f)) if matches!(f.ty, Ty::Arr(_, Len::Unbounded))) {
            let nm = self.fname();
            c.items.push(Item::Field(nm, Field::plain(Ty::Arr(Box::new(Ty::Sc(Sc::U8, false)), Len::Unbounded))));
        }
        c.len = Some(int(n as u128, Sc::U64));
    }

    fn d_tagged(&mut self) {
        let i = self.id();
        let args = self.d_args(true);
        let cx = Cx { f: vec![], a: args.clone(), konst: false };
        let n = self.g.range(1, 4);
        let mut items = vec![];
        let mut tail = false;
        for k in 0..n {
            let last = k + 1 == n;
            let cond = if last && self.g.pct(60) {
                None
            } else {
                Some(self.boolean(&cx, 2))
            };
            let mut t = false;
            let ty = if self.g.pct(50) {
                let mut c = self.cont(&cx, &mut t, 1, true, false);
                if !t && self.g.pct(self.cfg.nested_len / 2) {
                    self.bound(&mut c);
                }
                Ty::Cont(Box::new(c))
            } else {
                let x = self.field_ty(&cx, &mut t, 1, None);
                match x {
                    Ty::Cont(_) => Ty::Sc(Sc::U8, false),
                    x => x,
                }
            };
            let xf = if !t && self.g.pct(self.cfg.xf) { self.xf(&cx, true, &mut t) } else { vec![] };
            tail |= t;
            let nm = self.keyword(k).unwrap_or_else(|| format!("{}{}", self.g.pick(&["Var", "Other", "X"]), k));
            items.push(Item::Field(nm, Field { ty, calc: None, cond, xf }));
        }
        let name = self.keyword(i).unwrap_or_else(|| format!("U{}", i));
        let d = self.add(
            name,
            Kind::Type { args, field: Field::plain(Ty::Cont(Box::new(Cont { len: None, tagged: true, items }))) },
        );
        if tail {
            self.h.tail.insert(d);
        }
    }

    // ---------------------------------------------------------- fields

    /// `tail`: in — may the last field read to the end? out — does it?
    fn cont(&mut self, cx: &Cx, tail: &mut bool, depth: usize, may_tail: bool, in_cond: bool) -> Cont {
        let mut cx = cx.clone();
        let mut items: Vec<Item> = vec![];
        let n = self.g.range(self.cfg.fields.0, self.cfg.fields.1);
        *tail = false;
        let mut k = 0;
        while k < n {
            k += 1;
            if self.g.pct(self.cfg.pad) {
                let e = if self.g.pct(40) {
                    let a = *self.g.pick(&[1u128, 2, 4, 8]);
                    match cx.f.iter().filter(|f| !f.opt && matches!(f.ty, Ty::Arr(..) | Ty::Utf16(_))).last() {
                        Some(f) => Expr::Call(Fun::Pad, vec![int(a, Sc::U64), Expr::Call(Fun::Len, vec![Expr::Field(f.name.clone())])]),
                        None => self.len_expr(&cx),
                    }
                } else {
                    self.len_expr(&cx)
                };
                items.push(Item::Pad(e));
            }
            let last = k == n;
            // the usual pairs: a calculated length followed by what it measures
            if self.g.pct(self.cfg.len_idiom) && self.g.pct(50) {
                self.len_pair(&mut cx, &mut items, depth, in_cond);
                continue;
            }
            let name = self.fname();
            let cond = if self.g.pct(self.cfg.cond) { Some(self.boolean(&cx, self.cfg.depth)) } else { None };
            let mut t = last && may_tail;
            if self.g.pct(self.cfg.calc) {
                if let Some(mut f) = self.calc(&cx, &cond) {
                    if self.g.pct(self.cfg.xf) {
                        let mut t2 = false;
                        f.xf = self.xf_at(&cx, false, &mut t2);
                    }
                    if self.g.pct(40) {
                        cx.f.push(SF { name: name.clone(), ty: f.ty.clone(), opt: cond.is_some() });
                    }
                    items.push(Item::Field(name, f));
                    continue;
                }
            }
            // what is compressed may read to its end anywhere
            let boxed = depth > 0 && self.g.pct(self.cfg.xf) && self.g.pct(self.cfg.codec);
            if boxed {
                let mut t = true;
                let ty = self.field_ty_at(&cx, &mut t, depth, Some(&name), true, in_cond || cond.is_some());
                let mut t2 = false;
                let mut xf = if self.g.pct(40) { self.xf_at(&cx, false, &mut t2) } else { vec![] };
                let at = self.g.n(xf.len() + 1);
                xf.insert(at, Xf { kind: XfKind::Gzip, args: vec![], cond: None });
                items.push(Item::Field(name, Field { ty, calc: None, cond, xf }));
                continue;
            }
            let allow = t;
            let ty = self.field_ty_at(&cx, &mut t, depth, Some(&name), allow, in_cond || cond.is_some());
            let mut xf = vec![];
            if self.g.pct(self.cfg.xf) {
                let mut t2 = allow;
                xf = self.xf_at(&cx, allow && !matches!(ty, Ty::Cont(_)), &mut t2);
                t |= t2;
            }
            if t {
                *tail = true;
            }
            if !matches!(ty, Ty::Cont(_)) && !(self.cfg.no_opt_scope && cond.is_some()) {
                cx.f.push(SF { name: name.clone(), ty: ty.clone(), opt: cond.is_some() });
            }
            items.push(Item::Field(name, Field { ty, calc: None, cond, xf }));
        }
        if items.iter().all(|i| matches!(i, Item::Pad(_))) {
            let nm = self.fname();
            items.push(Item::Field(nm, Field::plain(Ty::Sc(Sc::U8, false))));
        }
        Cont { len: None, tagged: false, items }
    }

    /// a length field and the thing it measures
    fn len_pair(&mut self, cx: &mut Cx, items: &mut Vec<Item>, depth: usize, in_cond: bool) {
        let ln = self.fname();
        let tn = self.fname();
        let s = *self.g.pick(&UNS[..4]);
        let le = self.g.pct(25);
        let lty = Ty::Sc(s, le);
        let lref = |s: Sc| {
            let f = Expr::Field(ln.clone());
            if s == Sc::U64 {
                f
            } else {
                Expr::Coerce(Box::new(f), Sc::U64)
            }
        };
        let mut lxf = vec![];
        if self.g.pct(self.cfg.xf) {
            let mut t = false;
            lxf = self.xf_at(cx, false, &mut t);
        }
        let down = |e: Expr| if s == Sc::U64 { e } else { Expr::Cast(Box::new(e), Box::new(Ty::Sc(s, false))) };
        match self.g.w(&[5, 3, if depth > 0 { 3 } else { 0 }, if depth > 0 { 4 } else { 0 }]) {
            // explicit count
            0 => {
                self.h.small.insert(ln.clone());
                let sg = self.g.pct(10);
                let (lty, e) = if sg {
                    (Ty::Sc(Sc::I32, le), Expr::Cast(Box::new(Expr::Field(ln.clone())), Box::new(Ty::Sc(Sc::U64, false))))
                } else {
                    (lty, lref(s))
                };
                items.push(Item::Field(ln.clone(), Field { ty: lty.clone(), calc: None, cond: None, xf: lxf }));
                cx.f.push(SF { name: ln.clone(), ty: lty, opt: false });
                let ty = match self.g.w(&[6, self.cfg.ft[7], self.cfg.ft[8]]) {
                    0 => Ty::Arr(Box::new(self.elem(cx)), Len::Fixed(Box::new(e))),
                    1 => Ty::Utf8(Box::new(e)),
                    _ => Ty::Utf16(Box::new(e)),
                };
                let cond = if self.g.pct(self.cfg.cond) { Some(self.boolean(cx, 1)) } else { None };
                cx.f.push(SF { name: tn.clone(), ty: ty.clone(), opt: cond.is_some() });
                items.push(Item::Field(tn, Field { ty, calc: None, cond, xf: vec![] }));
            }
            // count calculated from the target
            1 => {
                let calc = down(Expr::Call(Fun::Len, vec![Expr::Field(tn.clone())]));
                items.push(Item::Field(ln.clone(), Field { ty: lty.clone(), calc: Some(calc), cond: None, xf: lxf }));
                self.h.free.insert(tn.clone());
                let ty = match self.g.w(&[6, self.cfg.ft[7], self.cfg.ft[8]]) {
                    0 => Ty::Arr(Box::new(self.elem(cx)), Len::Fixed(Box::new(lref(s)))),
                    1 => Ty::Utf8(Box::new(lref(s))),
                    _ => Ty::Utf16(Box::new(lref(s))),
                };
                cx.f.push(SF { name: tn.clone(), ty: ty.clone(), opt: false });
                items.push(Item::Field(tn, Field::plain(ty)));
                if self.g.pct(30) {
                    cx.f.push(SF { name: ln.clone(), ty: lty, opt: false });
                }
            }
            // explicit size of a nested container
            2 => {
                self.h.patched.insert(ln.clone(), tn.clone());
                items.push(Item::Field(ln.clone(), Field { ty: lty, calc: None, cond: None, xf: lxf }));
                let cond = if self.g.pct(self.cfg.cond) { Some(self.boolean(cx, 1)) } else { None };
                let mut t = false;
                let mut c = self.cont(cx, &mut t, depth - 1, true, in_cond || cond.is_some());
                c.len = Some(lref(s));
                items.push(Item::Field(tn, Field { ty: Ty::Cont(Box::new(c)), calc: None, cond, xf: vec![] }));
            }
            // size calculated from a nested container
            _ => {
                let calc = down(Expr::Call(Fun::Blen, vec![Expr::Field(tn.clone())]));
                items.push(Item::Field(ln.clone(), Field { ty: lty, calc: Some(calc), cond: None, xf: lxf }));
                // something in between, sometimes
                if self.g.pct(20) {
                    let nm = self.fname();
                    let ty = self.sc_ty();
                    cx.f.push(SF { name: nm.clone(), ty: ty.clone(), opt: false });
                    items.push(Item::Field(nm, Field::plain(ty)));
                }
                let mut t = false;
                let keep = self.cfg;
                let c2 = Cfg { codec: 0, ..keep.clone() };
                let mut c = self.with_cfg(&c2, |s| s.cont(cx, &mut t, depth - 1, true, false));
                c.len = Some(lref(s));
                items.push(Item::Field(tn, Field::plain(Ty::Cont(Box::new(c)))));
            }
        }
    }
    fn with_cfg<T>(&mut self, c: &Cfg, f: impl FnOnce(&mut SG<'_>) -> T) -> T {
        let mut s = SG {
            g: &mut *self.g,
            cfg: c,
            spec: std::mem::take(&mut self.spec),
            h: std::mem::take(&mut self.h),
            lax: self.lax,
            n: self.n,
            cur: self.cur,
        };
        let r = f(&mut s);
        let SG { spec, h, n, .. } = s;
        self.spec = spec;
        self.h = h;
        self.n = n;
        r
    }

    /// a calculated field that is not a length
    fn calc(&mut self, cx: &Cx, cond: &Option<Expr>) -> Option<Field> {
        let arrs: Vec<SF> = cx
            .f
            .iter()
            .filter(|f| !f.opt && matches!(&f.ty, Ty::Arr(e, _) if matches!(**e, Ty::Sc(s, _) if !s.signed() && s.bytes() < 8)))
            .cloned()
            .collect();
        let lens: Vec<SF> = cx
            .f
            .iter()
            .filter(|f| !f.opt && (matches!(&f.ty, Ty::Arr(..) | Ty::Utf8(_) | Ty::Utf16(_) | Ty::Utf8Nul | Ty::Bool | Ty::F32 | Ty::F64) || matches!(self.et(&f.ty), ET::Int(_) | ET::Enum(_) | ET::Bits(_))) && !matches!(f.ty, Ty::Var(_)))
            .cloned()
            .collect();
        let big = |e: Expr, s: Sc| if s == Sc::U64 { e } else { Expr::Cast(Box::new(e), Box::new(Ty::Sc(s, false))) };
        let s = *self.g.pick(&UNS);
        let e = match self.g.w(&[if lens.is_empty() { 0 } else { 3 }, if arrs.is_empty() { 0 } else { 3 }, if cx.f.is_empty() { 0 } else { 3 }, 3]) {
            0 if !lens.is_empty() => {
                // every kind of thing is measured as often as the others
                let kind = |f: &SF| match &f.ty {
                    Ty::Arr(..) => 0,
                    Ty::Utf8(_) => 1,
                    Ty::Utf8Nul => 2,
                    Ty::Bool => 3,
                    Ty::F32 => 4,
                    Ty::F64 => 5,
                    Ty::Utf16(_) => 7,
                    _ => 6,
                };
                let mut kinds: Vec<u8> = lens.iter().map(kind).collect();
                kinds.sort();
                kinds.dedup();
                let k = *self.g.pick(&kinds);
                let of: Vec<SF> = lens.iter().filter(|f| kind(f) == k).cloned().collect();
                let f = self.g.pick(&of).name.clone();
                big(Expr::Call(Fun::Len, vec![Expr::Field(f)]), s)
            }
            1 if !arrs.is_empty() => {
                let f = self.g.pick(&arrs).name.clone();
                big(Expr::Call(Fun::Sum, vec![Expr::Field(f)]), s)
            }
            2 if !cx.f.is_empty() => {
                let x = self.int(cx, Sc::U64, true, 1);
                let e = Expr::Call(Fun::Bits, vec![x]);
                if s == Sc::U8 {
                    e
                } else {
                    Expr::Coerce(Box::new(e), s)
                }
            }
            _ => {
                if self.g.pct(20) {
                    return Some(Field { ty: Ty::Bool, calc: Some(self.boolean(cx, 2)), cond: cond.clone(), xf: vec![] });
                }
                let s = *self.g.pick(&SCS);
                let e = self.int(cx, s, true, self.cfg.depth);
                return Some(Field { ty: Ty::Sc(s, self.g.pct(25)), calc: Some(e), cond: cond.clone(), xf: vec![] });
            }
        };
        Some(Field { ty: Ty::Sc(s, self.g.pct(25)), calc: Some(e), cond: cond.clone(), xf: vec![] })
    }

    fn field_ty(&mut self, cx: &Cx, tail: &mut bool, depth: usize, name: Option<&str>) -> Ty {
        self.field_ty_at(cx, tail, depth, name, true, false)
    }
    fn field_ty_at(&mut self, cx: &Cx, tail: &mut bool, depth: usize, name: Option<&str>, allow: bool, in_cond: bool) -> Ty {
        *tail = false;
        let mut w = self.cfg.ft;
        if depth == 0 {
            w[9] = 0;
        }
        let refs: Vec<DId> = (0..self.spec.decls.len())
            .filter(|d| *d != self.cur && self.spec.decls[*d].is_type() && (allow || !self.h.tail.contains(d)))
            .filter(|d| !matches!(&self.spec.decls[*d].kind, Kind::Type { field, .. } if field.ty == Ty::Bool && self.spec.decls[*d].name.starts_with('C')))
            .collect();
        if refs.is_empty() {
            w[4] = 0;
        }
        match self.g.w(&w) {
            0 => {
                let s = *self.g.pick(&SCS);
                Ty::Sc(s, self.g.pct(25))
            }
            1 => {
                if self.g.pct(50) {
                    Ty::F32
                } else {
                    Ty::F64
                }
            }
            2 => Ty::Bool,
            3 => {
                let (t, tl) = self.arr(cx, allow, name);
                *tail = tl;
                t
            }
            4 => {
                let d = *self.g.pick(&refs);
                *tail = self.h.tail.contains(&d);
                let a = self.ref_args(d, cx);
                Ty::Ref(d, a)
            }
            5 => Ty::Var(self.var_sc()),
            6 => Ty::Utf8Nul,
            7 => Ty::Utf8(Box::new(self.len_expr(cx))),
            8 => Ty::Utf16(Box::new(self.len_expr(cx))),
            _ => {
                let mut t = false;
                let mut c = self.cont(cx, &mut t, depth - 1, allow, in_cond);
                *tail = t;
                if !t && self.g.pct(self.cfg.nested_len / 2) {
                    self.bound(&mut c);
                }
                Ty::Cont(Box::new(c))
            }
        }
    }
    fn ref_args(&mut self, d: DId, cx: &Cx) -> Vec<Expr> {
        let args: Vec<Arg> = self.spec.decls[d].args().to_vec();
        let mut out = vec![];
        for a in &args {
            if a.default.is_some() && self.g.pct(50) {
                break;
            }
            let small = self.h.small.contains(&a.name);
            out.push(match &a.ty {
                Ty::Sc(s, _) if small => {
                    if self.g.pct(50) {
                        int(self.g.n(5) as u128, *s)
                    } else {
                        let e = self.int_atom(cx, *s, true);
                        if s.signed() {
                            int(self.g.n(5) as u128, *s)
                        } else {
                            bin(Op::BitAnd, e, int(3, *s))
                        }
                    }
                }
                Ty::Sc(s, _) => self.int(cx, *s, true, 1),
                Ty::Bool => self.boolean(cx, 1),
                Ty::Ref(d, _) => match self.enum_expr(*d, cx) {
                    Some(e) => e,
                    None => {
                        self.g.reject = Some("no enum literal");
                        Expr::Bool(false)
                    }
                },
                _ => unreachable!(),
            });
        }
        out
    }
    fn enum_lit(&mut self, d: DId) -> Option<Expr> {
        let n = match &self.spec.decls[d].field().ty {
            Ty::Enum(e) => e.items.iter().filter(|x| x.1 != Some(None)).count(),
            _ => 0,
        };
        if n == 0 {
            None
        } else {
            Some(Expr::EnumV(d, self.g.n(n)))
        }
    }
    fn enum_expr(&mut self, d: DId, cx: &Cx) -> Option<Expr> {
        let fs: Vec<Expr> = cx
            .f
            .iter()
            .filter(|f| !f.opt && f.ty == Ty::Ref(d, vec![]))
            .map(|f| Expr::Field(f.name.clone()))
            .chain(cx.a.iter().filter(|f| f.ty == Ty::Ref(d, vec![])).map(|f| Expr::Input(f.name.clone())))
            .collect();
        if !fs.is_empty() && self.g.pct(60) {
            Some(self.g.pick(&fs).clone())
        } else {
            self.enum_lit(d)
        }
    }

    /// an array element type
    fn elem(&mut self, cx: &Cx) -> Ty {
        let refs: Vec<DId> = (0..self.spec.decls.len())
            .filter(|d| *d != self.cur && self.spec.decls[*d].is_type() && !self.h.tail.contains(d))
            .filter(|d| !matches!(&self.spec.decls[*d].kind, Kind::Type { field, .. } if field.ty == Ty::Bool && self.spec.decls[*d].name.starts_with('C')))
            .collect();
        match self.g.w(&[5, 6, 1, 1, if refs.is_empty() { 0 } else { 5 }, 1, 1, 1]) {
            0 => Ty::Sc(Sc::U8, false),
            1 => {
                let s = *self.g.pick(&SCS);
                Ty::Sc(s, self.g.pct(25))
            }
            2 => {
                if self.g.pct(50) {
                    Ty::F32
                } else {
                    Ty::F64
                }
            }
            3 => Ty::Bool,
            4 => {
                let d = *self.g.pick(&refs);
                let a = self.ref_args(d, cx);
                Ty::Ref(d, a)
            }
            5 => {
                if self.cfg.ft[5] == 0 {
                    Ty::Sc(Sc::U16, false)
                } else {
                    Ty::Var(self.var_sc())
                }
            }
            6 => {
                if self.cfg.ft[6] == 0 {
                    Ty::Sc(Sc::U32, false)
                } else {
                    Ty::Utf8Nul
                }
            }
            _ => {
                let n = self.g.range(1, 3);
                Ty::Arr(Box::new(Ty::Sc(*self.g.pick(&SCS), false)), Len::Fixed(Box::new(int(n as u128, Sc::U64))))
            }
        }
    }
    /// could the encoding of a value of this type be empty?
    fn may_be_empty(&self, t: &Ty) -> bool {
        match t {
            Ty::Ref(d, _) => {
                let f = self.spec.decls[*d].field();
                f.cond.is_some() || self.may_be_empty(&f.ty)
            }
            Ty::Cont(c) if c.tagged => c.items.iter().any(|i| matches!(i, Item::Field(_, f) if self.may_be_empty(&f.ty))),
            Ty::Cont(c) => !c.items.iter().any(|i| matches!(i, Item::Field(_, f) if f.cond.is_none() && !self.may_be_empty(&f.ty))),
            Ty::Arr(e, Len::Fixed(n)) => !matches!(**n, Expr::Int(k, ..) if k > 0) || self.may_be_empty(e),
            Ty::Arr(_, Len::Term(_)) => false,
            Ty::Arr(_, _) => true,
            Ty::Utf8(_) | Ty::Utf16(_) => true,
            _ => false,
        }
    }
    fn arr(&mut self, cx: &Cx, allow_tail: bool, _name: Option<&str>) -> (Ty, bool) {
        let e = self.elem(cx);
        let mut l = self.cfg.lens;
        if !allow_tail || self.may_be_empty(&e) {
            l[1] = 0;
        }
        if self.may_be_empty(&e) {
            l[2] = 0;
        }
        if l.iter().all(|x| *x == 0) {
            l[0] = 1;
        }
        match self.g.w(&l) {
            0 => {
                let n = self.len_expr(cx);
                (Ty::Arr(Box::new(e), Len::Fixed(Box::new(n))), false)
            }
            1 => (Ty::Arr(Box::new(e), Len::Unbounded), true),
            _ => {
                let strs: Vec<DId> = (0..self.spec.decls.len())
                    .filter(|d| matches!(&self.spec.decls[*d].kind, Kind::Const { ty: Ty::Arr(..), .. }))
                    .collect();
                let t = if !strs.is_empty() && self.g.pct(40) {
                    Expr::Const(*self.g.pick(&strs))
                } else {
                    Expr::Str(self.string())
                };
                (Ty::Arr(Box::new(e), Len::Term(Box::new(t))), false)
            }
        }
    }
    /// an element count, byte count, ... of type u64
    fn len_expr(&mut self, cx: &Cx) -> Expr {
        let fs: Vec<(Expr, Sc, String)> = cx
            .f
            .iter()
            .filter(|f| !f.opt && !self.h.patched.contains_key(&f.name))
            .map(|f| (Expr::Field(f.name.clone()), f.ty.clone(), f.name.clone()))
            .chain(cx.a.iter().map(|f| (Expr::Input(f.name.clone()), f.ty.clone(), f.name.clone())))
            .filter_map(|(e, t, n)| match t {
                Ty::Sc(s, _) if !s.signed() => Some((e, s, n)),
                _ => None,
            })
            .collect();
        let up = |e: Expr, s: Sc| match s {
            Sc::U64 => e,
            Sc::U128 => Expr::Cast(Box::new(e), Box::new(Ty::Sc(Sc::U64, false))),
            _ => Expr::Coerce(Box::new(e), Sc::U64),
        };
        match self.g.w(&[5, if fs.is_empty() { 0 } else { 8 }, 1]) {
            1 if !fs.is_empty() => {
                let (e, s, n) = self.g.pick(&fs).clone();
                match self.g.n(5) {
                    0 | 1 => {
                        self.h.small.insert(n);
                        up(e, s)
                    }
                    2 => bin(Op::BitAnd, up(e, s), int(7, Sc::U64)),
                    3 => bin(Op::Mod, up(e, s), int(self.g.range(1, 6) as u128, Sc::U64)),
                    _ => {
                        self.h.small.insert(n);
                        let k = self.g.range(1, 3) as u128;
                        let o = *self.g.pick(&[Op::Add, Op::Mul]);
                        bin(o, up(e, s), int(k, Sc::U64))
                    }
                }
            }
            2 => {
                let e = self.int(&Cx { konst: true, ..Cx::default() }, Sc::U64, true, 1);
                bin(Op::Mod, e, int(5, Sc::U64))
            }
            _ => {
                let n = self.g.range(0, 6) as u128;
                Expr::Int(n, Sc::U64, self.g.pct(15), self.g.pct(15))
            }
        }
    }

    fn xf(&mut self, cx: &Cx, allow_tail: bool, tail: &mut bool) -> Vec<Xf> {
        let mut t = false;
        let v = self.xf_at(cx, allow_tail, &mut t);
        // what is compressed ends by itself
        *tail = t || (*tail && !v.iter().any(|x| x.kind == XfKind::Gzip && x.cond.is_none()));
        v
    }
    fn xf_at(&mut self, cx: &Cx, allow_tail: bool, tail: &mut bool) -> Vec<Xf> {
        *tail = false;
        let n = self.g.range(1, 3);
        let mut v = vec![];
        for _ in 0..n {
            let codec = self.g.pct(self.cfg.codec);
            let kind = if codec {
                if !allow_tail || self.cfg.no_base64 || self.g.pct(50) {
                    XfKind::Gzip
                } else {
                    // takes the rest of its stream
                    *tail = true;
                    XfKind::Base64
                }
            } else if self.g.pct(50) {
                XfKind::Add
            } else {
                XfKind::Mul
            };
            let args = if codec || self.g.pct(25) {
                vec![]
            } else {
                vec![self.int(cx, Sc::U8, true, 1)]
            };
            let cond = if self.g.pct(self.cfg.xf_cond) { Some(self.boolean(cx, 2)) } else { None };
            v.push(Xf { kind, args, cond });
        }
        v
    }

    // ---------------------------------------------------------- expressions

    fn et(&self, t: &Ty) -> ET {
        match t {
            Ty::Sc(s, _) => ET::Int(*s),
            Ty::Bool => ET::Bool,
            Ty::Ref(d, _) => match &self.spec.decls[*d].field().ty {
                Ty::Enum(_) => ET::Enum(*d),
                Ty::Bits(_) => ET::Bits(*d),
                _ => ET::Other,
            },
            Ty::Arr(e, _) => match **e {
                Ty::Sc(s, _) => ET::Arr(s),
                _ => ET::Other,
            },
            _ => ET::Other,
        }
    }
    pub fn literal(&mut self, s: Sc, known: bool) -> Expr {
        let v = match self.g.w(&[6, 3, 2, self.cfg.edge]) {
            0 => self.g.n(10) as u128,
            1 => self.g.n(256) as u128,
            2 => {
                let b = self.g.n(s.bits() as usize);
                1u128 << b
            }
            _ => s.umax() - if self.cfg.edge > 1 { self.g.n(3) as u128 } else { 0 },
        };
        let v = if self.lax && self.g.pct(2) { v.saturating_add(s.umax()) } else { v.min(s.umax()) };
        let suf = !known || self.g.pct(20);
        let e = Expr::Int(v, s, suf, self.g.pct(15));
        if s.signed() && self.g.pct(30) {
            Expr::Un(Un::Neg, Box::new(e))
        } else {
            e
        }
    }
    /// operands of type s
    fn int_atom(&mut self, cx: &Cx, s: Sc, known: bool) -> Expr {
        let mut opts: Vec<Expr> = vec![];
        for f in &cx.f {
            let e = Expr::Field(f.name.clone());
            match self.et(&f.ty) {
                ET::Int(t) if t == s => {
                    if f.opt {
                        if !cx.konst {
                            opts.push(bin(Op::Elvis, e, Expr::Int(1, s, true, false)));
                        }
                    } else {
                        opts.push(e)
                    }
                }
                ET::Int(t) if known && t.widens_to(s) && !f.opt => opts.push(Expr::Coerce(Box::new(e), s)),
                ET::Enum(d) if known && !f.opt => {
                    if let Ty::Enum(t) = &self.spec.decls[d].field().ty {
                        if t.rep.widens_to(s) {
                            opts.push(Expr::Coerce(Box::new(e), s));
                        }
                    }
                }
                ET::Arr(t) if t == s && !f.opt => {
                    if let Ty::Arr(el, Len::Fixed(n)) = &f.ty {
                        if let (Expr::Int(n, ..), true) = (&**n, matches!(**el, Ty::Sc(_, false))) {
                            let n = *n;
                            if n > 0 {
                                opts.push(Expr::Idx(Box::new(e), Box::new(int(n - 1, Sc::U64))));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for a in &cx.a {
            let e = Expr::Input(a.name.clone());
            match self.et(&a.ty) {
                ET::Int(t) if t == s => opts.push(e),
                ET::Int(t) if known && t.widens_to(s) => opts.push(Expr::Coerce(Box::new(e), s)),
                _ => {}
            }
        }
        let field_opts = opts.len();
        for d in 0..self.spec.decls.len() {
            match &self.spec.decls[d].kind {
                Kind::Const { ty: Ty::Sc(t, _), .. } => {
                    if *t == s {
                        opts.push(Expr::Const(d));
                    } else if known && t.widens_to(s) {
                        opts.push(Expr::Coerce(Box::new(Expr::Const(d)), s));
                    }
                }
                Kind::Type { field, .. } => match &field.ty {
                    Ty::Enum(t) if known && t.rep.widens_to(s) => {
                        for i in 0..t.items.len() {
                            if t.items[i].1 != Some(None) {
                                opts.push(Expr::Coerce(Box::new(Expr::EnumV(d, i)), s));
                            }
                        }
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        if opts.is_empty() || self.g.pct(35) {
            return self.literal(s, known);
        }
        // prefer what varies at run time
        if field_opts > 0 && self.g.pct(75) {
            opts.truncate(field_opts);
        }
        self.g.pick(&opts).clone()
    }
    /// an operand whose own type is s whatever is expected (fields, inputs, consts, casts, suffixed)
    pub fn int(&mut self, cx: &Cx, s: Sc, known: bool, d: usize) -> Expr {
        for _ in 0..4 {
            let e = self.int_try(cx, s, known, d);
            if self.safe(&e) {
                return e;
            }
        }
        self.literal(s, known)
    }
    fn int_try(&mut self, cx: &Cx, s: Sc, known: bool, d: usize) -> Expr {
        if d == 0 || !self.g.pct(self.cfg.rich) {
            return self.int_atom(cx, s, known);
        }
        match self.g.w(&[10, 3, 2, 2, if cx.konst { 0 } else { 2 }]) {
            0 => {
                let o = *self.g.pick(&[
                    Op::BitAnd,
                    Op::BitOr,
                    Op::BitXor,
                    Op::Add,
                    Op::Sub,
                    Op::Mul,
                    Op::Div,
                    Op::Mod,
                    Op::Shl,
                    Op::Shr,
                    Op::Sar,
                ]);
                let a = self.int(cx, s, known, d - 1);
                let b = match o {
                    _ if self.lax && self.g.pct(30) => self.int(cx, s, true, d - 1),
                    Op::Div | Op::Mod => Expr::Int(self.g.range(1, 9) as u128, s, self.g.pct(30), false),
                    Op::Shl | Op::Shr | Op::Sar => Expr::Int(self.g.n(s.bits() as usize) as u128, s, self.g.pct(30), false),
                    _ => self.int(cx, s, true, d - 1),
                };
                bin(o, a, b)
            }
            1 => {
                let t = *self.g.pick(&SCS);
                let x = self.int(cx, t, false, d - 1);
                let c = Expr::Cast(Box::new(x), Box::new(Ty::Sc(s, false)));
                c
            }
            2 => {
                let c = self.boolean(cx, d - 1);
                let a = self.int(cx, s, known, d - 1);
                let b = self.int(cx, s, known, d - 1);
                Expr::Tern(Box::new(c), Box::new(a), Box::new(b))
            }
            3 => {
                let x = self.int(cx, s, known, d - 1);
                let u = if s.signed() && self.g.pct(50) { Un::Neg } else { Un::BitNot };
                Expr::Un(u, Box::new(x))
            }
            _ => {
                // a call, brought to the wanted type
                let arrs: Vec<String> = cx
                    .f
                    .iter()
                    .filter(|f| !f.opt && (matches!(f.ty, Ty::Arr(..) | Ty::Utf8(_) | Ty::Utf16(_) | Ty::Utf8Nul)))
                    .map(|f| f.name.clone())
                    .collect();
                let (e, t) = match self.g.n(3) {
                    0 if !arrs.is_empty() => {
                        let a = self.g.pick(&arrs).clone();
                        (Expr::Call(Fun::Len, vec![Expr::Field(a)]), Sc::U64)
                    }
                    1 => {
                        let p = int(self.g.range(1, 9) as u128, Sc::U64);
                        let x = self.int(cx, Sc::U64, true, d - 1);
                        (Expr::Call(Fun::Pad, vec![p, x]), Sc::U64)
                    }
                    _ => {
                        let x = self.int(cx, Sc::U64, true, d - 1);
                        (Expr::Call(Fun::Bits, vec![x]), Sc::U8)
                    }
                };
                if t == s {
                    e
                } else if known && t.widens_to(s) {
                    Expr::Coerce(Box::new(e), s)
                } else {
                    Expr::Cast(Box::new(e), Box::new(Ty::Sc(s, false)))
                }
            }
        }
    }
    pub fn boolean(&mut self, cx: &Cx, d: usize) -> Expr {
        for _ in 0..4 {
            let e = self.bool_try(cx, d);
            if self.safe(&e) {
                return e;
            }
        }
        Expr::Bool(self.g.pct(50))
    }
    fn bool_try(&mut self, cx: &Cx, d: usize) -> Expr {
        let mut atoms: Vec<Expr> = vec![];
        let mut ints: Vec<Sc> = vec![];
        let mut enums: Vec<(Expr, DId)> = vec![];
        let srcs: Vec<(Expr, Ty, bool)> = cx
            .f
            .iter()
            .map(|f| (Expr::Field(f.name.clone()), f.ty.clone(), f.opt))
            .chain(cx.a.iter().map(|a| (Expr::Input(a.name.clone()), a.ty.clone(), false)))
            .collect();
        for (e, t, opt) in srcs {
            match (self.et(&t), opt) {
                (ET::Bool, false) => atoms.push(e),
                (ET::Bool, true) if !cx.konst => atoms.push(bin(Op::Elvis, e, Expr::Bool(self.n_even()))),
                (ET::Int(s), _) => ints.push(s),
                (ET::Enum(d), false) => enums.push((e, d)),
                (ET::Bits(b), false) => {
                    if let Ty::Bits(t) = &self.spec.decls[b].field().ty {
                        for i in 0..t.items.len() {
                            atoms.push(Expr::Member(Box::new(e.clone()), b, i));
                        }
                    }
                }
                _ => {}
            }
        }
        for k in 0..self.spec.decls.len() {
            if let Kind::Const { ty: Ty::Bool, .. } = &self.spec.decls[k].kind {
                if atoms.is_empty() {
                    atoms.push(Expr::Const(k));
                }
            }
        }
        let w = [
            if atoms.is_empty() { 0 } else { 6 },
            if ints.is_empty() && !cx.konst { 1 } else { 8 },
            if enums.is_empty() { 0 } else { 4 },
            if d > 0 { 4 } else { 0 },
            if d > 0 { 1 } else { 0 },
            if d > 0 { 1 } else { 0 },
            1,
            if self.cfg.strings { 1 } else { 0 },
        ];
        match self.g.w(&w) {
            0 if !atoms.is_empty() => self.g.pick(&atoms).clone(),
            7 => {
                let mut v: Vec<Expr> = cx
                    .f
                    .iter()
                    .filter(|f| !f.opt && matches!(&f.ty, Ty::Arr(e, _) if matches!(**e, Ty::Sc(Sc::U8, _))))
                    .map(|f| Expr::Field(f.name.clone()))
                    .collect();
                for k in 0..self.spec.decls.len() {
                    if let Kind::Const { ty: Ty::Arr(..), .. } = &self.spec.decls[k].kind {
                        v.push(Expr::Const(k));
                    }
                }
                let mut side = |s: &mut Self| {
                    if v.is_empty() || s.g.pct(40) {
                        Expr::Str(s.string())
                    } else {
                        s.g.pick(&v).clone()
                    }
                };
                let (a, b) = (side(self), side(self));
                bin(if self.g.pct(50) { Op::Eq } else { Op::Ne }, a, b)
            }
            1 => {
                let s = if ints.is_empty() || self.g.pct(10) { *self.g.pick(&SCS) } else { *self.g.pick(&ints) };
                let o = *self.g.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge, Op::Eq, Op::Ne, Op::Eq, Op::Ne]);
                let dd = d.min(1);
                // a balanced test, half of the time
                if self.g.pct(40) && !s.signed() {
                    let a = self.int_atom(cx, s, false);
                    let m = 1u128 << self.g.n(3);
                    return bin(Op::Eq, bin(Op::BitAnd, a, int(m, s)), int(if self.g.pct(50) { m } else { 0 }, s));
                }
                let a = self.int(cx, s, false, dd);
                let b = if self.g.pct(50) { self.int_atom(cx, s, true) } else { self.int(cx, s, true, dd) };
                bin(o, a, b)
            }
            2 if !enums.is_empty() => {
                let (e, d) = self.g.pick(&enums).clone();
                let o = if self.g.pct(50) { Op::Eq } else { Op::Ne };
                match self.enum_lit(d) {
                    Some(x) => bin(o, e, x),
                    None => Expr::Bool(true),
                }
            }
            3 => {
                let o = *self.g.pick(&[Op::And, Op::Or]);
                let a = self.boolean(cx, d - 1);
                let b = self.boolean(cx, d - 1);
                bin(o, a, b)
            }
            4 => {
                let a = self.boolean(cx, d - 1);
                Expr::Un(Un::Not, Box::new(a))
            }
            5 => {
                let a = self.boolean(cx, d - 1);
                let b = self.boolean(cx, d - 1);
                if self.g.pct(50) {
                    let c = self.boolean(cx, d - 1);
                    Expr::Tern(Box::new(a), Box::new(b), Box::new(c))
                } else {
                    bin(if self.g.pct(50) { Op::Eq } else { Op::Ne }, a, b)
                }
            }
            _ => Expr::Bool(self.g.pct(50)),
        }
    }
    fn n_even(&mut self) -> bool {
        self.g.pct(50)
    }
    /// every closed subexpression has a defined value
    fn safe(&self, e: &Expr) -> bool {
        fn closed(e: &Expr) -> bool {
            match e {
                Expr::Field(_) | Expr::Input(_) => false,
                Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Coerce(a, _) | Expr::Member(a, ..) => closed(a),
                Expr::Bin(_, a, b) | Expr::Idx(a, b) => closed(a) && closed(b),
                Expr::Tern(a, b, c) => closed(a) && closed(b) && closed(c),
                Expr::Call(_, a) => a.iter().all(closed),
                _ => true,
            }
        }
        if self.lax {
            return true;
        }
        if closed(e) && self.spec.eval(e, &Env::default()).is_err() {
            return false;
        }
        match e {
            Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Coerce(a, _) | Expr::Member(a, ..) => self.safe(a),
            Expr::Bin(_, a, b) | Expr::Idx(a, b) => self.safe(a) && self.safe(b),
            Expr::Tern(a, b, c) => self.safe(a) && self.safe(b) && self.safe(c),
            Expr::Call(_, a) => a.iter().all(|x| self.safe(x)),
            _ => true,
        }
    }
}

// ------------------------------------------------------------------ values

pub fn int_val(g: &mut Gen, s: Sc) -> Val {
    let x = match g.w(&[4, 2, 2, 2, 6]) {
        0 => g.n(10) as u128,
        1 => s.umax(),
        2 => 1u128 << g.n(s.bits() as usize),
        3 => {
            if s.signed() {
                s.imin() as u128
            } else {
                s.umax() - g.n(3) as u128
            }
        }
        _ => {
            let mut x = 0u128;
            for _ in 0..(s.bytes() + 3) / 4 {
                x = x << 32 | g.u32() as u128;
            }
            x
        }
    };
    let x = wrap(s, s, x);
    if s.signed() {
        Val::I(x as i128)
    } else {
        Val::U(x)
    }
}

pub fn utf8_val(g: &mut Gen, bytes: usize, nul_ok: bool) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < bytes {
        let left = bytes - s.len();
        let c = match g.n(8) {
            0..=3 => (b'a' + g.n(26) as u8) as char,
            4 => 'é',
            5 => '€',
            6 => '𝄞',
            _ => {
                if nul_ok {
                    '\0'
                } else {
                    '\u{1}'
                }
            }
        };
        if c.len_utf8() <= left {
            s.push(c);
        } else {
            s.push('z');
        }
    }
    s.into_bytes()
}
pub fn utf16_val(g: &mut Gen, units: usize) -> Vec<u8> {
    let mut s = String::new();
    let mut n = 0;
    while n < units {
        let c = match g.n(8) {
            0..=3 => (b'a' + g.n(26) as u8) as char,
            4 => 'é',
            5 => '\u{ffee}',
            6 => '𝄞',
            _ => '\0',
        };
        if n + c.len_utf16() <= units {
            n += c.len_utf16();
            s.push(c);
        } else {
            n += 1;
            s.push('z');
        }
    }
    s.into_bytes()
}

/// how much a value generator may still produce
pub struct Budget {
    pub depth: usize,
    pub big: usize,
}

impl Doc {
    pub fn types(&self) -> Vec<DId> {
        (0..self.spec.decls.len()).filter(|d| self.spec.decls[*d].is_type()).collect()
    }
    pub fn arg_vals(&self, g: &mut Gen, d: DId) -> Vec<V> {
        let args = self.spec.decls[d].args().to_vec();
        args.iter()
            .map(|a| {
                let v = if self.hints.small.contains(&a.name) && matches!(a.ty, Ty::Sc(..)) {
                    match &a.ty {
                        Ty::Sc(s, _) if s.signed() => Val::I(g.n(6) as i128),
                        _ => Val::U(g.n(6) as u128),
                    }
                } else {
                    match &a.ty {
                        Ty::Sc(s, _) => int_val(g, *s),
                        Ty::Bool => Val::Bool(g.pct(50)),
                        Ty::Ref(d, _) => match &self.spec.decls[*d].field().ty {
                            Ty::Enum(e) => self.enum_val(g, e),
                            _ => unreachable!(),
                        },
                        _ => unreachable!(),
                    }
                };
                self.spec.lift(&a.ty, &v)
            })
            .collect()
    }
    pub fn enum_val(&self, g: &mut Gen, e: &EnumT) -> Val {
        let i = g.n(e.items.len());
        if e.items[i].1 == Some(None) {
            for _ in 0..8 {
                let r = int_val(g, e.rep);
                let x = match r {
                    Val::U(x) => x,
                    Val::I(x) => x as u128,
                    _ => unreachable!(),
                };
                if (0..i).all(|k| self.spec.enum_value(e, k) != Ok(x)) {
                    return Val::Var(i as u32, vec![r]);
                }
            }
            if i == 0 {
                return Val::Var(0, vec![if e.rep.signed() { Val::I(0) } else { Val::U(0) }]);
            }
            return Val::Var(0, vec![]);
        }
        Val::Var(i as u32, vec![])
    }

    pub fn decl_value(&self, g: &mut Gen, d: DId, args: &[V], b: &Budget) -> M<Val> {
        thread_local!(static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
        let n = DEPTH.get();
        if n > 24 {
            return Err(Stop::Unspec("value too deep"));
        }
        DEPTH.set(n + 1);
        let r = self.decl_value_in(g, d, args, b);
        DEPTH.set(n);
        r
    }
    fn decl_value_in(&self, g: &mut Gen, d: DId, args: &[V], b: &Budget) -> M<Val> {
        let f = self.spec.decls[d].field();
        let mut env = self.spec.decl_env(d, args);
        Ok(match &f.ty {
            Ty::Enum(e) => self.enum_val(g, e),
            Ty::Bits(t) => {
                let all = self.spec.bit_all(t)?;
                let x = match int_val(g, t.rep) {
                    Val::U(x) => x,
                    _ => 0,
                };
                Val::U(if g.pct(20) { all } else { x & all })
            }
            Ty::Cont(c) if c.tagged => match self.spec.select(c, &env)?.or_else(|| if g.pct(50) { Some(g.n(c.items.len())) } else { None }) {
                None => return Err(Stop::Reject("no variant's condition holds")),
                Some(i) => {
                    let vf = match &c.items[i] {
                        Item::Field(_, f) => f,
                        _ => unreachable!(),
                    };
                    match &vf.ty {
                        Ty::Cont(s) => {
                            let l = self.room(s, &env)?;
                            self.cont_value(g, s, &mut env, b, l)?;
                            Val::Var(i as u32, self.spec.collect(s, &env))
                        }
                        t => Val::Var(i as u32, vec![self.ty_value(g, t, &env, b, None, None)?]),
                    }
                }
            },
            Ty::Cont(c) => {
                let l = self.room(c, &env)?;
                self.cont_value(g, c, &mut env, b, l)?;
                Val::Rec(self.spec.collect(c, &env))
            }
            t => match &f.cond {
                None => Val::Rec(vec![self.ty_value(g, t, &env, b, None, None)?]),
                Some(k) => {
                    if self.spec.eval(k, &env)?.b() {
                        Val::Rec(vec![Val::some(self.ty_value(g, t, &env, b, None, None)?)])
                    } else {
                        Val::Rec(vec![Val::None])
                    }
                }
            },
        })
    }
    /// the byte length a container's literal bound leaves
    fn room(&self, c: &Cont, env: &Env) -> M<Option<usize>> {
        Ok(match &c.len {
            Some(e @ Expr::Int(..)) => Some(self.spec.eval(e, env)?.u() as usize),
            _ => None,
        })
    }

    /// fills env.f with the fields of c
    fn cont_value(&self, g: &mut Gen, c: &Cont, env: &mut Env, b: &Budget, room: Option<usize>) -> M<()> {
        for (k, it) in c.items.iter().enumerate() {
            self.try_calc(c, env);
            let (n, f) = match it {
                Item::Field(n, f) => (n, f),
                _ => continue,
            };
            if f.calc.is_some() || self.hints.patched.contains_key(n) {
                continue;
            }
            let on = match &f.cond {
                None => true,
                Some(x) => self.spec.eval(x, env)?.b(),
            };
            if let Ty::Cont(s) = &f.ty {
                let patch = self.hints.patched.iter().find(|x| x.1 == n).map(|x| x.0.clone());
                if on {
                    let l = self.room(s, env)?;
                    self.cont_value(g, s, env, b, l)?;
                    if let Some(p) = &patch {
                        let mut o = vec![];
                        let mut e2 = env.clone();
                        self.spec.calc(s, &mut e2)?;
                        self.spec.enc_items(s, &mut e2, &mut o)?;
                        if has_gz(&o) {
                            return Err(Stop::Unspec("length of a compressed part"));
                        }
                        let l = realize(&o, 6).len() as u128;
                        self.patch(c, p, l, env)?;
                    }
                } else if let Some(p) = &patch {
                    let v = g.n(200) as u128;
                    self.patch(c, p, v, env)?;
                }
                if f.cond.is_some() {
                    for x in flatten(s) {
                        let v = match env.f.remove(x.name) {
                            _ if !on => V::None,
                            Some(v @ (V::None | V::Some(_))) => v,
                            Some(v) => V::Some(Box::new(v)),
                            None => V::None,
                        };
                        env.f.insert(x.name.to_string(), v);
                    }
                }
                continue;
            }
            let v = if on {
                let left = match room {
                    Some(r) if k + 1 == c.items.len() => {
                        let mut o = vec![];
                        let mut e2 = env.clone();
                        let head = Cont { len: None, tagged: false, items: c.items[..k].to_vec() };
                        self.spec.calc(&head, &mut e2)?;
                        self.spec.enc_items(&head, &mut e2, &mut o)?;
                        if has_gz(&o) {
                            return Err(Stop::Unspec("length of a compressed part"));
                        }
                        let l = realize(&o, 6).len();
                        if l > r {
                            return Err(Stop::Unspec("does not fit"));
                        }
                        Some(r - l)
                    }
                    _ => None,
                };
                let v = self.ty_value(g, &f.ty, env, b, Some(n), left)?;
                let v = self.spec.lift(&f.ty, &v);
                if f.cond.is_some() {
                    V::Some(Box::new(v))
                } else {
                    v
                }
            } else {
                V::None
            };
            env.f.insert(n.clone(), v);
        }
        self.try_calc(c, env);
        // what could not be computed here (sizes) is filled in by the encoder
        for it in &c.items {
            if let Item::Field(n, f) = it {
                if f.calc.is_some() && !env.f.contains_key(n) {
                    let v = match &f.ty {
                        Ty::Sc(s, _) => V::Int(*s, 0),
                        _ => V::Bool(false),
                    };
                    env.f.insert(n.clone(), if f.cond.is_some() { V::Some(Box::new(v)) } else { v });
                }
            }
        }
        Ok(())
    }
    fn patch(&self, c: &Cont, n: &str, l: u128, env: &mut Env) -> M<()> {
        for it in &c.items {
            if let Item::Field(m, f) = it {
                if m == n {
                    if let Ty::Sc(s, _) = &f.ty {
                        if l > s.umax() {
                            return Err(Stop::Unspec("length does not fit its field"));
                        }
                        env.f.insert(n.to_string(), V::Int(*s, l));
                    }
                }
            }
        }
        Ok(())
    }
    fn try_calc(&self, c: &Cont, env: &mut Env) {
        for it in &c.items {
            if let Item::Field(n, f) = it {
                if let Some(x) = &f.calc {
                    let mut deps = vec![];
                    expr_fields(x, &mut deps);
                    if let Some(k) = &f.cond {
                        expr_fields(k, &mut deps);
                    }
                    if !env.f.contains_key(n) && !has_call(x, Fun::Blen) && deps.iter().all(|d| env.f.contains_key(d)) {
                        if let Ok(v) = self.spec.eval(x, env) {
                            let on = match &f.cond {
                                None => None,
                                Some(k) => match self.spec.eval(k, env) {
                                    Ok(v) => Some(v.b()),
                                    Err(_) => continue,
                                },
                            };
                            let v = match on {
                                None => v,
                                Some(true) => V::Some(Box::new(v)),
                                Some(false) => V::None,
                            };
                            env.f.insert(n.clone(), v);
                        }
                    }
                }
            }
        }
    }

    pub fn ty_value(&self, g: &mut Gen, t: &Ty, env: &Env, b: &Budget, name: Option<&str>, room: Option<usize>) -> M<Val> {
        let free = name.map_or(false, |n| self.hints.free.contains(n));
        let small = name.map_or(false, |n| self.hints.small.contains(n));
        Ok(match t {
            Ty::Sc(s, _) => {
                if small {
                    let deep = b.depth == 0;
                    let x = if deep { 0 } else { g.n(if self.recursive_len(name) { 3 } else { 6 }) as u128 };
                    if s.signed() {
                        Val::I(x as i128)
                    } else {
                        Val::U(x)
                    }
                } else {
                    int_val(g, *s)
                }
            }
            Ty::F32 => Val::U(match g.n(4) {
                0 => 0,
                1 => f32::MAX.to_bits() as u128,
                _ => g.u32() as u128,
            }),
            Ty::F64 => Val::U(match g.n(4) {
                0 => 0,
                1 => f64::NAN.to_bits() as u128,
                _ => g.u64() as u128,
            }),
            Ty::Bool => Val::Bool(g.pct(50)),
            Ty::Var(s) => int_val(g, *s),
            Ty::Utf8Nul => {
                let n = g.n(8);
                Val::Str(utf8_val(g, n, false))
            }
            Ty::Utf8(l) => {
                let n = if free { g.n(9) } else { self.count(l, env)? };
                Val::Str(utf8_val(g, n, true))
            }
            Ty::Utf16(l) => {
                let n = if free { g.n(9) } else { self.count(l, env)? };
                Val::Str(utf16_val(g, n))
            }
            Ty::Arr(e, l) => {
                let n = match l {
                    _ if room.is_some() => room.unwrap(),
                    Len::Fixed(l) if !free => self.count(l, env)?,
                    _ => {
                        if g.pct(3) {
                            g.n(b.big.max(1))
                        } else {
                            g.n(6)
                        }
                    }
                };
                let mut v = vec![];
                for _ in 0..n {
                    let inner = Budget { depth: b.depth.saturating_sub(1), big: 8 };
                    v.push(self.ty_value(g, e, env, &inner, None, None)?);
                }
                Val::List(v)
            }
            Ty::Ref(d, a) => {
                let args = self.spec.args_of(*d, a, env)?;
                let inner = Budget { depth: b.depth.saturating_sub(1), big: b.big.min(16) };
                self.decl_value(g, *d, &args, &inner)?
            }
            _ => unreachable!("{:?}", t),
        })
    }
    fn recursive_len(&self, _n: Option<&str>) -> bool {
        !self.hints.recursive.is_empty()
    }
    fn count(&self, l: &Expr, env: &Env) -> M<usize> {
        let n = self.spec.eval(l, env)?.u();
        if n > 600 {
            return Err(Stop::Unspec("too long to try"));
        }
        Ok(n as usize)
    }
}

pub fn expr_fields(e: &Expr, o: &mut Vec<String>) {
    match e {
        Expr::Field(n) => o.push(n.clone()),
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Coerce(a, _) | Expr::Member(a, ..) => expr_fields(a, o),
        Expr::Bin(_, a, b) | Expr::Idx(a, b) => {
            expr_fields(a, o);
            expr_fields(b, o);
        }
        Expr::Tern(a, b, c) => {
            expr_fields(a, o);
            expr_fields(b, o);
            expr_fields(c, o);
        }
        Expr::Call(_, a) => {
            for x in a {
                expr_fields(x, o);
            }
        }
        _ => {}
    }
}
pub fn has_call(e: &Expr, f: Fun) -> bool {
    match e {
        Expr::Call(g, a) => *g == f || a.iter().any(|x| has_call(x, f)),
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Coerce(a, _) | Expr::Member(a, ..) => has_call(a, f),
        Expr::Bin(_, a, b) | Expr::Idx(a, b) => has_call(a, f) || has_call(b, f),
        Expr::Tern(a, b, c) => has_call(a, f) || has_call(b, f) || has_call(c, f),
        _ => false,
    }
}
