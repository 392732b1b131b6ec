//! The harness' own representation of a protospec document, and its printer.

use crate::tape::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sc {
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
}
pub const UNS: [Sc; 5] = [Sc::U8, Sc::U16, Sc::U32, Sc::U64, Sc::U128];
pub const SCS: [Sc; 10] =
    [Sc::U8, Sc::U16, Sc::U32, Sc::U64, Sc::U128, Sc::I8, Sc::I16, Sc::I32, Sc::I64, Sc::I128];

impl Sc {
    pub fn bytes(self) -> usize {
        match self {
            Sc::U8 | Sc::I8 => 1,
            Sc::U16 | Sc::I16 => 2,
            Sc::U32 | Sc::I32 => 4,
            Sc::U64 | Sc::I64 => 8,
            Sc::U128 | Sc::I128 => 16,
        }
    }
    pub fn bits(self) -> u32 {
        self.bytes() as u32 * 8
    }
    pub fn signed(self) -> bool {
        matches!(self, Sc::I8 | Sc::I16 | Sc::I32 | Sc::I64 | Sc::I128)
    }
    pub fn name(self) -> &'static str {
        match self {
            Sc::U8 => "u8",
            Sc::U16 => "u16",
            Sc::U32 => "u32",
            Sc::U64 => "u64",
            Sc::U128 => "u128",
            Sc::I8 => "i8",
            Sc::I16 => "i16",
            Sc::I32 => "i32",
            Sc::I64 => "i64",
            Sc::I128 => "i128",
        }
    }
    pub fn unsigned(self) -> Sc {
        UNS[SCS.iter().position(|x| *x == self).unwrap() % 5]
    }
    pub fn umax(self) -> u128 {
        let b = if self.signed() { self.bits() - 1 } else { self.bits() };
        if b == 128 {
            u128::MAX
        } else {
            (1u128 << b) - 1
        }
    }
    pub fn imin(self) -> i128 {
        if self.signed() {
            if self.bits() == 128 {
                i128::MIN
            } else {
                -(1i128 << (self.bits() - 1))
            }
        } else {
            0
        }
    }
    /// implicit widening: same signedness, at most as large
    pub fn widens_to(self, o: Sc) -> bool {
        self.signed() == o.signed() && self.bytes() <= o.bytes()
    }
}

pub type DId = usize;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ty {
    Sc(Sc, bool),
    F32,
    F64,
    Bool,
    Arr(Box<Ty>, Len),
    Ref(DId, Vec<Expr>),
    /// v8 … v128 by signed scalar
    Var(Sc),
    Utf8Nul,
    Utf8(Box<Expr>),
    Utf16(Box<Expr>),
    Cont(Box<Cont>),
    Enum(EnumT),
    Bits(BitsT),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Len {
    Fixed(Box<Expr>),
    Unbounded,
    Term(Box<Expr>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EnumT {
    pub rep: Sc,
    pub le: bool,
    /// None: implicit, Some(None): default, Some(Some(e)): explicit
    pub items: Vec<(String, Option<Option<Expr>>)>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BitsT {
    pub rep: Sc,
    pub le: bool,
    pub items: Vec<(String, Option<Expr>)>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cont {
    pub len: Option<Expr>,
    pub tagged: bool,
    pub items: Vec<Item>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Field(String, Field),
    Pad(Expr),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Field {
    pub ty: Ty,
    pub calc: Option<Expr>,
    pub cond: Option<Expr>,
    pub xf: Vec<Xf>,
}
impl Field {
    pub fn plain(ty: Ty) -> Field {
        Field { ty, calc: None, cond: None, xf: vec![] }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Xf {
    pub kind: XfKind,
    pub args: Vec<Expr>,
    pub cond: Option<Expr>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum XfKind {
    Add,
    Mul,
    Gzip,
    Base64,
}
impl XfKind {
    pub fn name(self) -> &'static str {
        match self {
            XfKind::Add => "xadd",
            XfKind::Mul => "xmul",
            XfKind::Gzip => "gzip",
            XfKind::Base64 => "base64",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Lt,
    Gt,
    Le,
    Ge,
    Eq,
    Ne,
    Or,
    And,
    BitOr,
    BitAnd,
    BitXor,
    Shr,
    Shl,
    Sar,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Elvis,
}
impl Op {
    pub fn text(self) -> &'static str {
        use Op::*;
        match self {
            Lt => "<",
            Gt => ">",
            Le => "<=",
            Ge => ">=",
            Eq => "==",
            Ne => "!=",
            Or => "||",
            And => "&&",
            BitOr => "|",
            BitAnd => "&",
            BitXor => "^",
            Shr => ">>",
            Shl => "<<",
            Sar => ">>>",
            Add => "+",
            Sub => "-",
            Mul => "*",
            Div => "/",
            Mod => "%",
            Elvis => "?:",
        }
    }
    pub fn prec(self) -> u8 {
        use Op::*;
        match self {
            Or => 1,
            And => 2,
            BitOr => 3,
            BitXor => 4,
            BitAnd => 5,
            Eq | Ne => 6,
            Lt | Gt | Le | Ge => 7,
            Shl | Shr | Sar => 8,
            Add | Sub => 9,
            Mul | Div | Mod => 10,
            Elvis => 11,
        }
    }
}
pub const OPS: [Op; 20] = [
    Op::Lt,
    Op::Gt,
    Op::Le,
    Op::Ge,
    Op::Eq,
    Op::Ne,
    Op::Or,
    Op::And,
    Op::BitOr,
    Op::BitAnd,
    Op::BitXor,
    Op::Shr,
    Op::Shl,
    Op::Sar,
    Op::Add,
    Op::Sub,
    Op::Mul,
    Op::Div,
    Op::Mod,
    Op::Elvis,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Un {
    Neg,
    Not,
    BitNot,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fun {
    Len,
    Blen,
    Pad,
    Bits,
    Sum,
}
impl Fun {
    pub fn name(self) -> &'static str {
        match self {
            Fun::Len => "len",
            Fun::Blen => "blen",
            Fun::Pad => "pad",
            Fun::Bits => "bits",
            Fun::Sum => "sum",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Expr {
    /// value, resolved type, printed with a suffix, printed in hexadecimal
    Int(u128, Sc, bool, bool),
    Bool(bool),
    Str(Vec<u8>),
    Field(String),
    Input(String),
    Const(DId),
    EnumV(DId, usize),
    Un(Un, Box<Expr>),
    Bin(Op, Box<Expr>, Box<Expr>),
    Cast(Box<Expr>, Box<Ty>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    Idx(Box<Expr>, Box<Expr>),
    Member(Box<Expr>, DId, usize),
    Call(Fun, Vec<Expr>),
    /// an implicit conversion to a scalar; prints as its operand
    Coerce(Box<Expr>, Sc),
}
pub fn int(v: u128, s: Sc) -> Expr {
    Expr::Int(v, s, false, false)
}
pub fn bin(o: Op, a: Expr, b: Expr) -> Expr {
    Expr::Bin(o, Box::new(a), Box::new(b))
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Arg {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Expr>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Type { args: Vec<Arg>, field: Field },
    Const { ty: Ty, expr: Expr },
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Decl {
    pub name: String,
    pub kind: Kind,
}
impl Decl {
    pub fn field(&self) -> &Field {
        match &self.kind {
            Kind::Type { field, .. } => field,
            _ => panic!("not a type"),
        }
    }
    pub fn args(&self) -> &[Arg] {
        match &self.kind {
            Kind::Type { args, .. } => args,
            _ => &[],
        }
    }
    pub fn is_type(&self) -> bool {
        matches!(self.kind, Kind::Type { .. })
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Spec {
    pub decls: Vec<Decl>,
    /// FFI items other than those the prelude provides unasked
    pub ffi: Vec<(&'static str, &'static str)>,
    /// the file each declaration is in, where there are several
    pub file: Vec<usize>,
}

pub const FFI: [(&str, &str); 14] = [
    ("gzip", "transform"),
    ("base64", "transform"),
    ("xadd", "transform"),
    ("xmul", "transform"),
    ("v8", "type"),
    ("v16", "type"),
    ("v32", "type"),
    ("v64", "type"),
    ("v128", "type"),
    ("utf8", "type"),
    ("utf16", "type"),
    ("pad", "function"),
    ("bits", "function"),
    ("sum", "function"),
];

/// A field of the flattened container: name, declaration, optional in the generated struct.
pub struct Flat<'a> {
    pub name: &'a str,
    pub field: &'a Field,
    pub opt: bool,
}
pub fn flatten(c: &Cont) -> Vec<Flat<'_>> {
    fn go<'a>(c: &'a Cont, cond: bool, out: &mut Vec<Flat<'a>>) {
        for it in &c.items {
            if let Item::Field(n, f) = it {
                let cond = cond || f.cond.is_some();
                match &f.ty {
                    Ty::Cont(s) => go(s, cond, out),
                    _ => out.push(Flat { name: n, field: f, opt: cond }),
                }
            }
        }
    }
    let mut out = vec![];
    go(c, false, &mut out);
    out
}

impl Spec {
    pub fn ty_is_foreign(t: &Ty) -> bool {
        matches!(t, Ty::Var(_) | Ty::Utf8Nul | Ty::Utf8(_) | Ty::Utf16(_))
    }
    /// follow references down to a structural type
    pub fn resolve<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        match t {
            Ty::Ref(d, _) => self.resolve(&self.decls[*d].field().ty),
            t => t,
        }
    }
    pub fn need_ffi(&mut self) {
        let text = self.print_decls(&mut Style::plain());
        let toks: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
        self.ffi.clear();
        for (n, k) in FFI {
            if toks.contains(&n) {
                self.ffi.push((n, k));
            }
        }
    }
}

// ------------------------------------------------------------------ printing

/// How a document is laid out; none of it may matter.
pub struct Style {
    pub rng: Option<Rng>,
    pub comments: bool,
    pub parens: bool,
}
impl Style {
    pub fn plain() -> Style {
        Style { rng: None, comments: false, parens: false }
    }
    pub fn noisy(seed: u64) -> Style {
        Style { rng: Some(Rng::new(seed)), comments: true, parens: true }
    }
    fn n(&mut self, n: u64) -> u64 {
        match &mut self.rng {
            None => 0,
            Some(r) => r.next() % n,
        }
    }
    /// optional blank between tokens
    fn sp(&mut self) -> &'static str {
        if self.rng.is_none() {
            return " ";
        }
        match self.n(if self.comments { 14 } else { 10 }) {
            0..=5 => " ",
            6 => "  ",
            7 => "\n",
            8 => "\t",
            9 => " \r\n ",
            10 => " /* c */ ",
            11 => " /**/ ",
            12 => " // x\n",
            _ => " /* a\n * b */\n",
        }
    }
    fn wrap(&mut self) -> bool {
        self.parens && self.n(8) == 7
    }
    fn trail(&mut self) -> bool {
        self.n(2) == 1
    }
}

pub fn str_lit(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for c in b {
        match c {
            b'"' | b'\\' => {
                s.push('\\');
                s.push(*c as char);
            }
            0x20..=0x7e => s.push(*c as char),
            c => s.push_str(&format!("\\{:02x}", c)),
        }
    }
    s.push('"');
    s
}

pub struct Pr<'a> {
    pub spec: &'a Spec,
    pub st: &'a mut Style,
    pub o: String,
}

impl<'a> Pr<'a> {
    fn t(&mut self, s: &str) {
        self.o.push_str(s);
        let sp = self.st.sp();
        self.o.push_str(sp);
    }
    pub fn expr(&mut self, e: &Expr, min: u8) {
        if let Expr::Coerce(x, _) = e {
            return self.expr(x, min);
        }
        // `min` is the loosest precedence allowed here
        let p = match e {
            Expr::Tern(..) => 0,
            Expr::Bin(o, ..) => o.prec(),
            Expr::Cast(..) => 11,
            Expr::Un(..) => 12,
            Expr::Idx(..) | Expr::Member(..) => 13,
            _ => 14,
        };
        let par = p < min || self.st.wrap();
        if par {
            self.t("(");
        }
        match e {
            Expr::Int(v, s, suf, hex) => {
                let d = if *hex { format!("0x{:x}", v) } else { format!("{}", v) };
                if *suf && (*hex || self.st.n(3) == 1) {
                    self.o.push_str(&d);
                    self.o.push(' ');
                    self.t(s.name());
                } else if *suf {
                    self.t(&format!("{}{}", d, s.name()));
                } else {
                    self.t(&d);
                }
            }
            Expr::Bool(b) => self.t(if *b { "true" } else { "false" }),
            Expr::Str(b) => self.t(&str_lit(b)),
            Expr::Field(n) | Expr::Input(n) => self.t(&n.clone()),
            Expr::Const(d) => self.t(&self.spec.decls[*d].name.clone()),
            Expr::EnumV(d, i) => {
                let v = match &self.spec.decls[*d].field().ty {
                    Ty::Enum(e) => e.items[*i].0.clone(),
                    Ty::Bits(e) => e.items[*i].0.clone(),
                    _ => unreachable!(),
                };
                self.t(&format!("{}::{}", self.spec.decls[*d].name, v));
            }
            Expr::Un(u, x) => {
                self.o.push_str(match u {
                    Un::Neg => "-",
                    Un::Not => "!",
                    Un::BitNot => "~",
                });
                self.expr(x, 12);
            }
            Expr::Bin(op, a, b) => {
                let p = op.prec();
                // every level is left-associative
                self.expr(a, p);
                self.t(op.text());
                self.expr(b, if *op == Op::Elvis { 12 } else { p + 1 });
            }
            Expr::Cast(x, ty) => {
                self.expr(x, 11);
                self.t(":>");
                self.ty(ty);
            }
            Expr::Tern(c, a, b) => {
                self.expr(c, 1);
                self.t("?");
                self.expr(a, 0);
                self.t(":");
                self.expr(b, 1);
            }
            Expr::Idx(a, i) => {
                self.expr(a, 13);
                self.t("[");
                self.expr(i, 0);
                self.t("]");
            }
            Expr::Member(a, d, i) => {
                self.expr(a, 13);
                let n = match &self.spec.decls[*d].field().ty {
                    Ty::Bits(b) => b.items[*i].0.clone(),
                    _ => unreachable!(),
                };
                self.t(&format!(".{}", n));
            }
            Expr::Call(f, args) => {
                self.t(f.name());
                self.args(args);
            }
            Expr::Coerce(..) => unreachable!(),
        }
        if par {
            self.t(")");
        }
    }
    fn args(&mut self, a: &[Expr]) {
        self.t("(");
        for (i, x) in a.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.expr(x, 0);
        }
        if !a.is_empty() && self.st.trail() {
            self.t(",");
        }
        self.t(")");
    }
    pub fn sc(&mut self, s: Sc, le: bool) {
        let n = format!("{}{}", s.name(), if le && s.bytes() > 1 { "le" } else { "" });
        self.t(&n);
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Sc(s, le) => self.sc(*s, *le),
            Ty::F32 => self.t("f32"),
            Ty::F64 => self.t("f64"),
            Ty::Bool => self.t("bool"),
            Ty::Arr(e, l) => {
                self.ty(e);
                self.t("[");
                match l {
                    Len::Fixed(e) => self.expr(e, 0),
                    Len::Unbounded => self.t(".."),
                    Len::Term(b) => {
                        self.t("..");
                        self.expr(b, 0);
                    }
                }
                self.t("]");
            }
            Ty::Ref(d, a) => {
                let n = self.spec.decls[*d].name.clone();
                self.t(&n);
                if !a.is_empty() {
                    self.args(a);
                }
            }
            Ty::Var(s) => self.t(&format!("v{}", s.bits())),
            Ty::Utf8Nul => self.t("utf8"),
            Ty::Utf8(e) => {
                self.t("utf8");
                self.args(std::slice::from_ref(e));
            }
            Ty::Utf16(e) => {
                self.t("utf16");
                self.args(std::slice::from_ref(e));
            }
            Ty::Cont(c) => {
                self.t("container");
                if let Some(l) = &c.len {
                    self.t("[");
                    self.expr(l, 0);
                    self.t("]");
                }
                if c.tagged {
                    self.t("+tagged_enum");
                }
                self.t("{");
                for (i, it) in c.items.iter().enumerate() {
                    match it {
                        Item::Field(n, f) => {
                            self.t(&n.clone());
                            self.t(":");
                            self.field(f);
                        }
                        Item::Pad(e) => {
                            self.t(".pad");
                            self.t(":");
                            self.expr(e, 0);
                        }
                    }
                    if i + 1 < c.items.len() || self.st.trail() {
                        self.t(",");
                    }
                }
                self.t("}");
            }
            Ty::Enum(e) => {
                self.t("enum");
                self.sc(e.rep, e.le);
                self.t("{");
                for (i, (n, v)) in e.items.iter().enumerate() {
                    self.t(&n.clone());
                    match v {
                        None => {}
                        Some(None) => {
                            self.t("=");
                            self.t("default");
                        }
                        Some(Some(x)) => {
                            self.t("=");
                            self.expr(x, 0);
                        }
                    }
                    if i + 1 < e.items.len() || self.st.trail() {
                        self.t(",");
                    }
                }
                self.t("}");
            }
            Ty::Bits(e) => {
                self.t("bitfield");
                self.sc(e.rep, e.le);
                self.t("{");
                for (i, (n, v)) in e.items.iter().enumerate() {
                    self.t(&n.clone());
                    if let Some(x) = v {
                        self.t("=");
                        self.expr(x, 0);
                    }
                    if i + 1 < e.items.len() || self.st.trail() {
                        self.t(",");
                    }
                }
                self.t("}");
            }
        }
    }
    pub fn field(&mut self, f: &Field) {
        self.ty(&f.ty);
        if let Some(c) = &f.calc {
            self.t("=");
            self.expr(c, 0);
        }
        if let Some(c) = &f.cond {
            self.t("{");
            self.expr(c, 0);
            self.t("}");
        }
        for x in &f.xf {
            self.t("->");
            self.t(x.kind.name());
            if !x.args.is_empty() {
                self.args(&x.args);
            }
            if let Some(c) = &x.cond {
                self.t("{");
                self.expr(c, 0);
                self.t("}");
            }
        }
    }
    pub fn decl(&mut self, d: &Decl) {
        match &d.kind {
            Kind::Const { ty, expr } => {
                self.t("const ");
                self.t(&d.name);
                self.t(":");
                self.ty(ty);
                self.t("=");
                self.expr(expr, 0);
            }
            Kind::Type { args, field } => {
                self.t("type ");
                self.t(&d.name);
                if !args.is_empty() {
                    self.t("(");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            self.t(",");
                        }
                        self.t(&a.name);
                        self.t(":");
                        self.ty(&a.ty);
                        if let Some(x) = &a.default {
                            self.t("?");
                            self.expr(x, 0);
                        }
                    }
                    if self.st.trail() {
                        self.t(",");
                    }
                    self.t(")");
                }
                self.t("=");
                self.field(field);
            }
        }
        self.o.push_str(";\n");
    }
}

impl Spec {
    pub fn print_decl(&self, d: &Decl, st: &mut Style) -> String {
        let mut p = Pr { spec: self, st, o: String::new() };
        p.decl(d);
        p.o
    }
    pub fn print_expr(&self, e: &Expr, st: &mut Style) -> String {
        let mut p = Pr { spec: self, st, o: String::new() };
        p.expr(e, 0);
        p.o
    }
    pub fn print_decls(&self, st: &mut Style) -> String {
        let mut o = String::new();
        for d in &self.decls {
            o.push_str(&self.print_decl(d, st));
        }
        o
    }
    pub fn print_ffi(&self) -> String {
        let mut o = String::new();
        for (n, k) in &self.ffi {
            o.push_str(&format!("import_ffi {} as {};\n", n, k));
        }
        o
    }
    pub fn print(&self, st: &mut Style) -> String {
        self.print_ffi() + &self.print_decls(st)
    }
    pub fn text(&self) -> String {
        self.print(&mut Style::plain())
    }
}
