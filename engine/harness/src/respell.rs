//! C20: syntax trees written out in many spellings, and read back.

use crate::direct::Direct;
use crate::front::{self, Stage};
use crate::gen::{self, Cfg};
use crate::lex;
use crate::run::{h64, Stats, Tier};
use crate::tape::Gen;
use protospec_build::ast::*;
use protospec_build::{asg, compile_program, parse, PreludeImportResolver, Span};
use serde_json::{json, Value};

/// how to write a document
#[derive(Clone, Copy)]
pub struct Style {
    /// percent of expressions that get redundant parentheses
    pub parens: usize,
    /// percent of gaps with more than the least whitespace
    pub loose: usize,
    /// percent of gaps with a comment
    pub comments: usize,
    /// percent of lists with a trailing comma
    pub commas: usize,
    /// percent of integers and strings written in another form
    pub literals: usize,
}

pub const PLAIN: Style = Style { parens: 0, loose: 0, comments: 0, commas: 0, literals: 0 };

/// binding strength, weakest first: ?: || && | ^ & == < << + * :>
fn level(e: &Expression) -> usize {
    use BinaryOp::*;
    match e {
        Expression::Ternary(_) => 0,
        Expression::Binary(b) => match b.op {
            Or => 1,
            And => 2,
            BitOr => 3,
            BitXor => 4,
            BitAnd => 5,
            Eq | Ne => 6,
            Lt | Gt | Lte | Gte => 7,
            Shl | Shr | ShrSigned => 8,
            Add | Sub => 9,
            Mul | Div | Mod => 10,
            Elvis => 11,
        },
        Expression::Cast(_) => 11,
        Expression::Unary(_) => 12,
        Expression::ArrayIndex(_) | Expression::Member(_) => 13,
        _ => 14,
    }
}

fn op(o: &BinaryOp) -> &'static str {
    use BinaryOp::*;
    match o {
        Lt => "<",
        Gt => ">",
        Lte => "<=",
        Gte => ">=",
        Eq => "==",
        Ne => "!=",
        Or => "||",
        And => "&&",
        BitOr => "|",
        BitAnd => "&",
        BitXor => "^",
        Shr => ">>",
        Shl => "<<",
        ShrSigned => ">>>",
        Add => "+",
        Sub => "-",
        Mul => "*",
        Div => "/",
        Mod => "%",
        Elvis => "?:",
    }
}

fn scalar_name(s: &ScalarType) -> &'static str {
    use ScalarType::*;
    match s {
        U8 => "u8",
        U16 => "u16",
        U32 => "u32",
        U64 => "u64",
        U128 => "u128",
        I8 => "i8",
        I16 => "i16",
        I32 => "i32",
        I64 => "i64",
        I128 => "i128",
    }
}

pub struct Writer<'a> {
    g: &'a mut Gen,
    st: Style,
    toks: Vec<String>,
}

impl<'a> Writer<'a> {
    fn put(&mut self, s: impl Into<String>) {
        self.toks.push(s.into());
    }

    fn trailing(&mut self) {
        if self.g.pct(self.st.commas) {
            self.put(",");
        }
    }

    fn at(&mut self, e: &Expression, least: usize) {
        let need = level(e) < least;
        let mut n = need as usize;
        while n < 3 && self.g.pct(self.st.parens) {
            n += 1;
        }
        for _ in 0..n {
            self.put("(");
        }
        self.expr(e);
        for _ in 0..n {
            self.put(")");
        }
    }

    fn args(&mut self, v: &[Expression]) {
        for (i, a) in v.iter().enumerate() {
            if i > 0 {
                self.put(",");
            }
            self.at(a, 0);
        }
        if !v.is_empty() {
            self.trailing();
        }
    }

    fn expr(&mut self, e: &Expression) {
        let l = level(e);
        match e {
            Expression::Binary(b) => {
                self.at(&b.left, l);
                self.put(op(&b.op));
                self.at(&b.right, l + 1);
            }
            Expression::Unary(u) => {
                self.put(match u.op {
                    UnaryOp::Negate => "-",
                    UnaryOp::Not => "!",
                    UnaryOp::BitNot => "~",
                });
                self.at(&u.inner, l);
            }
            Expression::Cast(c) => {
                self.at(&c.inner, l);
                self.put(":>");
                self.type_(&c.type_);
            }
            Expression::ArrayIndex(a) => {
                self.at(&a.array, l);
                self.put("[");
                self.at(&a.index, 0);
                self.put("]");
            }
            Expression::Member(m) => {
                self.at(&m.target, l);
                self.put(".");
                self.put(&m.member.name);
            }
            Expression::EnumAccess(a) => {
                self.put(&a.name.name);
                self.put("::");
                self.put(&a.variant.name);
            }
            Expression::Int(i) => {
                let s = self.int(&i.value);
                self.put(s);
                if let Some(t) = &i.type_ {
                    self.put(scalar_name(t));
                }
            }
            Expression::Ref(r) => self.put(&r.name),
            Expression::Str(s) => {
                let s = self.string(&s.content);
                self.put(s);
            }
            Expression::Ternary(t) => {
                self.at(&t.condition, 1);
                self.put("?");
                self.at(&t.if_true, 0);
                self.put(":");
                self.at(&t.if_false, 1);
            }
            Expression::Bool(b) => self.put(if b.value { "true" } else { "false" }),
            Expression::Call(c) => {
                self.put(&c.function.name);
                self.put("(");
                self.args(&c.arguments);
                self.put(")");
            }
        }
    }

    fn int(&mut self, v: &str) -> String {
        if !self.g.pct(self.st.literals) {
            return v.to_string();
        }
        let n = match v.strip_prefix("0x") {
            Some(h) => u128::from_str_radix(h, 16),
            None => v.parse(),
        };
        let Ok(n) = n else { return v.to_string() };
        let z = "0".repeat(self.g.n(3));
        match self.g.n(4) {
            0 => format!("{}{}", z, n),
            1 => format!("0x{}{:x}", z, n),
            2 => format!("0x{}{:X}", z, n),
            _ => n.to_string(),
        }
    }

    fn string(&mut self, v: &[u8]) -> String {
        let mut s = String::from("\"");
        let mut open = false;
        for b in v {
            let plain = (b' '..=b'~').contains(b) && !matches!(b, b'"' | b'\\') && !(open && b.is_ascii_hexdigit());
            let mut forms = vec![3];
            if plain {
                forms.insert(0, 0);
            } else if matches!(b, b'"' | b'\\') {
                forms.insert(0, 1);
            }
            if self.st.literals > 0 {
                if b.is_ascii() && !b.is_ascii_hexdigit() {
                    forms.push(1);
                }
                if *b < 16 {
                    forms.push(2);
                }
            }
            let f = if self.g.pct(self.st.literals) { *self.g.pick(&forms) } else { forms[0] };
            open = f == 2;
            match f {
                0 => s.push(*b as char),
                1 => {
                    s.push('\\');
                    s.push(*b as char);
                }
                2 => s.push_str(&format!("\\{:x}", b)),
                _ => s.push_str(&if self.g.pct(50) { format!("\\{:02x}", b) } else { format!("\\{:02X}", b) }),
            }
        }
        s.push('"');
        s
    }

    fn scalar(&mut self, s: &EndianScalarType) {
        let n = scalar_name(&s.scalar);
        self.put(if s.endian == Endian::Little { format!("{}le", n) } else { n.to_string() });
    }

    fn type_(&mut self, t: &Type) {
        match &t.raw_type {
            RawType::Container(c) => {
                self.put("container");
                if let Some(l) = &c.length {
                    self.put("[");
                    self.at(l, 0);
                    self.put("]");
                }
                self.flags(&c.flags);
                self.put("{");
                for (i, x) in c.items.iter().enumerate() {
                    if i > 0 {
                        self.put(",");
                    }
                    match x {
                        ContainerItem::Field(n, f) => {
                            self.put(&n.name);
                            self.put(":");
                            self.field(f);
                        }
                        ContainerItem::Pad(e) => {
                            self.put(".");
                            self.put("pad");
                            self.put(":");
                            self.at(e, 0);
                        }
                    }
                }
                if !c.items.is_empty() {
                    self.trailing();
                }
                self.put("}");
            }
            RawType::Enum(e) => {
                self.put("enum");
                self.scalar(&e.rep);
                self.put("{");
                for (i, (n, v)) in e.items.iter().enumerate() {
                    if i > 0 {
                        self.put(",");
                    }
                    self.put(&n.name);
                    match v {
                        EnumValue::Expression(e) => {
                            self.put("=");
                            self.at(e, 0);
                        }
                        EnumValue::Default => {
                            self.put("=");
                            self.put("default");
                        }
                        EnumValue::None => {}
                    }
                }
                self.trailing();
                self.put("}");
            }
            RawType::Bitfield(b) => {
                self.put("bitfield");
                self.scalar(&b.rep);
                self.put("{");
                for (i, (n, v)) in b.items.iter().enumerate() {
                    if i > 0 {
                        self.put(",");
                    }
                    self.put(&n.name);
                    if let Some(e) = v {
                        self.put("=");
                        self.at(e, 0);
                    }
                }
                self.trailing();
                self.put("}");
            }
            RawType::Scalar(s) => self.scalar(s),
            RawType::Array(a) => {
                self.type_(&a.interior_type);
                self.put("[");
                if a.length.expandable {
                    self.put("..");
                }
                if let Some(e) = &a.length.inner {
                    self.at(e, 0);
                }
                self.put("]");
            }
            RawType::F32 => self.put("f32"),
            RawType::F64 => self.put("f64"),
            RawType::Bool => self.put("bool"),
            RawType::Ref(r) => {
                self.put(&r.name.name);
                if !r.arguments.is_empty() || self.g.pct(self.st.commas / 4) {
                    self.put("(");
                    self.args(&r.arguments);
                    self.put(")");
                }
            }
        }
    }

    fn flags(&mut self, f: &[Ident]) {
        for f in f {
            self.put("+");
            self.put(&f.name);
        }
    }

    fn field(&mut self, f: &Field) {
        self.type_(&f.type_);
        if let Some(c) = &f.calculated {
            self.put("=");
            self.at(c, 0);
        }
        self.flags(&f.flags);
        if let Some(c) = &f.condition {
            self.put("{");
            self.at(c, 0);
            self.put("}");
        }
        for t in &f.transforms {
            self.put("->");
            self.put(&t.name.name);
            if !t.arguments.is_empty() || self.g.pct(self.st.commas / 4) {
                self.put("(");
                self.args(&t.arguments);
                self.put(")");
            }
            if let Some(c) = &t.conditional {
                self.put("{");
                self.at(c, 0);
                self.put("}");
            }
        }
    }

    fn declaration(&mut self, d: &Declaration) {
        match d {
            Declaration::Type(t) => {
                self.put("type");
                self.put(&t.name.name);
                if !t.arguments.is_empty() || self.g.pct(self.st.commas / 4) {
                    self.put("(");
                    for (i, a) in t.arguments.iter().enumerate() {
                        if i > 0 {
                            self.put(",");
                        }
                        self.put(&a.name.name);
                        self.put(":");
                        self.type_(&a.type_);
                        if let Some(e) = &a.default_value {
                            self.put("?");
                            self.at(e, 0);
                        }
                    }
                    if !t.arguments.is_empty() {
                        self.trailing();
                    }
                    self.put(")");
                }
                self.put("=");
                self.field(&t.value);
            }
            Declaration::Import(i) => {
                self.put("import");
                for (k, x) in i.items.iter().enumerate() {
                    if k > 0 {
                        self.put(",");
                    }
                    self.put(&x.name.name);
                    if let Some(a) = &x.alias {
                        self.put("as");
                        self.put(&a.name);
                    }
                }
                self.trailing();
                self.put("from");
                let s = self.string(&i.from.content);
                self.put(s);
            }
            Declaration::Ffi(f) => {
                self.put("import_ffi");
                self.put(&f.name.name);
                self.put("as");
                self.put(match f.ffi_type {
                    FfiType::Transform => "transform",
                    FfiType::Type => "type",
                    FfiType::Function => "function",
                });
            }
            Declaration::Const(c) => {
                self.put("const");
                self.put(&c.name.name);
                self.put(":");
                self.type_(&c.type_);
                self.put("=");
                self.at(&c.value, 0);
            }
        }
        self.put(";");
    }
}

fn join(g: &mut Gen, st: &Style, toks: &[String]) -> String {
    let mut s = String::new();
    let mut last = String::new();
    for t in toks {
        let mut kept = last.is_empty();
        if g.pct(st.comments) {
            if g.pct(50) {
                s.push_str(if last == "/" { " " } else { "" });
                s.push_str(*g.pick(&["/**/", "/* ; */", "/* // */", "/* \" */", "/*\n*/", "/***/", "/* type */"]));
            } else {
                s.push_str(if last == "/" { " " } else { "" });
                s.push_str(*g.pick(&["// \"\n", "//\n", "// /*\n", "// ;\r\n", "//*/\n"]));
            }
            kept = true;
        }
        let suffix = last.as_bytes().first().map_or(false, |c| c.is_ascii_digit()) && matches!(t.as_bytes()[0], b'u' | b'i') && g.pct(50);
        if !kept && !suffix && lex::apart(&last, t) {
            s.push(' ');
        }
        if g.pct(st.loose) {
            s.push_str(lex::space(g));
        }
        s.push_str(t);
        last = t.clone();
    }
    if g.pct(st.comments) {
        s.push_str(*g.pick(&[" // end", " /* end */", "\n//\n"]));
    }
    s
}

pub fn write(p: &Program, st: Style, g: &mut Gen) -> String {
    let mut w = Writer { g, st, toks: vec![] };
    for d in &p.declarations {
        w.declaration(d);
    }
    let t = std::mem::take(&mut w.toks);
    join(w.g, &st, &t)
}

/// a tree without places, with literals by value
pub fn bare(v: Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(bare).collect()),
        Value::Object(o) => Value::Object(
            o.into_iter()
                .filter(|(k, _)| k != "span")
                .map(|(k, x)| match (&*k, &x) {
                    ("value", Value::String(s)) => {
                        let n = match s.strip_prefix("0x") {
                            Some(h) => u128::from_str_radix(h, 16),
                            None => s.parse(),
                        };
                        let x = n.map(|n| json!(n.to_string())).unwrap_or(x);
                        (k, x)
                    }
                    _ => (k, bare(x)),
                })
                .collect(),
        ),
        x => x,
    }
}

pub fn tree(p: &Program) -> Value {
    bare(serde_json::to_value(p).unwrap())
}

/// trees without regard to meaning
struct Trees<'a> {
    g: &'a mut Gen,
}

const NAMES: [&str; 10] = ["a", "b", "T", "x1", "_k", "len", "u8x", "typed", "pad", "Default_"];

impl<'a> Trees<'a> {
    fn id(&mut self) -> Ident {
        Ident { name: self.g.pick(&NAMES).to_string(), span: Span::default() }
    }
    fn scalar_type(&mut self) -> ScalarType {
        use ScalarType::*;
        *self.g.pick(&[U8, U16, U32, U64, U128, I8, I16, I32, I64, I128])
    }
    fn escalar(&mut self) -> EndianScalarType {
        let scalar = self.scalar_type();
        let le = self.g.pct(30) && !matches!(scalar, ScalarType::U8 | ScalarType::I8);
        EndianScalarType { scalar, endian: if le { Endian::Little } else { Endian::Big } }
    }
    fn bx(&mut self, d: usize) -> Box<Expression> {
        Box::new(self.expr(d))
    }
    fn expr(&mut self, d: usize) -> Expression {
        use BinaryOp::*;
        let span = Span::default();
        let k = if d == 0 { self.g.n(5) } else { self.g.w(&[3, 3, 1, 1, 1, 24, 6, 5, 4, 4, 4, 3]) };
        match k {
            0 => Expression::Ref(self.id()),
            1 => {
                let n = match self.g.n(3) {
                    0 => self.g.n(300) as u128,
                    1 => self.g.u64() as u128,
                    _ => (self.g.u64() as u128) << 64 | self.g.u64() as u128,
                };
                let value = if self.g.pct(30) { format!("0x{:x}", n) } else { n.to_string() };
                let type_ = if self.g.pct(50) { Some(self.scalar_type()) } else { None };
                Expression::Int(Int { value, type_, span })
            }
            2 => Expression::Bool(Bool { value: self.g.pct(50), span }),
            3 => {
                let content = lex::string(self.g).1;
                Expression::Str(Str { content, span })
            }
            4 => Expression::EnumAccess(EnumAccessExpression { name: self.id(), variant: self.id(), span }),
            5 => {
                let ops = [Add, Sub, Mul, Div, Mod, Lt, Gt, Lte, Gte, Eq, Ne, Or, And, BitOr, BitAnd, BitXor, Shr, Shl, ShrSigned, Elvis];
                let i = self.g.n(ops.len());
                let [left, right] = [self.bx(d - 1), self.bx(d - 1)];
                Expression::Binary(BinaryExpression { op: ops.into_iter().nth(i).unwrap(), left, right, span })
            }
            6 => {
                let op = match self.g.n(3) {
                    0 => UnaryOp::Negate,
                    1 => UnaryOp::Not,
                    _ => UnaryOp::BitNot,
                };
                Expression::Unary(UnaryExpression { op, inner: self.bx(d - 1), span })
            }
            7 => Expression::Cast(CastExpression { inner: self.bx(d - 1), type_: self.type_(d - 1), span }),
            8 => Expression::ArrayIndex(ArrayIndexExpression { array: self.bx(d - 1), index: self.bx(d - 1), span }),
            9 => Expression::Ternary(TernaryExpression { condition: self.bx(d - 1), if_true: self.bx(d - 1), if_false: self.bx(d - 1), span }),
            10 => {
                let n = self.g.n(4);
                let arguments = (0..n).map(|_| self.expr(d - 1)).collect();
                Expression::Call(CallExpression { function: self.id(), arguments, span })
            }
            _ => Expression::Member(MemberExpression { target: self.bx(d - 1), member: self.id(), span }),
        }
    }
    fn type_(&mut self, d: usize) -> Type {
        let span = Span::default();
        let k = if d == 0 { self.g.n(5) } else { self.g.w(&[5, 1, 1, 1, 4, 4, 4, 3, 3]) };
        let raw_type = match k {
            0 => RawType::Scalar(self.escalar()),
            1 => RawType::F32,
            2 => RawType::F64,
            3 => RawType::Bool,
            4 => {
                let n = if d == 0 { 0 } else { self.g.n(3) };
                let arguments = (0..n).map(|_| self.expr(d - 1)).collect();
                RawType::Ref(TypeRef { name: self.id(), arguments, span })
            }
            5 => {
                let interior_type = Box::new(self.type_(d - 1));
                let expandable = self.g.pct(40);
                let inner = if expandable && self.g.pct(50) { None } else { Some(self.bx(d - 1)) };
                RawType::Array(Array { interior_type, length: LengthConstraint { expandable, inner, span }, span })
            }
            6 => {
                let length = if self.g.pct(30) { Some(self.bx(d - 1)) } else { None };
                let nf = self.g.n(3) / 2;
                let flags = (0..nf).map(|_| self.id()).collect();
                let n = self.g.n(4);
                let items = (0..n)
                    .map(|_| {
                        if self.g.pct(20) {
                            ContainerItem::Pad(self.expr(d - 1))
                        } else {
                            ContainerItem::Field(self.id(), self.field(d - 1))
                        }
                    })
                    .collect();
                RawType::Container(Container { length, items, flags, span })
            }
            7 => {
                let rep = self.escalar();
                let n = self.g.range(1, 4);
                let items = (0..n)
                    .map(|i| {
                        let v = match if i == 0 { 1 + self.g.n(2) } else { self.g.n(3) } {
                            0 => EnumValue::None,
                            1 => EnumValue::Expression(self.bx(d - 1)),
                            _ => EnumValue::Default,
                        };
                        (self.id(), v)
                    })
                    .collect();
                RawType::Enum(Enum { rep, items, span })
            }
            _ => {
                let rep = self.escalar();
                let n = self.g.range(1, 4);
                let items = (0..n).map(|i| (self.id(), if i == 0 || self.g.pct(50) { Some(self.bx(d - 1)) } else { None })).collect();
                RawType::Bitfield(Bitfield { rep, items, span })
            }
        };
        Type { raw_type, span }
    }
    fn field(&mut self, d: usize) -> Field {
        let type_ = self.type_(d);
        let calculated = if self.g.pct(25) { Some(self.bx(d)) } else { None };
        let nf = if calculated.is_some() { 0 } else { self.g.n(4) / 2 };
        let flags = (0..nf).map(|_| self.id()).collect();
        let condition = if self.g.pct(25) { Some(self.bx(d)) } else { None };
        let n = self.g.n(3);
        let transforms = (0..n)
            .map(|_| {
                let n = self.g.n(3);
                Transform {
                    name: self.id(),
                    arguments: (0..n).map(|_| self.expr(d)).collect(),
                    conditional: if self.g.pct(30) { Some(self.bx(d)) } else { None },
                    span: Span::default(),
                }
            })
            .collect();
        Field { type_, calculated, flags, condition, transforms, span: Span::default() }
    }
    fn program(&mut self) -> Program {
        let span = Span::default();
        let n = self.g.range(1, 3);
        let declarations = (0..n)
            .map(|_| match self.g.w(&[5, 5, 1, 1]) {
                0 => Declaration::Const(ConstDeclaration { name: self.id(), type_: self.type_(1), value: self.expr(5), span }),
                1 => {
                    let n = self.g.n(3);
                    let arguments = (0..n)
                        .map(|_| TypeArgument { name: self.id(), type_: self.type_(1), default_value: if self.g.pct(40) { Some(self.expr(2)) } else { None }, span })
                        .collect();
                    let name = self.id();
                    let d = self.g.range(1, 3);
                    Declaration::Type(TypeDeclaration { name, arguments, value: self.field(d), span })
                }
                2 => {
                    let n = self.g.range(1, 3);
                    let items = (0..n).map(|_| ImportItem { name: self.id(), alias: if self.g.pct(50) { Some(self.id()) } else { None }, span }).collect();
                    Declaration::Import(ImportDeclaration { items, from: Str { content: lex::string(self.g).1, span }, span })
                }
                _ => {
                    let ffi_type = match self.g.n(3) {
                        0 => FfiType::Transform,
                        1 => FfiType::Type,
                        _ => FfiType::Function,
                    };
                    Declaration::Ffi(FfiDeclaration { name: self.id(), ffi_type, span })
                }
            })
            .collect();
        Program { declarations }
    }
}

pub fn any_tree(g: &mut Gen) -> Program {
    Trees { g }.program()
}

pub fn style(g: &mut Gen) -> Style {
    let mut z = |v: &[usize]| *g.pick(v);
    Style { parens: z(&[0, 10, 30]), loose: z(&[0, 20, 80]), comments: z(&[0, 5, 30]), commas: z(&[0, 50, 100]), literals: z(&[0, 50, 100]) }
}

/// a tree in a random spelling
pub struct Trees1;

fn tree_case(g: &mut Gen) -> (Program, String) {
    let p = any_tree(g);
    let st = style(g);
    let s = write(&p, st, g);
    (p, s)
}

impl Direct for Trees1 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Syntax trees of every form, without regard to meaning, written in a random spelling (least or redundant parentheses, whitespace, comments, trailing commas, literal forms) and parsed. Non-trivial: the tree has an operator or a nested type (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 80_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let (p, s) = tree_case(g);
        st.evaluations += 1;
        let want = tree(&p);
        match front::quiet(|| parse(&s)) {
            Err(m) => Err((format!("the parser panicked: [{}]", m), s)),
            Ok(Err(e)) => Err((format!("a well-formed document is not parsed [{}]", e), s)),
            Ok(Ok(q)) => {
                let got = tree(&q);
                if got != want {
                    return Err((format!("a document is parsed into another tree [{}]", diff(&want, &got)), s));
                }
                let j = want.to_string();
                if j.contains("Binary") || j.contains("Container") || j.contains("Array") {
                    st.hit(h64(s.as_bytes()));
                }
                for k in ["Binary", "Unary", "Cast", "Ternary", "Call", "Member", "ArrayIndex", "Container", "Enum\"", "Bitfield", "Import", "Ffi"] {
                    if j.contains(k) {
                        st.class(&format!("has {}", k.trim_end_matches('"')));
                    }
                }
                st.sample(3, || json!({"text": s}));
                Ok(())
            }
        }
    }
    fn shown(&self, g: &mut Gen) -> String {
        tree_case(g).1
    }
}

/// the first difference
pub fn diff(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
            for (k, v) in x {
                if v != &y[k] {
                    return diff(v, &y[k]);
                }
            }
            String::new()
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (v, w) in x.iter().zip(y) {
                if v != w {
                    return diff(v, w);
                }
            }
            String::new()
        }
        _ => format!("{} became {}", a, b),
    }
}

/// an accepted document in another spelling
pub struct Respelt;

fn respelt(g: &mut Gen) -> Result<(String, String, Program), String> {
    let a = gen::document(g, &Cfg { decls: (1, 3), ..Cfg::default() }).spec.text();
    let p = parse(&a).map_err(|_| a.clone())?;
    let st = style(g);
    let b = write(&p, st, g);
    Ok((a, b, p))
}

impl Direct for Respelt {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Accepted documents and a random respelling of each, compiled; and the stored syntax tree, read back and compiled: the generated code must be the same. Non-trivial: the texts differ (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 4_000,
            Tier::Thorough => 300_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let (a, b, p) = match respelt(g) {
            Ok(x) => x,
            Err(a) => return Err(("a document is not parsed".into(), a)),
        };
        st.evaluations += 1;
        let both = || format!("{}\n---- respelt:\n{}", a, b);
        let res = front::Res::default();
        let x = match front::compile(&a, &res, &front::options()) {
            Ok(x) => x,
            Err(Stage::Panic(m)) => return Err((format!("the compiler panicked: [{}]", m), a)),
            Err(_) => {
                st.skip("not accepted");
                return Ok(());
            }
        };
        match front::compile(&b, &res, &front::options()) {
            Ok(y) if x == y => {}
            Ok(_) => return Err(("a respelling generates other code".into(), both())),
            Err(e) => return Err((format!("a respelling is not accepted [{}]", e), both())),
        }
        let stored = serde_json::to_string(&p).unwrap();
        let r = front::quiet(|| {
            let q: Program = serde_json::from_str(&stored).map_err(|e| e.to_string())?;
            let q = asg::Program::from_ast(&q, &PreludeImportResolver(res.clone())).map_err(|e| e.to_string())?;
            Ok::<String, String>(compile_program(&q, &front::options()).to_string())
        });
        match r {
            Ok(Ok(y)) if x == y => {}
            Ok(Ok(_)) => return Err(("a stored syntax tree generates other code".into(), a)),
            Ok(Err(e)) | Err(e) => return Err((format!("a stored syntax tree is not accepted [{}]", e), a)),
        }
        if a != b {
            st.hit(h64(b.as_bytes()));
        }
        st.sample(3, || json!({"text": a, "respelt": b}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        match respelt(g) {
            Ok((a, b, _)) => format!("{}\n---- respelt:\n{}", a, b),
            Err(a) => a,
        }
    }
}
