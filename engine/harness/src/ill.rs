//! C23: accepted documents with one meaningless edit.

use crate::direct::Direct;
use crate::front::{self, Res, Stage};
use crate::gen::{self, Cfg};
use crate::lex;
use crate::respell::{self, Style};
use crate::run::{h64, Stats, Tier};
use crate::tape::Gen;
use protospec_build::ast::*;
use protospec_build::{parse, Span};
use serde_json::json;
use std::collections::HashMap;

/// what is expected of an expression, as far as the syntax around it tells
#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Bool,
    /// some integer
    Num,
    /// an integer of the type
    Of(ScalarType),
    Any,
}

enum Site<'a> {
    Decls(&'a mut Vec<Declaration>),
    Decl(&'a mut Declaration),
    Field(&'a mut Field),
    Transform(&'a mut Transform),
    /// nested: in a container or an array
    Type(&'a mut Type, bool),
    Expr(&'a mut Expression, Role),
}

struct Walk<'f> {
    f: &'f mut dyn FnMut(Site),
    types: HashMap<String, Vec<Role>>,
}

fn role(t: &Type) -> Role {
    match &t.raw_type {
        RawType::Scalar(s) => Role::Of(s.scalar),
        RawType::Bool => Role::Bool,
        _ => Role::Any,
    }
}

impl<'f> Walk<'f> {
    fn program(&mut self, p: &mut Program) {
        (self.f)(Site::Decls(&mut p.declarations));
        for d in &mut p.declarations {
            (self.f)(Site::Decl(d));
            match d {
                Declaration::Type(t) => {
                    for a in &mut t.arguments {
                        let r = role(&a.type_);
                        if let Some(e) = &mut a.default_value {
                            self.expr(e, r);
                        }
                    }
                    self.field(&mut t.value, true);
                }
                Declaration::Const(c) => {
                    let r = role(&c.type_);
                    self.expr(&mut c.value, r);
                }
                _ => (),
            }
        }
    }
    fn field(&mut self, x: &mut Field, top: bool) {
        (self.f)(Site::Field(x));
        let r = role(&x.type_);
        self.type_(&mut x.type_, !top);
        if let Some(e) = &mut x.calculated {
            self.expr(e, r);
        }
        if let Some(e) = &mut x.condition {
            self.expr(e, Role::Bool);
        }
        for t in &mut x.transforms {
            (self.f)(Site::Transform(t));
            for a in &mut t.arguments {
                self.expr(a, Role::Of(ScalarType::U8));
            }
            if let Some(e) = &mut t.conditional {
                self.expr(e, Role::Bool);
            }
        }
    }
    fn type_(&mut self, t: &mut Type, nested: bool) {
        (self.f)(Site::Type(t, nested));
        match &mut t.raw_type {
            RawType::Container(c) => {
                if let Some(e) = &mut c.length {
                    self.expr(e, Role::Of(ScalarType::U64));
                }
                for x in &mut c.items {
                    match x {
                        ContainerItem::Field(_, f) => self.field(f, false),
                        ContainerItem::Pad(e) => self.expr(e, Role::Of(ScalarType::U64)),
                    }
                }
            }
            RawType::Enum(e) => {
                for (_, v) in &mut e.items {
                    if let EnumValue::Expression(x) = v {
                        self.expr(x, Role::Of(e.rep.scalar));
                    }
                }
            }
            RawType::Bitfield(b) => {
                for (_, v) in &mut b.items {
                    if let Some(x) = v {
                        self.expr(x, Role::Of(b.rep.scalar));
                    }
                }
            }
            RawType::Array(a) => {
                self.type_(&mut a.interior_type, true);
                if let Some(e) = &mut a.length.inner {
                    let r = if a.length.expandable { Role::Any } else { Role::Of(ScalarType::U64) };
                    self.expr(e, r);
                }
            }
            RawType::Ref(r) => {
                let want = self.types.get(&r.name.name).cloned().unwrap_or_default();
                for (i, e) in r.arguments.iter_mut().enumerate() {
                    self.expr(e, want.get(i).copied().unwrap_or(Role::Any));
                }
            }
            _ => (),
        }
    }
    fn expr(&mut self, e: &mut Expression, r: Role) {
        (self.f)(Site::Expr(e, r));
        match e {
            Expression::Binary(b) => {
                use BinaryOp::*;
                let s = match b.op {
                    And | Or => Role::Bool,
                    Eq | Ne | Elvis => Role::Any,
                    Lt | Gt | Lte | Gte => Role::Num,
                    _ => match r {
                        Role::Of(_) => r,
                        _ => Role::Num,
                    },
                };
                self.expr(&mut b.left, s);
                self.expr(&mut b.right, s);
            }
            Expression::Unary(u) => {
                let s = match (&u.op, r) {
                    (UnaryOp::Not, Role::Bool) => r,
                    (UnaryOp::Not, _) => Role::Any,
                    (_, Role::Of(_)) => r,
                    _ => Role::Num,
                };
                self.expr(&mut u.inner, s);
            }
            Expression::Cast(c) => self.expr(&mut c.inner, Role::Any),
            Expression::ArrayIndex(a) => {
                self.expr(&mut a.array, Role::Any);
                self.expr(&mut a.index, Role::Of(ScalarType::U64));
            }
            Expression::Ternary(t) => {
                self.expr(&mut t.condition, Role::Bool);
                self.expr(&mut t.if_true, r);
                self.expr(&mut t.if_false, r);
            }
            Expression::Call(c) => {
                let s = match &*c.function.name {
                    "pad" | "bits" => Role::Of(ScalarType::U64),
                    _ => Role::Any,
                };
                for a in &mut c.arguments {
                    self.expr(a, s);
                }
            }
            Expression::Member(m) => self.expr(&mut m.target, Role::Any),
            _ => (),
        }
    }
}

fn walk(p: &mut Program, f: &mut dyn FnMut(usize, Site)) {
    let mut types = HashMap::new();
    for d in &p.declarations {
        if let Declaration::Type(t) = d {
            types.entry(t.name.name.clone()).or_insert_with(|| t.arguments.iter().map(|a| role(&a.type_)).collect::<Vec<_>>());
        }
    }
    let mut i = 0;
    let mut g = |s: Site| {
        f(i, s);
        i += 1;
    };
    Walk { f: &mut g, types }.program(p)
}

fn id(s: &str) -> Ident {
    Ident { name: s.into(), span: Span::default() }
}
fn var(s: &str) -> Expression {
    Expression::Ref(id(s))
}
fn int(v: u128, t: ScalarType) -> Expression {
    Expression::Int(Int { value: v.to_string(), type_: Some(t), span: Span::default() })
}
fn text() -> Expression {
    Expression::Str(Str { content: b"zz".to_vec(), span: Span::default() })
}
fn boolean() -> Expression {
    Expression::Bool(Bool { value: true, span: Span::default() })
}
fn scalar(s: ScalarType) -> EndianScalarType {
    EndianScalarType { scalar: s, endian: Endian::Big }
}
fn raw(r: RawType) -> Type {
    Type { raw_type: r, span: Span::default() }
}
fn bare_field(t: Type) -> Field {
    Field { type_: t, flags: vec![], calculated: None, condition: None, transforms: vec![], span: Span::default() }
}
fn take(e: &mut Expression) -> Expression {
    std::mem::replace(e, boolean())
}
fn bits(s: ScalarType) -> (u32, bool) {
    use ScalarType::*;
    match s {
        U8 => (8, false),
        U16 => (16, false),
        U32 => (32, false),
        U64 => (64, false),
        U128 => (128, false),
        I8 => (8, true),
        I16 => (16, true),
        I32 => (32, true),
        I64 => (64, true),
        I128 => (128, true),
    }
}

/// where the error may point
#[derive(Clone, Copy, Debug)]
enum Look {
    Node,
    /// the last thing in the list the node has
    Last,
    Name,
}

const KINDS: [&str; 59] = [
    "undeclared variable",
    "undeclared enum",
    "undeclared variant",
    "undeclared function",
    "too many function arguments",
    "no function arguments",
    "integer for a condition",
    "text for a condition",
    "bool for an integer",
    "text for an integer",
    "wider integer",
    "integer of the other sign",
    "member of an integer",
    "index of an integer",
    "undeclared flag",
    "negation of a bool",
    "complement of a bool",
    "not of an integer",
    "cast to a container",
    "cast of text to an integer",
    "integer that does not fit",
    "undeclared type",
    "too many type arguments",
    "too few type arguments",
    "variant twice",
    "default variant twice",
    "bitfield flag twice",
    "field twice",
    "unknown container flag",
    "nested enum",
    "nested bitfield",
    "nested tagged enum",
    "unknown field flag",
    "undeclared transform",
    "undeclared transform of many",
    "too many transform arguments",
    "later field in a condition",
    "later field as a length",
    "own value in the condition",
    "type twice",
    "constant twice",
    "constant of complex type",
    "type argument twice",
    "required type argument after optional",
    "type of itself",
    "import of nothing",
    "import of an undeclared type",
    "foreign type of nothing",
    "foreign function of nothing",
    "foreign transform of nothing",
    "bool operand of arithmetic",
    "text operand of arithmetic",
    "comparison of an integer with a bool",
    "comparison of different integers",
    "pad in a tagged enum",
    "field after the last of a tagged enum",
    "nothing in a tagged enum",
    "calculated from itself",
    "not of a compared integer",
];

/// makes the edit, if the site has the kind
fn edit(g: &mut Gen, kind: &str, s: Site, dry: bool, types: &HashMap<String, (usize, usize)>) -> Option<Look> {
    use Look::*;
    macro_rules! put {
        ($e:expr, $new:expr, $look:expr) => {{
            if !dry {
                *$e = $new;
            }
            return Some($look);
        }};
    }
    let span = Span::default();
    match s {
        Site::Expr(e, r) => match kind {
            "undeclared variable" => put!(e, var("zz_undeclared"), Node),
            "undeclared enum" => {
                if let Expression::EnumAccess(a) = e {
                    put!(&mut a.name, id("ZzNone"), Node)
                }
            }
            "undeclared variant" => {
                if let Expression::EnumAccess(a) = e {
                    put!(&mut a.variant, id("ZZ_NONE"), Node)
                }
            }
            "undeclared function" => {
                if let Expression::Call(c) = e {
                    put!(&mut c.function, id("zz_none"), Name)
                }
            }
            "too many function arguments" => {
                if let Expression::Call(c) = e {
                    if !dry {
                        c.arguments.push(int(1, ScalarType::U8));
                    }
                    return Some(Node);
                }
            }
            "no function arguments" => {
                if let Expression::Call(c) = e {
                    put!(&mut c.arguments, vec![], Node)
                }
            }
            "integer for a condition" if r == Role::Bool => put!(e, int(1, ScalarType::U8), Node),
            "text for a condition" if r == Role::Bool => put!(e, text(), Node),
            "bool for an integer" if matches!(r, Role::Of(_)) => put!(e, boolean(), Node),
            "text for an integer" if matches!(r, Role::Of(_)) => put!(e, text(), Node),
            "bool operand of arithmetic" if r == Role::Num => put!(e, boolean(), Node),
            "text operand of arithmetic" if r == Role::Num => put!(e, text(), Node),
            "wider integer" => {
                if let Role::Of(t) = r {
                    use ScalarType::*;
                    let wider = |s: ScalarType| bits(s).0 > bits(t).0;
                    let all: Vec<_> = [U16, U32, U64, U128, I16, I32, I64, I128].into_iter().filter(|s| wider(*s)).collect();
                    if !all.is_empty() {
                        let n = *g.pick(&all);
                        put!(e, int(1, n), Node)
                    }
                }
            }
            "integer of the other sign" => {
                if let Role::Of(t) = r {
                    use ScalarType::*;
                    let no = |s: ScalarType| bits(s).1 != bits(t).1 && (bits(s).0 >= bits(t).0 || bits(s).1);
                    let all: Vec<_> = [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128].into_iter().filter(|s| no(*s)).collect();
                    if !all.is_empty() {
                        let n = *g.pick(&all);
                        put!(e, int(1, n), Node)
                    }
                }
            }
            "comparison of an integer with a bool" if r == Role::Bool => {
                let (left, right) = (Box::new(int(1, ScalarType::U8)), Box::new(boolean()));
                let b = BinaryExpression { op: if g.pct(50) { BinaryOp::Eq } else { BinaryOp::Lt }, left, right, span };
                put!(e, Expression::Binary(b), Node)
            }
            "not of a compared integer" if r == Role::Bool => {
                let inner = Box::new(int(1, ScalarType::U8));
                let left = Box::new(Expression::Unary(UnaryExpression { op: UnaryOp::Not, inner, span }));
                let b = BinaryExpression { op: BinaryOp::Eq, left, right: Box::new(int(1, ScalarType::U8)), span };
                put!(e, Expression::Binary(b), Node)
            }
            "comparison of different integers" if r == Role::Bool => {
                let (left, right) = (Box::new(int(1, ScalarType::I16)), Box::new(int(1, ScalarType::U32)));
                let b = BinaryExpression { op: if g.pct(50) { BinaryOp::Ne } else { BinaryOp::Gte }, left, right, span };
                put!(e, Expression::Binary(b), Node)
            }
            "member of an integer" if matches!(r, Role::Of(_)) => {
                put!(e, Expression::Member(MemberExpression { target: Box::new(int(5, ScalarType::U8)), member: id("zz_flag"), span }), Node)
            }
            "index of an integer" if matches!(r, Role::Of(_)) => {
                let array = Box::new(int(5, ScalarType::U8));
                put!(e, Expression::ArrayIndex(ArrayIndexExpression { array, index: Box::new(int(0, ScalarType::U64)), span }), Node)
            }
            "undeclared flag" => {
                if let Expression::Member(m) = e {
                    put!(&mut m.member, id("zz_flag"), Node)
                }
            }
            "negation of a bool" if r == Role::Bool => {
                let inner = Box::new(take_if(e, dry));
                put!(e, Expression::Unary(UnaryExpression { op: UnaryOp::Negate, inner, span }), Node)
            }
            "complement of a bool" if r == Role::Bool => {
                let inner = Box::new(take_if(e, dry));
                put!(e, Expression::Unary(UnaryExpression { op: UnaryOp::BitNot, inner, span }), Node)
            }
            "not of an integer" if matches!(r, Role::Of(_)) => {
                let inner = Box::new(take_if(e, dry));
                put!(e, Expression::Unary(UnaryExpression { op: UnaryOp::Not, inner, span }), Node)
            }
            "cast to a container" => {
                let inner = Box::new(take_if(e, dry));
                let c = Container { length: None, items: vec![], flags: vec![], span };
                put!(e, Expression::Cast(CastExpression { inner, type_: raw(RawType::Container(c)), span }), Node)
            }
            "cast of text to an integer" if matches!(r, Role::Of(_)) => {
                if let Role::Of(t) = r {
                    put!(e, Expression::Cast(CastExpression { inner: Box::new(text()), type_: raw(RawType::Scalar(scalar(t))), span }), Node)
                }
            }
            "integer that does not fit" => {
                if let Role::Of(t) = r {
                    let (n, signed) = bits(t);
                    if n < 128 || signed {
                        let over = if n == 128 { 1u128 << 127 } else { 1u128 << (n - signed as u32) };
                        let v = over + if g.pct(50) { 0 } else { g.n(1000) as u128 };
                        let value = if g.pct(50) { v.to_string() } else { format!("0x{:x}", v) };
                        let type_ = if g.pct(50) { Some(t) } else { None };
                        put!(e, Expression::Int(Int { value, type_, span }), Node)
                    }
                }
            }
            _ => (),
        },
        Site::Type(t, nested) => match (kind, &mut t.raw_type) {
            ("undeclared type", RawType::Ref(r)) => put!(&mut r.name, id("ZzNone"), Name),
            ("undeclared type", RawType::Scalar(_)) => {
                put!(&mut t.raw_type, RawType::Ref(TypeRef { name: id("ZzNone"), arguments: vec![], span }), Name)
            }
            ("too many type arguments", RawType::Ref(r)) => {
                let max = types.get(&r.name.name)?.1;
                if !dry {
                    while r.arguments.len() <= max {
                        r.arguments.push(int(1, ScalarType::U8));
                    }
                }
                return Some(Node);
            }
            ("too few type arguments", RawType::Ref(r)) => {
                let min = types.get(&r.name.name)?.0;
                if min > 0 {
                    let n = g.n(min);
                    if !dry {
                        r.arguments.truncate(n);
                    }
                    return Some(Node);
                }
            }
            ("variant twice", RawType::Enum(e)) => {
                let n = g.n(e.items.len());
                if !dry {
                    let x = e.items[n].0.clone();
                    let v = EnumValue::Expression(Box::new(int(200, e.rep.scalar)));
                    e.items.push((x, if bits(e.rep.scalar) == (8, true) { EnumValue::None } else { v }));
                }
                return Some(Last);
            }
            ("default variant twice", RawType::Enum(e)) => {
                if e.items.iter().any(|(_, v)| matches!(v, EnumValue::Default)) {
                    if !dry {
                        e.items.push((id("ZzDefault"), EnumValue::Default));
                    }
                    return Some(Last);
                }
            }
            ("bitfield flag twice", RawType::Bitfield(e)) => {
                let n = g.n(e.items.len());
                if !dry {
                    let x = e.items[n].0.clone();
                    let one = Expression::Int(Int { value: "1".into(), type_: None, span });
                    e.items.push((x, Some(Box::new(one))));
                }
                return Some(Last);
            }
            ("field twice", RawType::Container(c)) => {
                let names: Vec<Ident> = c.items.iter().filter_map(|x| if let ContainerItem::Field(n, _) = x { Some(n.clone()) } else { None }).collect();
                if !names.is_empty() && !c.flags.iter().any(|f| f.name == "tagged_enum") {
                    let n = g.pick(&names).clone();
                    if !dry {
                        c.items.push(ContainerItem::Field(n, bare_field(raw(RawType::Scalar(scalar(ScalarType::U8))))));
                    }
                    return Some(Last);
                }
            }
            ("unknown container flag", RawType::Container(c)) => {
                if !dry {
                    c.flags.push(id("zz_flag"));
                }
                return Some(Last);
            }
            ("nested tagged enum", RawType::Container(c)) if nested => {
                if c.flags.is_empty() {
                    if !dry {
                        c.flags.push(id("tagged_enum"));
                    }
                    return Some(Node);
                }
            }
            ("pad in a tagged enum", RawType::Container(c)) if c.flags.len() == 1 => {
                if !dry {
                    c.items.push(ContainerItem::Pad(int(1, ScalarType::U64)));
                }
                return Some(Last);
            }
            ("field after the last of a tagged enum", RawType::Container(c)) if c.flags.len() == 1 => {
                if matches!(c.items.last(), Some(ContainerItem::Field(_, f)) if f.condition.is_none()) {
                    if !dry {
                        let mut f = bare_field(raw(RawType::Scalar(scalar(ScalarType::U8))));
                        f.condition = if g.pct(50) { Some(Box::new(boolean())) } else { None };
                        c.items.push(ContainerItem::Field(id("zz_last"), f));
                    }
                    return Some(Last);
                }
            }
            ("nothing in a tagged enum", RawType::Container(c)) if c.flags.len() == 1 => put!(&mut c.items, vec![], Node),
            ("calculated from itself", RawType::Container(c)) if c.flags.is_empty() => {
                if !dry {
                    let mut f = bare_field(raw(RawType::Scalar(scalar(ScalarType::U8))));
                    f.calculated = Some(Box::new(var("zz_later")));
                    c.items.push(ContainerItem::Field(id("zz_later"), f));
                }
                return Some(Last);
            }
            ("nested enum", RawType::Scalar(_)) if nested => {
                let e = Enum { rep: scalar(ScalarType::U8), items: vec![(id("A"), EnumValue::Expression(Box::new(int(1, ScalarType::U8))))], span };
                put!(&mut t.raw_type, RawType::Enum(e), Node)
            }
            ("nested bitfield", RawType::Scalar(_)) if nested => {
                let e = Bitfield { rep: scalar(ScalarType::U8), items: vec![(id("a"), Some(Box::new(int(1, ScalarType::U8))))], span };
                put!(&mut t.raw_type, RawType::Bitfield(e), Node)
            }
            ("later field in a condition" | "later field as a length" | "own value in the condition", RawType::Container(c)) => {
                if c.flags.iter().any(|f| f.name == "tagged_enum") {
                    return None;
                }
                let at: Vec<usize> = c.items.iter().enumerate().filter(|(_, x)| matches!(x, ContainerItem::Field(..))).map(|x| x.0).collect();
                if at.is_empty() {
                    return None;
                }
                let n = *g.pick(&at);
                if !dry {
                    if let ContainerItem::Field(name, f) = &mut c.items[n] {
                        if kind == "own value in the condition" {
                            name.name = "zz_later".into();
                        }
                        if kind != "later field as a length" {
                            f.condition = Some(Box::new(Expression::Binary(BinaryExpression {
                                op: BinaryOp::Eq,
                                left: Box::new(var("zz_later")),
                                right: Box::new(int(1, ScalarType::U8)),
                                span,
                            })));
                        } else {
                            let interior_type = Box::new(raw(RawType::Scalar(scalar(ScalarType::U8))));
                            f.type_ = raw(RawType::Array(Array { interior_type, length: LengthConstraint { expandable: false, inner: Some(Box::new(var("zz_later"))), span }, span }));
                        }
                    }
                    let last = if kind == "own value in the condition" { "zz_last" } else { "zz_later" };
                    c.items.push(ContainerItem::Field(id(last), bare_field(raw(RawType::Scalar(scalar(ScalarType::U8))))));
                }
                // the reference is found by its name
                return Some(Name);
            }
            _ => (),
        },
        Site::Field(x) => match kind {
            "unknown field flag" if x.calculated.is_none() => {
                if !dry {
                    x.flags.push(id("zz_flag"));
                }
                return Some(Last);
            }
            "undeclared transform" if x.transforms.is_empty() => {
                if !dry {
                    x.transforms.push(Transform { name: id("zz_none"), arguments: vec![], conditional: None, span });
                }
                return Some(Last);
            }
            _ => (),
        },
        Site::Transform(x) => match kind {
            "undeclared transform of many" => put!(&mut x.name, id("zz_none"), Name),
            "too many transform arguments" => {
                if !dry {
                    x.arguments.push(int(1, ScalarType::U8));
                    x.arguments.push(int(1, ScalarType::U8));
                }
                return Some(Node);
            }
            _ => (),
        },
        Site::Decl(d) => match (kind, d) {
            ("type argument twice", Declaration::Type(t)) => {
                if !t.arguments.is_empty() && t.arguments.iter().all(|a| a.default_value.is_none()) {
                    let n = g.n(t.arguments.len());
                    if !dry {
                        let name = t.arguments[n].name.clone();
                        t.arguments.push(TypeArgument { name, type_: raw(RawType::Scalar(scalar(ScalarType::U8))), default_value: Some(int(1, ScalarType::U8)), span });
                    }
                    return Some(Last);
                }
            }
            ("required type argument after optional", Declaration::Type(t)) => {
                let n = t.arguments.iter().filter(|a| a.default_value.is_none()).count();
                if n < t.arguments.len() {
                    if !dry {
                        t.arguments.push(TypeArgument { name: id("zz_last"), type_: raw(RawType::Scalar(scalar(ScalarType::U8))), default_value: None, span });
                    }
                    return Some(Last);
                }
            }
            ("type of itself", Declaration::Type(t)) if t.arguments.is_empty() && !matches!(t.value.type_.raw_type, RawType::Enum(_) | RawType::Bitfield(_)) => {
                let name = t.name.clone();
                put!(&mut t.value.type_, raw(RawType::Ref(TypeRef { name, arguments: vec![], span })), Node)
            }
            ("constant of complex type", Declaration::Const(c)) => {
                let e = Container { length: None, items: vec![], flags: vec![], span };
                put!(&mut c.type_, raw(RawType::Container(e)), Node)
            }
            _ => (),
        },
        Site::Decls(v) => match kind {
            "type twice" | "constant twice" => {
                let names: Vec<(usize, Ident)> = v
                    .iter()
                    .enumerate()
                    .filter_map(|(i, d)| match d {
                        Declaration::Type(t) if kind == "type twice" => Some((i, t.name.clone())),
                        Declaration::Const(c) if kind == "constant twice" => Some((i, c.name.clone())),
                        _ => None,
                    })
                    .collect();
                if names.is_empty() {
                    return None;
                }
                let (_, name) = g.pick(&names).clone();
                if !dry {
                    let t = raw(RawType::Scalar(scalar(ScalarType::U8)));
                    v.push(if kind == "type twice" {
                        Declaration::Type(TypeDeclaration { name, arguments: vec![], value: bare_field(t), span })
                    } else {
                        Declaration::Const(ConstDeclaration { name, type_: t, value: int(1, ScalarType::U8), span })
                    });
                }
                return Some(Last);
            }
            "import of nothing" | "import of an undeclared type" => {
                if !dry {
                    let from = if kind == "import of nothing" { "zz" } else { "there" };
                    let items = vec![ImportItem { name: id("ZzNone"), alias: if g.pct(50) { Some(id("Zz")) } else { None }, span }];
                    v.push(Declaration::Import(ImportDeclaration { items, from: Str { content: from.as_bytes().to_vec(), span }, span }));
                }
                return Some(Last);
            }
            "foreign type of nothing" | "foreign function of nothing" | "foreign transform of nothing" => {
                let ffi_type = match kind {
                    "foreign type of nothing" => FfiType::Type,
                    "foreign function of nothing" => FfiType::Function,
                    _ => FfiType::Transform,
                };
                if !dry {
                    v.push(Declaration::Ffi(FfiDeclaration { name: id("zz_none"), ffi_type, span }));
                }
                return Some(Last);
            }
            _ => (),
        },
    }
    None
}

fn take_if(e: &mut Expression, dry: bool) -> Expression {
    if dry {
        boolean()
    } else {
        take(e)
    }
}

/// the places of all references to a name
fn named(p: &mut Program, name: &str) -> Vec<Span> {
    let mut out = vec![];
    walk(p, &mut |_, s| {
        if let Site::Expr(Expression::Ref(x), _) = s {
            if x.name == name {
                out.push(x.span);
            }
        }
    });
    out
}

fn look(s: &Site, l: Look) -> Vec<Span> {
    match (s, l) {
        (Site::Expr(Expression::Call(c), _), Look::Name) => vec![c.function.span],
        (Site::Expr(e, _), _) => vec![*e.span()],
        (Site::Type(t, _), Look::Node) => vec![t.span],
        (Site::Type(t, _), _) => match (&t.raw_type, l) {
            (RawType::Ref(r), _) => vec![r.name.span],
            (RawType::Enum(e), _) => vec![e.items.last().unwrap().0.span],
            (RawType::Bitfield(e), _) => vec![e.items.last().unwrap().0.span],
            (RawType::Container(c), _) => match c.flags.last() {
                Some(f) if f.name == "zz_flag" => vec![f.span],
                _ => match c.items.last().unwrap() {
                    ContainerItem::Field(n, f) => vec![n.span + f.span],
                    ContainerItem::Pad(e) => vec![*e.span()],
                },
            },
            _ => vec![t.span],
        },
        (Site::Field(x), _) => match (x.flags.last(), x.transforms.last()) {
            (Some(f), _) => vec![f.span],
            (_, Some(t)) => vec![t.span],
            _ => vec![x.span],
        },
        (Site::Transform(t), Look::Name) => vec![t.name.span],
        (Site::Transform(t), _) => vec![t.span],
        (Site::Decl(Declaration::Type(t)), Look::Last) => vec![t.arguments.last().unwrap().span],
        (Site::Decl(d), _) => vec![*d.span()],
        (Site::Decls(v), _) => vec![*v.last().unwrap().span()],
    }
}

type Place = ((u64, u64), (u64, u64));

fn place(s: &Span) -> Place {
    ((s.line_start, s.col_start), (s.line_stop, s.col_stop))
}

/// the places a message names: l:c-c or l:c-l:c
pub fn places(m: &str) -> Vec<Place> {
    let mut out = vec![];
    let b = m.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let mut n = vec![0u64];
            let mut seps = vec![];
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_digit() || matches!(b[j], b':' | b'-')) {
                if b[j].is_ascii_digit() {
                    let l = n.last_mut().unwrap();
                    *l = l.saturating_mul(10).saturating_add((b[j] - b'0') as u64);
                } else {
                    seps.push(b[j]);
                    n.push(0);
                }
                j += 1;
            }
            if b[i..j].last().map_or(false, |c| !c.is_ascii_digit()) && !seps.is_empty() {
                seps.pop();
                n.pop();
            }
            match (&n[..], &seps[..]) {
                ([l, c, e], b":-") => out.push(((*l, *c), (*l, *e))),
                ([l, c, m, e], b":-:") => out.push(((*l, *c), (*m, *e))),
                _ => (),
            }
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn meet(a: &Place, b: &Place) -> bool {
    a.0 <= b.1 && b.0 <= a.1
}

struct Case {
    good: String,
    bad: String,
    kind: &'static str,
    /// where the error belongs
    want: Vec<Place>,
    /// everything before this place is as in the well-formed document
    stray: bool,
}

fn res() -> Res {
    let mut r = Res::default();
    r.files.insert("there".into(), "type B = enum u8 { x = 1, y };".into());
    r
}

fn small() -> Cfg {
    Cfg { decls: (1, 4), ..Cfg::default() }
}

fn case(g: &mut Gen) -> Result<Option<Case>, (String, String)> {
    let good = gen::document(g, &small()).spec.text();
    if g.reject.is_some() {
        return Ok(None);
    }
    let fail = |m: String| Err((m, good.clone()));
    let mut p = match front::quiet(|| parse(&good)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return fail(format!("a well-formed document is not parsed: {}", e)),
        Err(m) => return fail(format!("the parser panicked: {}", m)),
    };
    if g.pct(6) {
        // a stray token
        let toks = match lex::lex(&good) {
            Ok(t) => t,
            Err(_) => return Ok(None),
        };
        let t = &toks[g.n(toks.len())];
        let at = t.a;
        let stray = *g.pick(&[")", "}", "]", "->", "? ?", "import"]);
        let bad = format!("{} {} {}", &good[..at], stray, &good[at..]);
        // what is missing is missing after the token before it
        let before = toks.iter().filter(|x| x.b <= at).last().map_or(0, |x| x.a);
        let b = lex::place(&bad, before);
        let want = vec![((b.0, b.1), (b.0, b.1))];
        return Ok(Some(Case { good, bad, kind: stray, want, stray: true }));
    }
    let kind = KINDS[g.n(KINDS.len())];
    let mut types = HashMap::new();
    for d in &p.declarations {
        if let Declaration::Type(t) = d {
            types.insert(t.name.name.clone(), (t.arguments.iter().filter(|a| a.default_value.is_none()).count(), t.arguments.len()));
        }
    }
    let mut sites = vec![];
    let mut dry = Gen::replay(&[]);
    walk(&mut p, &mut |i, s| {
        if edit(&mut dry, kind, s, true, &types).is_some() {
            sites.push(i);
        }
    });
    if sites.is_empty() {
        return Ok(None);
    }
    let at = *g.pick(&sites);
    let mut l = None;
    walk(&mut p, &mut |i, s| {
        if i == at {
            l = edit(g, kind, s, false, &types);
        }
    });
    let Some(l) = l else { return Ok(None) };
    let st: Style = if g.pct(50) { respell::PLAIN } else { respell::style(g) };
    let bad = respell::write(&p, st, g);
    let mut q = match front::quiet(|| parse(&bad)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Err((format!("{}: not even parsed: {}", kind, e), bad)),
        Err(m) => return Err((format!("the parser panicked: {}", m), bad)),
    };
    let mut want = vec![];
    if matches!(l, Look::Name) && kind.contains("the condition") || kind.starts_with("later field") {
        want = named(&mut q, "zz_later").iter().map(place).collect();
    } else {
        let mut parents: Vec<Place> = vec![];
        walk(&mut q, &mut |i, s| {
            if let Site::Expr(e, _) = &s {
                if i < at && matches!(e, Expression::Binary(_)) {
                    parents.push(place(e.span()));
                }
            }
            if i == at {
                want = look(&s, l).iter().map(place).collect();
            }
        });
        if kind.contains("operand") {
            // either operand is wrong, given the other
            let inner = want[0];
            want.extend(parents.into_iter().filter(|p| p.0 <= inner.0 && inner.1 <= p.1).last());
        }
    }
    Ok(Some(Case { good, bad, kind, want, stray: false }))
}

/// a document with one meaningless edit
pub struct Ill;

impl Direct for Ill {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Accepted documents with one meaningless edit (59 kinds) at a random place, in a random spelling: refused, with an error that points at the edited text. Non-trivial: the edit was possible (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        st.evaluations += 1;
        let Some(c) = case(g)? else {
            st.class("no place for the edit");
            return Ok(());
        };
        match front::analyse(&c.good, &res()) {
            Ok(_) => (),
            Err(e) => return Err((format!("a well-formed document is refused [{}]", e), c.good)),
        }
        st.class(c.kind);
        let m = match (front::analyse(&c.bad, &res()), c.stray) {
            (Ok(_), _) => return Err((format!("{}: the document is accepted", c.kind), c.bad)),
            (Err(Stage::Panic(m)), _) => return Err((format!("{}: the compiler panicked [{}]", c.kind, m), c.bad)),
            (Err(Stage::Parse(m)), false) => return Err((format!("{}: a parse error [{}]", c.kind, m), c.bad)),
            (Err(Stage::Sema(m)), true) => return Err((format!("stray {}: no parse error but [{}]", c.kind, m), c.bad)),
            (Err(Stage::Parse(m)), true) | (Err(Stage::Sema(m)), false) => m,
        };
        let got = places(&m);
        if c.stray {
            let at = c.want[0].0;
            if !got.iter().any(|p| p.1 >= at) {
                return Err((format!("stray {} at {}:{}, the error is before it [{}]", c.kind, at.0, at.1, m), c.bad));
            }
        } else {
            if !got.iter().any(|p| c.want.iter().any(|w| meet(p, w))) {
                return Err((format!("{}: the error is elsewhere [{:?}: {}]", c.kind, c.want, m), c.bad));
            }
            st.class(if got.iter().any(|p| c.want.contains(p)) {
                "exactly there"
            } else if got.iter().any(|p| c.want.iter().any(|w| p.0 >= w.0 && p.1 <= w.1)) {
                "within the text"
            } else {
                "around the text"
            });
        }
        st.hit(h64(c.bad.as_bytes()));
        st.sample(4, || json!({"text": c.bad, "kind": c.kind, "error": m}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        match case(g) {
            Ok(Some(c)) => c.bad,
            Ok(None) => "(none)".into(),
            Err((_, t)) => t,
        }
    }
}
