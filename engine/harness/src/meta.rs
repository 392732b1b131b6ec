//! C27: documents rewritten without changing what they mean.

use crate::checks::*;
use crate::gen::{Cfg, Doc};
use crate::model::{hex, realize, Cur, Stop};
use crate::run::{h64, show, Cx, Form, Prop, Tier};
use crate::spec::*;
use crate::tape::Gen;
use rt::{Out, Prof, Res};
use serde_json::json;

pub struct Meta;

fn exprs_ty(t: &mut Ty, f: &mut dyn FnMut(&mut Expr)) {
    match t {
        Ty::Arr(e, l) => {
            exprs_ty(e, f);
            match l {
                Len::Fixed(e) | Len::Term(e) => f(e),
                Len::Unbounded => {}
            }
        }
        Ty::Ref(_, a) => a.iter_mut().for_each(|x| f(x)),
        Ty::Utf8(e) | Ty::Utf16(e) => f(e),
        Ty::Cont(c) => {
            if let Some(l) = &mut c.len {
                f(l);
            }
            for i in &mut c.items {
                match i {
                    Item::Field(_, x) => exprs_field(x, f),
                    Item::Pad(e) => f(e),
                }
            }
        }
        Ty::Enum(e) => e.items.iter_mut().for_each(|x| {
            if let Some(Some(x)) = &mut x.1 {
                f(x)
            }
        }),
        Ty::Bits(e) => e.items.iter_mut().for_each(|x| {
            if let Some(x) = &mut x.1 {
                f(x)
            }
        }),
        _ => {}
    }
}
fn exprs_field(x: &mut Field, f: &mut dyn FnMut(&mut Expr)) {
    exprs_ty(&mut x.ty, f);
    if let Some(e) = &mut x.calc {
        f(e);
    }
    if let Some(e) = &mut x.cond {
        f(e);
    }
    for t in &mut x.xf {
        t.args.iter_mut().for_each(|x| f(x));
        if let Some(e) = &mut t.cond {
            f(e);
        }
    }
}
/// every expression of a declaration, outermost ones only
pub fn exprs(d: &mut Decl, f: &mut dyn FnMut(&mut Expr)) {
    match &mut d.kind {
        Kind::Const { expr, .. } => f(expr),
        Kind::Type { args, field } => {
            for a in args {
                if let Some(e) = &mut a.default {
                    f(e);
                }
            }
            exprs_field(field, f);
        }
    }
}
/// parts of an expression, inner ones first
fn parts(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    match e {
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Member(a, ..) | Expr::Coerce(a, _) => parts(a, f),
        Expr::Bin(_, a, b) | Expr::Idx(a, b) => {
            parts(a, f);
            parts(b, f);
        }
        Expr::Tern(a, b, c) => {
            parts(a, f);
            parts(b, f);
            parts(c, f);
        }
        Expr::Call(_, a) => a.iter_mut().for_each(|x| parts(x, f)),
        _ => {}
    }
    f(e)
}
fn types_field(x: &mut Field, f: &mut dyn FnMut(&mut Field, &str), name: &str) {
    if let Ty::Cont(c) = &mut x.ty {
        for i in &mut c.items {
            if let Item::Field(n, y) = i {
                let n = n.clone();
                types_field(y, f, &n);
            }
        }
    }
    f(x, name)
}

fn rename(s: &mut Spec, g: &mut Gen) {
    let mut k = 0;
    let mut fresh = |up: bool, g: &mut Gen| {
        k += 1;
        let stem = if up { *g.pick(&["Zt", "Qy_", "R"]) } else { *g.pick(&["zz", "q_a", "rr_"]) };
        format!("{}{}", stem, k)
    };
    for d in 0..s.decls.len() {
        let decl = &mut s.decls[d];
        decl.name = fresh(true, g);
        let mut ins = std::collections::HashMap::new();
        if let Kind::Type { args, .. } = &mut decl.kind {
            for a in args {
                let n = fresh(false, g);
                ins.insert(a.name.clone(), n.clone());
                a.name = n;
            }
        }
        // all fields of one name in a declaration get one new name
        let mut names = std::collections::HashMap::new();
        if let Kind::Type { field, .. } = &mut decl.kind {
            fn all(c: &mut Cont, f: &mut dyn FnMut(&mut String, bool)) {
                let tagged = c.tagged;
                for i in &mut c.items {
                    if let Item::Field(n, x) = i {
                        f(n, tagged);
                        if let Ty::Cont(c) = &mut x.ty {
                            all(c, f);
                        }
                    }
                }
            }
            match &mut field.ty {
                Ty::Cont(c) => all(c, &mut |n, up| {
                    let m = names.entry(n.clone()).or_insert_with(|| fresh(up, g)).clone();
                    *n = m;
                }),
                Ty::Enum(e) => e.items.iter_mut().for_each(|x| x.0 = fresh(true, g)),
                Ty::Bits(b) => b.items.iter_mut().for_each(|x| x.0 = fresh(false, g)),
                _ => {}
            }
        }
        exprs(decl, &mut |e| {
            parts(e, &mut |e| match e {
                Expr::Field(n) => {
                    if let Some(m) = names.get(n) {
                        *n = m.clone()
                    }
                }
                Expr::Input(n) => {
                    if let Some(m) = ins.get(n) {
                        *n = m.clone()
                    }
                }
                _ => {}
            })
        });
    }
}

/// whole numbers as constants
fn constants(s: &mut Spec, g: &mut Gen) -> usize {
    let base = s.decls.len();
    let mut new: Vec<Decl> = vec![];
    for d in 0..base {
        exprs(&mut s.decls[d], &mut |e| {
            // what stands for no value of its own is left alone
            parts(e, &mut |e| {
                if let Expr::Int(v, t, _, _) = e {
                    if *v <= t.imax_() && g.pct(40) {
                        let id = base + new.len();
                        new.push(Decl {
                            name: format!("Kx{}", new.len()),
                            kind: Kind::Const { ty: Ty::Sc(*t, false), expr: int(*v, *t) },
                        });
                        *e = Expr::Const(id);
                    }
                }
            })
        });
    }
    let n = new.len();
    s.decls.extend(new);
    n
}
trait Max {
    fn imax_(&self) -> u128;
}
impl Max for Sc {
    fn imax_(&self) -> u128 {
        if self.signed() {
            self.umax() >> 1
        } else {
            self.umax()
        }
    }
}

/// the same condition or choice said otherwise
fn reword(s: &mut Spec, g: &mut Gen) -> usize {
    let mut n = 0;
    let plain = |e: &Expr| matches!(e, Expr::Field(_) | Expr::Input(_) | Expr::Const(_));
    for d in s.decls.iter_mut() {
        exprs(d, &mut |e| {
            parts(e, &mut |e| {
                if !g.pct(40) {
                    return;
                }
                let old = e.clone();
                match old {
                    Expr::Tern(c, a, b) => {
                        *e = Expr::Tern(Box::new(Expr::Un(Un::Not, c)), b, a);
                        n += 1;
                    }
                    Expr::Bin(o, a, b)
                        if plain(&a)
                            && plain(&b)
                            && matches!(o, Op::Eq | Op::Ne | Op::BitAnd | Op::BitOr | Op::BitXor | Op::And | Op::Or) =>
                    {
                        *e = Expr::Bin(o, b, a);
                        n += 1;
                    }
                    Expr::Bin(o @ (Op::Lt | Op::Gt | Op::Le | Op::Ge), a, b) => {
                        let neg = match o {
                            Op::Lt => Op::Ge,
                            Op::Gt => Op::Le,
                            Op::Le => Op::Gt,
                            _ => Op::Lt,
                        };
                        *e = Expr::Un(Un::Not, Box::new(Expr::Bin(neg, a, b)));
                        n += 1;
                    }
                    Expr::Bin(o @ (Op::Eq | Op::Ne), a, b) => {
                        let neg = if o == Op::Eq { Op::Ne } else { Op::Eq };
                        *e = Expr::Un(Un::Not, Box::new(Expr::Bin(neg, a, b)));
                        n += 1;
                    }
                    Expr::Bool(b) => {
                        *e = Expr::Un(Un::Not, Box::new(Expr::Bool(!b)));
                        n += 1;
                    }
                    _ => {}
                }
            })
        });
    }
    n
}

/// types written in fields as declarations of their own
fn extract(s: &mut Spec, g: &mut Gen) -> usize {
    let base = s.decls.len();
    let mut new: Vec<Decl> = vec![];
    for d in 0..base {
        let mut refs = std::collections::HashSet::new();
        exprs(&mut s.decls[d], &mut |e| {
            parts(e, &mut |e| {
                if let Expr::Field(n) = e {
                    refs.insert(n.clone());
                }
            })
        });
        let decl = &mut s.decls[d];
        let inputs: Vec<Arg> = decl.args().to_vec();
        // scalars there whatever the conditions, to be handed over
        let mut scalars: std::collections::HashMap<String, Ty> = Default::default();
        let mut twice: std::collections::HashSet<String> = Default::default();
        if let Kind::Type { field, .. } = &mut decl.kind {
            let mut fs = vec![];
            types_field(field, &mut |f, n| fs.push((n.to_string(), f.clone())), "");
            for (n, f) in fs {
                if scalars.contains_key(&n) || twice.contains(&n) {
                    scalars.remove(&n);
                    twice.insert(n);
                } else if matches!(f.ty, Ty::Sc(_, false) | Ty::Bool) && f.cond.is_none() {
                    scalars.insert(n, f.ty.clone());
                } else {
                    twice.insert(n);
                }
            }
            if !matches!(field.ty, Ty::Cont(_)) {
                continue;
            }
            types_field(
                field,
                &mut |f, n| {
                    if n.is_empty() || refs.contains(n) || f.calc.is_some() || !g.pct(50) {
                        return;
                    }
                    let ok = match &f.ty {
                        Ty::Sc(..) | Ty::F32 | Ty::F64 | Ty::Bool | Ty::Var(_) | Ty::Utf8Nul | Ty::Utf8(_) | Ty::Utf16(_) | Ty::Arr(..) => true,
                        Ty::Cont(c) => !c.tagged,
                        _ => false,
                    };
                    if !ok {
                        return;
                    }
                    let mut t = f.ty.clone();
                    let mut own = std::collections::HashSet::new();
                    let mut whole = Field::plain(t.clone());
                    types_field(&mut whole, &mut |_, n| {
                        own.insert(n.to_string());
                    }, "");
                    let mut args: Vec<Arg> = vec![];
                    let mut give: Vec<Expr> = vec![];
                    let mut bad = false;
                    exprs_ty(&mut t, &mut |e| {
                        parts(e, &mut |e| match e {
                            Expr::Field(n) if own.contains(n) => {}
                            Expr::Field(n) => match scalars.get(n) {
                                Some(ty) => {
                                    let a = format!("h_{}", n);
                                    if !args.iter().any(|x| x.name == a) {
                                        args.push(Arg { name: a.clone(), ty: ty.clone(), default: None });
                                        give.push(Expr::Field(n.clone()));
                                    }
                                    *e = Expr::Input(a);
                                }
                                None => bad = true,
                            },
                            Expr::Input(n) => match inputs.iter().find(|x| x.name == *n) {
                                Some(x) if matches!(x.ty, Ty::Sc(_, false) | Ty::Bool) => {
                                    let a = format!("i_{}", n);
                                    if !args.iter().any(|x| x.name == a) {
                                        args.push(Arg { name: a.clone(), ty: x.ty.clone(), default: None });
                                        give.push(Expr::Input(n.clone()));
                                    }
                                    *e = Expr::Input(a);
                                }
                                _ => bad = true,
                            },
                            _ => {}
                        })
                    });
                    if bad {
                        return;
                    }
                    let id = base + new.len();
                    new.push(Decl { name: format!("Nx{}", new.len()), kind: Kind::Type { args, field: Field::plain(t) } });
                    f.ty = Ty::Ref(id, give);
                },
                "",
            );
        }
    }
    let n = new.len();
    s.decls.extend(new);
    n
}

/// declarations in another order: constants, enums and bitfields before what uses them
fn order(s: &Spec, g: &mut Gen) -> Vec<usize> {
    let first = |d: &Decl| !d.is_type() || matches!(d.field().ty, Ty::Enum(_) | Ty::Bits(_));
    let mut a: Vec<usize> = (0..s.decls.len()).filter(|i| first(&s.decls[*i])).collect();
    // constants of this module's making come before the others
    a.sort_by_key(|i| (!s.decls[*i].name.starts_with("Kx"), *i));
    let mut v: Vec<usize> = (0..s.decls.len()).filter(|i| !first(&s.decls[*i])).collect();
    for i in (1..v.len()).rev() {
        let j = g.n(i + 1);
        v.swap(i, j);
    }
    let mut at = 0;
    for x in a {
        at = g.range(at, v.len());
        v.insert(at, x);
        at += 1;
    }
    v
}

const UNUSED: [&str; 9] = [
    "const Uc1: u16 = 7;",
    "const Uc2: i64 = -1 << 3;",
    "type Un1 = u8;",
    "type Un2(a: u8) = container { b: u8, c: u8[a] };",
    "type Un3 = enum u8 { x = 1, y };",
    "type Un4 = bitfield u16 { x = 1, y = 2 };",
    "type Un5 = container { len: u8, body: u8[len] { len > 3u8 } };",
    "type Un6 = container { a: Un7 };\ntype Un7 = container +tagged_enum { b: u8 };",
    "type Un8 = u16[..];",
];

pub struct Plan {
    pub text: String,
    pub spec: Spec,
    /// values of both have one shape
    pub alike: bool,
    pub what: Vec<&'static str>,
}

pub fn rewrite(doc: &Doc, g: &mut Gen) -> Plan {
    let mut s = doc.spec.clone();
    let mut what = vec![];
    let mut alike = true;
    if g.pct(50) && extract(&mut s, g) > 0 {
        alike = false;
        what.push("types extracted");
    }
    if g.pct(40) && reword(&mut s, g) > 0 {
        what.push("expressions reworded");
    }
    if g.pct(40) {
        rename(&mut s, g);
        what.push("renamed");
    }
    if g.pct(40) && constants(&mut s, g) > 0 {
        what.push("constants named");
    }
    let mut text = s.print_ffi();
    let ids = if g.pct(60) || s.decls.len() > doc.spec.decls.len() {
        what.push("reordered");
        order(&s, g)
    } else {
        (0..s.decls.len()).collect()
    };
    let mut st = if g.pct(40) { Style::noisy(g.u64()) } else { Style::plain() };
    let mut out: Vec<String> = ids.into_iter().map(|i| s.print_decl(&s.decls[i], &mut st)).collect();
    if g.pct(40) {
        what.push("unused declarations");
        for u in UNUSED {
            if g.pct(30) {
                let at = g.n(out.len() + 1);
                out.insert(at, format!("{}\n", u));
            }
        }
    }
    text.push_str(&out.concat());
    Plan { text, spec: s, alike, what }
}

fn same(a: &Res, b: &Res, alike: bool) -> bool {
    match (&a.out, &b.out) {
        (Out::Ok(x), Out::Ok(y)) => !alike || x == y,
        (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y),
    }
}

impl Prop for Meta {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn cfg(&self, g: &mut Gen) -> Cfg {
        match g.n(3) {
            0 => Cfg { rich: 90, calc: 40, cond: 40, consts: 50, args: 40, ..Cfg::default() },
            1 => Cfg { depth: 3, ft: [12, 1, 2, 8, 5, 2, 2, 2, 2, 8], args: 40, ..Cfg::default() },
            _ => Cfg::default(),
        }
    }
    fn rule(&self) -> &'static str {
        "Random documents and rewritings of them (types of fields moved to declarations of their own, with what they refer to as arguments; declarations reordered; everything renamed; numbers named as constants; conditions and choices said otherwise; unused declarations; spacing) compiled side by side: the same bytes, consumption, refusals and, where the types have the same parts, values. Non-trivial: bytes moved by both."
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            (240, 50)
        } else {
            (4000, 150)
        }
    }
    fn forms(&self, doc: &Doc, g: &mut Gen) -> Vec<Form> {
        let p = rewrite(doc, g);
        if p.what.is_empty() {
            g.reject = Some("nothing rewritten");
        }
        if std::env::var_os("HSHOW").is_some() {
            eprintln!("{:?}\n{}----\n{}", p.what, doc.spec.text(), p.text);
        }
        doc.hints.unlike.set(!p.alike);
        vec![Form::plain(doc), Form { spec: p.spec, text: p.text, ..Form::plain(doc) }]
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        let mut p = match pick(doc, g, cx.st) {
            Some(p) => p,
            None => return Ok(()),
        };
        let alike = !doc.hints.unlike.get();
        let a = cx.args(doc, p.d, &p.args, p.given);
        let mut b;
        if alike {
            if g.pct(25) {
                if let Some(o) = pick_same(doc, g, p.d) {
                    cross(g, &mut p.val, &o.val);
                }
            }
            cx.st.evaluations += 1;
            let s = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
            let r = cx.enc(1, p.d, &a, &p.val, &Prof::plain());
            if !same(&s, &r, true) || (matches!(s.out, Out::Ok(_)) && s.bytes != r.bytes) {
                return Err(format!("encoding by the rewritten document: {}, by the first: {}", show(&r), show(&s)));
            }
            b = s.bytes.clone();
            if !matches!(s.out, Out::Ok(_)) {
                cx.st.class("encoding refused by both");
                match expect_enc(doc, &p) {
                    Ok(n) => b = realize(&n, 6),
                    Err(_) => return Ok(()),
                }
            }
        } else {
            match expect_enc(doc, &p) {
                Ok(n) => b = realize(&n, 6),
                Err(_) => return Ok(()),
            }
        }
        if !b.is_empty() {
            cx.st.hit(h64(&[doc.spec.decls[p.d].name.as_bytes(), &b[..]].concat()));
        }
        cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "bytes": hex(&b)}));
        let n = g.w(&[4, 3, 2]);
        for _ in 0..n {
            mutate(g, &mut b);
        }
        let mut c = Cur::new(&b);
        if let Err(Stop::Unspec(s)) = doc.spec.dec_decl(p.d, &p.args, &mut c) {
            cx.st.skip(&format!("decode: {}", s));
            return Ok(());
        }
        cx.st.evaluations += 1;
        let s = cx.dec(0, p.d, &a, &b, &Prof::plain());
        let r = cx.dec(1, p.d, &a, &b, &Prof::plain());
        let ok = matches!(s.out, Out::Ok(_));
        if !same(&s, &r, alike) || (ok && !c.fuzzy && s.count != r.count) {
            return Err(format!("decoding by the rewritten document: {}, by the first: {}", show(&r), show(&s)));
        }
        cx.st.class(if ok { "decoded" } else { "decoding refused by both" });
        if let (Out::Ok(v), Out::Ok(w)) = (&s.out, &r.out) {
            cx.st.evaluations += 1;
            let s = cx.enc(0, p.d, &a, v, &Prof::plain());
            let r = cx.enc(1, p.d, &a, w, &Prof::plain());
            if !same(&s, &r, true) || (matches!(s.out, Out::Ok(_)) && s.bytes != r.bytes) {
                return Err(format!("encoding again by the rewritten document: {}, by the first: {}", show(&r), show(&s)));
            }
            cx.st.class("encoded again by both");
        }
        Ok(())
    }
}
