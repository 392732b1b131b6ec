//! C17: constant expressions, with and without a value.

use crate::direct::Direct;
use crate::front::{self, Res, Stage};
use crate::gen::{self, Cfg};
use crate::model::{Env, Stop, V};
use crate::run::{h64, Stats, Tier};
use crate::spec::*;
use crate::tape::Gen;
use serde_json::json;

pub fn cfg() -> Cfg {
    Cfg { cdepth: 4, edge: 4, rich: 75, ..Cfg::default() }
}

/// the text of a constant of a type and value
fn lit(s: Sc, x: u128) -> String {
    if s.signed() && (x as i128) < 0 {
        let m = (x as i128).unsigned_abs();
        if m > s.umax() {
            format!("(-{}{} - 1{})", s.umax(), s.name(), s.name())
        } else {
            format!("(-{}{})", m, s.name())
        }
    } else {
        format!("{}{}", x, s.name())
    }
}

fn fits(e: &Expr) -> bool {
    match e {
        Expr::Int(v, s, ..) => *v <= s.umax(),
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Coerce(a, _) | Expr::Member(a, ..) => fits(a),
        Expr::Bin(_, a, b) | Expr::Idx(a, b) => fits(a) && fits(b),
        Expr::Tern(a, b, c) => fits(a) && fits(b) && fits(c),
        Expr::Call(_, a) => a.iter().all(fits),
        _ => true,
    }
}

/// has every part a value?
fn whole(sp: &Spec, e: &Expr) -> bool {
    sp.eval(e, &Env::default()).is_ok()
        && match e {
            Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Coerce(a, _) | Expr::Member(a, ..) => whole(sp, a),
            Expr::Bin(_, a, b) | Expr::Idx(a, b) => whole(sp, a) && whole(sp, b),
            Expr::Tern(a, b, c) => whole(sp, a) && whole(sp, b) && whole(sp, c),
            Expr::Call(_, a) => a.iter().all(|x| whole(sp, x)),
            _ => true,
        }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Accept,
    Refuse,
    /// some part that is not used has no value
    Either,
}

struct Case {
    text: String,
    want: Want,
    kind: &'static str,
}

fn case(g: &mut Gen) -> Case {
    let (sp, ty, e) = gen::constant(g, &cfg());
    let et = sp.print_expr(&e, &mut Style::plain());
    let tn = ty.map_or("bool", |s| s.name());
    let r = sp.eval(&e, &Env::default());
    // shifts whose meaning the documents leave open
    let open = matches!(r, Err(Stop::Unspec(_)));
    let v = if fits(&e) { r.ok() } else { None };
    let clean = v.is_some() && whole(&sp, &e);
    let base = match &v {
        None if open => Want::Either,
        None => Want::Refuse,
        Some(_) if clean => Want::Accept,
        Some(_) => Want::Either,
    };
    let val = |v: &V| match v {
        V::Bool(b) => b.to_string(),
        V::Int(s, x) => lit(*s, *x),
        _ => unreachable!(),
    };
    let pre = sp.text();
    // a value that differs in one bit or by one
    let wrong = |g: &mut Gen, v: &V| match v {
        V::Bool(b) => (!b).to_string(),
        V::Int(s, x) => {
            let bit = g.n(s.bits() as usize);
            let y = x ^ (1u128 << bit);
            // keep the representation of negative numbers
            let y = if s.signed() && bit as u32 == s.bits() as u32 - 1 { x ^ 1 } else { y };
            lit(*s, y)
        }
        _ => unreachable!(),
    };
    let (text, want, kind) = match g.w(&[2, 6, 5, 3, 2, 2]) {
        0 => (format!("const X: {} = {};", tn, et), base, "const"),
        1 => match &v {
            None => (format!("const X: {} = {};", tn, et), base, "const"),
            Some(v) => (format!("const X: {} = {}; const P: u8 = 1 / (X == {} ? 1u8 : 0u8);", tn, et, val(v)), base, "value"),
        },
        2 => match &v {
            None => (format!("const X: {} = {};", tn, et), base, "const"),
            Some(v) => {
                let w = wrong(g, v);
                (format!("const X: {} = {}; const P: u8 = 1 / (X == {} ? 1u8 : 0u8);", tn, et, w), Want::Refuse, "other value")
            }
        },
        3 if ty.is_some() => {
            let s = ty.unwrap();
            match &v {
                Some(V::Int(_, x)) => {
                    let max = if s.signed() { (*x as i128) == s.umax() as i128 } else { *x == s.umax() };
                    let next = if max { String::new() } else { ", b".to_string() };
                    let y = if max { *x } else { x.wrapping_add(1) };
                    let it = if max { "a" } else { "b" };
                    (format!("type X = enum {} {{ a = {}{} }}; const P: u8 = 1 / ((X::{} :> {}) == {} ? 1u8 : 0u8);", tn, et, next, it, tn, lit(s, y)), base, "enum value")
                }
                _ => (format!("type X = enum {} {{ a = {} }};", tn, et), base, "enum value"),
            }
        }
        4 if ty.map_or(false, |s| !s.signed()) => (format!("type X = bitfield {} {{ a = {} }};", tn, et), base, "flag"),
        _ => match ty {
            Some(s) => (format!("type X = container {{ a: {}, b: u8 {{ a == ({}) }} }};", s.name(), et), base, "condition"),
            None => (format!("type X = container {{ a: bool, b: u8 {{ a == ({}) }} }};", et), base, "condition"),
        },
    };
    Case { text: format!("{}\n{}", pre, text), want, kind }
}

pub struct Consts;

impl Direct for Consts {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Constant expressions of every integer type and bool, with boundary operands and references to other constants, as a constant, an enum value, a flag or in a condition. Those with a value (by the reference interpreter) must be accepted, those without refused; the value is asked for in the document itself, by a division that is by zero unless the constant has the given value. Non-trivial: an expression with an operator (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let c = case(g);
        st.evaluations += 1;
        st.class(c.kind);
        st.class(match c.want {
            Want::Accept => "has a value",
            Want::Refuse => "has no such value",
            Want::Either => "unused part without a value",
        });
        let r = front::compile(&c.text, &Res::default(), &front::options());
        match (&r, c.want) {
            (Err(Stage::Panic(m)), _) => return Err((format!("the compiler panicked [{}]", m), c.text)),
            (Err(Stage::Parse(m)), _) => return Err((format!("a constant expression is not parsed [{}]", m), c.text)),
            (Err(Stage::Sema(m)), Want::Accept) => return Err((format!("a constant expression with a value is refused, or has another value ({}) [{}]", c.kind, m), c.text)),
            (Ok(_), Want::Refuse) => return Err((format!("a constant expression has a value that it should not have ({})", c.kind), c.text)),
            _ => {}
        }
        if c.text.contains(|c| matches!(c, '+' | '*' | '/' | '%' | '^' | '~' | '<' | '>' | '|' | '&' | '?')) {
            st.hit(h64(c.text.as_bytes()));
        }
        st.sample(4, || json!({"text": c.text, "expected": format!("{:?}", c.want), "kind": c.kind}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        let c = case(g);
        format!("{}\n// expected: {:?}", c.text, c.want)
    }
}
