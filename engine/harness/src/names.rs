//! Gives fields names which occur elsewhere in the document too: those of arguments and
//! constants they hide, and those of fields of other declarations.

use crate::gen::Hints;
use crate::spec::*;
use crate::tape::Gen;

pub fn sub(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    f(e);
    match e {
        Expr::Un(_, a) | Expr::Coerce(a, _) | Expr::Member(a, ..) => sub(a, f),
        Expr::Cast(a, t) => {
            sub(a, f);
            ty_exprs(t, f);
        }
        Expr::Bin(_, a, b) | Expr::Idx(a, b) => {
            sub(a, f);
            sub(b, f);
        }
        Expr::Tern(a, b, c) => {
            sub(a, f);
            sub(b, f);
            sub(c, f);
        }
        Expr::Call(_, a) => a.iter_mut().for_each(|x| sub(x, f)),
        _ => {}
    }
}

/// the expressions of a type, those inside of containers too
pub fn ty_exprs(t: &mut Ty, f: &mut dyn FnMut(&mut Expr)) {
    match t {
        Ty::Arr(t, l) => {
            ty_exprs(t, f);
            match l {
                Len::Fixed(e) | Len::Term(e) => sub(e, f),
                Len::Unbounded => {}
            }
        }
        Ty::Ref(_, a) => a.iter_mut().for_each(|e| sub(e, f)),
        Ty::Utf8(e) | Ty::Utf16(e) => sub(e, f),
        Ty::Cont(c) => {
            if let Some(e) = &mut c.len {
                sub(e, f);
            }
            for it in &mut c.items {
                match it {
                    Item::Field(_, x) => field_exprs(x, f),
                    Item::Pad(e) => sub(e, f),
                }
            }
        }
        Ty::Enum(t) => t.items.iter_mut().for_each(|(_, e)| {
            if let Some(Some(e)) = e {
                sub(e, f)
            }
        }),
        Ty::Bits(t) => t.items.iter_mut().for_each(|(_, e)| {
            if let Some(e) = e {
                sub(e, f)
            }
        }),
        _ => {}
    }
}

pub fn field_exprs(x: &mut Field, f: &mut dyn FnMut(&mut Expr)) {
    ty_exprs(&mut x.ty, f);
    for e in x.calc.iter_mut().chain(x.cond.iter_mut()) {
        sub(e, f);
    }
    for t in &mut x.xf {
        t.args.iter_mut().chain(t.cond.iter_mut()).for_each(|e| sub(e, f));
    }
}

fn names(c: &Cont, out: &mut Vec<String>) {
    for it in &c.items {
        if let Item::Field(n, x) = it {
            out.push(n.clone());
            if let Ty::Cont(c) = &x.ty {
                names(c, out);
            }
        }
    }
}

/// whether the name, standing for something else, is used where the field is visible
fn hidden(c: &mut Cont, field: &str, is: &dyn Fn(&Expr) -> bool) -> bool {
    let at = match c.items.iter().position(|it| matches!(it, Item::Field(n, _) if n == field)) {
        Some(i) => i,
        None => {
            return c.items.iter_mut().any(|it| match it {
                Item::Field(_, Field { ty: Ty::Cont(c), .. }) => hidden(c, field, is),
                _ => false,
            })
        }
    };
    let mut found = false;
    let mut see = |e: &mut Expr| found |= is(e);
    fn calcs(x: &mut Field, see: &mut dyn FnMut(&mut Expr)) {
        if let Some(e) = &mut x.calc {
            sub(e, see);
        }
        if let Ty::Cont(c) = &mut x.ty {
            for it in &mut c.items {
                if let Item::Field(_, x) = it {
                    calcs(x, see);
                }
            }
        }
    }
    for (i, it) in c.items.iter_mut().enumerate() {
        match it {
            Item::Field(_, x) if i > at => field_exprs(x, &mut see),
            Item::Field(_, x) => calcs(x, &mut see),
            Item::Pad(e) if i > at => sub(e, &mut see),
            _ => {}
        }
    }
    found
}

fn rename(c: &mut Cont, old: &str, new: &str) {
    fn decls(c: &mut Cont, old: &str, new: &str) {
        for it in &mut c.items {
            if let Item::Field(n, x) = it {
                if n == old {
                    *n = new.to_string();
                }
                if let Ty::Cont(c) = &mut x.ty {
                    decls(c, old, new);
                }
            }
        }
    }
    decls(c, old, new);
    let mut t = Ty::Cont(Box::new(std::mem::replace(c, Cont { len: None, tagged: false, items: vec![] })));
    ty_exprs(&mut t, &mut |e| {
        if matches!(e, Expr::Field(n) if n == old) {
            *e = Expr::Field(new.to_string());
        }
    });
    if let Ty::Cont(x) = t {
        *c = *x;
    }
}

pub fn share(g: &mut Gen, spec: &mut Spec, h: &mut Hints) {
    let mut seen: Vec<String> = vec![];
    let others: Vec<(String, DId)> = spec.decls.iter().enumerate().map(|(i, d)| (d.name.clone(), i)).collect();
    for d in 0..spec.decls.len() {
        let args: Vec<String> = spec.decls[d].args().iter().map(|a| a.name.clone()).collect();
        let c = match &mut spec.decls[d].kind {
            Kind::Type { field: Field { ty: Ty::Cont(c), .. }, .. } => c,
            _ => continue,
        };
        let mut own = vec![];
        names(c, &mut own);
        for f in own.clone() {
            if !g.pct(30) || h.free.contains(&f) || h.patched.contains_key(&f) || h.patched.values().any(|x| *x == f) {
                continue;
            }
            let new = match g.n(3) {
                0 if !args.is_empty() => {
                    let a = g.pick(&args).clone();
                    if hidden(c, &f, &|e| matches!(e, Expr::Input(n) if *n == a)) {
                        continue;
                    }
                    a
                }
                1 => {
                    let (n, i) = g.pick(&others).clone();
                    if hidden(c, &f, &|e| matches!(e, Expr::Const(x) if *x == i)) {
                        continue;
                    }
                    n
                }
                _ if !seen.is_empty() => {
                    let n = g.pick(&seen).clone();
                    // it can be the name of something else
                    if args.contains(&n) || others.iter().any(|(o, _)| *o == n) {
                        continue;
                    }
                    n
                }
                _ => continue,
            };
            if own.contains(&new) || h.free.contains(&new) || h.patched.contains_key(&new) || h.patched.values().any(|x| *x == new) {
                continue;
            }
            if h.small.contains(&f) {
                h.small.insert(new.clone());
            }
            rename(c, &f, &new);
            own.retain(|x| *x != f);
            own.push(new);
        }
        seen.extend(own);
    }
}
