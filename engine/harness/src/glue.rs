//! Rust source that connects the generated code of one document to the runner.

use crate::spec::*;

/// how a name is spelled in Rust
pub fn rs(n: &str) -> String {
    match n {
        "self" | "Self" | "super" | "crate" => format!("{}_", n),
        "fn" | "match" | "ref" | "loop" | "mod" | "move" | "in" | "where" | "dyn" | "async" | "await" | "impl" | "let" | "mut" | "pub" | "struct"
        | "trait" | "static" | "while" | "for" | "if" | "else" | "return" | "break" | "unsafe" | "try" | "yield" | "box" | "do" => format!("r#{}", n),
        _ => n.to_string(),
    }
}

/// accessor name of a flag: lower snake case
pub fn snake(n: &str) -> String {
    let mut o = String::new();
    for (i, c) in n.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 && !o.ends_with('_') {
                o.push('_');
            }
            o.extend(c.to_lowercase());
        } else {
            o.push(c);
        }
    }
    o
}

pub struct Entries {
    pub code: String,
    /// one line of `Entry` literals
    pub table: String,
    pub n: usize,
}

/// `m`: module path of the generated code; entry k of this document is types()[k]
pub fn glue(spec: &Spec, m: &str, asy: bool, derives: bool) -> Entries {
    let mut o = String::new();
    let mut table = String::new();
    let mut n = 0;
    for (d, decl) in spec.decls.iter().enumerate() {
        if !decl.is_type() {
            continue;
        }
        let t = &rs(&decl.name);
        let f = decl.field();
        let (mk, un) = match &f.ty {
            Ty::Cont(c) if c.tagged => {
                let mut mk = String::from("match v.variant() {");
                let mut un = String::from("match self {");
                for (i, it) in c.items.iter().enumerate() {
                    let (name, vf) = match it {
                        Item::Field(n, f) => (n, f),
                        _ => continue,
                    };
                    let name = rs(name);
                    match &vf.ty {
                        Ty::Cont(s) => {
                            let fl = flatten(s);
                            let a: Vec<String> =
                                fl.iter().enumerate().map(|(k, x)| format!("{}: Glue::mk(v.at({}))", rs(x.name), k)).collect();
                            mk.push_str(&format!("{} => {}::{}{{ {} }},", i, t, name, a.join(", ")));
                            let p: Vec<String> = fl.iter().enumerate().map(|(k, x)| format!("{}: p{}", rs(x.name), k)).collect();
                            let u: Vec<String> = (0..fl.len()).map(|k| format!("Glue::un(p{})", k)).collect();
                            un.push_str(&format!(
                                "{}::{}{{ {} }} => Val::Var({}, vec![{}]),",
                                t,
                                name,
                                p.join(", "),
                                i,
                                u.join(", ")
                            ));
                        }
                        _ => {
                            mk.push_str(&format!("{} => {}::{}(Glue::mk(v.at(0))),", i, t, name));
                            un.push_str(&format!("{}::{}(p) => Val::Var({}, vec![Glue::un(p)]),", t, name, i));
                        }
                    }
                }
                mk.push_str("x => panic!(\"RT: variant {}\", x) }");
                un.push('}');
                (mk, un)
            }
            Ty::Cont(c) => {
                let fl = flatten(c);
                let a: Vec<String> = fl.iter().enumerate().map(|(k, x)| format!("{}: Glue::mk(v.at({}))", rs(x.name), k)).collect();
                let u: Vec<String> = fl.iter().map(|x| format!("Glue::un(&self.{})", rs(x.name))).collect();
                (format!("{} {{ {} }}", t, a.join(", ")), format!("Val::Rec(vec![{}])", u.join(", ")))
            }
            Ty::Enum(e) => {
                let mut mk = String::from("match v.variant() {");
                let mut un = String::from("match self {");
                for (i, (name, v)) in e.items.iter().enumerate() {
                    let name = rs(name);
                    if *v == Some(None) {
                        mk.push_str(&format!("{} => {}::{}(Glue::mk(v.at(0))),", i, t, name));
                        un.push_str(&format!("{}::{}(p) => Val::Var({}, vec![Glue::un(p)]),", t, name, i));
                    } else {
                        mk.push_str(&format!("{} => {}::{},", i, t, name));
                        un.push_str(&format!("{}::{} => Val::Var({}, vec![]),", t, name, i));
                    }
                }
                mk.push_str("x => panic!(\"RT: variant {}\", x) }");
                un.push('}');
                (mk, un)
            }
            Ty::Bits(_) => (format!("{}(Glue::mk(v))", t), "self.0.un()".to_string()),
            _ => (format!("{}(Glue::mk(v.at(0)))", t), "Val::Rec(vec![Glue::un(&self.0)])".to_string()),
        };
        o.push_str(&format!(
            "impl Glue for {} {{ fn mk(v: &Val) -> Self {{ {} }} fn un(&self) -> Val {{ {} }} }} ",
            t, mk, un
        ));
        let args: String = (0..decl.args().len()).map(|i| format!(", Glue::mk(&a[{}])", i)).collect();
        o.push_str(&format!(
            "pub fn rt_dec_{d}(r: &mut TestReader<'_>, a: &[Val]) -> R<Val> {{ {t}::decode_sync(r{args}).map(|x| x.un()).map_err(rt::es) }} \
             pub fn rt_enc_{d}(w: &mut TestWriter, v: &Val, a: &[Val]) -> R<()> {{ let x: {t} = Glue::mk(v); x.encode_sync(w{args}).map_err(rt::es) }} "
        ));
        let (adec, aenc) = if asy {
            o.push_str(&format!(
                "pub fn rt_adec_{d}(r: &mut TestReader<'_>, a: &[Val]) -> R<Val> {{ rt_async::read(r, |mut r| async move {{ let r = &mut r; let x = {t}::decode_async(r{args}).await; x.map(|x| x.un()).map_err(rt::es) }}) }} \
                 pub fn rt_aenc_{d}(w: &mut TestWriter, v: &Val, a: &[Val]) -> R<()> {{ let x: {t} = Glue::mk(v); let x = &x; rt_async::write(w, |mut w| async move {{ let w = &mut w; x.encode_async(w{args}).await.map_err(rt::es) }}) }} "
            ));
            (format!("{m}::rt_adec_{d}"), format!("{m}::rt_aenc_{d}"))
        } else {
            ("rt::no_dec".to_string(), "rt::no_enc".to_string())
        };
        let misc = match &f.ty {
            _ if !derives => "rt::no_misc".to_string(),
            Ty::Enum(e) => {
                let rep = e.rep.name();
                let cst: Vec<String> = e
                    .items
                    .iter()
                    .enumerate()
                    .filter(|x| x.1 .1 != Some(None))
                    .map(|(i, (n, _))| format!("{} => {}::{}.un(),", i, t, rs(n)))
                    .collect();
                o.push_str(&format!(
                    "pub fn rt_misc_{d}(k: u32, a: &[Val]) -> R<Val> {{ Ok(match k {{ \
                       0 => match {t}::from_repr(<{rep} as Glue>::mk(&a[0])) {{ Ok(x) => Val::some(x.un()), Err(e) => return Err(rt::es(e)) }}, \
                       1 => {t}::mk(&a[0]).to_repr().un(), \
                       2 => {t}::mk(&a[0]).to_be_bytes().to_vec().un(), \
                       3 => {t}::mk(&a[0]).to_le_bytes().to_vec().un(), \
                       4 => <{t} as Default>::default().un(), \
                       5 => Val::Bool({t}::mk(&a[0]) == {t}::mk(&a[1])), \
                       6 => {t}::mk(&a[0]).clone().un(), \
                       7 => match a[0].variant() {{ {} _ => panic!(\"RT\") }}, \
                       _ => panic!(\"RT: misc\") }}) }} ",
                    cst.join(" ")
                ));
                format!("{m}::rt_misc_{d}")
            }
            Ty::Bits(b) => {
                let rep = b.rep.name();
                let get: Vec<String> =
                    b.items.iter().enumerate().map(|(i, (n, _))| format!("{} => Val::Bool(x.{}()),", i, rs(&snake(n)))).collect();
                let set: Vec<String> = b.items.iter().enumerate().map(|(i, (n, _))| format!("{} => x.set_{}(),", i, snake(n))).collect();
                let cst: Vec<String> =
                    b.items.iter().enumerate().map(|(i, (n, _))| format!("{} => {}::{}.un(),", i, t, snake(n).to_uppercase())).collect();
                o.push_str(&format!(
                    "pub fn rt_misc_{d}(k: u32, a: &[Val]) -> R<Val> {{ Ok(match k {{ \
                       0 => match {t}::from_repr(<{rep} as Glue>::mk(&a[0])) {{ Ok(x) => Val::some(x.un()), Err(e) => return Err(rt::es(e)) }}, \
                       2 => {t}::mk(&a[0]).to_be_bytes().to_vec().un(), \
                       3 => {t}::mk(&a[0]).to_le_bytes().to_vec().un(), \
                       4 => <{t} as Default>::default().un(), \
                       5 => {{ let x = {t}::mk(&a[0]); match a[1].variant() {{ {} _ => panic!(\"RT\") }} }} \
                       6 => {{ let mut x = {t}::mk(&a[0]); match a[1].variant() {{ {} _ => panic!(\"RT\") }}; x.un() }} \
                       7 => match a[0].variant() {{ {} _ => panic!(\"RT\") }}, \
                       8 => {t}::ALL.un(), 9 => {t}::ZERO.un(), \
                       10 => ({t}::mk(&a[0]) | {t}::mk(&a[1])).un(), \
                       11 => ({t}::mk(&a[0]) & {t}::mk(&a[1])).un(), \
                       12 => ({t}::mk(&a[0]) ^ {t}::mk(&a[1])).un(), \
                       13 => (!{t}::mk(&a[0])).un(), \
                       14 => {{ let mut x = {t}::mk(&a[0]); x |= {t}::mk(&a[1]); x.un() }} \
                       15 => {{ let mut x = {t}::mk(&a[0]); x &= {t}::mk(&a[1]); x.un() }} \
                       16 => Val::Bool({t}::mk(&a[0]) == {t}::mk(&a[1])), \
                       _ => panic!(\"RT: misc\") }}) }} ",
                    get.join(" "),
                    set.join(" "),
                    cst.join(" ")
                ));
                format!("{m}::rt_misc_{d}")
            }
            _ => {
                o.push_str(&format!(
                    "pub fn rt_misc_{d}(k: u32, a: &[Val]) -> R<Val> {{ Ok(match k {{ \
                       4 => <{t} as Default>::default().un(), \
                       5 => Val::Bool({t}::mk(&a[0]) == {t}::mk(&a[1])), \
                       6 => {t}::mk(&a[0]).clone().un(), \
                       _ => panic!(\"RT: misc\") }}) }} "
                ));
                format!("{m}::rt_misc_{d}")
            }
        };
        table.push_str(&format!(
            "Entry {{ dec: {m}::rt_dec_{d}, enc: {m}::rt_enc_{d}, misc: {misc}, adec: {adec}, aenc: {aenc} }}, "
        ));
        n += 1;
    }
    Entries { code: o, table, n }
}
