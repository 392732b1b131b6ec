//! C26: compiling again gives the same code, and options change no bytes.

use crate::checks::*;
use crate::direct::{total_res, Direct};
use crate::front;
use crate::gen::{self, Cfg, Doc};
use crate::model::{hex, realize, Cur, Stop};
use crate::run::{h64, show, Cx, Form, Prop, Stats, Tier};
use crate::tape::Gen;
use protospec_build::CompileOptions;
use rt::{Out, Prof, Res};
use serde_json::json;

/// What generated code itself needs stays: it compares and copies values of the types it declares.
fn derives(g: &mut Gen, float: bool) -> Vec<String> {
    let mut v = vec!["PartialEq", "Clone"];
    for x in ["Debug", "Default", "Eq", "Hash"] {
        if g.pct(50) && !(float && matches!(x, "Eq" | "Hash")) {
            v.push(x);
        }
    }
    if g.pct(30) {
        v.reverse();
    }
    if g.pct(15) {
        v.push("Clone");
    }
    v.into_iter().map(|x| x.to_string()).collect()
}

/// any options; async only where all transforms have an asynchronous version
pub fn any_options(g: &mut Gen, text: &str) -> CompileOptions {
    let asy = !text.contains("gzip") && !text.contains("base64");
    let d = derives(g, text.contains("f32") || text.contains("f64"));
    CompileOptions {
        enum_derives: d.clone(),
        struct_derives: d,
        include_async: asy && g.pct(50),
        use_anyhow: g.pct(50),
        debug_mode: g.pct(30),
        ..front::options()
    }
}

pub struct Opts;

fn same(a: &Res, b: &Res) -> bool {
    match (&a.out, &b.out) {
        (Out::Ok(x), Out::Ok(y)) => x == y,
        (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y),
    }
}

impl Prop for Opts {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn cfg(&self, g: &mut Gen) -> Cfg {
        let codec = if g.pct(30) { 30 } else { 0 };
        match g.n(3) {
            0 => Cfg { codec, kinds: [2, 2, 6, 5, 5, 4, 1], cond: 40, args: 40, ..Cfg::default() },
            1 => Cfg { codec, xf: 30, calc: 40, ..Cfg::default() },
            _ => Cfg { codec, ..Cfg::default() },
        }
    }
    fn rule(&self) -> &'static str {
        "Random documents compiled several times over in different threads, with random options each: equal code every time. Random documents compiled with the default options and with random ones (derives, async, anyhow, debug): the same bytes, values, consumption and refusals for random values and damaged bytes. Non-trivial: distinct documents compiled again; bytes moved by both forms under differing options."
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            (240, 50)
        } else {
            (4000, 150)
        }
    }
    fn asy(&self) -> bool {
        true
    }
    fn forms(&self, doc: &Doc, g: &mut Gen) -> Vec<Form> {
        let a = Form::plain(doc);
        let opts = any_options(g, &a.text);
        vec![Form::plain(doc), Form { opts, ..a }]
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        let mut p = match pick(doc, g, cx.st) {
            Some(p) => p,
            None => return Ok(()),
        };
        if g.pct(25) {
            if let Some(o) = pick_same(doc, g, p.d) {
                cross(g, &mut p.val, &o.val);
            }
        }
        let a = cx.args(doc, p.d, &p.args, p.given);
        cx.st.evaluations += 1;
        let s = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
        let r = cx.enc(1, p.d, &a, &p.val, &Prof::plain());
        if !same(&s, &r) || (matches!(s.out, Out::Ok(_)) && s.bytes != r.bytes) {
            return Err(format!("encoding with other options: {}, with the default ones: {}", show(&r), show(&s)));
        }
        let mut b = s.bytes.clone();
        if !matches!(s.out, Out::Ok(_)) {
            cx.st.class("encoding refused by both");
            match expect_enc(doc, &p) {
                Ok(n) => b = realize(&n, 6),
                Err(_) => return Ok(()),
            }
        }
        if !b.is_empty() {
            cx.st.hit(h64(&[doc.spec.decls[p.d].name.as_bytes(), &b[..]].concat()));
        }
        cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "bytes": hex(&b)}));
        let n = g.w(&[3, 4, 2]);
        for _ in 0..n {
            mutate(g, &mut b);
        }
        let mut c = Cur::new(&b);
        if let Err(Stop::Unspec(s)) = doc.spec.dec_decl(p.d, &p.args, &mut c) {
            cx.st.skip(&format!("decode: {}", s));
            return Ok(());
        }
        cx.st.evaluations += 1;
        let s = cx.dec(0, p.d, &a, &b, &Prof::plain());
        let r = cx.dec(1, p.d, &a, &b, &Prof::plain());
        if !same(&s, &r) || s.count != r.count {
            return Err(format!("decoding with other options: {}, with the default ones: {}", show(&r), show(&s)));
        }
        cx.st.class(if matches!(s.out, Out::Ok(_)) { "decoded" } else { "decoding refused by both" });
        Ok(())
    }
}

/// the same text compiled again
pub struct Again;

fn text(g: &mut Gen) -> String {
    if g.pct(30) {
        crate::accept::grow(g)
    } else {
        let big = g.pct(30);
        let c = Cfg {
            decls: if big { (6, 14) } else { (1, 5) },
            fields: if big { (2, 10) } else { (1, 6) },
            kinds: [2, 2, 10, 3, 3, 4, 1],
            nested_len: 60,
            len_idiom: 60,
            cond: 35,
            args: 40,
            consts: 60,
            ..Cfg::default()
        };
        gen::document(g, &c).spec.text()
    }
}
fn options(g: &mut Gen, t: &str) -> CompileOptions {
    if g.pct(40) {
        front::options()
    } else {
        any_options(g, t)
    }
}

impl Direct for Again {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        Opts.rule()
    }
    fn size(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            3000
        } else {
            120_000
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let t = text(g);
        let o = options(g, &t);
        let one = || front::compile(&t, &total_res(), &o).map_err(|e| e.to_string());
        let a = one();
        st.evaluations += 1;
        for i in 0..3 {
            // every thread hashes with keys of its own
            let b = if i == 2 { std::thread::scope(|s| s.spawn(one).join().unwrap()) } else { one() };
            if a != b {
                let (x, y) = match (&a, &b) {
                    (Ok(x), Ok(y)) | (Err(x), Err(y)) => (x.clone(), y.clone()),
                    _ => (format!("{:?}", a), format!("{:?}", b)),
                };
                let at = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
                let cut = |s: &str| {
                    let b = s.as_bytes();
                    String::from_utf8_lossy(&b[at.saturating_sub(60).min(b.len())..(at + 60).min(b.len())]).into_owned()
                };
                return Err((format!("compiled again, the same text gave other code: ...{}... and then ...{}...", cut(&x), cut(&y)), t));
            }
        }
        match &a {
            Ok(_) => {
                st.hit(h64(t.as_bytes()));
                st.class("the same code again");
            }
            Err(e) if e.contains("anic") => st.class("panics"),
            Err(_) => st.class("the same error again"),
        }
        st.sample(2, || json!({"document": t}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        text(g)
    }
}
