//! C25: asynchronous code against synchronous code.

use crate::checks::*;
use crate::front;
use crate::gen::{Cfg, Doc};
use crate::model::{self, has_gz, hex, realize, Cur, Stop};
use crate::run::{h64, show, Cx, Form, Prop, Tier};
use crate::tape::Gen;
use protospec_build::CompileOptions;
use rt::{Out, Prof, Res, Val};
use serde_json::json;

pub struct Asy;

fn kind(o: &Out) -> u8 {
    match o {
        Out::Ok(_) => 0,
        Out::Err(_) => 1,
        Out::Panic(_) => 2,
        Out::Runaway => 3,
        Out::Crash(_) => 4,
    }
}
fn same(a: &Res, b: &Res) -> bool {
    match (&a.out, &b.out) {
        (Out::Ok(x), Out::Ok(y)) => x == y,
        (x, y) => kind(x) == kind(y),
    }
}

impl Prop for Asy {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn cfg(&self, g: &mut Gen) -> Cfg {
        let codec = 15;
        match g.n(4) {
            0 => Cfg { codec, no_base64: true, decls: (1, 4), xf: 40, decl_xf: 30, xf_cond: 60, cond: 40, ..Cfg::default() },
            1 => Cfg { codec, no_base64: true, recurse: 60, decls: (2, 4), ..Cfg::default() },
            2 => Cfg { codec, no_base64: true, ft: [8, 1, 2, 12, 6, 4, 3, 3, 3, 6], kinds: [2, 6, 10, 2, 2, 4, 4], lens: [4, 4, 4], args: 40, ..Cfg::default() },
            _ => Cfg { codec, no_base64: true, ..Cfg::default() },
        }
    }
    fn rule(&self) -> &'static str {
        "Random documents compiled with asynchronous functions; values (some crossed with others so that they do not fit) are encoded and bytes (some damaged, some cut short by a fault) decoded by both, the asynchronous streams moving a few bytes at a time and being not ready at random times. Non-trivial: bytes were moved and the asynchronous stream was pending or gave less than it was asked for."
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            (240, 80)
        } else {
            (4000, 300)
        }
    }
    fn asy(&self) -> bool {
        true
    }
    fn forms(&self, doc: &Doc, g: &mut Gen) -> Vec<Form> {
        let use_anyhow = g.pct(25);
        vec![Form { opts: CompileOptions { include_async: true, use_anyhow, ..front::options() }, ..Form::plain(doc) }]
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        let mut p = match pick(doc, g, cx.st) {
            Some(p) => p,
            None => return Ok(()),
        };
        let prof = Prof { chunks: chunking(g), fail_at: None, fail_kind: 0 };
        let crossed = g.pct(25);
        if crossed {
            if let Some(o) = pick_same(doc, g, p.d) {
                cross(g, &mut p.val, &o.val);
            }
        }
        let a = cx.args(doc, p.d, &p.args, p.given);
        let name = doc.spec.decls[p.d].name.clone();
        if let Err(Stop::Unspec("large pad")) = expect_enc(doc, &p) {
            cx.st.skip("large pad");
            return Ok(());
        }
        cx.st.evaluations += 1;
        let s = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
        let r = cx.aenc(0, p.d, &a, &p.val, &prof);
        // what a compressor writes is its own choice, so compressed parts are compared by content
        let other = |x: &[u8]| match expect_enc(doc, &p) {
            Ok(n) => has_gz(&n) && model::matches(&n, x).is_ok(),
            // nothing to compare by where the language leaves the bytes open
            Err(_) => doc.spec.text().contains("gzip"),
        };
        if !same(&s, &r) || (matches!(s.out, Out::Ok(_)) && s.bytes != r.bytes && !other(&r.bytes)) {
            return Err(format!("asynchronous encoding: {}, synchronous: {}", show(&r), show(&s)));
        }
        let ok = matches!(s.out, Out::Ok(_));
        cx.st.class(if ok { "encoded" } else { "encoding refused by both" });
        let mut b = r.bytes.clone();
        if !ok {
            match expect_enc(doc, &p) {
                Ok(n) => b = realize(&n, 6),
                Err(_) => return Ok(()),
            }
        }
        if prof.chunks[0] != u32::MAX && !b.is_empty() {
            cx.st.hit(h64(&[name.as_bytes(), &b[..], format!("{:?}", prof).as_bytes()].concat()));
        }
        cx.st.sample(2, || json!({"document": doc.spec.text(), "type": name, "bytes": hex(&b), "chunks": format!("{:?}", prof.chunks)}));
        // a sink that fails
        if ok && !b.is_empty() && g.pct(30) {
            let k = g.n(b.len()) as u32;
            let fault = Prof { chunks: chunking(g), fail_at: Some(k), fail_kind: g.n(2) as u8 };
            cx.st.evaluations += 1;
            let r = cx.aenc(0, p.d, &a, &p.val, &fault);
            if !matches!(r.out, Out::Err(_)) || !b.starts_with(&r.bytes) {
                return Err(format!("the asynchronous sink failed after {} bytes: {}", k, show(&r)));
            }
            cx.st.class("sink fault");
        }
        let n = g.w(&[3, 4, 2]);
        for _ in 0..n {
            mutate(g, &mut b);
        }
        // the streams are at one place after an error only by chance, and where the language
        // leaves the outcome open nothing is compared
        let mut c = Cur::new(&b);
        let want = doc.spec.dec_decl(p.d, &p.args, &mut c);
        if let Err(Stop::Unspec(s)) = want {
            cx.st.skip(&format!("decode: {}", s));
            return Ok(());
        }
        cx.st.evaluations += 1;
        let s = cx.dec(0, p.d, &a, &b, &Prof::plain());
        let r = cx.adec(0, p.d, &a, &b, &prof);
        if !same(&s, &r) {
            return Err(format!("asynchronous decoding: {}, synchronous: {}", show(&r), show(&s)));
        }
        let ok = matches!(s.out, Out::Ok(_));
        cx.st.class(if ok { "decoded" } else { "decoding refused by both" });
        if ok && s.count != r.count && !c.fuzzy {
            return Err(format!("asynchronous decoding consumed {} bytes, synchronous {}", r.count, s.count));
        }
        if ok && !b.is_empty() && want.is_ok() && g.pct(40) {
            let k = g.n(c.pos.max(1)) as u32;
            let fault = Prof { chunks: chunking(g), fail_at: Some(k), fail_kind: 0 };
            cx.st.evaluations += 1;
            let r = cx.adec(0, p.d, &a, &b, &fault);
            if (k as usize) < c.pos && !c.fuzzy && !matches!(r.out, Out::Err(_)) {
                return Err(format!("the asynchronous source failed after {} bytes: {}", k, show(&r)));
            }
            cx.st.class("source fault");
        }
        let _ = Val::None;
        Ok(())
    }
}
