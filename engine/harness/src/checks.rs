//! The checks over compiled documents.

use crate::gen::{Budget, Cfg, Doc};
use crate::model::*;
use crate::run::*;
use crate::spec::*;
use crate::tape::Gen;
use rt::{Out, Prof, Val};
use serde_json::json;

pub fn big_budget() -> Budget {
    Budget { depth: 3, big: 200 }
}

/// a type, arguments for it, and a value of it
pub struct Pick {
    pub d: DId,
    pub args: Vec<V>,
    pub given: usize,
    pub val: Val,
}
pub fn pick_type(doc: &Doc, g: &mut Gen) -> DId {
    let t = doc.types();
    // later ones are built from earlier ones
    let n = t.len();
    if g.pct(50) {
        t[n - 1]
    } else {
        t[g.n(n)]
    }
}
pub fn pick_args(doc: &Doc, g: &mut Gen, d: DId) -> (Vec<V>, usize) {
    let mut args = doc.arg_vals(g, d);
    let decl = doc.spec.decls[d].args();
    let mut given = args.len();
    if decl.iter().any(|a| a.default.is_some()) && g.pct(50) {
        let first = decl.iter().position(|a| a.default.is_some()).unwrap();
        given = first + g.n(decl.len() - first);
        args.truncate(given);
        if doc.spec.default_args(decl, &mut args).is_err() {
            args = doc.arg_vals(g, d);
            given = args.len();
        }
    }
    (args, given)
}
pub fn pick(doc: &Doc, g: &mut Gen, st: &mut Stats) -> Option<Pick> {
    let d = pick_type(doc, g);
    let (args, given) = pick_args(doc, g, d);
    match doc.decl_value(g, d, &args, &big_budget()) {
        Ok(val) => Some(Pick { d, args, given, val }),
        Err(s) => {
            st.skip(&format!("no value: {:?}", s));
            None
        }
    }
}

pub fn expect_enc(doc: &Doc, p: &Pick) -> M<Vec<Node>> {
    let mut o = vec![];
    match doc.spec.enc_decl(p.d, &p.args, &p.val, &mut o) {
        // the reason may come after a pad whose length the model never sees
        Err(Stop::Reject(_)) if pads(&doc.spec, p.d) => Err(Stop::Unspec("large pad")),
        x => x.map(|_| o),
    }
}

/// whether a value can decide on the length of a pad
fn pads(spec: &Spec, d: DId) -> bool {
    uses(spec, d, &|x| match &x.ty {
        Ty::Cont(c) => c.items.iter().any(|i| matches!(i, Item::Pad(e) if !matches!(e, Expr::Int(..)))),
        _ => false,
    })
}

/// the value a decoder must deliver for an encoding of this value: calculated fields hold what was
/// calculated
pub fn normal(doc: &Doc, p: &Pick, nodes: &[Node]) -> M<Val> {
    let b = realize(nodes, 6);
    let mut c = Cur::new(&b);
    doc.spec.dec_decl(p.d, &p.args, &mut c)
}

pub fn is_calc(doc: &Doc, d: DId) -> bool {
    doc.spec.print_decl(&doc.spec.decls[d], &mut Style::plain()).contains(" = ")
}

/// encoding against the reference model
pub struct Wire {
    pub id: &'static str,
    pub cfg: Cfg,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
    pub rule: &'static str,
}
impl Prop for Wire {
    fn id(&self) -> &'static str {
        self.id
    }
    fn cfg(&self, _: &mut Gen) -> Cfg {
        self.cfg.clone()
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            self.quick
        } else {
            self.thorough
        }
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        wire_case(doc, g, cx)
    }
}

pub fn wire_case(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let p = match pick(doc, g, cx.st) {
        Some(p) => p,
        None => return Ok(()),
    };
    let nodes = match expect_enc(doc, &p) {
        Ok(n) => n,
        Err(s) => {
            cx.st.skip(&format!("encode: {:?}", s));
            return Ok(());
        }
    };
    let args = cx.args(doc, p.d, &p.args, p.given);
    cx.st.evaluations += 1;
    let r = cx.enc(0, p.d, &args, &p.val, &Prof::plain());
    if r.out != Out::Ok(Val::None) {
        return Err(format!("encoding a representable value failed: {}", show(&r)));
    }
    if let Err(m) = matches(&nodes, &r.bytes) {
        return Err(format!("encoding differs from the described format: {}", m));
    }
    if !r.bytes.is_empty() {
        cx.st.hit(h64(&[doc.spec.decls[p.d].name.as_bytes(), &r.bytes].concat()));
    }
    cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "value": format!("{:?}", p.val), "bytes": hex(&r.bytes)}));
    // and back
    let want = match normal(doc, &p, &nodes) {
        Ok(v) => v,
        Err(s) => {
            cx.st.skip(&format!("decode: {:?}", s));
            return Ok(());
        }
    };
    let b = cx.dec(0, p.d, &args, &r.bytes, &Prof::plain());
    match &b.out {
        Out::Ok(v) if *v == want => {}
        Out::Ok(v) => return Err(format!("decoding the encoding gave {:?}, expected {:?}", v, want)),
        _ => return Err(format!("decoding the encoding failed: {}", show(&b))),
    }
    if !has_gz(&nodes) && b.count as usize != r.bytes.len() {
        let mut c = Cur::new(&r.bytes);
        let fuzzy = doc.spec.dec_decl(p.d, &p.args, &mut c).is_ok() && c.fuzzy;
        if !fuzzy {
            return Err(format!("decoding consumed {} of {} bytes", b.count, r.bytes.len()));
        }
    }
    Ok(())
}


// ------------------------------------------------------------------ decoding arbitrary bytes

/// decoding these bytes against the reference decoder; what the reference said
pub fn agree(doc: &Doc, d: DId, args: &[V], given: usize, b: &[u8], prof: &Prof, cx: &mut Cx) -> Result<Option<bool>, String> {
    let mut c = Cur::new(b);
    let want = doc.spec.dec_decl(d, args, &mut c);
    if let Err(Stop::Unspec(s)) = want {
        cx.st.skip(&format!("decode: {}", s));
        return Ok(None);
    }
    let a = cx.args(doc, d, args, given);
    cx.st.evaluations += 1;
    let r = cx.dec(0, d, &a, b, prof);
    match (&want, &r.out) {
        (Ok(w), Out::Ok(v)) if w == v => {
            if !c.fuzzy && r.count as usize != c.pos {
                return Err(format!("decoding consumed {} bytes, expected {}", r.count, c.pos));
            }
            Ok(Some(true))
        }
        (Ok(w), Out::Ok(v)) => Err(format!("decoding gave {:?}, expected {:?}", v, w)),
        (Ok(w), _) => Err(format!("decoding failed: {}, expected {:?}", show(&r), w)),
        (Err(Stop::Reject(_)), Out::Err(_)) => Ok(Some(false)),
        (Err(s), Out::Ok(v)) => Err(format!("decoding accepted what it has to refuse ({:?}): it gave {:?}", s, v)),
        (Err(s), _) => Err(format!("decoding has to be refused with an error ({:?}): {}", s, show(&r))),
    }
}

pub fn mutate(g: &mut Gen, b: &mut Vec<u8>) -> &'static str {
    let n = b.len();
    match g.w(&[4, 5, 3, 2, 2, 2, 1]) {
        0 if n > 0 => {
            let k = g.n(n);
            b.truncate(k);
            "truncated"
        }
        1 if n > 0 => {
            let k = g.n(n);
            b[k] ^= 1 << g.n(8);
            "bit flipped"
        }
        2 if n > 0 => {
            let k = g.n(n);
            b[k] = *g.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xc0, 0xd8]);
            "byte replaced"
        }
        3 => {
            let k = g.n(n + 1);
            let x = g.byte();
            b.insert(k, x);
            "byte inserted"
        }
        4 if n > 0 => {
            let k = g.n(n);
            b.remove(k);
            "byte removed"
        }
        5 => {
            let k = g.range(1, 6);
            for _ in 0..k {
                let x = g.byte();
                b.push(x);
            }
            "bytes appended"
        }
        _ => {
            let k = g.n(24);
            let mask = *g.pick(&[0xffu8, 0x03, 0x07]);
            *b = (0..k).map(|_| g.byte() & mask).collect();
            "random bytes"
        }
    }
}

/// bytes to feed a decoder, and how they were made
pub fn some_bytes(doc: &Doc, g: &mut Gen, p: &Pick) -> Option<(Vec<u8>, &'static str)> {
    let nodes = expect_enc(doc, p).ok()?;
    let mut b = realize(&nodes, 6);
    let mut how = "valid";
    let k = g.w(&[1, 6, 3, 1]);
    for _ in 0..k {
        how = mutate(g, &mut b);
    }
    Some((b, how))
}

pub fn agree_case(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let p = match pick(doc, g, cx.st) {
        Some(p) => p,
        None => return Ok(()),
    };
    let (b, how) = match some_bytes(doc, g, &p) {
        Some(x) => x,
        None => return Ok(()),
    };
    match agree(doc, p.d, &p.args, p.given, &b, &Prof::plain(), cx)? {
        None => {}
        Some(ok) => {
            cx.st.class(&format!("{}, {}", how, if ok { "decodable" } else { "refused" }));
            if how != "valid" {
                cx.st.hit(h64(&[doc.spec.decls[p.d].name.as_bytes(), &b].concat()));
            }
            cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "bytes": hex(&b), "decodes": ok}));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ several messages in one stream

pub fn round_case(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let n = g.range(1, 4);
    let mut stream = vec![];
    let mut msgs = vec![];
    for _ in 0..n {
        let p = match pick(doc, g, cx.st) {
            Some(p) => p,
            None => return Ok(()),
        };
        if expect_enc(doc, &p).is_err() {
            continue;
        }
        let a = cx.args(doc, p.d, &p.args, p.given);
        let r = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
        if r.out != Out::Ok(Val::None) {
            return Err(format!("encoding a representable value failed: {}", show(&r)));
        }
        let at = stream.len();
        stream.extend_from_slice(&r.bytes);
        msgs.push((p, a, at, r.bytes));
    }
    if msgs.is_empty() {
        return Ok(());
    }
    let junk = g.n(4);
    for _ in 0..junk {
        stream.push(g.byte());
    }
    let multi = msgs.len() > 1 || junk > 0;
    for (p, a, at, bytes) in &msgs {
        // whatever follows a type that reads to the end belongs to it
        let mut c = Cur::new(&stream[*at..]);
        let whole = doc.spec.dec_decl(p.d, &p.args, &mut c);
        let tail = c.pos != bytes.len() || c.fuzzy || whole.is_err();
        let b = if tail { &stream[*at..*at + bytes.len()] } else { &stream[*at..] };
        let mut c = Cur::new(b);
        let want = match doc.spec.dec_decl(p.d, &p.args, &mut c) {
            Ok(v) => v,
            Err(s) => {
                cx.st.skip(&format!("decode: {:?}", s));
                continue;
            }
        };
        cx.st.evaluations += 1;
        let r = cx.dec(0, p.d, a, b, &Prof::plain());
        match &r.out {
            Out::Ok(v) if *v == want => {}
            Out::Ok(v) => return Err(format!("decoding the encoding gave {:?}, expected {:?}", v, want)),
            _ => return Err(format!("decoding the encoding failed: {}", show(&r))),
        }
        if !c.fuzzy && r.count as usize != bytes.len() {
            return Err(format!("decoding consumed {} bytes of a message of {}", r.count, bytes.len()));
        }
        // what was decoded is a fixed point
        let e = cx.enc(0, p.d, a, &want, &Prof::plain());
        if e.out != Out::Ok(Val::None) {
            return Err(format!("encoding the decoded value failed: {}", show(&e)));
        }
        if e.bytes != *bytes {
            return Err(format!("encoding the decoded value gave {}, the message was {}", hex(&e.bytes), hex(bytes)));
        }
        cx.st.class(if tail { "alone" } else { "inside a stream" });
        if multi && !tail && !bytes.is_empty() {
            cx.st.hit(h64(&[doc.spec.decls[p.d].name.as_bytes(), &stream[*at..]].concat()));
        }
    }
    cx.st.sample(2, || json!({"document": doc.spec.text(), "stream": hex(&stream), "messages": msgs.iter().map(|m| format!("{} at {}", doc.spec.decls[m.0.d].name, m.2)).collect::<Vec<_>>()}));
    Ok(())
}

// ------------------------------------------------------------------ robustness

/// peak memory a decoder may take for `n` bytes of input
pub fn mem_bound(n: usize) -> u64 {
    1_000_000 + 2000 * n as u64
}

pub fn robust_case(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let d = pick_type(doc, g);
    let args = doc.arg_vals(g, d);
    let given = args.len();
    let mut how = "random bytes";
    let mut b: Vec<u8> = vec![];
    if g.pct(70) {
        if let Ok(val) = doc.decl_value(g, d, &args, &big_budget()) {
            let p = Pick { d, args: args.clone(), given, val };
            if let Some((x, h)) = some_bytes(doc, g, &p) {
                b = x;
                how = h;
            }
        }
    }
    if how == "valid" || how == "random bytes" {
        mutate(g, &mut b);
        how = "random bytes";
    }
    // a length written large
    if b.len() > 1 && g.pct(40) {
        let k = g.n(b.len());
        let n = g.range(1, 8).min(b.len() - k);
        let x = *g.pick(&[0xffu8, 0x7f, 0x80, 0x10]);
        for y in &mut b[k..k + n] {
            *y = x;
        }
        how = "large number written";
    }
    let mut c = Cur::new(&b);
    let want = doc.spec.dec_decl(d, &args, &mut c);
    // arithmetic the document itself asks for and that has no result; elements that take no input
    if let Err(Stop::Unspec(s)) = &want {
        if s.contains("empty elements") || s.contains("shifted out") || s.starts_with(">>") {
            cx.st.skip(s);
            return Ok(());
        }
    }
    let a = cx.args(doc, d, &args, given);
    cx.st.evaluations += 1;
    let r = cx.dec(0, d, &a, &b, &Prof::plain());
    match &r.out {
        Out::Ok(_) | Out::Err(_) => {}
        _ => return Err(format!("decoding hostile input: {}", show(&r))),
    }
    let gz = doc.spec.text().contains("gzip");
    if !gz && r.peak > mem_bound(b.len()) {
        return Err(format!("decoding {} bytes took {} bytes of memory", b.len(), r.peak));
    }
    cx.st.class(&format!("{}, {}", how, if matches!(r.out, Out::Ok(_)) { "decoded" } else { "refused" }));
    cx.st.hit(h64(&[doc.spec.decls[d].name.as_bytes(), &b].concat()));
    cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[d].name, "bytes": hex(&b), "outcome": show(&r)}));
    Ok(())
}

// ------------------------------------------------------------------ fragmented and failing streams

pub fn chunking(g: &mut Gen) -> Vec<u32> {
    match g.w(&[3, 4, 2]) {
        0 => vec![1],
        1 => {
            let n = g.range(1, 5);
            let mut v: Vec<u32> = (0..n).map(|_| g.n(6) as u32).collect();
            v.push(1 + g.n(9) as u32);
            v
        }
        _ => vec![u32::MAX],
    }
}

pub fn frag_case(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let p = match pick(doc, g, cx.st) {
        Some(p) => p,
        None => return Ok(()),
    };
    let nodes = match expect_enc(doc, &p) {
        Ok(n) => n,
        Err(_) => return Ok(()),
    };
    let a = cx.args(doc, p.d, &p.args, p.given);
    let mut prof = Prof { chunks: chunking(g), fail_at: None, fail_kind: 0 };
    // the compressor neither retries interrupted writes nor notices a sink that takes nothing
    let gz = has_gz(&nodes) || doc.spec.text().contains("gzip");
    if gz {
        prof.chunks.retain(|x| *x > 0);
    }
    let plain = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
    if plain.out != Out::Ok(Val::None) {
        return Err(format!("encoding a representable value failed: {}", show(&plain)));
    }
    cx.st.evaluations += 1;
    let r = cx.enc(0, p.d, &a, &p.val, &prof);
    if r.out != Out::Ok(Val::None) || r.bytes != plain.bytes {
        return Err(format!("encoding to a sink that takes {:?} bytes at a time: {}", prof.chunks, show(&r)));
    }
    let bytes = plain.bytes;
    let mut input = bytes.clone();
    if g.pct(40) {
        mutate(g, &mut input);
    }
    let mut cur = Cur::new(&input);
    let unspec = matches!(doc.spec.dec_decl(p.d, &p.args, &mut cur), Err(Stop::Unspec(_)));
    if unspec {
        input = bytes.clone();
    }
    let whole = cx.dec(0, p.d, &a, &input, &Prof::plain());
    let parts = cx.dec(0, p.d, &a, &input, &prof);
    let same = match (&whole.out, &parts.out) {
        (Out::Ok(x), Out::Ok(y)) => x == y,
        (Out::Err(_), Out::Err(_)) => true,
        _ => false,
    };
    if !same {
        return Err(format!("decoding from a source that gives {:?} bytes at a time: {}, all at once: {}", prof.chunks, show(&parts), show(&whole)));
    }
    let mut c = Cur::new(&input);
    let fuzzy = doc.spec.dec_decl(p.d, &p.args, &mut c).is_err() || c.fuzzy || has_b64(doc);
    if !fuzzy && whole.count != parts.count {
        return Err(format!("decoding consumed {} bytes from a fragmented source, {} otherwise", parts.count, whole.count));
    }
    if !bytes.is_empty() {
        cx.st.hit(h64(&[doc.spec.decls[p.d].name.as_bytes(), &bytes[..], format!("{:?}", prof).as_bytes()].concat()));
    }
    // a fault at some byte
    if !bytes.is_empty() {
        let k = g.n(bytes.len()) as u32;
        let kind = if gz { 0 } else { g.n(2) as u8 };
        let mut fault = Prof { chunks: chunking(g), fail_at: Some(k), fail_kind: kind };
        if gz {
            fault.chunks.retain(|x| *x > 0);
        }
        cx.st.evaluations += 1;
        let r = cx.enc(0, p.d, &a, &p.val, &fault);
        if !matches!(r.out, Out::Err(_)) {
            return Err(format!("the sink failed after {} bytes: {}", k, show(&r)));
        }
        if !bytes.starts_with(&r.bytes) && !gz {
            return Err(format!("before the fault the sink got {}, not a prefix of {}", hex(&r.bytes), hex(&bytes)));
        }
        cx.st.class("sink fault");
        cx.st.evaluations += 1;
        let fault = Prof { fail_kind: 0, ..fault };
        let r = cx.dec(0, p.d, &a, &bytes, &fault);
        // a source that stops inside the message
        let need = whole_count(doc, &p, &bytes).map_or(false, |n| (k as usize) < n);
        if need && !matches!(r.out, Out::Err(_)) {
            return Err(format!("the source failed after {} bytes: {}", k, show(&r)));
        }
        if need {
            cx.st.class("source fault");
        } else if matches!(r.out, Out::Panic(_) | Out::Runaway | Out::Crash(_)) {
            return Err(format!("the source failed after {} bytes: {}", k, show(&r)));
        }
    }
    cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "bytes": hex(&bytes), "chunks": format!("{:?}", prof.chunks)}));
    Ok(())
}
fn has_b64(doc: &Doc) -> bool {
    let t = doc.spec.text();
    t.contains("base64") || t.contains("gzip")
}
fn whole_count(doc: &Doc, p: &Pick, b: &[u8]) -> Option<usize> {
    let mut c = Cur::new(b);
    doc.spec.dec_decl(p.d, &p.args, &mut c).ok()?;
    (!c.fuzzy).then_some(c.pos)
}

// ------------------------------------------------------------------ values that do not fit

/// another value of the same shape: one part of `a` replaced by the part of `b` at the same place,
/// or a list or string changed
pub fn cross(g: &mut Gen, a: &mut Val, b: &Val) {
    if g.pct(15) {
        *a = b.clone();
        return;
    }
    match (a, b) {
        (Val::Rec(x), Val::Rec(y)) if !x.is_empty() && x.len() == y.len() => {
            let k = g.n(x.len());
            cross(g, &mut x[k], &y[k]);
        }
        (Val::Var(i, x), Val::Var(j, y)) if *i == *j && !x.is_empty() => {
            let k = g.n(x.len());
            cross(g, &mut x[k], &y[k]);
        }
        (Val::Some(x), Val::Some(y)) => {
            let y = (**y).clone();
            cross(g, x, &y);
        }
        (a @ Val::Some(_), _) if g.pct(50) => *a = Val::None,
        (Val::List(x), y) => {
            match g.n(4) {
                0 => {
                    x.pop();
                }
                1 if !x.is_empty() => {
                    let e = x[g.n(x.len())].clone();
                    let k = g.n(x.len() + 1);
                    x.insert(k, e);
                }
                2 if !x.is_empty() => {
                    let k = g.n(x.len());
                    if let Val::List(y) = y {
                        if k < y.len() {
                            cross(g, &mut x[k], &y[k]);
                            return;
                        }
                    }
                    x.remove(k);
                }
                _ => {
                    if let Val::List(y) = y {
                        *x = y.clone();
                    }
                }
            };
        }
        (Val::Str(x), _) => {
            let mut s = String::from_utf8(x.clone()).unwrap();
            match g.n(5) {
                0 => {
                    s.pop();
                }
                1 => s.push('a'),
                2 => s.push('\u{e9}'),
                3 => s.push('\0'),
                _ => s.insert(0, '\u{1f600}'),
            }
            *x = s.into_bytes();
        }
        (a, b) => *a = b.clone(),
    }
}

/// writes a string of the document over elements of a list
fn plant(g: &mut Gen, v: &mut Val, strs: &[Vec<u8>]) {
    match v {
        Val::Rec(x) | Val::Var(_, x) if !x.is_empty() => {
            let k = g.n(x.len());
            plant(g, &mut x[k], strs)
        }
        Val::Some(x) => plant(g, x, strs),
        Val::List(x) if !x.is_empty() => {
            let k = g.n(x.len());
            if !matches!(x[k], Val::U(_) | Val::I(_) | Val::Str(_)) {
                return plant(g, &mut x[k], strs);
            }
            let t = g.pick(strs).clone();
            let k = x.len().saturating_sub(t.len().max(1)).min(k);
            for (v, b) in x[k..].iter_mut().zip(&t) {
                match v {
                    Val::U(u) => *u = *b as u128,
                    Val::I(u) => *u = *b as i8 as i128,
                    Val::Str(s) => {
                        if let Ok(t) = std::str::from_utf8(&t) {
                            *s = [t.as_bytes(), s].concat();
                        }
                        break;
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

pub fn reject_case(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let mut p = match pick(doc, g, cx.st) {
        Some(p) => p,
        None => return Ok(()),
    };
    // other arguments than the value was made for, or another value's parts
    let other = match pick_same(doc, g, p.d) {
        Some(o) => o,
        None => return Ok(()),
    };
    if !p.args.is_empty() && g.pct(40) {
        p.args = other.args.clone();
        p.given = other.given;
    }
    let before = p.val.clone();
    let n = g.range(1, 2);
    for _ in 0..n {
        cross(g, &mut p.val, &other.val);
    }
    let mut strs = vec![];
    for d in &mut doc.spec.decls.clone() {
        crate::meta::exprs(d, &mut |e| {
            if let Expr::Str(s) = e {
                strs.push(s.clone());
            }
        });
    }
    if !strs.is_empty() && g.pct(30) {
        plant(g, &mut p.val, &strs);
    }
    let want = expect_enc(doc, &p);
    let a = cx.args(doc, p.d, &p.args, p.given);
    match want {
        Err(Stop::Unspec(s)) => {
            cx.st.skip(s);
            Ok(())
        }
        Ok(nodes) => {
            cx.st.evaluations += 1;
            let r = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
            if r.out != Out::Ok(Val::None) {
                return Err(format!("encoding a representable value failed: {}", show(&r)));
            }
            if let Err(m) = matches(&nodes, &r.bytes) {
                return Err(format!("encoding differs from the described format: {}", m));
            }
            if p.val != before {
                cx.st.class("changed, still fits");
            }
            Ok(())
        }
        Err(Stop::Reject(s)) => {
            cx.st.evaluations += 1;
            let r = cx.enc(0, p.d, &a, &p.val, &Prof::plain());
            match &r.out {
                Out::Err(_) => {}
                _ => return Err(format!("a value the format cannot represent was not refused ({}): {}", s, show(&r))),
            }
            cx.st.class(s);
            cx.st.hit(h64(format!("{}{:?}{:?}", doc.spec.decls[p.d].name, p.args, p.val).as_bytes()));
            cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "value": format!("{:?}", p.val), "refused because": s}));
            Ok(())
        }
    }
}
pub fn pick_same(doc: &Doc, g: &mut Gen, d: DId) -> Option<Pick> {
    let (args, given) = pick_args(doc, g, d);
    let val = doc.decl_value(g, d, &args, &big_budget()).ok()?;
    Some(Pick { d, args, given, val })
}


// ------------------------------------------------------------------ one feature at a time

/// does this type, or one it refers to, have a field for which `f` holds
pub fn uses(spec: &Spec, d: DId, f: &dyn Fn(&Field) -> bool) -> bool {
    fn ty(spec: &Spec, t: &Ty, f: &dyn Fn(&Field) -> bool, seen: &mut Vec<DId>) -> bool {
        match t {
            Ty::Arr(e, _) => ty(spec, e, f, seen),
            Ty::Ref(d, _) => decl(spec, *d, f, seen),
            Ty::Cont(c) => c.items.iter().any(|i| match i {
                Item::Field(_, x) => field(spec, x, f, seen),
                Item::Pad(_) => false,
            }),
            _ => false,
        }
    }
    fn field(spec: &Spec, x: &Field, f: &dyn Fn(&Field) -> bool, seen: &mut Vec<DId>) -> bool {
        f(x) || ty(spec, &x.ty, f, seen)
    }
    fn decl(spec: &Spec, d: DId, f: &dyn Fn(&Field) -> bool, seen: &mut Vec<DId>) -> bool {
        if seen.contains(&d) || !spec.decls[d].is_type() {
            return false;
        }
        seen.push(d);
        field(spec, spec.decls[d].field(), f, seen)
    }
    decl(spec, d, f, &mut vec![])
}

pub type Has = fn(&Spec, DId) -> bool;

/// encode against the model, decode back, decode something damaged against the model
pub fn feature_case(doc: &Doc, g: &mut Gen, cx: &mut Cx, has: Has) -> Result<(), String> {
    let p = match pick(doc, g, cx.st) {
        Some(p) => p,
        None => return Ok(()),
    };
    let nodes = match expect_enc(doc, &p) {
        Ok(n) => n,
        Err(s) => {
            cx.st.skip(&format!("encode: {:?}", s));
            return Ok(());
        }
    };
    let name = doc.spec.decls[p.d].name.as_bytes().to_vec();
    let on = has(&doc.spec, p.d);
    let args = cx.args(doc, p.d, &p.args, p.given);
    cx.st.evaluations += 1;
    let r = cx.enc(0, p.d, &args, &p.val, &Prof::plain());
    if r.out != Out::Ok(Val::None) {
        return Err(format!("encoding a representable value failed: {}", show(&r)));
    }
    if let Err(m) = matches(&nodes, &r.bytes) {
        return Err(format!("encoding differs from the described format: {}", m));
    }
    if on {
        cx.st.hit(h64(&[&name[..], &r.bytes].concat()));
        cx.st.sample(2, || json!({"document": doc.spec.text(), "type": doc.spec.decls[p.d].name, "value": format!("{:?}", p.val), "bytes": hex(&r.bytes)}));
    } else {
        cx.st.class("without the feature");
    }
    agree(doc, p.d, &p.args, p.given, &r.bytes, &Prof::plain(), cx)?;
    let mut b = r.bytes;
    let k = g.range(1, 3);
    let mut how = "";
    for _ in 0..k {
        how = mutate(g, &mut b);
    }
    if let Some(ok) = agree(doc, p.d, &p.args, p.given, &b, &Prof::plain(), cx)? {
        cx.st.class(&format!("{}, {}", how, if ok { "decodable" } else { "refused" }));
        if on {
            cx.st.hit(h64(&[&name[..], b"!", &b].concat()));
        }
    }
    Ok(())
}

pub struct Feature {
    pub id: &'static str,
    pub cfg: fn(&mut Gen) -> Cfg,
    pub has: Has,
    pub extra: Option<Case>,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
    pub rule: &'static str,
}
impl Prop for Feature {
    fn id(&self) -> &'static str {
        self.id
    }
    fn cfg(&self, g: &mut Gen) -> Cfg {
        (self.cfg)(g)
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            self.quick
        } else {
            self.thorough
        }
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        match g.n(100) {
            0..=14 => return reject_case(doc, g, cx),
            15..=21 => return frag_case(doc, g, cx),
            22..=27 => return round_case(doc, g, cx),
            _ => {}
        }
        if let Some(e) = self.extra {
            if g.pct(40) {
                return e(doc, g, cx);
            }
        }
        feature_case(doc, g, cx, self.has)
    }
}

// ---- the functions generated for enums and bitfields

fn near(g: &mut Gen, s: Sc, known: &[u128]) -> u128 {
    let x = if !known.is_empty() && g.pct(70) {
        let k = *g.pick(known);
        match g.n(4) {
            0 => k.wrapping_add(1),
            1 => k.wrapping_sub(1),
            2 => k ^ (1 << g.n(s.bits() as usize)),
            _ => k,
        }
    } else {
        match crate::gen::int_val(g, s) {
            Val::U(x) => x,
            Val::I(x) => x as u128,
            _ => unreachable!(),
        }
    };
    wrap(s, s, x)
}
fn of_kind(doc: &Doc, g: &mut Gen, f: fn(&Ty) -> bool) -> Option<DId> {
    let v: Vec<DId> = doc.types().into_iter().filter(|d| f(&doc.spec.decls[*d].field().ty)).collect();
    if v.is_empty() {
        None
    } else {
        Some(*g.pick(&v))
    }
}
fn ok(r: &rt::Res) -> Result<Val, String> {
    match &r.out {
        Out::Ok(v) => Ok(v.clone()),
        _ => Err(format!("unexpected outcome: {}", show(r))),
    }
}
fn expect(what: &str, got: Val, want: Val) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} gave {:?}, expected {:?}", what, got, want))
    }
}
fn byte_list(x: u128, s: Sc, le: bool) -> Val {
    let n = s.bytes();
    let mut b: Vec<u8> = (0..n).map(|i| (x >> (8 * i)) as u8).collect();
    if !le {
        b.reverse();
    }
    Val::List(b.into_iter().map(|x| Val::U(x as u128)).collect())
}

pub fn enum_ops(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let d = match of_kind(doc, g, |t| matches!(t, Ty::Enum(_))) {
        Some(d) => d,
        None => return Ok(()),
    };
    let e = match &doc.spec.decls[d].field().ty {
        Ty::Enum(e) => e.clone(),
        _ => unreachable!(),
    };
    let known: Vec<u128> = (0..e.items.len()).filter_map(|i| doc.spec.enum_value(&e, i).ok()).collect();
    let int = |x: u128| doc.spec.lower(&V::Int(e.rep, x));
    let x = near(g, e.rep, &known);
    let mut which = None;
    for i in 0..e.items.len() {
        if e.items[i].1 == Some(None) {
            which = Some(Val::Var(i as u32, vec![int(x)]));
            break;
        }
        if doc.spec.enum_value(&e, i) == Ok(x) {
            which = Some(Val::Var(i as u32, vec![]));
            break;
        }
    }
    cx.st.evaluations += 1;
    cx.st.hit(h64(format!("{}{}{}", doc.spec.text(), d, x).as_bytes()));
    let r = cx.misc(0, d, 0, &[int(x)]);
    let v = match (&which, &r.out) {
        (Some(w), Out::Ok(Val::Some(v))) if **v == *w => w.clone(),
        (None, Out::Err(_)) => {
            cx.st.class("no such entry");
            return Ok(());
        }
        (w, _) => return Err(format!("the entry of value {:?} is {:?}: {}", int(x), w, show(&r))),
    };
    cx.st.class("an entry");
    expect("the value of an entry", ok(&cx.misc(0, d, 1, &[v.clone()]))?, int(x))?;
    expect("big-endian bytes", ok(&cx.misc(0, d, 2, &[v.clone()]))?, byte_list(x, e.rep, false))?;
    expect("little-endian bytes", ok(&cx.misc(0, d, 3, &[v.clone()]))?, byte_list(x, e.rep, true))?;
    expect("clone", ok(&cx.misc(0, d, 6, &[v.clone()]))?, v.clone())?;
    let other = doc.enum_val(g, &e);
    expect("equality", ok(&cx.misc(0, d, 5, &[v.clone(), other.clone()]))?, Val::Bool(v == other))?;
    Ok(())
}

pub fn bits_ops(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let d = match of_kind(doc, g, |t| matches!(t, Ty::Bits(_))) {
        Some(d) => d,
        None => return Ok(()),
    };
    let e = match &doc.spec.decls[d].field().ty {
        Ty::Bits(e) => e.clone(),
        _ => unreachable!(),
    };
    let all = match doc.spec.bit_all(&e) {
        Ok(a) => a,
        Err(_) => return Ok(()),
    };
    let mask = e.rep.umax();
    let x = near(g, e.rep, &[all, 0]);
    let y = near(g, e.rep, &[all]) & all;
    let u = Val::U;
    cx.st.evaluations += 1;
    cx.st.hit(h64(format!("{}{}{}{}", doc.spec.text(), d, x, y).as_bytes()));
    let r = cx.misc(0, d, 0, &[u(x)]);
    match &r.out {
        Out::Ok(Val::Some(v)) if x & !all & mask == 0 && **v == u(x) => cx.st.class("declared flags"),
        Out::Err(_) if x & !all & mask != 0 => cx.st.class("undeclared flag"),
        _ => return Err(format!("flags {:#x} of {:#x}: {}", x, all, show(&r))),
    }
    expect("ALL", ok(&cx.misc(0, d, 8, &[]))?, u(all))?;
    expect("ZERO", ok(&cx.misc(0, d, 9, &[]))?, u(0))?;
    expect("default", ok(&cx.misc(0, d, 4, &[]))?, u(0))?;
    expect("big-endian bytes", ok(&cx.misc(0, d, 2, &[u(x)]))?, byte_list(x, e.rep, false))?;
    expect("little-endian bytes", ok(&cx.misc(0, d, 3, &[u(x)]))?, byte_list(x, e.rep, true))?;
    for (i, _) in e.items.iter().enumerate() {
        let b = doc.spec.bit_value(&e, i).unwrap();
        let k = Val::Var(i as u32, vec![]);
        expect("a flag's constant", ok(&cx.misc(0, d, 7, &[k.clone()]))?, u(b))?;
        expect("a flag of a value", ok(&cx.misc(0, d, 5, &[u(x), k.clone()]))?, Val::Bool(x & b != 0))?;
        expect("setting a flag", ok(&cx.misc(0, d, 6, &[u(x), k.clone()]))?, u(x | b))?;
    }
    for (k, w) in [(10, x | y), (11, x & y), (12, x ^ y), (14, x | y), (15, x & y)] {
        expect("combining flags", ok(&cx.misc(0, d, k, &[u(x), u(y)]))?, u(w))?;
    }
    expect("complement", ok(&cx.misc(0, d, 13, &[u(x)]))?, u(!x & mask))?;
    expect("equality", ok(&cx.misc(0, d, 16, &[u(x), u(y)]))?, Val::Bool(x == y))?;
    Ok(())
}

/// every constant value a document gives to enum entries and flags
pub fn const_ops(doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
    let d = match of_kind(doc, g, |t| matches!(t, Ty::Enum(_) | Ty::Bits(_))) {
        Some(d) => d,
        None => return Ok(()),
    };
    cx.st.evaluations += 1;
    match &doc.spec.decls[d].field().ty {
        Ty::Enum(e) => {
            for i in 0..e.items.len() {
                let Ok(x) = doc.spec.enum_value(e, i) else { continue };
                if e.items[i].1 == Some(None) {
                    continue;
                }
                let v = Val::Var(i as u32, vec![]);
                let int = doc.spec.lower(&V::Int(e.rep, x));
                cx.st.hit(h64(format!("{}{}{}", doc.spec.text(), d, i).as_bytes()));
                expect("the value of an entry", ok(&cx.misc(0, d, 1, &[v.clone()]))?, int.clone())?;
                expect("the entry of a value", ok(&cx.misc(0, d, 0, &[int]))?, Val::Some(Box::new(v)))?;
            }
        }
        Ty::Bits(e) => {
            for i in 0..e.items.len() {
                let Ok(b) = doc.spec.bit_value(e, i) else { continue };
                cx.st.hit(h64(format!("{}{}{}", doc.spec.text(), d, i).as_bytes()));
                expect("a flag's constant", ok(&cx.misc(0, d, 7, &[Val::Var(i as u32, vec![])]))?, Val::U(b))?;
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

type Case = fn(&Doc, &mut Gen, &mut Cx) -> Result<(), String>;
pub struct Simple {
    pub id: &'static str,
    pub cfg: fn(&mut Gen) -> Cfg,
    pub case: Case,
    pub quick: (usize, usize),
    pub thorough: (usize, usize),
    pub rule: &'static str,
}
impl Prop for Simple {
    fn id(&self) -> &'static str {
        self.id
    }
    fn cfg(&self, g: &mut Gen) -> Cfg {
        (self.cfg)(g)
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            self.quick
        } else {
            self.thorough
        }
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        (self.case)(doc, g, cx)
    }
}


fn f_cond(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| f.cond.is_some())
}
fn f_const(s: &Spec, d: DId) -> bool {
    let big = |e: &Expr| !matches!(e, Expr::Int(..) | Expr::Bool(_) | Expr::Str(_));
    let any = s.decls.iter().any(|x| matches!(&x.kind, Kind::Const { expr, .. } if big(expr)));
    any && uses(s, d, &|f| f.calc.is_some() || f.cond.is_some())
        || uses(s, d, &|f| match &f.ty {
            Ty::Enum(e) => e.items.iter().any(|i| matches!(&i.1, Some(Some(e)) if big(e))),
            Ty::Bits(e) => e.items.iter().any(|i| i.1.as_ref().map_or(false, big)),
            _ => false,
        })
}
fn f_calc(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| f.calc.is_some())
}
fn f_arr(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| matches!(f.ty, Ty::Arr(..)))
}
fn f_bound(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| matches!(&f.ty, Ty::Cont(c) if c.len.is_some()))
}
fn f_enum(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| matches!(&f.ty, Ty::Enum(_)))
}
fn f_bits(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| matches!(&f.ty, Ty::Bits(_)))
}
fn f_tagged(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| matches!(&f.ty, Ty::Cont(c) if c.tagged))
}
fn f_xf(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| !f.xf.is_empty())
}
fn f_foreign(s: &Spec, d: DId) -> bool {
    fn is(t: &Ty) -> bool {
        match t {
            Ty::Var(_) | Ty::Utf8Nul | Ty::Utf8(_) | Ty::Utf16(_) => true,
            Ty::Arr(e, _) => is(e),
            _ => false,
        }
    }
    uses(s, d, &|f| is(&f.ty))
}
fn f_expr(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| {
        let big = |e: &Expr| !matches!(e, Expr::Int(..) | Expr::Bool(_) | Expr::Field(_) | Expr::Input(_) | Expr::Call(..));
        f.calc.as_ref().map_or(false, big) || f.cond.as_ref().map_or(false, big) || f.xf.iter().any(|x| x.args.iter().any(big))
    })
}
fn f_args(s: &Spec, d: DId) -> bool {
    !s.decls[d].args().is_empty() || uses(s, d, &|f| matches!(&f.ty, Ty::Ref(r, _) if !s.decls[*r].args().is_empty()) || matches!(&f.ty, Ty::Arr(e, _) if matches!(&**e, Ty::Ref(r, _) if !s.decls[*r].args().is_empty())))
}
fn f_scalar(s: &Spec, d: DId) -> bool {
    uses(s, d, &|f| matches!(&f.ty, Ty::Sc(..) | Ty::F32 | Ty::F64 | Ty::Bool))
}

pub fn all() -> Vec<Box<dyn Prop>> {
    let d = |id, case: Case, rule| -> Box<dyn Prop> {
        Box::new(Simple { id, cfg: |_| Cfg::default(), case, quick: (400, 60), thorough: (6400, 200), rule })
    };
    let f = |id, has: Has, cfg: fn(&mut Gen) -> Cfg, extra: Option<Case>, rule| -> Box<dyn Prop> {
        Box::new(Feature { id, has, cfg, extra, quick: (400, 60), thorough: (6400, 200), rule })
    };
    vec![
        Box::new(Wire { id: "C01", cfg: Cfg::default(), quick: (400, 60), thorough: (6400, 200), rule: "A random accepted document and random values and arguments for its types; the generated code's bytes are compared with an independent interpreter of the language. Non-trivial: the model defines the result and it is not empty." }),
        d("C02", round_case, "Several values of random types of a random document are encoded into one stream, decoded back in sequence and encoded again. Non-trivial: the stream holds bytes and the model accepts every value."),
        d("C03", agree_case, "Encodings of random values with random edits, or arbitrary bytes, are decoded by the generated code and by the model decoder: both reject, or both give the same value and use the same bytes. Non-trivial: the model defines the result."),
        d("C04", robust_case, "Arbitrary, truncated and damaged bytes are decoded in a process with limited memory and time: an answer or an error, no panic, hang or runaway allocation. Non-trivial: the input is not empty and differs from a valid encoding."),
        d("C05", frag_case, "Valid messages are encoded to sinks and decoded from sources that move a few bytes at a time, are interrupted, end early or fail at a chosen byte. Non-trivial: the message has bytes and at least one call is split or fails."),
        d("C06", reject_case, "Values of one type are changed or crossed with others (lengths, arguments, calculated fields) so that the document admits no encoding; the encoder must refuse what the model refuses. Non-trivial: the model refuses or the value was changed."),
        f("C07", f_cond, |g| Cfg { cond: *g.pick(&[40, 80]), decl_cond: 30, args: 40, kinds: [3, 3, 12, 1, 1, 1, 2], ft: [10, 1, 3, 5, 5, 2, 1, 2, 1, 6], nested_len: 20, ..Cfg::default() }, None, "Documents rich in conditional fields, references and transforms; encoding against the model, decoding back, and decoding damaged bytes against the model. Non-trivial: the type reached has a condition."),
        f("C08", f_calc, |_| Cfg { calc: 60, len_idiom: 70, kinds: [1, 1, 12, 1, 1, 4, 1], cond: 15, ft: [10, 1, 2, 8, 3, 2, 2, 2, 2, 6], nested_len: 70, ..Cfg::default() }, None, "Documents rich in calculated fields (length idioms, blen, literal and computed values); encode, decode back, decode damaged bytes, against the model. Non-trivial: the type reached has a calculated field."),
        f("C09", f_arr, |_| Cfg { kinds: [1, 8, 10, 1, 1, 1, 0], ft: [4, 1, 1, 20, 4, 1, 1, 1, 1, 2], lens: [5, 4, 5], ..Cfg::default() }, None, "Documents rich in arrays of every length form (fixed, computed, terminated, to the end) over every element type; against the model in both directions. Non-trivial: the type reached has an array."),
        f("C10", f_bound, |g| Cfg { kinds: [1, 1, 12, 1, 1, 4, 1], nested_len: 95, ft: [8, 1, 1, 6, 4, 1, 1, 1, 1, 12], len_idiom: 60, depth: g.range(2, 3), ..Cfg::default() }, None, "Documents rich in containers of a declared length, nested, and with unbounded contents; against the model in both directions, including damaged lengths. Non-trivial: the type reached has a bounded container."),
        f("C11", f_enum, |_| Cfg { decls: (2, 5), kinds: [0, 2, 5, 14, 0, 2, 0], ft: [3, 0, 1, 4, 16, 0, 0, 0, 0, 1], consts: 50, ..Cfg::default() }, Some(enum_ops), "Documents rich in enums, and every function of a generated enum (conversion, constants, Default, wire bytes) over declared, adjacent and random values, against the model. Non-trivial: an enum is reached."),
        f("C12", f_bits, |_| Cfg { decls: (2, 5), kinds: [0, 2, 5, 0, 14, 2, 0], ft: [3, 0, 1, 4, 16, 0, 0, 0, 0, 1], cond: 40, consts: 50, ..Cfg::default() }, Some(bits_ops), "Documents rich in bitfields, and every function of a generated bitfield (getters, setters, constants, operators, equality) against a bit-set model. Non-trivial: a bitfield is reached."),
        f("C13", f_tagged, |_| Cfg { kinds: [1, 1, 4, 2, 1, 16, 1], args: 60, decls: (1, 4), ..Cfg::default() }, None, "Documents rich in containers whose fields are alternatives; against the model in both directions. Non-trivial: a tagged enum is reached."),
        f("C14", f_xf, |_| Cfg { xf: 50, decl_xf: 50, xf_cond: 40, codec: 35, decls: (1, 3), ..Cfg::default() }, None, "Documents rich in transforms (base64, gzip and a foreign one), chained and conditional, on fields, references and types; against the model in both directions. Non-trivial: a transform is reached."),
        f("C15", f_foreign, |_| Cfg { ft: [4, 0, 1, 6, 2, 12, 6, 10, 10, 2], kinds: [1, 3, 8, 0, 0, 2, 10], decls: (1, 4), ..Cfg::default() }, None, "Documents rich in foreign types (variable integers, utf8 and utf16 strings, a foreign pad); against the model in both directions, with boundary integers and non-ASCII text. Non-trivial: a foreign type is reached."),
        f("C16", f_expr, |_| Cfg { rich: 95, calc: 50, cond: 40, len_idiom: 10, consts: 60, args: 40, xf: 20, ft: [16, 0, 6, 3, 5, 0, 0, 0, 0, 1], kinds: [2, 1, 12, 2, 2, 2, 0], ..Cfg::default() }, None, "Documents whose conditions, calculated values, lengths and arguments are random typed expressions over fields, arguments, constants, enum items and flags; evaluated by generated code and by the model. Non-trivial: a compound expression is reached."),
        f("C17", f_const, |_| Cfg { consts: 100, cdepth: 4, edge: 4, rich: 75, decls: (2, 6), kinds: [1, 2, 8, 8, 6, 1, 1], calc: 45, cond: 35, len_idiom: 10, ft: [10, 0, 4, 3, 8, 0, 0, 0, 0, 1], ..Cfg::default() }, Some(const_ops), "Documents rich in constants, enum values and flags given by deep constant expressions, and in expressions that use them; every such value, encoding and decoding, against the model. Non-trivial: a constant expression with an operator is reached."),
        f("C18", f_args, |_| Cfg { share: 60, args: 95, defaults: 50, decls: (2, 5), ft: [6, 0, 1, 5, 16, 0, 0, 2, 2, 3], kinds: [3, 3, 10, 2, 1, 4, 3], ..Cfg::default() }, None, "Documents whose types take arguments, with and without defaults, passed through references; against the model in both directions. Non-trivial: the type reached has arguments or passes them."),
        Box::new(crate::files::Parts),
        Box::new(crate::accept::Accept),
        Box::new(crate::asy::Asy),
        Box::new(crate::meta::Meta),
        Box::new(crate::opts::Opts),
        f("C29", f_scalar, |_| Cfg { ft: [20, 5, 5, 4, 2, 0, 0, 0, 0, 1], kinds: [8, 4, 8, 1, 1, 1, 0], ..Cfg::default() }, None, "Documents of scalars, both byte orders, floats and bools, and arrays of them, with boundary values; against the model in both directions. Non-trivial: a scalar is reached."),
    ]
}
