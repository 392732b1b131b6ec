//! The search loop shared by every check: generate, run, shrink, report.

use crate::batch::{self, Built, Part, Runner};
use crate::front::{self, Stage};
use crate::gen::{self, Cfg, Doc};
use crate::glue;
use crate::model::V;
use crate::spec::*;
use crate::tape::{self, mix, Gen};
use protospec_build::CompileOptions;
use rt::{Cmd, Out, Prof, Res, Val};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: usize,
    pub nontrivial: HashSet<u64>,
    pub docs: usize,
    pub classes: BTreeMap<String, usize>,
    pub skipped: BTreeMap<String, usize>,
    pub samples: Vec<Value>,
}
impl Stats {
    pub fn class(&mut self, s: &str) {
        *self.classes.entry(s.to_string()).or_default() += 1;
    }
    pub fn skip(&mut self, s: &str) {
        *self.skipped.entry(s.to_string()).or_default() += 1;
    }
    pub fn hit(&mut self, h: u64) {
        self.nontrivial.insert(h);
    }
    pub fn sample(&mut self, n: usize, f: impl FnOnce() -> Value) {
        if self.samples.len() < n {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.docs += o.docs;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub fn h64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// one rendering of a document
pub struct Form {
    pub spec: Spec,
    pub text: String,
    pub files: Vec<(String, String)>,
    pub opts: CompileOptions,
}
impl Form {
    pub fn plain(doc: &Doc) -> Form {
        Form { spec: doc.spec.clone(), text: doc.spec.text(), files: vec![], opts: front::options() }
    }
    pub fn res(&self) -> front::Res {
        front::Res { files: self.files.iter().cloned().collect() }
    }
}

/// A check over compiled documents.
pub trait Prop: Sync + Send {
    fn id(&self) -> &'static str;
    fn cfg(&self, g: &mut Gen) -> Cfg;
    fn rule(&self) -> &'static str;
    fn doc(&self, g: &mut Gen) -> Doc {
        let c = self.cfg(g);
        gen::document(g, &c)
    }
    fn forms(&self, doc: &Doc, _g: &mut Gen) -> Vec<Form> {
        vec![Form::plain(doc)]
    }
    fn asy(&self) -> bool {
        false
    }
    /// (documents, cases per document)
    fn size(&self, t: Tier) -> (usize, usize);
    fn batch(&self) -> usize {
        8
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String>;
    /// deterministic cases, once per document
    fn once(&self, _doc: &Doc, _cx: &mut Cx) -> Result<(), String> {
        Ok(())
    }
}

pub struct Cx<'a> {
    pub runner: &'a mut Runner,
    /// first entry of each form
    pub base: Vec<u32>,
    pub types: Vec<DId>,
    pub st: &'a mut Stats,
    pub log: Vec<String>,
}
impl<'a> Cx<'a> {
    fn entry(&self, form: usize, d: DId) -> u32 {
        self.base[form] + self.types.iter().position(|x| *x == d).unwrap() as u32
    }
    /// arguments as the generated functions take them
    pub fn args(&self, doc: &Doc, d: DId, a: &[V], given: usize) -> Vec<Val> {
        doc.spec.decls[d]
            .args()
            .iter()
            .enumerate()
            .map(|(i, x)| match (&x.default, i < given) {
                (None, _) => doc.spec.lower(&a[i]),
                (Some(_), true) => Val::some(doc.spec.lower(&a[i])),
                (Some(_), false) => Val::None,
            })
            .collect()
    }
    pub fn dec(&mut self, form: usize, d: DId, a: &[Val], b: &[u8], p: &Prof) -> Res {
        self.log.push(format!("decode type #{} args {:?} bytes {} stream {:?}", d, a, crate::model::hex(b), p));
        let r = self.runner.call(&Cmd::Dec(self.entry(form, d), a.to_vec(), b.to_vec(), p.clone()));
        self.log.push(format!("  -> {}", show(&r)));
        r
    }
    pub fn enc(&mut self, form: usize, d: DId, a: &[Val], v: &Val, p: &Prof) -> Res {
        self.log.push(format!("encode type #{} args {:?} value {:?} stream {:?}", d, a, v, p));
        let r = self.runner.call(&Cmd::Enc(self.entry(form, d), a.to_vec(), v.clone(), p.clone()));
        self.log.push(format!("  -> {}", show(&r)));
        r
    }
    pub fn adec(&mut self, form: usize, d: DId, a: &[Val], b: &[u8], p: &Prof) -> Res {
        self.log.push(format!("async decode type #{} args {:?} bytes {} stream {:?}", d, a, crate::model::hex(b), p));
        let r = self.runner.call(&Cmd::DecAsync(self.entry(form, d), a.to_vec(), b.to_vec(), p.clone()));
        self.log.push(format!("  -> {}", show(&r)));
        r
    }
    pub fn aenc(&mut self, form: usize, d: DId, a: &[Val], v: &Val, p: &Prof) -> Res {
        self.log.push(format!("async encode type #{} args {:?} value {:?} stream {:?}", d, a, v, p));
        let r = self.runner.call(&Cmd::EncAsync(self.entry(form, d), a.to_vec(), v.clone(), p.clone()));
        self.log.push(format!("  -> {}", show(&r)));
        r
    }
    pub fn misc(&mut self, form: usize, d: DId, k: u32, a: &[Val]) -> Res {
        self.log.push(format!("operation {} of type #{} on {:?}", k, d, a));
        let r = self.runner.call(&Cmd::Misc(self.entry(form, d), k, a.to_vec()));
        self.log.push(format!("  -> {}", show(&r)));
        r
    }
}

pub fn show(r: &Res) -> String {
    let o = match &r.out {
        Out::Ok(Val::None) => "ok".to_string(),
        Out::Ok(v) => format!("{:?}", v),
        Out::Err(e) => format!("error '{}'", e),
        Out::Panic(e) => format!("PANIC '{}'", e),
        Out::Runaway => "RUNAWAY (does not end)".to_string(),
        Out::Crash(e) => format!("CRASH {}", e),
    };
    let mut s: String = o.chars().take(600).collect();
    s.push_str(&format!(" [{} bytes", r.count));
    if !r.bytes.is_empty() {
        s.push_str(&format!(": {}", crate::model::hex(&r.bytes)));
    }
    s.push_str(&format!(", peak {}]", r.peak));
    s
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum FailKind {
    Front,
    Compile,
    Run,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: FailKind,
    pub msg: String,
    pub doc_tape: Vec<u32>,
    pub val_tape: Vec<u32>,
    pub once: bool,
    pub log: Vec<String>,
    pub text: String,
}

struct Prepared {
    doc: Doc,
    tape: Vec<u32>,
    text: String,
    parts: Result<Vec<Part>, String>,
}

fn prepare(p: &dyn Prop, mut g: Gen) -> Option<Prepared> {
    let r = front::quiet(|| {
        let doc = p.doc(&mut g);
        let forms = p.forms(&doc, &mut g);
        (doc, forms)
    });
    let (doc, forms) = match r {
        Ok(x) => x,
        Err(e) => {
            eprintln!("HARNESS: generator panicked: {}", e);
            return None;
        }
    };
    if g.reject.is_some() {
        return None;
    }
    let text = forms
        .iter()
        .map(|f| {
            let mut s = f.text.clone();
            for (n, t) in &f.files {
                s.push_str(&format!("\n---- file {}\n{}", n, t));
            }
            s
        })
        .collect::<Vec<_>>()
        .join("\n==== second form\n");
    let mut parts = Ok(vec![]);
    for f in &forms {
        match front::compile(&f.text, &f.res(), &f.opts) {
            Ok(code) => {
                let whole = ["PartialEq", "Clone", "Default"]
                    .iter()
                    .all(|x| f.opts.enum_derives.iter().any(|y| y == x) && f.opts.struct_derives.iter().any(|y| y == x));
                let e = glue::glue(&f.spec, "@", p.asy() && f.opts.include_async, whole);
                if let Ok(v) = &mut parts {
                    v.push(Part { code: code + " " + &e.code, table: e.table, entries: e.n });
                }
            }
            Err(e) => {
                parts = Err(e.to_string());
                break;
            }
        }
    }
    Some(Prepared { doc, tape: g.tape, text, parts })
}

/// Builds all, returning per document the bases of its forms or why it failed.
fn build_all(ds: &mut [Prepared], asy: bool) -> (Built, Vec<Result<Vec<u32>, (FailKind, String)>>) {
    let mut flat: Vec<Part> = vec![];
    let mut idx: Vec<Result<(usize, usize), String>> = vec![];
    for d in ds.iter_mut() {
        match std::mem::replace(&mut d.parts, Ok(vec![])) {
            Ok(v) => {
                idx.push(Ok((flat.len(), v.len())));
                flat.extend(v);
            }
            Err(e) => idx.push(Err(e)),
        }
    }
    let b = batch::build(&flat, asy);
    let out = idx
        .into_iter()
        .map(|i| match i {
            Err(e) => Err((FailKind::Front, e)),
            Ok((s, n)) => {
                let mut v = vec![];
                for k in s..s + n {
                    match &b.parts[k] {
                        Ok(x) => v.push(*x),
                        Err(e) => return Err((FailKind::Compile, e.clone())),
                    }
                }
                Ok(v)
            }
        })
        .collect();
    (b, out)
}

fn run_case(p: &dyn Prop, doc: &Doc, base: &[u32], runner: &mut Runner, st: &mut Stats, g: &mut Gen, once: bool) -> Result<(), (String, Vec<String>)> {
    let mut cx = Cx { runner, base: base.to_vec(), types: doc.types(), st, log: vec![] };
    let r = front::quiet(|| if once { p.once(doc, &mut cx) } else { p.case(doc, g, &mut cx) });
    let log = std::mem::take(&mut cx.log);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err((m, log)),
        Err(m) => {
            if HARNESS_SEEN.lock().unwrap().insert(m.clone()) {
                eprintln!("HARNESS: case panicked: {}\n{}\n{:?}", m, doc.spec.text(), log);
            }
            HARNESS_PANICS.fetch_add(1, Ordering::SeqCst);
            Ok(())
        }
    }
}
static HARNESS_SEEN: Mutex<std::collections::BTreeSet<String>> = Mutex::new(std::collections::BTreeSet::new());
pub static HARNESS_PANICS: AtomicUsize = AtomicUsize::new(0);

pub struct Outcome {
    pub fail: Option<Fail>,
    pub st: Stats,
}

pub fn search(p: &dyn Prop, tier: Tier, seed: u64, cap: Duration, threads: usize) -> Outcome {
    let (docs, cases) = p.size(tier);
    let per = p.batch();
    let nb = (docs + per - 1) / per;
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new((Stats::default(), None::<(usize, Fail)>));
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let b = next.fetch_add(1, Ordering::SeqCst);
                if b >= nb || stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                    return;
                }
                let mut st = Stats::default();
                let mut fail: Option<Fail> = None;
                let mut ds: Vec<Prepared> = vec![];
                let mut seeds = vec![];
                for i in 0..per {
                    let ds_seed = mix(seed ^ h64(p.id().as_bytes()), (b * per + i) as u64);
                    match prepare(p, Gen::random(ds_seed)) {
                        Some(d) => {
                            ds.push(d);
                            seeds.push(ds_seed);
                        }
                        None => st.skip("document rejected by the generator"),
                    }
                }
                let (built, res) = build_all(&mut ds, p.asy());
                let mut runner = Runner::new(&built);
                'docs: for ((d, r), ds_seed) in ds.iter().zip(&res).zip(&seeds) {
                    st.docs += 1;
                    let mk = |kind, msg, val_tape, once, log| Fail {
                        kind,
                        msg,
                        doc_tape: d.tape.clone(),
                        val_tape,
                        once,
                        log,
                        text: d.text.clone(),
                    };
                    match r {
                        Err((k, m)) => {
                            fail = Some(mk(k.clone(), m.clone(), vec![], false, vec![]));
                            break 'docs;
                        }
                        Ok(base) => {
                            let mut g = Gen::replay(&[]);
                            if let Err((m, log)) = run_case(p, &d.doc, base, &mut runner, &mut st, &mut g, true) {
                                fail = Some(mk(FailKind::Run, m, vec![], true, log));
                                break 'docs;
                            }
                            for c in 0..cases {
                                let mut g = Gen::random(mix(*ds_seed, 1 + c as u64));
                                if let Err((m, log)) = run_case(p, &d.doc, base, &mut runner, &mut st, &mut g, false) {
                                    fail = Some(mk(FailKind::Run, m, g.tape.clone(), false, log));
                                    break 'docs;
                                }
                                if runner.restarts > 200 {
                                    break;
                                }
                            }
                        }
                    }
                }
                drop(runner);
                drop(built);
                let mut t = total.lock().unwrap();
                t.0.merge(st);
                if let Some(f) = fail {
                    stop.store(true, Ordering::SeqCst);
                    if t.1.as_ref().map_or(true, |x| x.0 > b) {
                        t.1 = Some((b, f));
                    }
                }
            });
        }
    });
    let (st, fail) = total.into_inner().unwrap();
    Outcome { fail: fail.map(|x| x.1), st }
}

/// survey mode: keep going, count failures by message
pub fn survey(p: &dyn Prop, docs: usize, cases: usize, seed: u64) {
    let next = AtomicUsize::new(0);
    let per = 16;
    let nb = (docs + per - 1) / per;
    let out: Mutex<BTreeMap<String, (usize, String)>> = Mutex::new(BTreeMap::new());
    let tot = Mutex::new(Stats::default());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let b = next.fetch_add(1, Ordering::SeqCst);
                if b >= nb {
                    return;
                }
                let mut st = Stats::default();
                let mut ds: Vec<Prepared> = vec![];
                for i in 0..per {
                    if let Some(d) = prepare(p, Gen::random(mix(seed ^ h64(p.id().as_bytes()), (b * per + i) as u64))) {
                        ds.push(d);
                    }
                }
                let (built, res) = build_all(&mut ds, p.asy());
                let mut runner = Runner::new(&built);
                for (d, r) in ds.iter().zip(&res) {
                    st.docs += 1;
                    let mut note = |k: String, ex: String| {
                        let key: String = k.chars().map(|c| if c.is_ascii_digit() { 'N' } else { c }).take(150).collect();
                        let key = [" gave ", "format: ", " | ", " [", " bytes at a time", ": it"].iter().fold(key, |k, m| k.split(m).next().unwrap().to_string());
                        let mut o = out.lock().unwrap();
                        let e = o.entry(key).or_insert((0, ex.clone()));
                        e.0 += 1;
                        if ex.len() < e.1.len() {
                            e.1 = ex;
                        }
                    };
                    match r {
                        Err((k, m)) => note(format!("{:?}: {}", k, m), format!("{}\n{}", m, d.text)),
                        Ok(base) => {
                            for c in 0..cases + 1 {
                                let mut g = Gen::random(mix(h64(d.text.as_bytes()), 1 + c as u64));
                                if let Err((m, log)) = run_case(p, &d.doc, base, &mut runner, &mut st, &mut g, c == 0) {
                                    note(format!("Run: {}", m), format!("{}\n{}\n{}", m, d.text, log.join("\n")));
                                    break;
                                }
                            }
                        }
                    }
                }
                tot.lock().unwrap().merge(st);
            });
        }
    });
    for (k, (n, ex)) in out.into_inner().unwrap() {
        println!("=== {} x {}\n{}\n", n, k, ex);
    }
    let st = tot.into_inner().unwrap();
    println!("docs {} evaluations {} nontrivial {}", st.docs, st.evaluations, st.nontrivial.len());
    println!("classes {:?}\nskipped {:?}", st.classes, st.skipped);
}

/// Re-run recorded failures: for each (doc tape, value tape), the failure it shows, if any.
fn attempt(p: &dyn Prop, cands: &[(Vec<u32>, Vec<u32>)], want: &Fail, tries: usize) -> Vec<Option<Fail>> {
    let mut ds = vec![];
    let mut at = vec![];
    for (i, (t, _)) in cands.iter().enumerate() {
        if let Some(d) = prepare(p, Gen::replay(t)) {
            ds.push(d);
            at.push(i);
        }
    }
    let mut out: Vec<Option<Fail>> = cands.iter().map(|_| None).collect();
    if ds.is_empty() {
        return out;
    }
    let (built, res) = build_all(&mut ds, p.asy());
    let mut runner = Runner::new(&built);
    for ((d, r), i) in ds.iter().zip(&res).zip(&at) {
        let mk = |kind, msg, val_tape, once, log| {
            Some(Fail { kind, msg, doc_tape: d.tape.clone(), val_tape, once, log, text: d.text.clone() })
        };
        match r {
            Err((k, m)) => {
                if *k == want.kind && (*k == FailKind::Front || similar(m, &want.msg)) {
                    out[*i] = mk(k.clone(), m.clone(), vec![], false, vec![]);
                }
            }
            Ok(base) => {
                if want.kind != FailKind::Run {
                    continue;
                }
                let mut st = Stats::default();
                let mut g = Gen::replay(&[]);
                if let Err((m, log)) = run_case(p, &d.doc, base, &mut runner, &mut st, &mut g, true) {
                    out[*i] = mk(FailKind::Run, m, vec![], true, log);
                    continue;
                }
                if want.once {
                    continue;
                }
                for c in 0..tries {
                    let mut g = if c == 0 { Gen::replay(&cands[*i].1) } else { Gen::random(mix(h64(d.text.as_bytes()), c as u64)) };
                    if let Err((m, log)) = run_case(p, &d.doc, base, &mut runner, &mut st, &mut g, false) {
                        out[*i] = mk(FailKind::Run, m, g.tape.clone(), false, log);
                        break;
                    }
                }
            }
        }
    }
    out
}
fn similar(a: &str, b: &str) -> bool {
    let f = |s: &str| s.split(':').take(2).collect::<String>();
    f(a) == f(b)
}

pub fn shrink(p: &dyn Prop, f: Fail, limit: Duration) -> Fail {
    let t0 = Instant::now();
    let mut best = f;
    // values first: the document stays
    let val = |best: &mut Fail| {
        if best.kind != FailKind::Run || best.once {
            return;
        }
        let cell = std::cell::RefCell::new(best.clone());
        let start = best.val_tape.clone();
        let doc_tape = best.doc_tape.clone();
        let mut ds = match prepare(p, Gen::replay(&doc_tape)) {
            Some(d) => vec![d],
            None => return,
        };
        let (built, res) = build_all(&mut ds, p.asy());
        let base = match &res[0] {
            Ok(b) => b.clone(),
            _ => return,
        };
        let mut runner = Runner::new(&built);
        tape::shrink(start, 64, 60, |cs| {
            cs.iter()
                .map(|c| {
                    if t0.elapsed() > limit {
                        return None;
                    }
                    let mut st = Stats::default();
                    let mut g = Gen::replay(c);
                    match run_case(p, &ds[0].doc, &base, &mut runner, &mut st, &mut g, false) {
                        Err((m, log)) => {
                            let mut b = cell.borrow_mut();
                            if g.tape.len() <= b.val_tape.len() {
                                b.msg = m;
                                b.log = log;
                                b.val_tape = g.tape.clone();
                            }
                            Some(g.tape.clone())
                        }
                        Ok(()) => None,
                    }
                })
                .collect()
        });
        // the last accepted tape is authoritative
        *best = cell.into_inner();
    };
    let found = std::cell::RefCell::new(best.clone());
    tape::shrink(best.doc_tape.clone(), 24, 400, |cs| {
        if t0.elapsed() > limit {
            return cs.iter().map(|_| None).collect();
        }
        let cur = found.borrow().clone();
        let c: Vec<_> = cs.iter().map(|c| (c.clone(), cur.val_tape.clone())).collect();
        let k = (c.len() + 7) / 8;
        let mut res: Vec<Option<Fail>> = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = c.chunks(k).map(|x| s.spawn(|| attempt(p, x, &cur, 60))).collect();
            for h in hs {
                res.extend(h.join().unwrap_or_default());
            }
        });
        let mut first = true;
        let key = |t: &Vec<u32>| (t.len(), t.iter().map(|x| *x as u64).sum::<u64>());
        let out: Vec<Option<Vec<u32>>> = res
            .into_iter()
            .map(|f| match f {
                Some(f) => {
                    if first && key(&f.doc_tape) < key(&cur.doc_tape) {
                        first = false;
                        *found.borrow_mut() = f.clone();
                    }
                    Some(f.doc_tape)
                }
                None => None,
            })
            .collect();
        out
    });
    best = found.into_inner();
    val(&mut best);
    best
}

pub fn replay_json(id: &str, seed: u64, f: &Fail) -> Value {
    json!({
        "property": id,
        "seed": seed,
        "stage": format!("{:?}", f.kind),
        "message": f.msg,
        "document": f.text,
        "transcript": f.log,
        "doc_tape": f.doc_tape,
        "value_tape": f.val_tape,
        "once": f.once,
    })
}

pub fn replay(p: &dyn Prop, j: &Value) -> Option<Fail> {
    let v = |k: &str| -> Vec<u32> { j[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default() };
    let kind = match j["stage"].as_str() {
        Some("Front") => FailKind::Front,
        Some("Compile") => FailKind::Compile,
        _ => FailKind::Run,
    };
    let want = Fail {
        kind,
        msg: j["message"].as_str().unwrap_or("").to_string(),
        doc_tape: v("doc_tape"),
        val_tape: v("value_tape"),
        once: j["once"].as_bool().unwrap_or(false),
        log: vec![],
        text: String::new(),
    };
    attempt(p, &[(want.doc_tape.clone(), want.val_tape.clone())], &want, 1).pop().unwrap()
}

pub fn stage_text(s: &Stage) -> String {
    s.to_string()
}
