//! `harness check <ID>`: search, shrink, replay file, evidence, known findings.

use crate::checks;
use crate::direct::{self, Direct};
use crate::front;
use crate::run::{self, h64, Fail, Prop, Stats, Tier};
use crate::tape::{self, mix, Gen};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    if let Ok(p) = std::env::var("VERIF_DIR") {
        return PathBuf::from(p);
    }
    // engine/target/release/harness
    let mut p = std::env::current_exe().unwrap();
    for _ in 0..4 {
        p.pop();
    }
    p
}

enum Kind {
    Compiled(Box<dyn Prop>),
    Direct(Box<dyn Direct>),
}
fn find(id: &str) -> Option<Vec<Kind>> {
    let mut v: Vec<Kind> = checks::all().into_iter().filter(|p| p.id() == id).map(Kind::Compiled).collect();
    v.extend(direct::all().into_iter().filter(|p| p.id() == id).map(Kind::Direct));
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

pub fn caps(t: Tier) -> (Duration, Duration) {
    match t {
        // searching, shrinking
        Tier::Quick => (Duration::from_secs(240), Duration::from_secs(60)),
        Tier::Thorough => (Duration::from_secs(3600), Duration::from_secs(240)),
    }
}

pub fn main(id: &str, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let kinds = match find(id) {
        Some(k) => k,
        None => {
            eprintln!("unknown check {}", id);
            return 2;
        }
    };
    let (cap, shrink_cap) = caps(tier);
    let mut st = Stats::default();
    let mut rules: Vec<String> = vec![];
    let mut fail: Option<Value> = None;
    for (part, k) in kinds.iter().enumerate() {
        if fail.is_some() {
            break;
        }
        let seed = mix(seed, part as u64 + 1);
        let left = cap.saturating_sub(t0.elapsed());
        match k {
            Kind::Compiled(p) => {
                rules.push(p.rule().to_string());
                let o = run::search(&**p, tier, seed, left, 8);
                st.merge(o.st);
                if let Some(f) = o.fail {
                    eprintln!("found: {:?} {}\nshrinking...", f.kind, f.msg);
                    let f = run::shrink(&**p, f, shrink_cap);
                    let mut j = run::replay_json(id, seed, &f);
                    j["part"] = json!(part);
                    j["kind"] = json!("compiled");
                    fail = Some(j);
                }
            }
            Kind::Direct(p) => {
                rules.push(p.rule().to_string());
                let (s, f) = direct_search(&**p, part, tier, seed, left);
                st.merge(s);
                if let Some(f) = f {
                    eprintln!("found: {}\nshrinking...", f.msg);
                    let f = direct_shrink(&**p, part, f, shrink_cap);
                    fail = Some(json!({
                        "property": id, "seed": seed, "part": part, "kind": "direct",
                        "message": f.msg, "input": f.shown, "tape": f.tape,
                    }));
                }
            }
        }
    }
    let known = findings(id);
    let mut violations = 0;
    let mut code = 0;
    if let Some(f) = &fail {
        let body = serde_json::to_string_pretty(f).unwrap();
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", id, h64(body.as_bytes())));
        std::fs::write(&path, &body).unwrap();
        eprintln!("{}", f["message"].as_str().unwrap_or(""));
        for k in ["document", "input"] {
            if let Some(s) = f[k].as_str() {
                eprintln!("{}", s);
            }
        }
        if let Some(a) = f["transcript"].as_array() {
            for l in a {
                eprintln!("{}", l.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={} replay={}", id, path.display());
        violations = 1;
        code = 1;
    }
    for k in &known {
        match k.still_fails() {
            true => println!("KNOWN-FINDING: property={} {}", id, k.what),
            false => eprintln!("known finding no longer fails: {}", k.what),
        }
    }
    let panics = run::HARNESS_PANICS.load(Ordering::SeqCst);
    if panics > 0 && code == 0 {
        eprintln!("{} cases panicked inside the harness", panics);
        code = 2;
    }
    if st.evaluations == 0 && code == 0 {
        eprintln!("nothing was evaluated");
        code = 2;
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": rules.join("  ALSO: "),
            "samples": st.samples,
            "documents": st.docs,
            "classes": st.classes,
            "skipped": st.skipped,
        },
        "assumptions": [
            "the reference model in engine/harness/src/model.rs states README/SPEC semantics",
            "generated code is built with the pinned rustc; async-compression and base64 0.13 are not available offline (see DESIGN.md)",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    eprintln!(
        "{}: {} evaluations, {} distinct non-trivial, {} documents, {:.1}s, {}",
        id,
        st.evaluations,
        st.nontrivial.len(),
        st.docs,
        t0.elapsed().as_secs_f64(),
        if code == 0 { "quiet" } else { "NOT quiet" }
    );
    code
}

pub fn replay(path: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let id = j["property"].as_str().unwrap();
    let part = j["part"].as_u64().unwrap_or(0) as usize;
    let kinds = find(id).expect("check");
    match &kinds[part] {
        Kind::Compiled(p) => match run::replay(&**p, &j) {
            Some(f) => {
                println!("reproduced: {}\n{}\n{}", f.msg, f.text, f.log.join("\n"));
                1
            }
            None => {
                println!("not reproduced");
                0
            }
        },
        Kind::Direct(p) => {
            let t: Vec<u32> = j["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
            match attempt(&**p, part, &t) {
                Some(f) => {
                    println!("reproduced: {}\n{}", f.msg, f.shown);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
    }
}

// ---- known findings

pub struct Finding {
    pub what: String,
    doc: String,
    expect: String,
}
impl Finding {
    /// the listed document still shows the listed symptom
    fn still_fails(&self) -> bool {
        let e = match self.expect.as_str() {
            "front-panic" => matches!(front::compile(&self.doc, &front::Res::default(), &front::options()), Err(front::Stage::Panic(_))),
            "front-accepts" => front::compile(&self.doc, &front::Res::default(), &front::options()).is_ok(),
            "front-rejects" => front::compile(&self.doc, &front::Res::default(), &front::options()).is_err(),
            "rustc-rejects" => match front::compile(&self.doc, &front::Res::default(), &front::options()) {
                Ok(code) => {
                    let b = crate::batch::build(&[crate::batch::Part { code, table: String::new(), entries: 0 }], false);
                    b.parts[0].is_err()
                }
                Err(_) => false,
            },
            _ => true,
        };
        e
    }
}
fn findings(id: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(verif().join("known-findings.json")).unwrap_or_else(|_| "{}".into());
    let j: Value = serde_json::from_str(&t).expect("known-findings.json");
    j["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|x| x["property"] == id)
                .map(|x| Finding {
                    what: x["what"].as_str().unwrap().to_string(),
                    doc: x["document"].as_str().unwrap_or("").to_string(),
                    expect: x["symptom"].as_str().unwrap_or("").to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}

// ---- in-process cases, run in child processes so that an abort or a hang is an observation

#[derive(Clone, Debug)]
pub struct DFail {
    pub msg: String,
    pub shown: String,
    pub tape: Vec<u32>,
}

const HANG: Duration = Duration::from_secs(20);

fn scratch() -> PathBuf {
    let d = verif().join("engine/target").join(format!("direct-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn case_seed(p: &dyn Direct, seed: u64, i: u64) -> u64 {
    mix(seed ^ h64(p.id().as_bytes()), i)
}

fn one(p: &dyn Direct, g: &mut Gen, st: &mut Stats) -> Result<(), DFail> {
    match front::quiet(|| p.case(g, st)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err((msg, shown))) => Err(DFail { msg, shown, tape: g.tape.clone() }),
        Err(m) => {
            if m.starts_with("model:") || m.starts_with("harness:") {
                run::HARNESS_PANICS.fetch_add(1, Ordering::SeqCst);
                eprintln!("HARNESS: {}", m);
                return Ok(());
            }
            Err(DFail { msg: format!("panicked: {}", m), shown: p.shown(&mut Gen::replay(&g.tape)), tape: g.tape.clone() })
        }
    }
}

/// child: cases start..end of one check
pub fn worker(id: &str, part: usize, seed: u64, start: u64, end: u64, dir: &str, cap_ms: u64) {
    let kinds = find(id).unwrap();
    let p = match &kinds[part] {
        Kind::Direct(p) => p,
        _ => panic!("not direct"),
    };
    let prog = std::fs::File::create(Path::new(dir).join(format!("p{}", start))).unwrap();
    let mut st = Stats::default();
    let mut fail = None;
    let t0 = Instant::now();
    for i in start..end {
        if i % 16 == 0 && t0.elapsed().as_millis() as u64 > cap_ms {
            break;
        }
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let mut g = Gen::random(case_seed(&**p, seed, i));
        if let Err(f) = one(&**p, &mut g, &mut st) {
            fail = Some(f);
            break;
        }
    }
    let j = json!({
        "evaluations": st.evaluations,
        "nontrivial": st.nontrivial.iter().collect::<Vec<_>>(),
        "classes": st.classes,
        "skipped": st.skipped,
        "samples": st.samples,
        "docs": st.docs,
        "panics": run::HARNESS_PANICS.load(Ordering::SeqCst),
        "fail": fail.map(|f| json!({"msg": f.msg, "shown": f.shown, "tape": f.tape})),
    });
    std::fs::write(Path::new(dir).join(format!("r{}", start)), j.to_string()).unwrap();
}

fn spawn(args: &[String]) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 6000000; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(args)
        .stdout(Stdio::null())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("spawn worker")
}

fn direct_search(p: &dyn Direct, part: usize, tier: Tier, seed: u64, cap: Duration) -> (Stats, Option<DFail>) {
    let n = p.size(tier) as u64;
    let dir = scratch();
    let chunk = (n / 64).clamp(1, 20000);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let tot = Mutex::new((Stats::default(), None::<(u64, DFail)>));
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let start = next.fetch_add(1, Ordering::SeqCst) as u64 * chunk;
                if start >= n || stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                    return;
                }
                let end = (start + chunk).min(n);
                let left = cap.saturating_sub(t0.elapsed()).as_millis();
                let a: Vec<String> = ["worker", p.id(), &part.to_string(), &seed.to_string(), &start.to_string(), &end.to_string(), dir.to_str().unwrap(), &left.to_string()].iter().map(|x| x.to_string()).collect();
                let mut c = spawn(&a);
                let mut last = (u64::MAX, Instant::now());
                let status = loop {
                    if let Some(s) = c.try_wait().unwrap() {
                        break Some(s);
                    }
                    let cur = progress(&dir, start).unwrap_or(u64::MAX);
                    if cur != last.0 {
                        last = (cur, Instant::now());
                    } else if last.1.elapsed() > HANG {
                        let _ = c.kill();
                        let _ = c.wait();
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(5));
                };
                let r = dir.join(format!("r{}", start));
                let mut t = tot.lock().unwrap();
                let mut put = |i: u64, f: DFail| {
                    stop.store(true, Ordering::SeqCst);
                    if t.1.as_ref().map_or(true, |x| x.0 > i) {
                        t.1 = Some((i, f));
                    }
                };
                match std::fs::read_to_string(&r).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                    Some(j) => {
                        if !j["fail"].is_null() {
                            put(start, unjson(&j["fail"]));
                        }
                        let mut s = Stats::default();
                        s.evaluations = j["evaluations"].as_u64().unwrap() as usize;
                        s.docs = j["docs"].as_u64().unwrap() as usize;
                        s.nontrivial = j["nontrivial"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<HashSet<_>>();
                        for (m, k) in [(&mut s.classes, "classes"), (&mut s.skipped, "skipped")] {
                            for (a, b) in j[k].as_object().unwrap() {
                                m.insert(a.clone(), b.as_u64().unwrap() as usize);
                            }
                        }
                        s.samples = j["samples"].as_array().unwrap().clone();
                        run::HARNESS_PANICS.fetch_add(j["panics"].as_u64().unwrap() as usize, Ordering::SeqCst);
                        t.0.merge(s);
                    }
                    None => {
                        let i = progress(&dir, start).unwrap_or(start);
                        let mut g = Gen::random(case_seed(p, seed, i));
                        let shown = p.shown(&mut g);
                        let msg = match status {
                            None => format!("did not return within {} s", HANG.as_secs()),
                            Some(s) => format!("the process was ended: {} (stack overflow, abort or memory)", s),
                        };
                        put(i, DFail { msg, shown, tape: g.tape });
                    }
                }
                let _ = std::fs::remove_file(&r);
            });
        }
    });
    let (st, f) = tot.into_inner().unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    (st, f.map(|x| x.1))
}
fn progress(dir: &Path, start: u64) -> Option<u64> {
    let b = std::fs::read(dir.join(format!("p{}", start))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}
fn unjson(j: &Value) -> DFail {
    DFail {
        msg: j["msg"].as_str().unwrap_or("").to_string(),
        shown: j["shown"].as_str().unwrap_or("").to_string(),
        tape: j["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default(),
    }
}

/// child: one tape
pub fn single(id: &str, part: usize, file: &str) {
    let kinds = find(id).unwrap();
    let p = match &kinds[part] {
        Kind::Direct(p) => p,
        _ => panic!("not direct"),
    };
    let t: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let mut st = Stats::default();
    let r = one(&**p, &mut Gen::replay(&t), &mut st);
    let j = match r {
        Ok(()) => Value::Null,
        Err(f) => json!({"msg": f.msg, "shown": f.shown, "tape": f.tape}),
    };
    std::fs::write(format!("{}.out", file), j.to_string()).unwrap();
}
static SERIAL: AtomicUsize = AtomicUsize::new(0);
fn attempt(p: &dyn Direct, part: usize, t: &[u32]) -> Option<DFail> {
    let dir = scratch();
    let f = dir.join(format!("t{}", SERIAL.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&f, serde_json::to_string(t).unwrap()).unwrap();
    let a: Vec<String> = ["single", p.id(), &part.to_string(), f.to_str().unwrap()].iter().map(|x| x.to_string()).collect();
    let mut c = spawn(&a);
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > HANG {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = format!("{}.out", f.display());
    let r = match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
        Some(Value::Null) => None,
        Some(j) => Some(unjson(&j)),
        None => {
            let mut g = Gen::replay(t);
            let shown = p.shown(&mut g);
            let msg = match status {
                None => format!("did not return within {} s", HANG.as_secs()),
                Some(s) => format!("the process was ended: {} (stack overflow, abort or memory)", s),
            };
            Some(DFail { msg, shown, tape: g.tape })
        }
    };
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&out);
    r
}
fn direct_shrink(p: &dyn Direct, part: usize, f: DFail, limit: Duration) -> DFail {
    let t0 = Instant::now();
    let best = Mutex::new(f.clone());
    let class = |m: &str| m.split(|c: char| c == ':' || c == '"').next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect::<String>();
    let want = class(&f.msg);
    tape::shrink(f.tape.clone(), 16, 2000, |cs| {
        if t0.elapsed() > limit {
            return cs.iter().map(|_| None).collect();
        }
        let mut out = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = cs.chunks(2).map(|x| s.spawn(|| x.iter().map(|t| attempt(p, part, t)).collect::<Vec<_>>())).collect();
            for h in hs {
                out.extend(h.join().unwrap());
            }
        });
        out.into_iter()
            .map(|r| match r {
                Some(r) if class(&r.msg) == want => {
                    let mut b = best.lock().unwrap();
                    let key = |t: &Vec<u32>| (t.len(), t.iter().map(|x| *x as u64).sum::<u64>());
                    if key(&r.tape) < key(&b.tape) {
                        *b = r.clone();
                    }
                    Some(r.tape)
                }
                _ => None,
            })
            .collect()
    });
    let _ = std::fs::remove_dir_all(scratch());
    best.into_inner().unwrap()
}
#[allow(unused)]
fn unused(_: &Fail) {}
