#![allow(dead_code)]
mod accept;
mod asy;
mod meta;
mod opts;
mod batch;
mod check;
mod checks;
mod direct;
mod files;
mod front;
mod gen;
mod glue;
mod ill;
mod konst;
mod lex;
mod model;
mod names;
mod respell;
mod run;
mod soup;
mod spec;
mod tape;

use std::time::Duration;

fn main() {
    if std::env::var_os("HPANIC").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| checks::all().into_iter().find(|p| p.id() == id).expect("unknown check");
    let mut code = 0;
    match a.get(1).map(|x| &**x) {
        Some("gen") => {
            let seed: u64 = a[2].parse().unwrap();
            let mut g = tape::Gen::random(seed);
            let d = gen::document(&mut g, &gen::Cfg::default());
            println!("{}", d.spec.text());
        }
        Some("try") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            match front::compile(&t, &front::Res::default(), &front::options()) {
                Ok(c) => println!("{}", c),
                Err(e) => println!("{}", e),
            }
        }
        Some("rc") => {
            // documents separated by lines of dashes: what the compiler and rustc make of them
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut parts = vec![];
            let docs: Vec<&str> = t.split("----\n").collect();
            let mut at = vec![];
            for d in &docs {
                match front::compile(d, &direct::total_res(), &front::options()) {
                    Ok(code) => {
                        at.push(Ok(parts.len()));
                        parts.push(batch::Part { code, table: String::new(), entries: 0 });
                    }
                    Err(e) => at.push(Err(e.to_string())),
                }
            }
            let b = batch::build(&parts, false);
            for (d, r) in docs.iter().zip(at) {
                let m = match r {
                    Ok(i) => match &b.parts[i] {
                        Ok(_) => "OK".to_string(),
                        Err(e) => format!("RUSTC {}", e),
                    },
                    Err(e) => e,
                };
                println!("{}  =>  {}", d.trim().replace('\n', " "), m);
            }
            drop(b);
            batch::cleanup();
        }
        Some("dsurvey") => {
            // failures of an in-process check, counted by message
            let n: u64 = a[3].parse().unwrap();
            let sd: u64 = a.get(4).map_or(1, |x| x.parse().unwrap());
            let part: usize = a.get(5).map_or(0, |x| x.parse().unwrap());
            let ps: Vec<_> = direct::all().into_iter().filter(|p| p.id() == a[2]).collect();
            let p = &ps[part];
            let mut m: std::collections::BTreeMap<String, (usize, String, String)> = Default::default();
            let mut st = run::Stats::default();
            for i in 0..n {
                let mut g = tape::Gen::random(tape::mix(sd, i));
                if std::env::var_os("TRACE").is_some() {
                    std::fs::write("/tmp/cur.txt", p.shown(&mut tape::Gen::random(tape::mix(sd, i)))).unwrap();
                }
                let r = match front::quiet(|| p.case(&mut g, &mut st)) {
                    Ok(r) => r,
                    Err(e) => Err((format!("PANIC {}", e), p.shown(&mut tape::Gen::replay(&g.tape)))),
                };
                if let Err((msg, shown)) = r {
                    let key: String = msg.split(" [").next().unwrap().chars().take(110).collect();
                    let e = m.entry(key).or_insert((0, shown.clone(), msg.clone()));
                    e.0 += 1;
                    if shown.len() < e.1.len() {
                        e.1 = shown;
                        e.2 = msg;
                    }
                }
            }
            println!("classes {:?}\nskipped {:?} nontrivial {}", st.classes, st.skipped, st.nontrivial.len());
            for (k, (n, s, e)) in m {
                println!("=== {} x {}\n{}\n    {}", n, k, s, e);
            }
        }
        Some("ids") => {
            let mut v: Vec<&str> = checks::all().iter().map(|p| p.id()).collect::<Vec<_>>();
            v.extend(direct::all().iter().map(|p| p.id()).collect::<Vec<_>>());
            v.sort();
            v.dedup();
            println!("{}", v.join(" "));
        }
        Some("survey") => {
            let p = find(&a[2]);
            let n: usize = a[3].parse().unwrap();
            let c: usize = a[4].parse().unwrap();
            let s: u64 = a.get(5).map_or(1, |x| x.parse().unwrap());
            run::survey(&*p, n, c, s);
        }
        Some("shrink") => {
            let p = find(&a[2]);
            let s: u64 = a.get(3).map_or(1, |x| x.parse().unwrap());
            let o = run::search(&*p, run::Tier::Quick, s, Duration::from_secs(300), 8);
            if let Some(f) = o.fail {
                println!("FAIL {:?} {}\n{}", f.kind, f.msg, f.text);
                let f = run::shrink(&*p, f, Duration::from_secs(120));
                println!("SHRUNK {:?} {}\n{}\n{}", f.kind, f.msg, f.text, f.log.join("\n"));
            } else {
                println!("quiet: {} docs {} evals", o.st.docs, o.st.evaluations);
            }
        }
        Some("check") => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => run::Tier::Thorough,
                _ => run::Tier::Quick,
            };
            let tier = match a.get(3).map(|x| &**x) {
                Some("thorough") => run::Tier::Thorough,
                Some("quick") => run::Tier::Quick,
                _ => tier,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            code = check::main(&a[2], tier, seed);
        }
        Some("replay") => code = check::replay(&a[2]),
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            check::worker(&a[2], n(3) as usize, n(4), n(5), n(6), &a[7], n(8));
            return;
        }
        Some("single") => {
            check::single(&a[2], a[3].parse().unwrap(), &a[4]);
            return;
        }
        _ => {}
    }
    batch::cleanup();
    std::process::exit(code);
}
