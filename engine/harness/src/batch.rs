//! Compiling generated code for several documents into one runner binary, and talking to it.

use rt::{Cmd, Out, Res};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::OnceLock;
use std::time::Duration;

static SEQ: AtomicUsize = AtomicUsize::new(0);
static WORK: OnceLock<PathBuf> = OnceLock::new();

pub fn engine_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
/// scratch folder of this process
pub fn work() -> &'static Path {
    WORK.get_or_init(|| {
        let d = engine_dir().join("target").join(format!("work-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch folder");
        d
    })
}
pub fn cleanup() {
    if let Some(d) = WORK.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}

fn rlib(name: &str) -> PathBuf {
    let deps = engine_dir().join("target/release/deps");
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    for e in std::fs::read_dir(&deps).expect("deps folder").flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let ok = n.starts_with(&format!("lib{}-", name)) && (n.ends_with(".rlib") || n.ends_with(".so"));
        if ok {
            let t = e.metadata().and_then(|m| m.modified()).unwrap();
            if best.as_ref().map_or(true, |b| t > b.0) {
                best = Some((t, e.path()));
            }
        }
    }
    best.unwrap_or_else(|| panic!("no {} library in {}", name, deps.display())).1
}
fn externs(asy: bool) -> &'static [String] {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    static B: OnceLock<Vec<String>> = OnceLock::new();
    let mk = |names: &[&str]| {
        let mut v = vec![];
        for n in names {
            v.push("--extern".to_string());
            let lib = if *n == "base64" { "b64shim" } else { n };
            v.push(format!("{}={}", n, rlib(lib).display()));
        }
        v.push("-L".into());
        v.push(format!("dependency={}", engine_dir().join("target/release/deps").display()));
        v
    };
    if asy {
        B.get_or_init(|| mk(&["rt", "base64", "flate2", "anyhow", "rt_async", "tokio", "async_recursion", "async_compression"]))
    } else {
        A.get_or_init(|| mk(&["rt", "base64", "flate2", "anyhow"]))
    }
}

pub struct Part {
    /// generated code followed by glue, for the inside of a module
    pub code: String,
    /// entries, with `@` for the module name
    pub table: String,
    pub entries: usize,
}

pub struct Built {
    pub bin: PathBuf,
    /// per part: first entry, or the compiler's complaint
    pub parts: Vec<Result<u32, String>>,
}
impl Drop for Built {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.bin);
    }
}

fn rustc(src: &Path, out: &Path, asy: bool, link: bool) -> (bool, String) {
    let mut c = Command::new("rustc");
    c.env("RUSTUP_TOOLCHAIN", "1.90.0")
        .arg(src)
        .args(["--crate-name", "runner", "--crate-type", "bin", "--edition", "2018"])
        .args(["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on"])
        .args(["-C", "codegen-units=4", "--error-format=short", "--cap-lints", "allow", "-o"])
        .arg(out)
        .args(externs(asy));
    if !link {
        c.arg("--emit=metadata");
    }
    let o = c.stdin(Stdio::null()).output().expect("rustc");
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}

pub fn build(parts: &[Part], asy: bool) -> Built {
    let id = SEQ.fetch_add(1, Ordering::SeqCst);
    let src = work().join(format!("b{}.rs", id));
    let bin = work().join(format!("b{}.bin", id));
    let mut res: Vec<Result<u32, String>> = parts.iter().map(|_| Ok(0)).collect();
    for round in 0.. {
        let mut s = String::from("#![allow(warnings, arithmetic_overflow, unconditional_panic, overflowing_literals)]\n");
        let mut t = String::new();
        let mut n = 0u32;
        let mut lines = vec![];
        for (i, p) in parts.iter().enumerate() {
            if res[i].is_err() {
                continue;
            }
            lines.push(i);
            // one line per document, so that a complaint can be told by its line
            s.push_str(&format!(
                "mod d{} {{ use rt::{{Glue, Val, TestReader, TestWriter, R}}; {} }}\n",
                i,
                p.code.replace(['\n', '\r'], " ")
            ));
            t.push_str(&p.table.replace('@', &format!("d{}", i)));
            res[i] = Ok(n);
            n += p.entries as u32;
        }
        s.push_str(&format!(
            "use rt::Entry; #[global_allocator] static A: rt::Counting = rt::Counting; static T: &[Entry] = &[{}]; fn main() {{ rt::serve(T) }}\n",
            t
        ));
        if lines.is_empty() {
            break;
        }
        std::fs::write(&src, &s).expect("write source");
        let (ok, err) = rustc(&src, &bin, asy, true);
        if ok {
            break;
        }
        let mut hit = false;
        for l in err.lines() {
            if !l.contains("error") {
                continue;
            }
            let mut w = l.splitn(4, ':');
            let (_, line, _) = (w.next(), w.next(), w.next());
            let msg = w.next().unwrap_or(l).trim();
            if let Some(k) = line.and_then(|x| x.parse::<usize>().ok()) {
                if k >= 2 && k - 2 < lines.len() {
                    let i = lines[k - 2];
                    hit = true;
                    match &mut res[i] {
                        r @ Ok(_) => *r = Err(msg.to_string()),
                        Err(e) => {
                            if e.len() < 600 {
                                e.push_str(" | ");
                                e.push_str(msg);
                            }
                        }
                    }
                }
            }
        }
        if !hit && lines.len() == 1 {
            // some complaints come without a place
            res[lines[0]] = Err(err.lines().take(3).collect::<Vec<_>>().join(" | "));
        } else if !hit {
            let mut any = false;
            for i in lines {
                let one = build(&parts[i..i + 1], asy);
                if let Err(e) = &one.parts[0] {
                    any = true;
                    res[i] = Err(e.clone());
                }
            }
            if !any {
                panic!("HARNESS: rustc failed without naming a document:\n{}", &err[..err.len().min(4000)]);
            }
        }
        if round > 40 {
            panic!("HARNESS: rustc keeps failing:\n{}", &err[..err.len().min(4000)]);
        }
    }
    if std::env::var_os("KEEP_SRC").is_none() {
        let _ = std::fs::remove_file(&src);
    }
    Built { bin, parts: res }
}

pub struct Runner {
    bin: PathBuf,
    proc: Option<Proc>,
    pub restarts: usize,
}
struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<Option<Vec<u8>>>,
}

impl Runner {
    pub fn new(b: &Built) -> Runner {
        Runner { bin: b.bin.clone(), proc: None, restarts: 0 }
    }
    fn start(&mut self) {
        let mut tries = 0;
        let mut child = loop {
            match Command::new(&self.bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                Ok(c) => break c,
                // the file may still be open for writing in a child forked meanwhile
                Err(_) if tries < 50 => {
                    tries += 1;
                    std::thread::sleep(Duration::from_millis(20));
                }
                Err(e) => panic!("HARNESS: cannot start the runner: {}", e),
            }
        };
        let stdin = child.stdin.take().unwrap();
        let mut out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || loop {
            let mut n = [0u8; 4];
            if out.read_exact(&mut n).is_err() {
                let _ = tx.send(None);
                return;
            }
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            if out.read_exact(&mut b).is_err() {
                let _ = tx.send(None);
                return;
            }
            if tx.send(Some(b)).is_err() {
                return;
            }
        });
        self.proc = Some(Proc { child, stdin, rx });
    }
    pub fn call(&mut self, c: &Cmd) -> Res {
        if self.proc.is_none() {
            self.start();
        }
        let mut b = vec![0; 4];
        c.put(&mut b);
        let n = (b.len() - 4) as u32;
        b[..4].copy_from_slice(&n.to_le_bytes());
        let p = self.proc.as_mut().unwrap();
        let dead = |out| Res { out, count: 0, bytes: vec![], peak: 0, hit_fault: false };
        if p.stdin.write_all(&b).and_then(|_| p.stdin.flush()).is_err() {
            self.stop();
            self.restarts += 1;
            return dead(Out::Crash("the process is gone".into()));
        }
        match p.rx.recv_timeout(Duration::from_secs(15)) {
            Ok(Some(b)) => Res::get(&mut &b[..]),
            Ok(None) => {
                let st = p.child.wait().map(|s| s.to_string()).unwrap_or_default();
                self.proc = None;
                self.restarts += 1;
                dead(Out::Crash(st))
            }
            Err(_) => {
                self.stop();
                self.restarts += 1;
                dead(Out::Runaway)
            }
        }
    }
    fn stop(&mut self) {
        if let Some(mut p) = self.proc.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        self.stop();
    }
}
