//! Checks that need no compiled document: the front end itself.

use crate::front::{self, Res, Stage};
use crate::gen::{self, Cfg};
use crate::run::{h64, Stats, Tier};
use crate::soup::{self, Soup};
use crate::tape::Gen;
use serde_json::json;

pub trait Direct: Sync + Send {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn size(&self, t: Tier) -> usize;
    /// on failure: what is wrong, and the input
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)>;
    /// the input a tape stands for
    fn shown(&self, g: &mut Gen) -> String;
}

pub fn all() -> Vec<Box<dyn Direct>> {
    vec![Box::new(Total), Box::new(crate::konst::Consts), Box::new(crate::lex::Tokens), Box::new(crate::respell::Trees1), Box::new(crate::respell::Respelt), Box::new(crate::ill::Ill), Box::new(crate::files::Broken), Box::new(crate::opts::Again)]
}

fn small() -> Cfg {
    Cfg { decls: (1, 3), ..Cfg::default() }
}

/// C22: any text is compiled or refused
pub struct Total;

fn nest(g: &mut Gen) -> String {
    let n = g.range(2, 120);
    let e = match g.n(9) {
        0 => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
        1 => format!("{}1", "-".repeat(n)),
        2 => format!("{}true", "!".repeat(n)),
        3 => format!("1{}", " + 1".repeat(n * 4)),
        4 => format!("nope{}", " + 1".repeat(n)),
        5 => format!("{}1{}", "(true ? ".repeat(n), " : 2)".repeat(n)),
        6 => format!("1{}", " :> u8".repeat(n)),
        7 => format!("{}1{}", "len(".repeat(n), ")".repeat(n)),
        _ => format!("{}1 == 1{}", "(".repeat(n), " == true)".repeat(n)),
    };
    match g.n(6) {
        0 => format!("const K: u8 = {};", e),
        1 => format!("type T = container {{ a: u8 {{ {} }} }};", e),
        2 => format!("type T = enum u8 {{ x = {} }};", e),
        3 => format!("type T = u8[{}];", e),
        4 => format!("type T = {}u8{};", "container { a: ".repeat(n), " }".repeat(n)),
        _ => format!("type T = container {{ a: u8, b: bool = {} }};", e),
    }
}

fn any_text(g: &mut Gen) -> (String, &'static str) {
    match g.w(&[30, 30, 6, 4, 4, 10]) {
        0 => (Soup::new(g).program(), "grammatical"),
        1 => {
            let a = gen::document(g, &small()).spec.text();
            let b = if g.pct(50) { gen::document(g, &small()).spec.text() } else { Soup::new(g).program() };
            (soup::mutate(g, &a, &b), "damaged document")
        }
        2 => (soup::words_only(g), "words"),
        3 => {
            let n = g.n(60);
            let b: Vec<u8> = (0..n).map(|_| if g.pct(50) { g.byte() } else { *g.pick(b" \"\\/*;=:1a{}[]()\n") }).collect();
            (String::from_utf8_lossy(&b).into_owned(), "characters")
        }
        4 => (nest(g), "deep"),
        _ => {
            let a = Soup::new(g).program();
            let b = Soup::new(g).program();
            (soup::mutate(g, &a, &b), "damaged grammatical")
        }
    }
}

pub fn total_res() -> Res {
    let mut r = Res::default();
    r.files.insert("one".into(), "import B from \"two\"; type A = container { a: u8, b: B }; const K: u8 = 3;".into());
    r.files.insert("two".into(), "type B = enum u8 { x = 1, y }; type D(k: u8) = u8[k];".into());
    r.files.insert("three".into(), "import B from \"four\"; type A = u8;".into());
    r.files.insert("four".into(), "import A, K from \"three\"; type B = u8;".into());
    r
}

impl Direct for Total {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "Grammatical programs without regard to types and scopes, accepted documents with random edits, word and character sequences, and deeply nested expressions are given to the whole front end in a process with limited stack, memory and time. Non-trivial: the text gets past the tokenizer (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let (t, kind) = any_text(g);
        st.evaluations += 1;
        st.class(kind);
        let r = front::compile(&t, &total_res(), &front::options());
        match &r {
            Ok(_) => st.class("compiled"),
            Err(Stage::Parse(m)) if m.contains("unexpected token '") => st.class("not tokens"),
            Err(Stage::Parse(m)) if m == "unexpected eof" => st.class("ended early"),
            Err(Stage::Parse(m)) | Err(Stage::Sema(m)) if crate::ill::places(m).is_empty() => {
                return Err((format!("the error does not say where [{}]", m), t));
            }
            Err(Stage::Parse(_)) => st.class("not parsed"),
            Err(Stage::Sema(_)) => st.class("refused"),
            Err(Stage::Panic(m)) => return Err((format!("the compiler panicked: {}", m), t)),
        }
        if !matches!(&r, Err(Stage::Parse(m)) if m.contains("unexpected token '")) {
            st.hit(h64(t.as_bytes()));
        }
        st.sample(4, || json!({"text": t, "kind": kind, "result": match &r { Ok(c) => format!("{} characters of code", c.len()), Err(e) => e.to_string() }}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        any_text(g).0
    }
}
