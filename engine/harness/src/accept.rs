//! C24: what the compiler accepts, rustc compiles.

use crate::direct::total_res;
use crate::front;
use crate::gen::{self, Cfg, Doc, Hints};
use crate::run::{h64, Cx, Form, Prop, Tier};
use crate::opts::any_options;
use crate::soup::{self, Soup};
use crate::spec::Spec;
use crate::tape::Gen;

pub struct Accept;

/// Containers whose generated struct would have two fields of one name (a known finding).
fn collides(t: &str) -> bool {
    use protospec_build::asg::Type;
    fn inner(t: &Type) -> bool {
        match t {
            Type::Array(a) => inner(&a.element),
            Type::Container(c) => {
                let mut seen = std::collections::HashSet::new();
                !c.is_enum.get() && c.flatten_view().any(|(n, f)| !f.is_pad.get() && !seen.insert(n))
                    || c.items.values().any(|f| inner(&f.type_.borrow()))
            }
            _ => false,
        }
    }
    match front::analyse(t, &total_res()) {
        Ok(p) => p.types.values().any(|f| inner(&f.type_.borrow())),
        Err(_) => false,
    }
}

fn accepted(t: &str) -> bool {
    front::compile(t, &total_res(), &front::options()).is_ok()
}

const BASE: &str = "import_ffi v16 as type; import_ffi v64 as type; import_ffi utf8 as type; import_ffi utf16 as type;
import_ffi xadd as transform; import_ffi xmul as transform; import_ffi gzip as transform; import_ffi base64 as transform;
import_ffi pad as function; import_ffi bits as function; import_ffi sum as function;
const Ka: u32 = 5; const Kb: i8 = -3; const Kc: bool = true;
type En = enum u16 { x = 1, y, f0 = 7 }; type Ed = enum i16le { x = 1, y = default }; type Bf = bitfield u32 { x = 1, y = 2 };
type Na = u16; type Nb = u8[3]; type Nc = i32[..]; type Nd(k: u8) = u8[k]; type Ne(k: u8, m: u64 ? 4) = u16[m]; type Nf = bool { false };
type Tg(k: u8) = container +tagged_enum { one: u8 { k == 1 }, two: container { a: u8 } { k == 2 }, rest: u8[..] };
type Al = container { a: u8, b: En, c: Bf, d: u16[2], e: utf8(3), f: utf16(4), g: v16, h: Na, i: Nb, j: f32, k: bool, l: u8 { k }, m: i64le, n: Ed, o: container { p: u8 }, q: Tg(a) };
";

/// adds to a document what the compiler accepts
pub fn grow(g: &mut Gen) -> String {
    let mut t = if g.pct(50) {
        BASE.to_string()
    } else {
        let c = Cfg { decls: (1, 4), ..Cfg::default() };
        gen::document(g, &c).spec.text()
    };
    g.reject = None;
    let n = g.range(4, 40);
    for i in 0..n {
        let w = soup::words(&t);
        let ws = crate::files::words(&t);
        let mut types = vec![];
        let mut vars = vec![];
        for (a, b) in ws.iter().zip(ws.iter().skip(1)) {
            match *a {
                "type" => types.push(b.to_string()),
                "const" => vars.push(b.to_string()),
                _ => {}
            }
        }
        let mut at = vec![];
        for (k, x) in w.iter().enumerate() {
            if x == ":" && k > 0 && !vars.contains(&w[k - 1]) {
                vars.push(w[k - 1].clone());
            }
            if matches!(&x[..], "{" | "," | "}" | ";") || x.starts_with(|c: char| c.is_ascii_alphanumeric()) {
                at.push(k);
            }
        }
        if at.is_empty() {
            break;
        }
        let k = *g.pick(&at);
        let mut v = w.clone();
        let depth = g.range(1, 5);
        let op = g.n(9);
        // a declaration before this one
        let start = w[..k].iter().rposition(|x| x == ";").map_or(0, |p| p + 1);
        let mut s = Soup::inside(g, types, vars, depth);
        match (&w[k][..], op) {
            ("{" | ",", 0..=4) => {
                let f = s.field();
                v.insert(k + 1, format!(" z{}: {},", i, f));
            }
            ("," | "}", 5) => v.insert(k, format!(" {{ {} }}", s.expr())),
            ("," | "}" | ";", 6) => {
                let e = s.expr();
                let x = s.g.pick(&["xadd", "xmul", "gzip", "base64"]).to_string();
                v.insert(k, format!(" -> {}({})", x, e));
            }
            ("," | "}", _) => v.insert(k, format!(" = {}", s.expr())),
            (";", _) => {
                let d = match s.g.n(4) {
                    0 => format!("const Z{}: {} = {};", i, s.ty(), s.expr()),
                    1 => format!("type Z{}(k: {}, m: {} ? {}) = {};", i, s.ty(), s.ty(), s.expr(), s.field()),
                    _ => format!("type Z{} = {};", i, s.field()),
                };
                v.insert(if s.g.pct(70) { k + 1 } else { start }, d);
            }
            (x, 0..=3) if x.starts_with(|c: char| c.is_ascii_digit()) => v[k] = format!("({})", s.expr()),
            (_, 4..=6) => v[k] = format!("({})", s.expr()),
            (_, 7) => v[k] = s.ty(),
            (_, 8) => {
                let e = s.expr();
                let o = s.g.pick(&["+", "*", "==", "&", "?:", "&&", "<", ">>"]).to_string();
                v[k] = format!("({} {} {})", w[k], o, e)
            }
            _ => continue,
        }
        let u: String = v.concat();
        if accepted(&u) {
            t = u;
        }
    }
    t
}

fn text(g: &mut Gen) -> Option<String> {
    let t = some_text(g)?;
    if collides(&t) {
        return None;
    }
    Some(t)
}

fn some_text(g: &mut Gen) -> Option<String> {
    if g.pct(70) {
        return Some(grow(g)).filter(|t| accepted(t));
    }
    for _ in 0..60 {
        let t = match g.w(&[5, 3, 2]) {
            0 => Soup::new(g).program(),
            1 => {
                let c = Cfg { decls: (1, 3), ..Cfg::default() };
                let a = gen::document(g, &c).spec.text();
                let b = Soup::new(g).program();
                soup::mutate(g, &a, &b)
            }
            _ => {
                let c = Cfg { decls: (1, 3), ..Cfg::default() };
                let a = gen::document(g, &c).spec.text();
                let b = gen::document(g, &c).spec.text();
                soup::mutate(g, &a, &b)
            }
        };
        g.reject = None;
        if accepted(&t) {
            return Some(t);
        }
    }
    None
}

impl Prop for Accept {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn cfg(&self, _: &mut Gen) -> Cfg {
        Cfg::default()
    }
    fn rule(&self) -> &'static str {
        "Grammatical programs and damaged documents which the compiler accepts, with random options; rustc compiles the code generated for them. Non-trivial: distinct texts with a type in them."
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            (5000, 1)
        } else {
            (60_000, 1)
        }
    }
    fn asy(&self) -> bool {
        true
    }
    fn batch(&self) -> usize {
        32
    }
    fn doc(&self, g: &mut Gen) -> Doc {
        let t = text(g);
        if t.is_none() {
            g.reject = Some("no accepted text");
        }
        Doc { spec: Spec::default(), hints: Hints { text: t.unwrap_or_default(), ..Hints::default() } }
    }
    fn forms(&self, doc: &Doc, g: &mut Gen) -> Vec<Form> {
        let text = doc.hints.text.clone();
        let opts = if g.pct(40) { front::options() } else { any_options(g, &text) };
        vec![Form { spec: Spec::default(), text, files: total_res().files.into_iter().collect(), opts }]
    }
    fn case(&self, doc: &Doc, _: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        cx.st.evaluations += 1;
        if doc.hints.text.contains("type") {
            cx.st.hit(h64(doc.hints.text.as_bytes()));
        }
        Ok(())
    }
}
