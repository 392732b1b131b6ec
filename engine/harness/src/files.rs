//! C19: a document split over files which import each other.

use crate::checks::{feature_case, reject_case, round_case};
use crate::direct::Direct;
use crate::front::{self, Stage};
use crate::gen::{self, Cfg, Doc};
use crate::ill::places;
use crate::run::{h64, Cx, Form, Prop, Stats, Tier};
use crate::spec::*;
use crate::tape::Gen;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

pub fn words(t: &str) -> Vec<&str> {
    t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}

fn replace_word(t: &str, old: &str, new: &str) -> String {
    let is = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once('\0')) {
        if is(c) {
            w.push(c);
            continue;
        }
        o.push_str(if w == old { new } else { &w });
        w.clear();
        if c != '\0' {
            o.push(c);
        }
    }
    o
}

/// what each declaration refers to by name
pub fn deps(spec: &Spec) -> Vec<BTreeSet<DId>> {
    let mut s = spec.clone();
    for (i, d) in s.decls.iter_mut().enumerate() {
        d.name = format!("zz_decl_{}", i);
    }
    s.decls
        .iter()
        .map(|d| {
            let t = s.print_decl(d, &mut Style::plain());
            words(&t).into_iter().filter_map(|w| w.strip_prefix("zz_decl_")).filter_map(|n| n.parse().ok()).collect()
        })
        .collect()
}

#[derive(Clone)]
struct Import {
    from: usize,
    /// declared name or alias in the file it comes from
    name: String,
    alias: String,
}

#[derive(Clone, Default)]
pub struct File {
    pub path: String,
    imports: Vec<Import>,
    /// declarations which no other one uses
    decoys: Vec<String>,
    ffi: Vec<(&'static str, &'static str)>,
    /// each on a line of its own
    pub lines: Vec<String>,
    taken: BTreeSet<String>,
    /// names of declarations in this file
    local: BTreeMap<DId, String>,
}
impl File {
    pub fn text(&self) -> String {
        self.lines.join("\n") + "\n"
    }
}

#[derive(Clone)]
pub struct Split {
    pub files: Vec<File>,
    pub of: Vec<usize>,
    /// name of each type in the generated code
    pub rust: Vec<String>,
}

/// assigns the declarations to files; those a declaration uses are in its file or a later one
pub fn assign(g: &mut Gen, spec: &Spec) -> Vec<usize> {
    let n = g.range(1, 4);
    let dep = deps(spec);
    let k = spec.decls.len();
    let mut of = vec![0; k];
    for d in (0..k).rev() {
        let min = (0..k).filter(|u| dep[*u].contains(&d)).map(|u| of[u]).max().unwrap_or(0);
        of[d] = if g.pct(25) { min } else { g.range(min, n) };
    }
    loop {
        let mut same = true;
        for u in 0..k {
            for d in &dep[u] {
                if of[*d] < of[u] {
                    of[*d] = of[u];
                    same = false;
                }
            }
        }
        if same {
            break;
        }
    }
    // no empty files but the first
    let used: BTreeSet<usize> = of.iter().copied().chain([0]).collect();
    let rank: Vec<usize> = used.into_iter().collect();
    of.iter().map(|f| rank.iter().position(|x| x == f).unwrap()).collect()
}

struct B<'a> {
    g: &'a mut Gen,
    spec: &'a Spec,
    of: &'a [usize],
    files: Vec<File>,
    needs: Vec<Vec<DId>>,
    ffi: Vec<BTreeSet<&'static str>>,
    fresh: usize,
}
impl<'a> B<'a> {
    fn fresh(&mut self, stem: &str) -> String {
        self.fresh += 1;
        format!("{}{}", stem, self.fresh)
    }
    /// the name of a declaration in a file, chosen when it is first asked for
    fn local(&mut self, f: usize, d: DId) -> String {
        if let Some(n) = self.files[f].local.get(&d) {
            return n.clone();
        }
        let own = self.spec.decls[d].name.clone();
        let declared = self.of[d] == f;
        let mut n = if self.g.pct(if declared { 75 } else { 45 }) {
            own.clone()
        } else if self.g.pct(60) {
            // the name of something else
            self.g.pick(&self.spec.decls).name.clone()
        } else {
            self.fresh("Xa")
        };
        if self.files[f].taken.contains(&n) {
            n = self.fresh("Xb");
        }
        self.files[f].taken.insert(n.clone());
        self.files[f].local.insert(d, n.clone());
        n
    }
}

pub fn split(g: &mut Gen, spec: &Spec, of: &[usize]) -> Split {
    let nf = of.iter().max().unwrap() + 1;
    let dep = deps(spec);
    let mut b = B { g, spec, of, files: vec![File::default(); nf], needs: vec![vec![]; nf], ffi: vec![BTreeSet::new(); nf], fresh: 0 };
    let paths = ["main", "types.pspec", "sub/types.pspec", "common", "lib/base.pspec"];
    let inside: BTreeSet<String> = {
        let mut s = spec.clone();
        s.decls.iter_mut().for_each(|d| d.name = "X".into());
        words(&s.print_decls(&mut Style::plain())).into_iter().map(String::from).collect()
    };
    for f in 0..nf {
        b.files[f].path = paths[f].to_string();
        b.files[f].taken = inside.iter().cloned().collect();
        let mut v: BTreeSet<DId> = BTreeSet::new();
        for u in (0..spec.decls.len()).filter(|u| of[*u] == f) {
            v.extend(dep[u].iter().filter(|d| of[**d] != f));
        }
        b.needs[f] = v.into_iter().collect();
        let mut s = spec.clone();
        s.decls = (0..spec.decls.len()).filter(|u| of[*u] == f).map(|u| spec.decls[u].clone()).collect();
        // references in it are printed by name, so the whole list stays
        let t: String = (0..spec.decls.len()).filter(|u| of[*u] == f).map(|u| spec.print_decl(&spec.decls[u], &mut Style::plain())).collect();
        let w = words(&t).into_iter().map(String::from).collect::<BTreeSet<_>>();
        b.ffi[f] = FFI.iter().filter(|(n, _)| w.contains(*n)).map(|(n, _)| *n).collect();
        // declared names come before aliases
        for u in (0..spec.decls.len()).filter(|u| of[*u] == f) {
            b.local(f, u);
        }
    }
    // a few declarations nobody uses, named like others
    for f in 0..nf {
        if b.g.pct(35) {
            let n = if b.g.pct(70) { b.g.pick(&spec.decls).name.clone() } else { b.fresh("Xd") };
            if b.files[f].taken.insert(n.clone()) {
                let t = match b.g.n(4) {
                    0 => format!("const {}: u8 = 77;", n),
                    1 => format!("type {} = u64;", n),
                    2 => format!("type {} = enum u8 {{ other = 3, }};", n),
                    _ => format!("type {} = container {{ other: u8, more: u16 }};", n),
                };
                b.files[f].decoys.push(t);
            }
        }
    }
    for f in 1..nf {
        // everything is imported by something
        let by = b.g.n(f);
        let ds: Vec<DId> = (0..spec.decls.len()).filter(|d| of[*d] == f).collect();
        let d = *b.g.pick(&ds);
        if !b.needs[by].contains(&d) {
            b.needs[by].push(d);
        }
    }
    // names of types which do not say which type they are: imported by the first file
    let decoy = |files: &[File], n: &str| files.iter().any(|f| f.decoys.iter().any(|t| t.starts_with(&format!("type {} ", n))));
    for d in 0..spec.decls.len() {
        if of[d] == 0 || !spec.decls[d].is_type() || b.needs[0].contains(&d) {
            continue;
        }
        let n = b.local(of[d], d);
        let other = (0..spec.decls.len()).any(|e| e != d && spec.decls[e].is_type() && b.files[of[e]].local.get(&e) == Some(&n));
        if other || decoy(&b.files, &n) || b.g.pct(25) {
            b.needs[0].push(d);
        }
    }
    for f in 0..nf {
        let later: Vec<DId> = (0..spec.decls.len()).filter(|d| of[*d] > f && !b.needs[f].contains(d)).collect();
        if !later.is_empty() && b.g.pct(20) {
            let d = *b.g.pick(&later);
            b.needs[f].push(d);
        }
        for d in b.needs[f].clone() {
            let j = of[d];
            let from = if j > f + 1 && b.g.pct(40) { b.g.range(f + 1, j) } else { j };
            if from != j && !b.needs[from].contains(&d) {
                b.needs[from].push(d);
            }
            let name = b.local(from, d);
            let alias = b.local(f, d);
            b.files[f].imports.push(Import { from, name: name.clone(), alias });
            if b.g.pct(12) {
                // imported twice, under another name
                let second = b.fresh("Xe");
                b.files[f].imports.push(Import { from, name, alias: second });
            }
        }
    }
    // unimported types have their own names; none of the first file's may be the same
    loop {
        let mut clash = None;
        for d in 0..spec.decls.len() {
            if of[d] == 0 || !spec.decls[d].is_type() || b.needs[0].contains(&d) {
                continue;
            }
            let n = b.local(of[d], d);
            if b.files[0].local.values().any(|x| *x == n) || b.files[0].decoys.iter().any(|t| t.split(' ').nth(1) == Some(&n[..])) {
                clash = Some(d);
            }
        }
        let Some(d) = clash else { break };
        let alias = b.fresh("Xf");
        b.needs[0].push(d);
        b.files[0].taken.insert(alias.clone());
        b.files[0].local.insert(d, alias.clone());
        let name = b.local(of[d], d);
        b.files[0].imports.push(Import { from: of[d], name, alias });
    }
    // texts
    for f in 0..nf {
        let mut s = spec.clone();
        for (d, n) in &b.files[f].local {
            s.decls[*d].name = n.clone();
        }
        let mut decls: Vec<String> =
            (0..spec.decls.len()).filter(|u| of[*u] == f).map(|u| s.print_decl(&s.decls[u], &mut Style::plain()).trim_end().to_string()).collect();
        for n in b.ffi[f].clone() {
            let kind = FFI.iter().find(|x| x.0 == n).unwrap().1;
            if f + 1 < nf && b.g.pct(35) {
                let k = b.g.range(f + 1, nf - 1);
                b.ffi[k].insert(n);
                let alias = if n != "pad" && b.g.pct(50) { b.fresh("xg") } else { n.to_string() };
                decls.iter_mut().for_each(|t| *t = replace_word(t, n, &alias));
                // `k` may import it under another name itself: it declares it, to be sure
                b.files[k].ffi.push((n, kind));
                b.files[f].imports.push(Import { from: k, name: n.to_string(), alias });
            } else if !b.files[f].ffi.iter().any(|x| x.0 == n) {
                b.files[f].ffi.push((n, kind));
            }
        }
        b.files[f].lines = decls;
    }
    for f in 0..nf {
        let mut file = b.files[f].clone();
        let mut at = |g: &mut Gen, t: String, late: bool| {
            let i = if late && g.pct(20) { g.n(file.lines.len() + 1) } else { 0 };
            file.lines.insert(i, t);
        };
        for t in file.decoys.clone() {
            at(b.g, t, true);
        }
        let mut done = BTreeSet::new();
        for (n, k) in &file.ffi {
            if done.insert(*n) && !file.imports.iter().any(|i| i.alias == *n) {
                at(b.g, format!("import_ffi {} as {};", n, k), true);
            }
        }
        let mut left = file.imports.clone();
        while !left.is_empty() {
            let from = left[0].from;
            let mut now = vec![];
            let mut rest = vec![];
            for i in left {
                if i.from == from && (now.is_empty() || b.g.pct(70)) {
                    now.push(i);
                } else {
                    rest.push(i);
                }
            }
            left = rest;
            let items: Vec<String> = now.iter().map(|i| if i.name == i.alias && b.g.pct(80) { i.name.clone() } else { format!("{} as {}", i.name, i.alias) }).collect();
            let path = if b.g.pct(25) { format!("./{}", b.files[from].path) } else { b.files[from].path.clone() };
            let trail = if b.g.pct(20) { "," } else { "" };
            at(b.g, format!("import {}{} from \"{}\";", items.join(", "), trail, path), true);
        }
        b.files[f] = file;
    }
    let rust = (0..spec.decls.len())
        .map(|d| match b.files[0].local.get(&d) {
            Some(n) => n.clone(),
            None => b.files[of[d]].local.get(&d).unwrap().clone(),
        })
        .collect();
    Split { files: b.files, of: of.to_vec(), rust }
}

// ---- the parts mean what the whole means

pub struct Parts;
fn cfg(g: &mut Gen) -> Cfg {
    Cfg { decls: (2, 7), share: 0, consts: 70, args: 35, defaults: 40, rich: 50, xf: 15, kinds: [2, 2, 10, 4, 4, 3, 2], ft: [8, 1, 2, 5, *g.pick(&[10, 25]), 2, 1, 2, 1, 3], ..Cfg::default() }
}
fn has(s: &Spec, d: DId) -> bool {
    let dep = deps(s);
    let mut seen = BTreeSet::from([d]);
    let mut todo = vec![d];
    while let Some(x) = todo.pop() {
        for y in &dep[x] {
            if seen.insert(*y) {
                todo.push(*y);
            }
        }
    }
    seen.iter().any(|x| s.file.get(*x).map_or(false, |f| *f != 0))
}
impl Prop for Parts {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn cfg(&self, g: &mut Gen) -> Cfg {
        cfg(g)
    }
    fn rule(&self) -> &'static str {
        "Accepted documents are split over up to five files which import from each other, directly or through others, under other names, with declarations of the same names elsewhere; the code generated for the first file is compared in both directions with the model of the whole. Non-trivial: the type reached is declared in another file or uses what is."
    }
    fn size(&self, t: Tier) -> (usize, usize) {
        if t == Tier::Quick {
            (400, 40)
        } else {
            (6400, 150)
        }
    }
    fn doc(&self, g: &mut Gen) -> Doc {
        let c = self.cfg(g);
        let mut d = gen::document(g, &c);
        if g.reject.is_none() {
            d.spec.file = assign(g, &d.spec);
        }
        d
    }
    fn forms(&self, doc: &Doc, g: &mut Gen) -> Vec<Form> {
        if g.reject.is_some() {
            return vec![];
        }
        let s = split(g, &doc.spec, &doc.spec.file);
        let mut spec = doc.spec.clone();
        for (d, n) in s.rust.iter().enumerate() {
            spec.decls[d].name = n.clone();
        }
        let files = s.files[1..].iter().map(|f| (f.path.clone(), f.text())).collect();
        vec![Form { spec, text: s.files[0].text(), files, opts: front::options() }]
    }
    fn case(&self, doc: &Doc, g: &mut Gen, cx: &mut Cx) -> Result<(), String> {
        match g.n(100) {
            0..=9 => reject_case(doc, g, cx),
            10..=19 => round_case(doc, g, cx),
            _ => feature_case(doc, g, cx, has),
        }
    }
}

// ---- broken imports are refused

pub struct Broken;

const FAULTS: usize = 14;

struct Bad {
    files: Vec<File>,
    kind: &'static str,
    /// file and text of the lines one of which the error may name; empty: any
    at: Vec<(usize, String)>,
}

fn line(f: &mut File, g: &mut Gen, t: String) -> String {
    let i = g.n(f.lines.len() + 1);
    f.lines.insert(i, t.clone());
    t
}

fn fault(g: &mut Gen, spec: &Spec, s: &Split) -> Option<Bad> {
    let mut files = s.files.clone();
    let nf = files.len();
    let k = g.n(FAULTS);
    // files that are reached: all of them
    let f = g.n(nf);
    let later = |g: &mut Gen, f: usize| if f + 1 < nf { Some(g.range(f + 1, nf - 1)) } else { None };
    let mut at = vec![];
    let types: Vec<DId> = (0..spec.decls.len()).filter(|d| spec.decls[*d].is_type()).collect();
    let kind = match k {
        0 => {
            let t = line(&mut files[f], g, "import A from \"nowhere\";".into());
            at.push((f, t));
            "no such file"
        }
        1 => {
            let j = later(g, f)?;
            let p = files[j].path.clone();
            let name = g.pick(&["Nope", "u8", "main", "len"]).to_string();
            if files[j].taken.contains(&name) && name == "Nope" {
                return None;
            }
            let t = match g.n(3) {
                0 => format!("import Nope from \"{}\";", p),
                1 => format!("import Nope as Other from \"{}\";", p),
                _ => {
                    let d = *files[j].local.keys().next()?;
                    format!("import {} as Zq, Nope from \"{}\";", files[j].local[&d], p)
                }
            };
            let t = line(&mut files[f], g, t);
            at.push((f, t));
            "no such item"
        }
        2 | 3 => {
            // a cycle of one file or more
            let j = if f == 0 { later(g, 0)? } else { f };
            let i = g.range(1, j);
            let d = *files[i].local.keys().next()?;
            let (n, p) = (files[i].local[&d].clone(), files[i].path.clone());
            // i has to reach j for a cycle
            let mut seen = BTreeSet::from([i]);
            let mut todo = vec![i];
            while let Some(x) = todo.pop() {
                for m in &s.files[x].imports {
                    if seen.insert(m.from) {
                        todo.push(m.from);
                    }
                }
            }
            if !seen.contains(&j) {
                return None;
            }
            line(&mut files[j], g, format!("import {} as Zr from \"{}\";", n, p));
            if i == j {
                "imports itself"
            } else {
                "cycle"
            }
        }
        4 | 5 => {
            // two items of one kind under one name
            let j = later(g, f)?;
            let p = files[j].path.clone();
            let v: Vec<DId> = files[j].local.keys().copied().collect();
            let a = *g.pick(&v);
            let b = *g.pick(&v);
            if a == b || spec.decls[a].is_type() != spec.decls[b].is_type() {
                return None;
            }
            let (x, y) = (files[j].local[&a].clone(), files[j].local[&b].clone());
            let t = if g.pct(50) {
                line(&mut files[f], g, format!("import {} as Zs, {} as Zs from \"{}\";", x, y, p))
            } else {
                let t = line(&mut files[f], g, format!("import {} as Zs from \"{}\";", x, p));
                at.push((f, t));
                line(&mut files[f], g, format!("import {} as Zs from \"{}\";", y, p))
            };
            at.push((f, t));
            "two imports of one name"
        }
        6 | 7 => {
            // an import under the name of a declaration of the file
            let j = later(g, f)?;
            let p = files[j].path.clone();
            let v: Vec<DId> = files[j].local.keys().copied().collect();
            let a = *g.pick(&v);
            let x = files[j].local[&a].clone();
            let own: Vec<DId> = (0..spec.decls.len()).filter(|d| s.of[*d] == f && spec.decls[*d].is_type() == spec.decls[a].is_type()).collect();
            if own.is_empty() {
                return None;
            }
            let o = *g.pick(&own);
            let n = files[f].local[&o].clone();
            let decl: Vec<String> = files[f].lines.iter().filter(|l| words(l).get(1) == Some(&&n[..]) && !l.starts_with("import")).cloned().collect();
            at.extend(decl.into_iter().map(|l| (f, l)));
            let t = line(&mut files[f], g, if x == n { format!("import {} from \"{}\";", x, p) } else { format!("import {} as {} from \"{}\";", x, n, p) });
            at.push((f, t));
            "an import and a declaration of one name"
        }
        8 => {
            let j = later(g, f)?;
            let p = files[j].path.clone();
            let v: Vec<DId> = files[j].local.keys().copied().filter(|d| spec.decls[*d].is_type()).collect();
            if v.is_empty() || words(&files[f].text()).contains(&"v16") {
                return None;
            }
            let x = files[j].local[g.pick(&v)].clone();
            let t = line(&mut files[f], g, "import_ffi v16 as type;".into());
            at.push((f, t));
            let t = line(&mut files[f], g, format!("import {} as v16 from \"{}\";", x, p));
            at.push((f, t));
            "an import and a foreign import of one name"
        }
        9 => {
            if f == 0 {
                return None;
            }
            let t = g.pick(&["type Zt = container { a: u8", "type Zt = ;", "const : u8 = 1;", "import from \"x\";", "type Zt = u8[;", "@", "type 5 = u8;"]).to_string();
            line(&mut files[f], g, t);
            "a file that is not well-formed"
        }
        10 => {
            if f == 0 {
                return None;
            }
            let t = g
                .pick(&[
                    "type Zt = container { a: Nope };",
                    "const ZT: u8 = 256;",
                    "const ZT: u8 = true;",
                    "type Zt = container { a: u8[b] };",
                    "type Zt = enum u8 { a = 1, b = 256, };",
                    "type Zt = u8 -> nope;",
                    "import_ffi nope as type;",
                    "type Zt = container { a: u8, b: u8 { a } };",
                ])
                .to_string();
            let t = line(&mut files[f], g, t);
            at.push((f, t));
            "a file that means nothing"
        }
        11 | 12 => {
            // a type that this file does not import, by a name it has elsewhere
            let d = *g.pick(&types);
            let names: Vec<String> = files.iter().filter_map(|x| x.local.get(&d).cloned()).collect();
            let n = g.pick(&names).clone();
            let visible = files[f].local.values().any(|x| *x == n)
                || files[f].imports.iter().any(|i| i.alias == n)
                || files[f].decoys.iter().any(|t| words(t)[1] == n);
            if visible {
                return None;
            }
            let t = if g.pct(50) { format!("type Zu = container {{ a: u8, b: {} }};", n) } else { format!("type Zu = {}[2];", n) };
            let t = line(&mut files[f], g, t);
            at.push((f, t));
            "a type of another file"
        }
        _ => {
            let v: Vec<DId> = (0..spec.decls.len()).filter(|d| !spec.decls[*d].is_type()).collect();
            if v.is_empty() {
                return None;
            }
            let d = *g.pick(&v);
            let names: Vec<String> = files.iter().filter_map(|x| x.local.get(&d).cloned()).collect();
            let n = g.pick(&names).clone();
            let visible = files[f].local.values().any(|x| *x == n)
                || files[f].imports.iter().any(|i| i.alias == n)
                || files[f].decoys.iter().any(|t| words(t)[1] == n);
            if visible {
                return None;
            }
            let t = line(&mut files[f], g, format!("type Zu = container {{ a: u8, b: u8 {{ {} == {} }} }};", n, n));
            at.push((f, t));
            "a constant of another file"
        }
    };
    Some(Bad { files, kind, at })
}

fn shown(files: &[File]) -> String {
    files.iter().map(|f| format!("---- {}\n{}", f.path, f.text())).collect()
}
fn res(files: &[File]) -> front::Res {
    front::Res { files: files[1..].iter().map(|f| (f.path.clone(), f.text())).collect() }
}

impl Broken {
    fn build(&self, g: &mut Gen) -> Option<(Spec, Split, Option<Bad>)> {
        let c = Cfg { decls: (2, 5), fields: (1, 3), depth: 1, ..cfg(g) };
        let d = gen::document(g, &c);
        if g.reject.is_some() {
            return None;
        }
        let of = assign(g, &d.spec);
        let s = split(g, &d.spec, &of);
        let b = (0..8).find_map(|_| fault(g, &d.spec, &s));
        Some((d.spec, s, b))
    }
}
impl Direct for Broken {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Documents split over files are accepted; with one import broken (no such file or item, cycles, names in use, files that are refused themselves, names that are not imported) they are refused, and the error names the place. Non-trivial: the document has a broken import (distinct texts)."
    }
    fn size(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => 20_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn case(&self, g: &mut Gen, st: &mut Stats) -> Result<(), (String, String)> {
        let Some((_, s, bad)) = self.build(g) else {
            st.skip("document rejected by the generator");
            return Ok(());
        };
        st.evaluations += 1;
        let all = shown(&s.files);
        if let Err(e) = front::compile(&s.files[0].text(), &res(&s.files), &front::options()) {
            return Err((format!("the parts are refused: [{}]", e), all));
        }
        st.class(&format!("{} files", s.files.len()));
        let Some(b) = bad else { return Ok(()) };
        let t = shown(&b.files);
        let r = front::compile(&b.files[0].text(), &res(&b.files), &front::options());
        let m = match &r {
            Ok(_) => return Err((format!("{} is accepted [..]", b.kind), t)),
            Err(Stage::Panic(m)) => return Err((format!("{}: the compiler panicked: [{}]", b.kind, m), t)),
            Err(Stage::Parse(m)) | Err(Stage::Sema(m)) => m.clone(),
        };
        let p = places(&m);
        if p.is_empty() && m != "unexpected eof" {
            return Err((format!("{}: the error does not say where [{}]", b.kind, m), t));
        }
        if !b.at.is_empty() {
            let ok = p.iter().any(|((l, _), _)| {
                b.at.iter().any(|(f, x)| b.files[*f].lines.get((*l as usize).wrapping_sub(1)).map_or(false, |y| y == x))
            });
            if !ok {
                return Err((format!("{}: the error names another place [{}]", b.kind, m), t));
            }
        }
        st.class(b.kind);
        st.hit(h64(t.as_bytes()));
        st.sample(4, || json!({"files": t, "fault": b.kind, "error": m}));
        Ok(())
    }
    fn shown(&self, g: &mut Gen) -> String {
        match self.build(g) {
            Some((_, _, Some(b))) => shown(&b.files),
            Some((_, s, None)) => shown(&s.files),
            None => String::new(),
        }
    }
}
