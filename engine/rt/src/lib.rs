//! Runtime shared by the harness and by the compiled generated code ("the runner").
//!
//! * `Val` is the neutral value representation the harness' reference model works on.
//! * `Glue` converts between `Val` and the generated Rust types.
//! * `TestReader`/`TestWriter` are streams whose fragmentation and faults are scripted.
//! * `serve` is the runner's main loop.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

pub mod xf;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Bool(bool),
    /// unsigned integers, and floats as their bits
    U(u128),
    I(i128),
    Str(Vec<u8>),
    List(Vec<Val>),
    None,
    Some(Box<Val>),
    /// struct / tuple fields
    Rec(Vec<Val>),
    /// variant index, payload
    Var(u32, Vec<Val>),
}

impl Val {
    pub fn some(v: Val) -> Val {
        Val::Some(Box::new(v))
    }
    pub fn at(&self, i: usize) -> &Val {
        match self {
            Val::Rec(v) | Val::Var(_, v) | Val::List(v) => &v[i],
            x => panic!("RT: at({}) on {:?}", i, x),
        }
    }
    pub fn variant(&self) -> u32 {
        match self {
            Val::Var(i, _) => *i,
            x => panic!("RT: variant on {:?}", x),
        }
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        match self {
            Val::Bool(b) => o.extend_from_slice(&[0, *b as u8]),
            Val::U(x) => {
                o.push(1);
                o.extend_from_slice(&x.to_le_bytes());
            }
            Val::I(x) => {
                o.push(2);
                o.extend_from_slice(&x.to_le_bytes());
            }
            Val::Str(s) => {
                o.push(3);
                put_bytes(o, s);
            }
            Val::List(v) => {
                o.push(4);
                put_list(o, v);
            }
            Val::None => o.push(5),
            Val::Some(v) => {
                o.push(6);
                v.put(o);
            }
            Val::Rec(v) => {
                o.push(7);
                put_list(o, v);
            }
            Val::Var(i, v) => {
                o.push(8);
                put_u32(o, *i);
                put_list(o, v);
            }
        }
    }
    pub fn get(i: &mut &[u8]) -> Val {
        match take(i, 1)[0] {
            0 => Val::Bool(take(i, 1)[0] != 0),
            1 => Val::U(u128::from_le_bytes(take(i, 16).try_into().unwrap())),
            2 => Val::I(i128::from_le_bytes(take(i, 16).try_into().unwrap())),
            3 => Val::Str(get_bytes(i)),
            4 => Val::List(get_list(i)),
            5 => Val::None,
            6 => Val::Some(Box::new(Val::get(i))),
            7 => Val::Rec(get_list(i)),
            8 => {
                let k = get_u32(i);
                Val::Var(k, get_list(i))
            }
            x => panic!("RT: bad tag {}", x),
        }
    }
}

fn take<'a>(i: &mut &'a [u8], n: usize) -> &'a [u8] {
    let (a, b) = i.split_at(n);
    *i = b;
    a
}
pub fn put_u32(o: &mut Vec<u8>, x: u32) {
    o.extend_from_slice(&x.to_le_bytes());
}
pub fn get_u32(i: &mut &[u8]) -> u32 {
    u32::from_le_bytes(take(i, 4).try_into().unwrap())
}
pub fn put_u64(o: &mut Vec<u8>, x: u64) {
    o.extend_from_slice(&x.to_le_bytes());
}
pub fn get_u64(i: &mut &[u8]) -> u64 {
    u64::from_le_bytes(take(i, 8).try_into().unwrap())
}
pub fn put_bytes(o: &mut Vec<u8>, x: &[u8]) {
    put_u32(o, x.len() as u32);
    o.extend_from_slice(x);
}
pub fn get_bytes(i: &mut &[u8]) -> Vec<u8> {
    let n = get_u32(i) as usize;
    take(i, n).to_vec()
}
fn put_list(o: &mut Vec<u8>, v: &[Val]) {
    put_u32(o, v.len() as u32);
    for x in v {
        x.put(o);
    }
}
fn get_list(i: &mut &[u8]) -> Vec<Val> {
    let n = get_u32(i);
    (0..n).map(|_| Val::get(i)).collect()
}

// ---------------------------------------------------------------- glue

pub trait Glue: Sized {
    fn mk(v: &Val) -> Self;
    fn un(&self) -> Val;
}

macro_rules! uint { ($($t:ty),*) => { $(impl Glue for $t {
    fn mk(v: &Val) -> Self { match v { Val::U(x) => *x as $t, x => panic!("RT: uint from {:?}", x) } }
    fn un(&self) -> Val { Val::U(*self as u128) }
})* } }
macro_rules! sint { ($($t:ty),*) => { $(impl Glue for $t {
    fn mk(v: &Val) -> Self { match v { Val::I(x) => *x as $t, x => panic!("RT: int from {:?}", x) } }
    fn un(&self) -> Val { Val::I(*self as i128) }
})* } }
uint!(u8, u16, u32, u64, u128);
sint!(i8, i16, i32, i64, i128);

impl Glue for f32 {
    fn mk(v: &Val) -> Self {
        f32::from_bits(u32::mk(v))
    }
    fn un(&self) -> Val {
        Val::U(self.to_bits() as u128)
    }
}
impl Glue for f64 {
    fn mk(v: &Val) -> Self {
        f64::from_bits(u64::mk(v))
    }
    fn un(&self) -> Val {
        Val::U(self.to_bits() as u128)
    }
}
impl Glue for bool {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Bool(b) => *b,
            x => panic!("RT: bool from {:?}", x),
        }
    }
    fn un(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Glue for String {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Str(s) => String::from_utf8(s.clone()).expect("RT: utf8"),
            x => panic!("RT: string from {:?}", x),
        }
    }
    fn un(&self) -> Val {
        Val::Str(self.as_bytes().to_vec())
    }
}
impl<T: Glue> Glue for Vec<T> {
    fn mk(v: &Val) -> Self {
        match v {
            Val::List(s) => s.iter().map(T::mk).collect(),
            x => panic!("RT: list from {:?}", x),
        }
    }
    fn un(&self) -> Val {
        Val::List(self.iter().map(|x| x.un()).collect())
    }
}
impl<T: Glue> Glue for Option<T> {
    fn mk(v: &Val) -> Self {
        match v {
            Val::None => None,
            Val::Some(x) => Some(T::mk(x)),
            x => panic!("RT: option from {:?}", x),
        }
    }
    fn un(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => Val::some(x.un()),
        }
    }
}

// ---------------------------------------------------------------- streams

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prof {
    /// cyclic list of the largest number of bytes one call may move; 0 = Interrupted
    pub chunks: Vec<u32>,
    /// byte offset from which every call fails
    pub fail_at: Option<u32>,
    /// 0: Err(Other), 1: Ok(0) (writers), 2: fail on flush only (writers)
    pub fail_kind: u8,
}

impl Prof {
    pub fn plain() -> Prof {
        Prof { chunks: vec![u32::MAX], fail_at: None, fail_kind: 0 }
    }
    pub fn put(&self, o: &mut Vec<u8>) {
        put_u32(o, self.chunks.len() as u32);
        for c in &self.chunks {
            put_u32(o, *c);
        }
        match self.fail_at {
            None => o.push(0),
            Some(x) => {
                o.push(1);
                put_u32(o, x);
            }
        }
        o.push(self.fail_kind);
    }
    pub fn get(i: &mut &[u8]) -> Prof {
        let n = get_u32(i);
        let chunks = (0..n).map(|_| get_u32(i)).collect();
        let fail_at = if take(i, 1)[0] == 1 { Some(get_u32(i)) } else { None };
        let fail_kind = take(i, 1)[0];
        Prof { chunks, fail_at, fail_kind }
    }
}

pub const INJECTED: &str = "RT_INJECTED_FAULT";
pub const STEP_LIMIT: &str = "RT_STEP_LIMIT";

pub struct TestReader<'a> {
    data: &'a [u8],
    pub pos: usize,
    win: usize,
    prof: Prof,
    ci: usize,
    pub steps: u64,
    max_steps: u64,
    pub hit_fault: bool,
}

impl<'a> TestReader<'a> {
    pub fn new(data: &'a [u8], prof: Prof) -> Self {
        // generous: every byte may be asked for alone, several times over, with retries
        let max_steps = 20_000 + 64 * data.len() as u64;
        TestReader { data, pos: 0, win: 0, prof, ci: 0, steps: 0, max_steps, hit_fault: false }
    }
    pub fn refill(&mut self) -> io::Result<()> {
        self.steps += 1;
        if self.steps > self.max_steps {
            panic!("{}", STEP_LIMIT);
        }
        if self.pos < self.win {
            return Ok(());
        }
        let mut end = self.data.len();
        if let Some(f) = self.prof.fail_at {
            if self.pos >= f as usize {
                self.hit_fault = true;
                return Err(io::Error::new(io::ErrorKind::Other, INJECTED));
            }
            end = end.min(f as usize);
        }
        let c = self.prof.chunks[self.ci % self.prof.chunks.len()] as usize;
        self.ci += 1;
        if c == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "RT interrupted"));
        }
        self.win = end.min(self.pos.saturating_add(c));
        Ok(())
    }
}

impl<'a> Read for TestReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.refill()?;
        let n = buf.len().min(self.win - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> BufRead for TestReader<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.refill()?;
        Ok(&self.data[self.pos..self.win])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.win - self.pos, "RT: consumed more than was buffered");
        self.pos += n;
    }
}

pub struct TestWriter {
    pub out: Vec<u8>,
    prof: Prof,
    ci: usize,
    pub steps: u64,
    pub hit_fault: bool,
}

impl TestWriter {
    pub fn new(prof: Prof) -> Self {
        TestWriter { out: vec![], prof, ci: 0, steps: 0, hit_fault: false }
    }
}

impl Write for TestWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.steps += 1;
        if self.steps > 2_000_000 {
            panic!("{}", STEP_LIMIT);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut room = usize::MAX;
        if let Some(f) = self.prof.fail_at {
            if self.prof.fail_kind < 2 {
                if self.out.len() >= f as usize {
                    self.hit_fault = true;
                    return if self.prof.fail_kind == 1 {
                        Ok(0)
                    } else {
                        Err(io::Error::new(io::ErrorKind::Other, INJECTED))
                    };
                }
                room = f as usize - self.out.len();
            }
        }
        let c = self.prof.chunks[self.ci % self.prof.chunks.len()] as usize;
        self.ci += 1;
        if c == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "RT interrupted"));
        }
        let n = buf.len().min(c).min(room);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.prof.fail_kind == 2 && self.prof.fail_at.is_some() {
            self.hit_fault = true;
            return Err(io::Error::new(io::ErrorKind::Other, INJECTED));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- allocation accounting

pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let c = CUR.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(c, Ordering::Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            // a request the sandbox cannot serve: recorded, and refused
            add(l.size());
            CUR.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            add(l.size());
            CUR.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 30 {
            return std::ptr::null_mut();
        }
        if n > l.size() {
            add(n - l.size());
        } else {
            CUR.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- protocol

#[derive(Clone, Debug)]
pub enum Cmd {
    /// entry, arguments, input, reader profile
    Dec(u32, Vec<Val>, Vec<u8>, Prof),
    Enc(u32, Vec<Val>, Val, Prof),
    /// entry-specific operation (enum / bitfield / default / options)
    Misc(u32, u32, Vec<Val>),
    /// the asynchronous twins
    DecAsync(u32, Vec<Val>, Vec<u8>, Prof),
    EncAsync(u32, Vec<Val>, Val, Prof),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok(Val),
    Err(String),
    Panic(String),
    /// more stream calls than any terminating run needs
    Runaway,
    /// the runner process died while executing this
    Crash(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Res {
    pub out: Out,
    /// reader: bytes consumed; writer: bytes accepted
    pub count: u64,
    /// writer: everything accepted
    pub bytes: Vec<u8>,
    pub peak: u64,
    pub hit_fault: bool,
}

impl Cmd {
    pub fn put(&self, o: &mut Vec<u8>) {
        match self {
            Cmd::Dec(e, a, b, p) | Cmd::DecAsync(e, a, b, p) => {
                o.push(if matches!(self, Cmd::Dec(..)) { 0 } else { 3 });
                put_u32(o, *e);
                put_list(o, a);
                put_bytes(o, b);
                p.put(o);
            }
            Cmd::Enc(e, a, v, p) | Cmd::EncAsync(e, a, v, p) => {
                o.push(if matches!(self, Cmd::Enc(..)) { 1 } else { 4 });
                put_u32(o, *e);
                put_list(o, a);
                v.put(o);
                p.put(o);
            }
            Cmd::Misc(e, k, a) => {
                o.push(2);
                put_u32(o, *e);
                put_u32(o, *k);
                put_list(o, a);
            }
        }
    }
    pub fn get(i: &mut &[u8]) -> Cmd {
        let tag = take(i, 1)[0];
        let e = get_u32(i);
        match tag {
            0 | 3 => {
                let a = get_list(i);
                let b = get_bytes(i);
                let p = Prof::get(i);
                if tag == 0 {
                    Cmd::Dec(e, a, b, p)
                } else {
                    Cmd::DecAsync(e, a, b, p)
                }
            }
            1 | 4 => {
                let a = get_list(i);
                let v = Val::get(i);
                let p = Prof::get(i);
                if tag == 1 {
                    Cmd::Enc(e, a, v, p)
                } else {
                    Cmd::EncAsync(e, a, v, p)
                }
            }
            _ => {
                let k = get_u32(i);
                Cmd::Misc(e, k, get_list(i))
            }
        }
    }
}

impl Res {
    pub fn put(&self, o: &mut Vec<u8>) {
        match &self.out {
            Out::Ok(v) => {
                o.push(0);
                v.put(o);
            }
            Out::Err(s) => {
                o.push(1);
                put_bytes(o, s.as_bytes());
            }
            Out::Panic(s) => {
                o.push(2);
                put_bytes(o, s.as_bytes());
            }
            Out::Runaway => o.push(3),
            Out::Crash(s) => {
                o.push(4);
                put_bytes(o, s.as_bytes());
            }
        }
        put_u64(o, self.count);
        put_bytes(o, &self.bytes);
        put_u64(o, self.peak);
        o.push(self.hit_fault as u8);
    }
    pub fn get(i: &mut &[u8]) -> Res {
        let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
        let out = match take(i, 1)[0] {
            0 => Out::Ok(Val::get(i)),
            1 => Out::Err(s(get_bytes(i))),
            2 => Out::Panic(s(get_bytes(i))),
            3 => Out::Runaway,
            _ => Out::Crash(s(get_bytes(i))),
        };
        Res {
            out,
            count: get_u64(i),
            bytes: get_bytes(i),
            peak: get_u64(i),
            hit_fault: take(i, 1)[0] != 0,
        }
    }
}

pub type R<T> = Result<T, String>;

#[derive(Clone, Copy)]
pub struct Entry {
    pub dec: fn(&mut TestReader<'_>, &[Val]) -> R<Val>,
    pub enc: fn(&mut TestWriter, &Val, &[Val]) -> R<()>,
    pub misc: fn(u32, &[Val]) -> R<Val>,
    pub adec: fn(&mut TestReader<'_>, &[Val]) -> R<Val>,
    pub aenc: fn(&mut TestWriter, &Val, &[Val]) -> R<()>,
}

pub fn no_dec(_: &mut TestReader<'_>, _: &[Val]) -> R<Val> {
    panic!("RT: unsupported")
}
pub fn no_enc(_: &mut TestWriter, _: &Val, _: &[Val]) -> R<()> {
    panic!("RT: unsupported")
}
pub fn no_misc(_: u32, _: &[Val]) -> R<Val> {
    panic!("RT: unsupported")
}

pub fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = Cell::new(None);
}

fn run_cmd(entries: &[Entry], c: &Cmd) -> Res {
    let base = CUR.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let mut count = 0;
    let mut bytes = vec![];
    let mut hit = false;
    let r = match c {
        Cmd::Dec(e, a, b, p) | Cmd::DecAsync(e, a, b, p) => {
            let f = if matches!(c, Cmd::Dec(..)) { entries[*e as usize].dec } else { entries[*e as usize].adec };
            let mut r = TestReader::new(b, p.clone());
            let x = catch_unwind(AssertUnwindSafe(|| f(&mut r, a)));
            count = r.pos as u64;
            hit = r.hit_fault;
            x
        }
        Cmd::Enc(e, a, v, p) | Cmd::EncAsync(e, a, v, p) => {
            let f = if matches!(c, Cmd::Enc(..)) { entries[*e as usize].enc } else { entries[*e as usize].aenc };
            let mut w = TestWriter::new(p.clone());
            let x = catch_unwind(AssertUnwindSafe(|| f(&mut w, v, a)));
            count = w.out.len() as u64;
            hit = w.hit_fault;
            bytes = w.out;
            x.map(|r| r.map(|_| Val::None))
        }
        Cmd::Misc(e, k, a) => {
            let f = entries[*e as usize].misc;
            catch_unwind(AssertUnwindSafe(|| f(*k, a)))
        }
    };
    let peak = PEAK.load(Ordering::Relaxed).saturating_sub(base) as u64;
    let out = match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            if m == STEP_LIMIT {
                Out::Runaway
            } else {
                Out::Panic(m)
            }
        }
    };
    Res { out, count, bytes, peak, hit_fault: hit }
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

fn loop_(entries: &[Entry]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = io::stdin().lock();
    // answers go out on a copy of the output: what generated code prints goes nowhere
    let mut o = std::fs::File::from(std::os::fd::AsFd::as_fd(&io::stdout()).try_clone_to_owned().expect("RT: output"));
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("RT: /dev/null");
    unsafe {
        if dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 1) < 0 {
            panic!("RT: dup2");
        }
    }
    loop {
        let mut n = [0u8; 4];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        if i.read_exact(&mut b).is_err() {
            return;
        }
        let c = Cmd::get(&mut &b[..]);
        let r = run_cmd(entries, &c);
        let mut ob = vec![0; 4];
        r.put(&mut ob);
        let l = (ob.len() - 4) as u32;
        ob[..4].copy_from_slice(&l.to_le_bytes());
        if o.write_all(&ob).is_err() || o.flush().is_err() {
            return;
        }
    }
}

pub fn serve(entries: &'static [Entry]) {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || loop_(entries))
        .unwrap()
        .join()
        .unwrap();
}
