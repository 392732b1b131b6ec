//! Byte-precise stream transforms (the harness' own foreign transforms), and their plain
//! byte-level definitions for the reference model. `Mul` and `Add` do not commute, so the order
//! in which a chain is applied is visible. Both are position dependent, so a transform that is
//! restarted or shared between two fields is visible too.
use std::io::{self, BufRead, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Add,
    Mul,
}

#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub kind: Kind,
    pub key: u8,
    pub n: u8,
}

fn inv(mut a: u8) -> u8 {
    // inverse of an odd number modulo 256
    let x = a;
    for _ in 0..6 {
        a = a.wrapping_mul(2u8.wrapping_sub(x.wrapping_mul(a)));
    }
    a
}

impl Step {
    pub fn new(kind: Kind, key: u64) -> Step {
        Step { kind, key: key as u8, n: 0 }
    }
    pub fn enc(&mut self, b: u8) -> u8 {
        let n = self.n;
        self.n = self.n.wrapping_add(1);
        match self.kind {
            Kind::Add => b.wrapping_add(self.key).wrapping_add(n),
            Kind::Mul => b.wrapping_mul(self.key.wrapping_mul(4) | 3) ^ n,
        }
    }
    pub fn dec(&mut self, b: u8) -> u8 {
        let n = self.n;
        self.n = self.n.wrapping_add(1);
        match self.kind {
            Kind::Add => b.wrapping_sub(self.key).wrapping_sub(n),
            Kind::Mul => (b ^ n).wrapping_mul(inv(self.key.wrapping_mul(4) | 3)),
        }
    }
}

pub struct W<T: Write> {
    inner: T,
    s: Step,
}
impl<T: Write> W<T> {
    pub fn add(inner: T, key: u64) -> Self {
        W { inner, s: Step::new(Kind::Add, key) }
    }
    pub fn mul(inner: T, key: u64) -> Self {
        W { inner, s: Step::new(Kind::Mul, key) }
    }
}
impl<T: Write> Write for W<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.s;
        let x: Vec<u8> = buf.iter().map(|b| s.enc(*b)).collect();
        let n = self.inner.write(&x)?;
        for b in &buf[..n] {
            self.s.enc(*b);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}

/// Reads no further ahead than it is asked to, apart from one byte for `fill_buf`.
pub struct Rd<T: Read> {
    inner: T,
    s: Step,
    peek: Vec<u8>,
}
impl<T: Read> Rd<T> {
    pub fn add(inner: T, key: u64) -> Self {
        Rd { inner, s: Step::new(Kind::Add, key), peek: vec![] }
    }
    pub fn mul(inner: T, key: u64) -> Self {
        Rd { inner, s: Step::new(Kind::Mul, key), peek: vec![] }
    }
}
impl<T: Read> Read for Rd<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if !self.peek.is_empty() {
            let n = buf.len().min(self.peek.len());
            buf[..n].copy_from_slice(&self.peek[..n]);
            self.peek.drain(..n);
            return Ok(n);
        }
        let n = self.inner.read(buf)?;
        for b in &mut buf[..n] {
            *b = self.s.dec(*b);
        }
        Ok(n)
    }
}
impl<T: Read> BufRead for Rd<T> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.peek.is_empty() {
            let mut b = [0u8];
            if self.inner.read(&mut b)? == 1 {
                self.peek.push(self.s.dec(b[0]));
            }
        }
        Ok(&self.peek)
    }
    fn consume(&mut self, n: usize) {
        self.peek.drain(..n);
    }
}
