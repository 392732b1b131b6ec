//! The transforms of `rt::xf`.
use rt::xf::{Kind, Step};
use std::io;
use std::pin::Pin;
use std::task::{ready, Context, Poll};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

pub struct W<T> {
    inner: T,
    s: Step,
}
impl<T: AsyncWrite + Unpin> W<T> {
    pub fn add(inner: T, key: u64) -> Self {
        W { inner, s: Step::new(Kind::Add, key) }
    }
    pub fn mul(inner: T, key: u64) -> Self {
        W { inner, s: Step::new(Kind::Mul, key) }
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for W<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.s;
        let x: Vec<u8> = buf.iter().map(|b| s.enc(*b)).collect();
        let n = ready!(Pin::new(&mut self.inner).poll_write(cx, &x))?;
        for b in &buf[..n] {
            self.s.enc(*b);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_shutdown(cx)
    }
}

pub struct Rd<T> {
    inner: T,
    s: Step,
    peek: Vec<u8>,
}
impl<T: AsyncRead + Unpin> Rd<T> {
    pub fn add(inner: T, key: u64) -> Self {
        Rd { inner, s: Step::new(Kind::Add, key), peek: vec![] }
    }
    pub fn mul(inner: T, key: u64) -> Self {
        Rd { inner, s: Step::new(Kind::Mul, key), peek: vec![] }
    }
}
impl<T: AsyncRead + Unpin> AsyncRead for Rd<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if !self.peek.is_empty() {
            let n = buf.remaining().min(self.peek.len());
            let x: Vec<u8> = self.peek.drain(..n).collect();
            buf.put_slice(&x);
            return Poll::Ready(Ok(()));
        }
        let old = buf.filled().len();
        ready!(Pin::new(&mut self.inner).poll_read(cx, buf))?;
        for b in &mut buf.filled_mut()[old..] {
            *b = self.s.dec(*b);
        }
        Poll::Ready(Ok(()))
    }
}
impl<T: AsyncRead + Unpin> AsyncBufRead for Rd<T> {
    fn poll_fill_buf(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.peek.is_empty() {
            let mut b = [0u8];
            let mut rb = ReadBuf::new(&mut b);
            ready!(Pin::new(&mut self.inner).poll_read(cx, &mut rb))?;
            if rb.filled().len() == 1 {
                let x = self.s.dec(b[0]);
                self.peek.push(x);
            }
        }
        Poll::Ready(Ok(&self.get_mut().peek))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.peek.drain(..n);
    }
}
