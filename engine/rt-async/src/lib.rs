//! Asynchronous versions of the streams and transforms of `rt`, and an executor for one future.
//! Where a stream of `rt` answers Interrupted, these are not ready yet.
use rt::{TestReader, TestWriter, Val, R};
use std::future::Future;
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

pub mod xf;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn run<T, F: Future<Output = T> + Send>(f: F) -> T {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    loop {
        if !flag.0.swap(false, Ordering::SeqCst) {
            panic!("the future waits for nothing");
        }
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}

fn pend<T>(cx: &mut Context<'_>, r: io::Result<T>) -> Poll<io::Result<T>> {
    match r {
        Err(e) if e.kind() == ErrorKind::Interrupted => {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
        r => Poll::Ready(r),
    }
}

pub struct Reader<'a, 'd>(&'a mut TestReader<'d>);
impl<'a, 'd> AsyncRead for Reader<'a, 'd> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let b = buf.initialize_unfilled();
        let r = self.0.read(b);
        if let Ok(n) = r {
            buf.advance(n);
        }
        pend(cx, r.map(|_| ()))
    }
}
impl<'a, 'd> AsyncBufRead for Reader<'a, 'd> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        pend(cx, self.get_mut().0.fill_buf())
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.0.consume(n)
    }
}

pub struct Writer<'a>(&'a mut TestWriter);
impl<'a> AsyncWrite for Writer<'a> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = self.0.write(buf);
        pend(cx, r)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let r = self.0.flush();
        pend(cx, r)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        panic!("the caller's writer was shut down");
    }
}

pub fn read<'a, 'd, F, U>(r: &'a mut TestReader<'d>, f: F) -> R<Val>
where
    F: FnOnce(Reader<'a, 'd>) -> U,
    U: Future<Output = R<Val>> + Send,
{
    run(f(Reader(r)))
}
pub fn write<'a, F, U>(w: &'a mut TestWriter, f: F) -> R<()>
where
    F: FnOnce(Writer<'a>) -> U,
    U: Future<Output = R<()>> + Send,
{
    run(f(Writer(w)))
}
