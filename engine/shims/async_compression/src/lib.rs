//! Stands in for the async-compression crate, which is not available offline: its two gzip
//! adapters for tokio. As there, flushing an encoder ends no member; shutting it down does, and
//! shuts down the writer below as well.
pub mod tokio {
    use flate2::write::GzEncoder;
    use std::io::{self, Write};
    use std::pin::Pin;
    use std::task::{ready, Context, Poll};
    use tokio_::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    use tokio as tokio_;

    pub mod bufread {
        use super::*;
        use flate2::{Crc, Decompress, FlushDecompress, Status};

        enum Part {
            /// what has come of the header
            Head(Vec<u8>),
            Body,
            Tail(Vec<u8>),
            End,
        }
        pub struct GzipDecoder<R> {
            inner: R,
            part: Part,
            body: Decompress,
            crc: Crc,
        }
        impl<R: AsyncBufRead> GzipDecoder<R> {
            pub fn new(inner: R) -> Self {
                GzipDecoder { inner, part: Part::Head(vec![]), body: Decompress::new(false), crc: Crc::new() }
            }
        }
        fn bad(s: &str) -> io::Error {
            io::Error::new(io::ErrorKind::InvalidData, s)
        }
        /// the length of the header, if all of it is there
        fn head(b: &[u8]) -> io::Result<Option<usize>> {
            if b.iter().zip(&[31u8, 139, 8]).any(|(x, y)| x != y) {
                return Err(bad("not a gzip header"));
            }
            if b.len() < 10 {
                return Ok(None);
            }
            let flags = b[3];
            if flags & 0xe0 != 0 {
                return Err(bad("reserved gzip flags"));
            }
            let mut n = 10;
            if flags & 4 != 0 {
                match b.get(n..n + 2) {
                    Some(l) => n += 2 + u16::from_le_bytes([l[0], l[1]]) as usize,
                    None => return Ok(None),
                }
            }
            for f in [8, 16] {
                if flags & f != 0 {
                    match b.get(n..).and_then(|b| b.iter().position(|x| *x == 0)) {
                        Some(k) => n += k + 1,
                        None => return Ok(None),
                    }
                }
            }
            if flags & 2 != 0 {
                if let Some(l) = b.get(n..n + 2) {
                    let mut c = Crc::new();
                    c.update(&b[..n]);
                    if c.sum() as u16 != u16::from_le_bytes([l[0], l[1]]) {
                        return Err(bad("gzip header checksum"));
                    }
                }
                n += 2;
            }
            Ok((b.len() >= n).then_some(n))
        }
        impl<R: AsyncBufRead + Unpin> AsyncRead for GzipDecoder<R> {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                let s = self.get_mut();
                loop {
                    if let Part::End = s.part {
                        return Poll::Ready(Ok(()));
                    }
                    if buf.remaining() == 0 {
                        return Poll::Ready(Ok(()));
                    }
                    let input = ready!(Pin::new(&mut s.inner).poll_fill_buf(cx))?;
                    if input.is_empty() {
                        return Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into()));
                    }
                    match &mut s.part {
                        Part::Head(h) => {
                            h.push(input[0]);
                            Pin::new(&mut s.inner).consume(1);
                            if head(h)?.is_some() {
                                s.part = Part::Body;
                            }
                        }
                        Part::Body => {
                            let mut out = vec![0u8; buf.remaining().min(4096)];
                            let (i, o) = (s.body.total_in(), s.body.total_out());
                            let r = s.body.decompress(input, &mut out, FlushDecompress::None).map_err(|_| bad("damaged gzip"))?;
                            let i = (s.body.total_in() - i) as usize;
                            let o = (s.body.total_out() - o) as usize;
                            Pin::new(&mut s.inner).consume(i);
                            if r == Status::StreamEnd {
                                s.part = Part::Tail(vec![]);
                            }
                            if o > 0 {
                                s.crc.update(&out[..o]);
                                buf.put_slice(&out[..o]);
                                return Poll::Ready(Ok(()));
                            }
                        }
                        Part::Tail(t) => {
                            t.push(input[0]);
                            Pin::new(&mut s.inner).consume(1);
                            if t.len() == 8 {
                                if t[..4] != s.crc.sum().to_le_bytes() || t[4..] != s.crc.amount().to_le_bytes() {
                                    return Poll::Ready(Err(bad("gzip checksum")));
                                }
                                s.part = Part::End;
                            }
                        }
                        Part::End => {}
                    }
                }
            }
        }
    }

    pub mod write {
        use super::*;
        pub struct GzipEncoder<W> {
            inner: W,
            state: GzEncoder<Vec<u8>>,
            ended: bool,
            flushed: bool,
        }
        impl<W: AsyncWrite + Unpin> GzipEncoder<W> {
            pub fn new(inner: W) -> Self {
                GzipEncoder { inner, state: GzEncoder::new(vec![], flate2::Compression::default()), ended: false, flushed: true }
            }
            fn drain(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                while !self.state.get_ref().is_empty() {
                    let n = ready!(Pin::new(&mut self.inner).poll_write(cx, self.state.get_ref()))?;
                    if n == 0 {
                        return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                    }
                    self.state.get_mut().drain(..n);
                }
                Poll::Ready(Ok(()))
            }
        }
        impl<W: AsyncWrite + Unpin> AsyncWrite for GzipEncoder<W> {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                let s = self.get_mut();
                ready!(s.drain(cx))?;
                s.flushed = false;
                Poll::Ready(s.state.write(buf))
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                let s = self.get_mut();
                if !s.flushed {
                    s.state.flush()?;
                    s.flushed = true;
                }
                ready!(s.drain(cx))?;
                Pin::new(&mut s.inner).poll_flush(cx)
            }
            fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                let s = self.get_mut();
                if !s.ended {
                    s.state.try_finish()?;
                    s.ended = true;
                }
                ready!(s.drain(cx))?;
                Pin::new(&mut s.inner).poll_shutdown(cx)
            }
        }
    }
}
