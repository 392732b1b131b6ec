//! The slice of the base64 0.13 API that generated code uses, over base64 0.22
//! (0.13 is not in the offline cache; the stream adaptors are the same code in both).
use real::engine::general_purpose::{GeneralPurpose, STANDARD as STD};
use std::io;

#[derive(Clone, Copy)]
pub struct Config;
pub const STANDARD: Config = Config;

pub mod read {
    use super::*;
    pub struct DecoderReader<'a, R: io::Read>(
        real::read::DecoderReader<'static, GeneralPurpose, &'a mut R>,
    );
    impl<'a, R: io::Read> DecoderReader<'a, R> {
        pub fn new(r: &'a mut R, _c: Config) -> Self {
            DecoderReader(real::read::DecoderReader::new(r, &STD))
        }
    }
    impl<'a, R: io::Read> io::Read for DecoderReader<'a, R> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.0.read(buf)
        }
    }
}

pub mod write {
    use super::*;
    pub struct EncoderWriter<W: io::Write>(
        real::write::EncoderWriter<'static, GeneralPurpose, W>,
    );
    impl<W: io::Write> EncoderWriter<W> {
        pub fn new(w: W, _c: Config) -> Self {
            EncoderWriter(real::write::EncoderWriter::new(w, &STD))
        }
        pub fn finish(&mut self) -> io::Result<W> {
            self.0.finish()
        }
    }
    impl<W: io::Write> io::Write for EncoderWriter<W> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            self.0.write(buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.0.flush()
        }
    }
}
