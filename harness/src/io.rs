//! Writers with controlled behaviour. Everything they accept is recorded.
use std::io::{self, IoSlice, Write};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum End {
    /// accepts everything
    Never,
    /// after `at` accepted bytes every write returns this error kind
    Err(usize, io::ErrorKind),
    /// after `at` accepted bytes every write returns Ok(0) (full)
    Zero(usize),
    /// one single write after `at` accepted bytes fails, later ones work again
    Once(usize, io::ErrorKind),
}
#[derive(Clone, Debug)]
pub struct Wr {
    pub got: Vec<u8>,
    /// max bytes accepted per call (cycled)
    pub chunks: Vec<usize>,
    pub call: usize,
    /// return Interrupted before every k-th call (0: never)
    pub interrupt: usize,
    /// uses default write_vectored (first non-empty buffer) when false
    pub vectored: bool,
    pub end: End,
    pub refused: usize,
    pub calls: usize,
    pub flushed: usize,
    int_pending: bool,
}
impl Wr {
    pub fn new(chunks: Vec<usize>, interrupt: usize, vectored: bool, end: End) -> Self {
        Wr { got: vec![], chunks, call: 0, interrupt, vectored, end, refused: 0, calls: 0, flushed: 0, int_pending: false }
    }
    fn limit(&mut self) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 && !self.int_pending {
            self.int_pending = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.int_pending = false;
        let c = if self.chunks.is_empty() { usize::MAX } else { self.chunks[self.call % self.chunks.len()] };
        self.call += 1;
        let room = match self.end {
            End::Never => usize::MAX,
            End::Err(at, k) => {
                if self.got.len() >= at {
                    self.refused += 1;
                    return Err(io::Error::new(k, "injected"));
                }
                at - self.got.len()
            }
            End::Once(at, k) => {
                if self.got.len() >= at {
                    if self.refused == 0 {
                        self.refused = 1;
                        return Err(io::Error::new(k, "injected"));
                    }
                    usize::MAX
                } else {
                    at - self.got.len()
                }
            }
            End::Zero(at) => {
                if self.got.len() >= at {
                    self.refused += 1;
                }
                at - self.got.len().min(at)
            }
        };
        Ok(c.min(room))
    }
}
impl Write for Wr {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.limit()?.min(buf.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        if !self.vectored {
            let b: &[u8] = bufs.iter().find(|b| !b.is_empty()).map_or(&[], |b| b);
            return self.write(b);
        }
        if bufs.iter().all(|b| b.is_empty()) {
            return Ok(0);
        }
        let mut lim = self.limit()?;
        let mut n = 0;
        for b in bufs {
            let k = lim.min(b.len());
            self.got.extend_from_slice(&b[..k]);
            lim -= k;
            n += k;
            if lim == 0 {
                break;
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        Ok(())
    }
}
