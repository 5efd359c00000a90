//! Ghost streams: the environment every contract quantifies over.
//!
//! `Src` is an input stream whose bytes, length and (optional) fault position are
//! chosen by the contract; `Sink` is an output stream that records what it is given
//! and may refuse from a chosen byte on.  Both are `Seek`, with ordinary semantics.
use deku::no_std_io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

pub const FAULT: ErrorKind = ErrorKind::PermissionDenied;
pub const NEVER: usize = usize::MAX;

pub struct Src<const N: usize> {
    pub data: [u8; N],
    pub len: usize,
    pub pos: usize,
    /// a read that would deliver byte `fault_at` fails with `FAULT`
    pub fault_at: usize,
    pub seeks: usize,
}
impl<const N: usize> Src<N> {
    pub fn new(data: [u8; N]) -> Self {
        Src { data, len: N, pos: 0, fault_at: NEVER, seeks: 0 }
    }
    pub fn with_len(data: [u8; N], len: usize) -> Self {
        Src { data, len, pos: 0, fault_at: NEVER, seeks: 0 }
    }
    pub fn with_fault(data: [u8; N], fault_at: usize) -> Self {
        Src { data, len: N, pos: 0, fault_at, seeks: 0 }
    }
}
impl<const N: usize> Read for Src<N> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut i = 0;
        while i < buf.len() && self.pos < self.len {
            if self.pos == self.fault_at {
                if i == 0 {
                    return Err(Error::from(FAULT));
                }
                break;
            }
            buf[i] = self.data[self.pos];
            self.pos += 1;
            i += 1;
        }
        Ok(i)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let mut i = 0;
        while i < buf.len() {
            if self.pos == self.fault_at {
                return Err(Error::from(FAULT));
            }
            if self.pos >= self.len {
                return Err(Error::from(ErrorKind::UnexpectedEof));
            }
            buf[i] = self.data[self.pos];
            self.pos += 1;
            i += 1;
        }
        Ok(())
    }
}
/// the position a seek leads to, and whether there is one
fn target(cur: usize, len: usize, to: SeekFrom) -> (usize, bool) {
    let (from, d) = match to {
        SeekFrom::Start(n) => return (n as usize, true),
        SeekFrom::Current(d) => (cur, d),
        SeekFrom::End(d) => (len, d),
    };
    if d >= 0 {
        let p = from.wrapping_add(d as usize);
        (p, p >= from)
    } else {
        let m = (d as usize).wrapping_neg();
        (from.wrapping_sub(m), m <= from)
    }
}
impl<const N: usize> Seek for Src<N> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        let (p, ok) = target(self.pos, self.len, to);
        if !ok {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p;
        Ok(p as u64)
    }
}

pub struct Sink<const N: usize> {
    pub data: [u8; N],
    /// one past the highest byte written
    pub len: usize,
    pub pos: usize,
    pub fault_at: usize,
    pub seeks: usize,
}
impl<const N: usize> Sink<N> {
    pub fn new() -> Self {
        Sink { data: [0; N], len: 0, pos: 0, fault_at: NEVER, seeks: 0 }
    }
    pub fn with_fault(fault_at: usize) -> Self {
        Sink { data: [0; N], len: 0, pos: 0, fault_at, seeks: 0 }
    }
}
impl<const N: usize> Write for Sink<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.write_all(buf)?;
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let mut i = 0;
        while i < buf.len() {
            if self.pos == self.fault_at {
                return Err(Error::from(FAULT));
            }
            assert!(self.pos < N, "ghost sink: wrote past the bytes the contract allows");
            self.data[self.pos] = buf[i];
            self.pos += 1;
            i += 1;
        }
        if self.pos > self.len {
            self.len = self.pos;
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl<const N: usize> Seek for Sink<N> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        let (p, ok) = target(self.pos, self.len, to);
        if !ok {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = p;
        Ok(p as u64)
    }
}
