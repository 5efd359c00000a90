//! Whole-value reading and writing through the ghost streams.
use crate::ghost::*;
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;

pub struct Rd<T> {
    pub v: Result<T, DekuError>,
    /// bits consumed
    pub n: usize,
    /// stream position
    pub pos: usize,
}
pub fn rd<T, const N: usize>(d: [u8; N]) -> Rd<T>
where
    T: for<'a> DekuReader<'a>,
{
    rd_src(Src::new(d))
}
pub fn rd_len<T, const N: usize>(d: [u8; N], len: usize) -> Rd<T>
where
    T: for<'a> DekuReader<'a>,
{
    rd_src(Src::with_len(d, len))
}
pub fn rd_src<T, const N: usize>(s: Src<N>) -> Rd<T>
where
    T: for<'a> DekuReader<'a>,
{
    rd_ctx(s, ())
}
pub fn rd_ctx<T, C, const N: usize>(s: Src<N>, c: C) -> Rd<T>
where
    T: for<'a> DekuReader<'a, C>,
{
    let mut r = Reader::new(s);
    let v = T::from_reader_with_ctx(&mut r, c);
    let n = r.bits_read;
    Rd { v, n, pos: r.into_inner().pos }
}
pub struct Wr<const N: usize> {
    pub r: Result<(), DekuError>,
    pub data: [u8; N],
    /// bytes in the stream
    pub len: usize,
    /// bits written, before the last byte was padded
    pub bits: usize,
}
/// write and finish
pub fn wr<T, const N: usize>(v: &T) -> Wr<N>
where
    T: DekuWriter,
{
    wr_ctx(v, (), Sink::new())
}
pub fn wr_ctx<T, C, const N: usize>(v: &T, c: C, mut sink: Sink<N>) -> Wr<N>
where
    T: DekuWriter<C>,
{
    let mut w = Writer::new(&mut sink);
    let mut r = v.to_writer(&mut w, c);
    #[cfg(feature = "bits")]
    let pending = w.rest().len();
    #[cfg(not(feature = "bits"))]
    let pending = 0;
    let bits = w.bits_written + pending;
    if r.is_ok() {
        r = w.finalize();
    }
    Wr { r, data: sink.data, len: sink.len, bits }
}
/// the writer produced exactly `want`
pub fn wrote<T, const N: usize>(v: &T, want: [u8; N])
where
    T: DekuWriter,
{
    wrote_ctx(v, (), want)
}
pub fn wrote_ctx<T, C, const N: usize>(v: &T, c: C, want: [u8; N])
where
    T: DekuWriter<C>,
{
    let w = wr_ctx::<T, C, N>(v, c, Sink::new());
    assert!(w.r.is_ok(), "write of a valid value fails");
    assert!(w.len == N, "number of bytes written");
    let mut i = 0;
    while i < N {
        assert!(w.data[i] == want[i], "byte written is not the specified one");
        i += 1;
    }
}
pub fn read_is<T, const N: usize>(d: [u8; N], n: usize, want: T)
where
    T: PartialEq + for<'a> DekuReader<'a>,
{
    let r = rd::<T, N>(d);
    match r.v {
        Ok(v) => assert!(v == want, "value read is not the specified one"),
        Err(_) => panic!("valid input is refused"),
    }
    assert!(r.n == n, "bits consumed are not the specified ones");
}
pub fn same<const N: usize>(v: &[u8], w: [u8; N]) -> bool {
    if v.len() != N {
        return false;
    }
    let mut i = 0;
    while i < N {
        if v[i] != w[i] {
            return false;
        }
        i += 1;
    }
    true
}
