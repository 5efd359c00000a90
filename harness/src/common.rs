//! State construction and observation shared by the contracts (bits configuration).
use crate::ghost::*;
#[cfg(not(kani))]
use crate::kani;
use crate::spec::*;
use alloc::vec::Vec;
use deku::ctx::*;
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;
use deku::reader::Leftover;

/// An arbitrary reader state: `l` leftover bits with value `left`, position 0 of `src`.
/// `l == 8` is a whole byte buffered by `end`.
#[cfg(feature = "bits")]
pub fn reader_at<R: Read + Seek>(src: R, left: u8, l: usize, bits_read: usize) -> Reader<R> {
    let mut r = Reader::new(src);
    if l == 8 {
        r.leftover = Some(Leftover::Byte(left));
    } else if l > 0 {
        let byte = [((left as u16) << (8 - l)) as u8];
        let s = deku::bitvec::BitSlice::<u8, deku::bitvec::Msb0>::from_slice(&byte);
        r.leftover = Some(Leftover::Bits(s[..l].into()));
    }
    r.bits_read = bits_read;
    r
}
/// The reader's leftover is exactly the `n` bits of value `v`.
#[cfg(feature = "bits")]
pub fn assert_leftover<R: Read + Seek>(r: &mut Reader<R>, v: u8, n: usize) {
    #[cfg(not(kani))]
    assert!(num(&r.rest()) == (v, n), "leftover bits are not the unread ones");
    assert_bits(r.leftover.take(), v, n);
}
/// `bits` holds exactly the `n` bits of value `v`: observed by reading them back from a stream
/// that has nothing else.
#[cfg(feature = "bits")]
pub fn assert_bits(bits: Option<Leftover>, v: u8, n: usize) {
    let mut r = Reader::new(Src::<1>::with_len([0], 0));
    r.leftover = bits;
    if n > 0 {
        let got = u8::from_reader_with_ctx(&mut r, (BE, BitSize(n)));
        assert!(matches!(got, Ok(x) if x == v), "pending bits are not the specified ones");
    }
    let more = u8::from_reader_with_ctx(&mut r, (BE, BitSize(1)));
    assert!(more.is_err(), "more pending bits than specified");
}
#[cfg(feature = "bits")]
pub fn assert_pending<W: Write + Seek>(w: &mut Writer<W>, v: u8, n: usize, o: Order) {
    #[cfg(not(kani))]
    assert!(num(&w.rest()) == (v, n), "pending bits are not the specified ones");
    assert_bits(Some(Leftover::Bits(w.leftover.0.clone())), v, n);
    assert!(n == 0 || w.leftover.1 == o, "pending bits have the wrong order");
}
pub fn num(v: &[bool]) -> (u8, usize) {
    let mut n = 0u8;
    let mut i = 0;
    while i < v.len() {
        n = (n << 1) | v[i] as u8;
        i += 1;
    }
    (n, v.len())
}

/// Arbitrary number of at most `l` bits.
pub fn any_left(l: usize) -> u8 {
    if l == 0 { 0 } else { kani::any::<u8>() & (mask(l) as u8) }
}
/// Arbitrary bits_read / bits_written counter, far from overflow.
pub fn any_count() -> usize {
    kani::any::<u32>() as usize
}

pub trait Int: Copy + PartialEq + core::fmt::Debug {
    const BITS: usize;
    const SIGNED: bool;
    fn of(v: u128) -> Self;
    fn to(self) -> u128;
}
macro_rules! int { ($($t:ty, $s:literal;)*) => {$(impl Int for $t {
    const BITS: usize = 8 * core::mem::size_of::<$t>();
    const SIGNED: bool = $s;
    fn of(v: u128) -> Self { v as $t }
    fn to(self) -> u128 { self as u128 }
})*} }
int! { u8,false; u16,false; u32,false; u64,false; u128,false; usize,false;
i8,true; i16,true; i32,true; i64,true; i128,true; isize,true; }

macro_rules! float { ($($t:ty, $u:ty;)*) => {$(impl Int for $t {
    const BITS: usize = 8 * core::mem::size_of::<$t>();
    const SIGNED: bool = false;
    fn of(v: u128) -> Self { <$t>::from_bits(v as $u) }
    fn to(self) -> u128 { self.to_bits() as u128 }
})*} }
float! { f32, u32; f64, u64; }

pub fn is_incomplete<T>(r: &Result<T, DekuError>) -> bool {
    matches!(r, Err(DekuError::Incomplete(_)))
}
pub fn is_fault<T>(r: &Result<T, DekuError>) -> bool {
    matches!(r, Err(DekuError::Io(k)) if *k == FAULT)
}

/// A writer with `l` pending bits `left` of order `o`.
#[cfg(feature = "bits")]
pub fn writer_at<W: Write + Seek>(sink: W, left: u8, l: usize, o: Order, bits_written: usize) -> Writer<W> {
    let mut w = Writer::new(sink);
    if l > 0 {
        let byte = [((left as u16) << (8 - l)) as u8];
        let s = deku::bitvec::BitSlice::<u8, deku::bitvec::Msb0>::from_slice(&byte);
        w.leftover.0 = s[..l].into();
    }
    w.leftover.1 = o;
    w.bits_written = bits_written;
    w
}
/// The writer is in the state that a write of `raw` (`n` bits, order `o`) leaves.
#[cfg(feature = "bits")]
pub fn assert_written<const N: usize>(mut w: Writer<&mut Sink<N>>, left: u8, l: usize, raw: u128, n: usize, o: Order, bw: usize) {
    let k = (l + n) / 8;
    let (rem, rl) = put_rest(left, l, raw, n, o);
    assert!(w.bits_written == bw + 8 * k, "bits_written does not count the bits that reached the stream");
    assert_pending(&mut w, rem, rl, o);
}
#[cfg(feature = "bits")]
pub fn assert_sink<const N: usize>(s: &Sink<N>, left: u8, l: usize, raw: u128, n: usize, o: Order) {
    let k = (l + n) / 8;
    assert!(s.len == k && s.pos == k, "number of bytes that reached the stream");
    assert!(s.seeks == 0, "write seeks");
    let mut i = 0;
    while i < k {
        assert!(s.data[i] == put_byte(left, l, raw, n, o, i), "byte in the stream is not the specified one");
        i += 1;
    }
}
