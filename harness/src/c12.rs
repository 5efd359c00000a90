//! C12: the writer's state and output after every operation, from every state.
use crate::common::*;
use crate::ghost::*;
#[cfg(not(kani))]
use crate::kani;
use crate::spec::*;
use deku::bitvec::{BitSlice, Msb0};
use deku::ctx::*;
use deku::no_std_io::{Seek, SeekFrom};
use deku::prelude::*;

fn msb_bytes(raw: u32, n: usize) -> [u8; 4] {
    if n == 0 { [0; 4] } else { (raw << (32 - n)).to_be_bytes() }
}
/// `n` bits of one order after `l` pending ones of the same
pub fn bits<const N: usize>(l: usize, n: usize, o: Order) {
    let left = any_left(l);
    let bw = any_count();
    let raw = (kani::any::<u32>() as u128 & mask(n)) as u32;
    let buf = msb_bytes(raw, n);
    let s = &BitSlice::<u8, Msb0>::from_slice(&buf)[..n];
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, left, l, o, bw);
    assert!(w.write_bits_order(s, o).is_ok(), "write of bits failed");
    assert_written(w, left, l, raw as u128, n, o, bw);
    assert_sink(&sink, left, l, raw as u128, n, o);
}
/// with nothing pending, the order of earlier bits does not matter
pub fn bits_fresh<const N: usize>(n: usize, lo: Order, o: Order) {
    let bw = any_count();
    let raw = (kani::any::<u32>() as u128 & mask(n)) as u32;
    let buf = msb_bytes(raw, n);
    let s = &BitSlice::<u8, Msb0>::from_slice(&buf)[..n];
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, 0, 0, lo, bw);
    assert!(w.write_bits_order(s, o).is_ok(), "write of bits failed");
    assert_written(w, 0, 0, raw as u128, n, o, bw);
    assert_sink(&sink, 0, 0, raw as u128, n, o);
}
/// bits of one order after pending bits of the other: where they land is not specified, but none
/// is lost or invented
pub fn mixed<const N: usize>(l: usize, n: usize, lo: Order, o: Order) {
    let left = any_left(l);
    let bw = any_count();
    let raw = (kani::any::<u32>() as u128 & mask(n)) as u32;
    let buf = msb_bytes(raw, n);
    let s = &BitSlice::<u8, Msb0>::from_slice(&buf)[..n];
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, left, l, lo, bw);
    assert!(w.write_bits_order(s, o).is_ok(), "write of bits failed");
    let k = (l + n) / 8;
    let mut ones = 0;
    assert!(w.bits_written == bw + 8 * k, "bits_written does not count the bits that reached the stream");
    let pend = w.rest();
    assert!(pend.len() == (l + n) % 8, "number of pending bits");
    let mut i = 0;
    while i < pend.len() {
        ones += pend[i] as u32;
        i += 1;
    }
    drop(w);
    assert!(sink.len == k, "number of bytes that reached the stream");
    let mut i = 0;
    while i < k {
        ones += sink.data[i].count_ones();
        i += 1;
    }
    assert!(ones == left.count_ones() + raw.count_ones(), "bits lost or invented");
}
pub fn write_bits<const N: usize>(l: usize, n: usize) {
    let left = any_left(l);
    let bw = any_count();
    let raw = (kani::any::<u32>() as u128 & mask(n)) as u32;
    let buf = msb_bytes(raw, n);
    let s = &BitSlice::<u8, Msb0>::from_slice(&buf)[..n];
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, left, l, M, bw);
    assert!(w.write_bits(s).is_ok(), "write of bits failed");
    assert_written(w, left, l, raw as u128, n, M, bw);
    assert_sink(&sink, left, l, raw as u128, n, M);
}
/// bytes are eight bits each, in order
pub fn bytes<const K: usize, const N: usize>(l: usize) {
    let left = any_left(l);
    let bw = any_count();
    let b: [u8; K] = kani::any();
    let mut raw = 0u128;
    let mut i = 0;
    while i < K {
        raw = (raw << 8) | b[i] as u128;
        i += 1;
    }
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, left, l, M, bw);
    assert!(w.write_bytes(&b).is_ok(), "write of bytes failed");
    assert_written(w, left, l, raw, 8 * K, M, bw);
    assert_sink(&sink, left, l, raw, 8 * K, M);
}
/// finishing pads with zeros, in the order of what is pending; a second time does nothing
pub fn finalize(l: usize, o: Order) {
    let left = any_left(l);
    let bw = any_count();
    let mut sink = Sink::<1>::new();
    let mut w = writer_at(&mut sink, left, l, o, bw);
    assert!(w.finalize().is_ok());
    let n = if l == 0 { 0 } else { 1 };
    assert!(w.bits_written == bw + 8 * n);
    assert!(w.finalize().is_ok());
    assert!(w.bits_written == bw + 8 * n, "finalize is not idempotent");
    assert_pending(&mut w, 0, 0, o);
    assert!(sink.len == n, "number of bytes written by finalize");
    if l > 0 {
        assert!(sink.data[0] == if o == M { left << (8 - l) } else { left }, "last byte is not padded with zeros");
    }
}
pub fn rest(l: usize, o: Order) {
    let left = any_left(l);
    let mut sink = Sink::<1>::new();
    let mut w = writer_at(&mut sink, left, l, o, 0);
    let v = w.rest();
    assert!(v.len() == l, "length of the rest");
    let mut i = 0;
    while i < l {
        assert!(v[i] == (left >> (l - 1 - i) & 1 == 1), "rest is not the pending bits");
        i += 1;
    }
    assert_pending(&mut w, left, l, o);
    assert!(sink.len == 0);
}
/// two writes put the same bits out as one
pub fn two<const N: usize>(l: usize, n1: usize, n2: usize, o: Order) {
    let left = any_left(l);
    let bw = any_count();
    let a = (kani::any::<u32>() as u128 & mask(n1)) as u32;
    let b = (kani::any::<u32>() as u128 & mask(n2)) as u32;
    let (ba, bb) = (msb_bytes(a, n1), msb_bytes(b, n2));
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, left, l, o, bw);
    assert!(w.write_bits_order(&BitSlice::<u8, Msb0>::from_slice(&ba)[..n1], o).is_ok());
    assert!(w.write_bits_order(&BitSlice::<u8, Msb0>::from_slice(&bb)[..n2], o).is_ok());
    let raw = if o == M { (a as u128) << n2 | b as u128 } else { a as u128 | (b as u128) << n1 };
    assert_written(w, left, l, raw, n1 + n2, o, bw);
    assert_sink(&sink, left, l, raw, n1 + n2, o);
}
/// moving away finishes the byte in progress first: nothing pending is lost
pub fn seek(l: usize, o: Order) {
    let left = any_left(l);
    let bw = any_count();
    let mut sink = Sink::<2>::new();
    let mut w = writer_at(&mut sink, left, l, o, bw);
    assert!(matches!(w.seek(SeekFrom::Current(1)), Ok(p) if p == 1 + (l > 0) as u64), "position after a relative seek");
    assert_pending(&mut w, 0, 0, o);
    assert!(w.bits_written == bw + if l > 0 { 8 } else { 0 });
    assert!(sink.pos == if l > 0 { 2 } else { 1 });
    assert!(sink.len == if l > 0 { 1 } else { 0 }, "pending bits are lost in a seek");
    if l > 0 {
        assert!(sink.data[0] == if o == M { left << (8 - l) } else { left }, "last byte is not padded with zeros");
    }
}
/// any history of writes of one order against a bit list
#[cfg(not(kani))]
pub fn history() {
    let o = if kani::any::<bool>() { M } else { L };
    let mut sink = Sink::<64>::new();
    let mut model: std::vec::Vec<bool> = std::vec::Vec::new(); // stream order of `o`
    let mut w = Writer::new(&mut sink);
    for _ in 0..6 {
        let op: u8 = kani::any();
        let n = kani::any::<u8>() as usize % 33;
        let raw = (kani::any::<u32>() as u128 & mask(n)) as u32;
        let buf = msb_bytes(raw, n);
        let v = |i: usize| if o == M { raw >> (n - 1 - i) & 1 == 1 } else { raw >> i & 1 == 1 };
        match op % 4 {
            0 | 1 => {
                w.write_bits_order(&BitSlice::<u8, Msb0>::from_slice(&buf)[..n], o).unwrap();
                (0..n).for_each(|i| model.push(v(i)));
            }
            2 => {
                if n == 0 { continue; }
                let x = field_value(raw as u128, n, LE, o) as u32;
                x.to_writer(&mut w, (LE, BitSize(n), o)).unwrap();
                (0..n).for_each(|i| model.push(v(i)));
            }
            _ => {
                w.finalize().unwrap();
                while model.len() % 8 != 0 { model.push(false); }
            }
        }
        assert!(w.bits_written == model.len() / 8 * 8, "bits_written");
        let pend = w.rest();
        let tail: std::vec::Vec<bool> = model[model.len() / 8 * 8..].to_vec();
        let tail = if o == M { tail } else { tail.into_iter().rev().collect() };
        assert!(pend == tail, "pending bits");
    }
    drop(w);
    assert!(sink.len == model.len() / 8);
    for i in 0..sink.len {
        let mut b = 0u8;
        for j in 0..8 {
            if model[8 * i + j] { b |= if o == M { 0x80 >> j } else { 1 << j }; }
        }
        assert!(sink.data[i] == b, "byte in the stream");
    }
}
