//! C03: the reader's state after every operation, from every state.  Each contract starts from
//! an arbitrary state (`l` pending bits, counter, any bytes ahead) and fixes the state after, so a
//! history of operations follows by composition.
use crate::common::*;
use crate::ghost::*;
#[cfg(not(kani))]
use crate::kani;
use crate::spec::*;
use deku::bitvec::{BitSlice, BitVec, Msb0};
use deku::ctx::*;
use deku::no_std_io::{Seek, SeekFrom};
use deku::prelude::*;
use deku::reader::{Leftover, ReaderRet};

fn any_reader<const NB: usize>(l: usize) -> (Reader<Src<NB>>, [u8; NB], u8, usize) {
    let data: [u8; NB] = kani::any();
    let left = any_left(l);
    let br = any_count();
    (reader_at(Src::new(data), left, l, br), data, left, br)
}
fn assert_consumed<const NB: usize>(mut r: Reader<Src<NB>>, data: &[u8; NB], left: u8, l: usize, br: usize, n: usize, o: Order) {
    let (_, rem, rl) = take(left, l, data, n, o);
    assert!(r.bits_read == br + n, "bits_read does not count the bits consumed");
    assert_leftover(&mut r, rem, rl);
    assert!(r.into_inner().pos == bytes_needed(l, n), "stream bytes taken differ from those needed");
}
fn bits_num(v: &BitSlice<u8, Msb0>) -> u128 {
    let mut n = 0u128;
    let mut i = 0;
    while i < v.len() {
        n = (n << 1) | v[i] as u128;
        i += 1;
    }
    n
}

pub fn bits<const NB: usize>(l: usize, n: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<NB>(l);
    let (raw, _, _) = take(left, l, &data, n, o);
    match r.read_bits(n, o) {
        Ok(Some(v)) => {
            assert!(v.len() == n, "number of bits returned");
            assert!(bits_num(&v) == raw, "bits returned are not the next bits");
        }
        Ok(None) => assert!(n == 0, "no bits returned"),
        Err(_) => panic!("read of available bits failed"),
    }
    assert_consumed(r, &data, left, l, br, n, o);
}
pub fn bits_into<const NB: usize>(l: usize, n: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<NB>(l);
    let (raw, _, _) = take(left, l, &data, n, o);
    let mut buf = [0u8; 4];
    let s = BitSlice::<u8, Msb0>::from_slice_mut(&mut buf);
    assert!(r.read_bits_into(&mut s[..n], o).is_ok(), "read of available bits failed");
    let got = u32::from_be_bytes(buf);
    assert!(got == if n == 0 { 0 } else { (raw as u32) << (32 - n) }, "bits stored are not the next bits");
    assert_consumed(r, &data, left, l, br, n, o);
}
fn byte_of(raw: u128, n: usize, o: Order, i: usize) -> u8 {
    if o == M { (raw >> (n - 8 - 8 * i)) as u8 } else { (raw >> (8 * i)) as u8 }
}
/// `read_bytes` into a buffer with room to spare
pub fn bytes<const NB: usize>(l: usize, k: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<NB>(l);
    let mut buf = [0xa5u8; NB];
    let got = r.read_bytes(k, &mut buf, o);
    assert!(matches!(got, Ok(ReaderRet::Bytes)), "read of available bytes failed");
    let (raw, _, _) = take(left, l, &data, 8 * k, o);
    let mut i = 0;
    while i < NB {
        assert!(buf[i] == if i < k { byte_of(raw, 8 * k, o, i) } else { 0xa5 }, "byte read is not the next one");
        i += 1;
    }
    assert_consumed(r, &data, left, l, br, 8 * k, o);
}
pub fn bytes_const<const N: usize>(l: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<N>(l);
    let mut buf = [0u8; N];
    assert!(matches!(r.read_bytes_const(&mut buf, o), Ok(ReaderRet::Bytes)));
    let (raw, _, _) = take(left, l, &data, 8 * N, o);
    let mut i = 0;
    while i < N {
        assert!(buf[i] == byte_of(raw, 8 * N, o, i), "byte read is not the next one");
        i += 1;
    }
    assert_consumed(r, &data, left, l, br, 8 * N, o);
}
pub fn bytes_const_into<const N: usize>(l: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<N>(l);
    let mut buf = [0u8; N];
    assert!(r.read_bytes_const_into(&mut buf, o).is_ok());
    let (raw, _, _) = take(left, l, &data, 8 * N, o);
    let mut i = 0;
    while i < N {
        assert!(buf[i] == byte_of(raw, 8 * N, o, i), "byte read is not the next one");
        i += 1;
    }
    assert_consumed(r, &data, left, l, br, 8 * N, o);
}
/// skipping consumes exactly what reading as many bits would
pub fn skip<const NB: usize>(l: usize, n: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<NB>(l);
    assert!(r.skip_bits(n, o).is_ok(), "skip of available bits failed");
    assert_consumed(r, &data, left, l, br, n, o);
}
/// asking for the end: answers truthfully, buffers at most one byte, consumes nothing
pub fn end(l: usize) {
    let data: [u8; 1] = kani::any();
    let empty: bool = kani::any();
    let left = any_left(l);
    let br = any_count();
    let mut r = reader_at(Src::with_len(data, if empty { 0 } else { 1 }), left, l, br);
    let e = r.end();
    assert!(e == (l == 0 && empty), "end() is wrong");
    assert!(r.end() == e, "end() changes its answer");
    assert!(r.bits_read == br, "end() counts as reading");
    if l == 0 && !empty {
        assert!(matches!(r.leftover, Some(Leftover::Byte(b)) if b == data[0]), "byte taken by end() is lost");
        assert!(r.as_mut().pos == 1);
    } else {
        assert!(r.as_mut().pos == 0, "end() takes a byte it does not need");
        assert_leftover(&mut r, left, l);
    }
}
/// a failing stream is not at its end, and the next read reports the failure
pub fn end_fault() {
    let data: [u8; 2] = kani::any();
    let br = any_count();
    let mut r = reader_at(Src::with_fault(data, 0), 0, 0, br);
    assert!(!r.end(), "a failing stream reported as ended");
    assert!(r.leftover.is_none(), "end() invents a byte");
    assert!(r.bits_read == br);
    assert!(is_fault(&u8::from_reader_with_ctx(&mut r, ())));
}
/// end() between reads is invisible
pub fn end_then_read(n: usize, o: Order) {
    let data: [u8; 3] = kani::any();
    let br = any_count();
    let mut a = reader_at(Src::new(data), 0, 0, br);
    assert!(!a.end());
    let x = u32::from_reader_with_ctx(&mut a, (LE, BitSize(n), o));
    let mut b = reader_at(Src::new(data), 0, 0, br);
    let y = u32::from_reader_with_ctx(&mut b, (LE, BitSize(n), o));
    assert!(matches!((x, y), (Ok(p), Ok(q)) if p == q), "end() changes what is read next");
    assert!(a.bits_read == b.bits_read);
    let (_, rem, rl) = take(0, 0, &data, n, o);
    assert_leftover(&mut a, rem, rl);
    assert!(a.as_mut().pos == b.as_mut().pos);
}
/// the rest is exactly the unread bits, most significant first
pub fn rest(l: usize) {
    let (mut r, data, left, br) = any_reader::<1>(l);
    let v = r.rest();
    assert!(v.len() == l, "length of the rest");
    let mut i = 0;
    while i < l {
        assert!(v[i] == (left >> (l - 1 - i) & 1 == 1), "rest is not the unread bits");
        i += 1;
    }
    assert!(r.bits_read == br);
    assert!(r.as_mut().pos == 0);
    assert_leftover(&mut r, left, l);
    let _ = data;
}
pub const FROM_START: u8 = 0;
pub const FROM_CURRENT: u8 = 1;
pub const FROM_END: u8 = 2;
/// seeking: pending bits are dropped, a buffered byte is not yet consumed, the counter is the new
/// position; a position before the start is an error
pub fn seek(l: usize, what: u8) {
    let data: [u8; 4] = kani::any();
    let left = any_left(l);
    let mut src = Src::new(data);
    src.pos = 2;
    let mut r = reader_at(src, left, l, any_count());
    let off: i8 = kani::any();
    let (to, want) = match what {
        FROM_START => (SeekFrom::Start(off as u8 as u64), off as u8 as i64),
        FROM_CURRENT => (SeekFrom::Current(off as i64), 2 - (l == 8) as i64 + off as i64),
        _ => (SeekFrom::End(off as i64), 4 + off as i64),
    };
    match r.seek(to) {
        Ok(p) => {
            assert!(want >= 0, "seek before the start succeeds");
            assert!(p as i64 == want, "position returned");
            assert!(r.bits_read as i64 == 8 * want, "counter is not the new position");
            assert!(r.leftover.is_none(), "unread bits survive a seek");
            assert!(r.as_mut().pos as i64 == want, "stream position");
            if want < 4 {
                let b = u8::from_reader_with_ctx(&mut r, ());
                assert!(matches!(b, Ok(x) if x == data[want as usize]), "not the byte at the new position");
            }
        }
        Err(_) => assert!(want < 0, "seek within range fails"),
    }
}
/// seeks by any amount at all return a result
pub fn seek_any(l: usize, what: u8) {
    let left = any_left(l);
    let mut r = reader_at(Src::new([0; 1]), left, l, any_count());
    let d: i64 = kani::any();
    let to = match what {
        FROM_START => SeekFrom::Start(d as u64),
        FROM_CURRENT => SeekFrom::Current(d),
        _ => SeekFrom::End(d),
    };
    if let Ok(p) = r.seek(to) {
        assert!(r.leftover.is_none());
        assert!(p > (usize::MAX / 8) as u64 || r.bits_read == 8 * p as usize, "counter is not the new position");
    }
}
/// two operations in sequence see consecutive bits
pub fn two<const NB: usize>(l: usize, n1: usize, n2: usize, o: Order) {
    let (mut r, data, left, br) = any_reader::<NB>(l);
    let a = u32::from_reader_with_ctx(&mut r, (LE, BitSize(n1), o));
    let b = u32::from_reader_with_ctx(&mut r, (LE, BitSize(n2), o));
    let (raw, _, _) = take(left, l, &data, n1 + n2, o);
    let (ra, rb) = if o == M { (raw >> n2, raw & mask(n2)) } else { (raw & mask(n1), raw >> n1) };
    assert!(matches!(a, Ok(v) if v as u128 == field_value(ra, n1, LE, o)), "first read");
    assert!(matches!(b, Ok(v) if v as u128 == field_value(rb, n2, LE, o)), "second read does not continue the first");
    assert_consumed(r, &data, left, l, br, n1 + n2, o);
}

/// any history of operations against a bit-by-bit model of the stream (one bit order)
#[cfg(not(kani))]
pub fn history() {
    let data: [u8; 8] = kani::any();
    let o = if kani::any::<bool>() { M } else { L };
    let len = kani::any::<u8>() as usize % 9;
    let mut r = Reader::new(Src::with_len(data, len));
    // model: absolute bit position
    let mut p = 0usize;
    let mut buffered = false;
    for _ in 0..8 {
        let op: u8 = kani::any();
        let n = kani::any::<u8>() as usize % 33;
        let avail = 8 * len.saturating_sub(0);
        let (raw, _, _) = {
            let first = p / 8;
            let l = (8 - p % 8) % 8;
            let (left, from) = if l == 0 { (0, first) } else {
                let b = if first < len { data[first] } else { 0 };
                (if o == M { b & mask(l) as u8 } else { b >> (8 - l) }, first + 1)
            };
            let mut rest = [0u8; 16];
            let mut i = 0;
            while from + i < len { rest[i] = data[from + i]; i += 1; }
            take(left, l, &rest, n, o)
        };
        match op % 6 {
            0 | 1 => {
                let x = r.read_bits(n, o);
                if p + n > avail { assert!(is_incomplete(&x), "read past the end is not incomplete"); return; }
                match x.unwrap() { Some(v) => { assert!(v.len() == n && bits_num(&v) == raw, "bits returned") } None => assert!(n == 0) }
                p += n;
                if n > 0 { buffered = false; }
            }
            2 => {
                let n = n % 4;
                let mut buf = [0u8; 4];
                let x = r.read_bytes(n, &mut buf, o);
                if p + 8 * n > avail { assert!(is_incomplete(&x)); return; }
                assert!(x.is_ok());
                let mut q = Reader::new(Src::with_len(data, len));
                q.skip_bits(p, o).unwrap();
                for i in 0..n {
                    let b = u8::from_reader_with_ctx(&mut q, (LE, BitSize(8), o)).unwrap();
                    assert!(buf[i] == b, "bytes returned");
                }
                p += 8 * n;
                if n > 0 { buffered = false; }
            }
            3 => {
                if p + n > avail { return; }
                assert!(r.skip_bits(n, o).is_ok());
                p += n;
                if n > 0 { buffered = false; }
            }
            4 => {
                assert!(r.end() == (p == avail), "end() is wrong");
                buffered |= p % 8 == 0 && p < avail;
            }
            _ => {
                let d = (kani::any::<u8>() % 5) as i64 - 2;
                let want = ((p + 7) / 8) as i64 + d;
                if want < 0 || want > len as i64 { continue; }
                assert!(r.seek(SeekFrom::Current(d)).unwrap() == want as u64, "position after a relative seek");
                p = 8 * want as usize;
                buffered = false;
            }
        }
        assert!(r.bits_read == p, "bits_read is not the position");
        let unread = (8 - p % 8) % 8;
        assert!(r.rest().len() == if buffered { 8 } else { unread }, "length of the rest");
        assert!(r.as_mut().pos == (p + 7) / 8 + buffered as usize, "stream position");
    }
}
