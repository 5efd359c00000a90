//! C02: what an integer write puts on the stream, and which values it refuses.
use crate::common::*;
use crate::ghost::*;
#[cfg(not(kani))]
use crate::kani;
use crate::spec::*;
use deku::ctx::*;
use deku::prelude::*;

pub fn any_int<T: Int>() -> T {
    T::of(kani::any::<u128>())
}

/// Writing any `T` as an `n`-bit field after `l` pending bits of the same order: a value the
/// field holds is written exactly; any other is refused, and the stream is left as it was.
/// `exact`: bit-sized field; otherwise byte-sized, which keeps the low bytes.
pub fn write_ok<T, C, const N: usize>(ctx: C, n: usize, e: Endian, o: Order, l: usize, lo: Order, exact: bool)
where
    T: Int + DekuWriter<C>,
{
    let v: T = any_int();
    let left = any_left(l);
    let bw = any_count();
    let mut sink = Sink::<N>::new();
    let mut w = writer_at(&mut sink, left, l, lo, bw);
    let r = v.to_writer(&mut w, ctx);
    let num128 = v.to();
    if !exact || fits(num128, n, e, o, T::SIGNED) {
        assert!(r.is_ok(), "value that fits is refused");
        let raw = field_bits(num128 & mask(value_width(n, e, o)), n, e, o);
        assert_written(w, left, l, raw, n, o, bw);
        assert_sink(&sink, left, l, raw, n, o);
    } else {
        assert!(matches!(r, Err(DekuError::InvalidParam(_))), "value that does not fit is not refused");
        assert_unchanged(w, left, l, lo, bw);
        assert!(sink.len == 0, "refused write reached the stream");
    }
}

pub fn assert_unchanged<const N: usize>(mut w: Writer<&mut Sink<N>>, left: u8, l: usize, lo: Order, bw: usize) {
    assert!(w.bits_written == bw);
    assert_pending(&mut w, left, l, lo);
}

/// A size above the container's is refused, whatever the value.
pub fn write_refuse<T, C>(ctx: C, l: usize, lo: Order)
where
    T: Int + DekuWriter<C>,
{
    let v: T = any_int();
    let left = any_left(l);
    let bw = any_count();
    let mut sink = Sink::<1>::new();
    let mut w = writer_at(&mut sink, left, l, lo, bw);
    let r = v.to_writer(&mut w, ctx);
    assert!(matches!(r, Err(DekuError::InvalidParam(_))), "oversized field is not refused");
    assert_unchanged(w, left, l, lo, bw);
    assert!(sink.len == 0, "refused write reached the stream");
}

#[cfg(not(kani))]
pub fn sampled_write<T>()
where
    T: Int + DekuWriter<(Endian, BitSize, Order)> + DekuWriter<(Endian, BitSize)> + DekuWriter<(Endian, ByteSize, Order)> + DekuWriter<(Endian, ByteSize)>,
{
    let b: [u8; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    let (e, o) = ([BE, LE][b[0] as usize & 1], [M, L][(b[0] >> 1) as usize & 1]);
    let (n, l) = (1 + b[1] as usize % T::BITS, b[2] as usize % 8);
    let lo = if l == 0 && b[3] & 64 != 0 { L } else { o };
    let lom = if l == 0 && b[3] & 64 != 0 { L } else { M };
    match b[3] % 4 {
        0 => write_ok::<T, _, 18>((e, BitSize(n), o), n, e, o, l, lo, true),
        1 => write_ok::<T, _, 18>((e, BitSize(n)), n, e, M, l, lom, true),
        2 => write_ok::<T, _, 18>((e, ByteSize(n / 8), o), n / 8 * 8, e, o, l, lo, false),
        _ => write_ok::<T, _, 18>((e, ByteSize(n / 8)), n / 8 * 8, e, M, l, lom, false),
    }
}
#[cfg(not(kani))]
pub fn sampled_write_refuse<T>()
where
    T: Int + DekuWriter<(Endian, BitSize, Order)> + DekuWriter<(Endian, BitSize)> + DekuWriter<(Endian, ByteSize, Order)>,
{
    let b: [u8; 3] = kani::any();
    let n = if b[2] & 4 == 0 { T::BITS + 1 + b[1] as usize } else { kani::any() };
    let (e, o, l) = ([BE, LE][b[0] as usize & 1], [M, L][(b[0] >> 1) as usize & 1], (b[0] >> 2) as usize % 8);
    kani::assume(n > T::BITS);
    match b[2] & 3 {
        0 => write_refuse::<T, _>((e, BitSize(n), o), l, o),
        1 => write_refuse::<T, _>((e, BitSize(n)), l, M),
        _ => write_refuse::<T, _>((e, ByteSize(n), o), l, o),
    }
}
