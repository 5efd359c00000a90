//! C01: what an integer read returns and consumes.
use crate::common::*;
use crate::ghost::*;
#[cfg(not(kani))]
use crate::kani;
use crate::spec::*;
use deku::ctx::*;
use deku::prelude::*;

/// From any stream state with `l` leftover bits, reading an `n`-bit `T` gives exactly the
/// specified value and leaves exactly the specified state.
pub fn read_ok<T, C, const NB: usize>(ctx: C, n: usize, e: Endian, o: Order, l: usize)
where
    T: Int + for<'a> DekuReader<'a, C>,
{
    let data: [u8; NB] = kani::any();
    let left = any_left(l);
    let br = any_count();
    let mut r = reader_at(Src::new(data), left, l, br);
    let got = T::from_reader_with_ctx(&mut r, ctx);
    let (raw, rem, rl) = take(left, l, &data, n, o);
    let mut want = field_value(raw, n, e, o);
    if T::SIGNED {
        want = sext(want, value_width(n, e, o));
    }
    match got {
        Ok(v) => assert!(v.to() == T::of(want).to(), "value read is not the specified one"),
        Err(_) => panic!("read of available data failed"),
    }
    assert!(r.bits_read == br + n, "bits_read does not count the bits read");
    assert_leftover(&mut r, rem, rl);
    let s = r.into_inner();
    assert!(s.pos == bytes_needed(l, n), "stream bytes consumed differ from those needed");
    assert!(s.seeks == 0, "read seeks");
}

/// A field wider than its container is refused, whatever the stream holds, and consumes nothing.
pub fn read_refuse<T, C, const NB: usize>(ctx: C, l: usize)
where
    T: Int + for<'a> DekuReader<'a, C>,
{
    let data: [u8; NB] = kani::any();
    let left = any_left(l);
    let br = any_count();
    let mut r = reader_at(Src::new(data), left, l, br);
    let got = T::from_reader_with_ctx(&mut r, ctx);
    assert!(matches!(got, Err(DekuError::Parse(_))), "oversized field is not refused");
    assert!(r.bits_read == br);
    assert_leftover(&mut r, left, l);
    assert!(r.into_inner().pos == 0, "refused read consumed stream bytes");
}

#[cfg(not(kani))]
pub fn sampled_read<T>()
where
    T: Int + for<'a> DekuReader<'a, (Endian, BitSize, Order)> + for<'a> DekuReader<'a, (Endian, BitSize)> + for<'a> DekuReader<'a, (Endian, ByteSize, Order)>,
{
    let b: [u8; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    let (e, o) = ([BE, LE][b[0] as usize & 1], [M, L][(b[0] >> 1) as usize & 1]);
    let (n, l) = (b[1] as usize % (T::BITS + 1), b[2] as usize % 9);
    match b[3] % 3 {
        0 => read_ok::<T, _, 17>((e, BitSize(n), o), n, e, o, l),
        1 => read_ok::<T, _, 17>((e, BitSize(n)), n, e, M, l),
        _ => read_ok::<T, _, 17>((e, ByteSize(n / 8), o), n / 8 * 8, e, o, l),
    }
}
/// every size above the container's is refused
#[cfg(not(kani))]
pub fn sampled_refuse<T>()
where
    T: Int + for<'a> DekuReader<'a, (Endian, BitSize, Order)> + for<'a> DekuReader<'a, (Endian, ByteSize, Order)>,
{
    let b: [u8; 3] = kani::any();
    let n = if b[2] & 4 == 0 { T::BITS + 1 + b[1] as usize } else { kani::any() };
    let (e, o, l) = ([BE, LE][b[0] as usize & 1], [M, L][(b[0] >> 1) as usize & 1], (b[0] >> 2) as usize % 9);
    if b[2] & 1 == 0 {
        kani::assume(n > T::BITS);
        read_refuse::<T, _, 1>((e, BitSize(n), o), l)
    } else {
        kani::assume(n > T::BITS / 8);
        read_refuse::<T, _, 1>((e, ByteSize(n), o), l)
    }
}
