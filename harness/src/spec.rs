//! Specification functions (pure mathematics over u128, no deku code).
//!
//! A bit stream state is `(left, l)`: `l` bits of the last byte taken from the stream
//! not yet consumed, as the number `left < 2^l`.
use deku::ctx::{Endian, Order};

pub const M: Order = Order::Msb0;
pub const L: Order = Order::Lsb0;
pub const BE: Endian = Endian::Big;
pub const LE: Endian = Endian::Little;

/// low `n` bits set
pub fn mask(n: usize) -> u128 {
    if n >= 128 { u128::MAX } else { (1u128 << n) - 1 }
}

/// number of whole bytes a read of `n` bits takes from the stream when `l` are left over
pub fn bytes_needed(l: usize, n: usize) -> usize {
    if n <= l { 0 } else { (n - l + 7) / 8 }
}

/// Bits of a read of `n <= 128` bits, as a number: bit `i` of the result (0 = least
/// significant).  Msb0: the stream is most-significant-bit first.  Lsb0: the stream is a
/// little-endian integer consumed from its least significant bit.
pub fn take(left: u8, l: usize, bytes: &[u8], n: usize, order: Order) -> (u128, u8, usize) {
    let k = bytes_needed(l, n);
    let rest = l + 8 * k - n;
    if order == M {
        if k == 0 {
            let v = (left as u128) >> (l - n);
            return (v & mask(n), left & (mask(l - n) as u8), l - n);
        }
        // high part: left ++ bytes[0..k-1], then the top of bytes[k-1]
        let mut hi: u128 = left as u128;
        let mut i = 0;
        while i + 1 < k {
            hi = (hi << 8) | bytes[i] as u128;
            i += 1;
        }
        let last = bytes[k - 1] as u128;
        let v = (if rest == 8 { hi } else { (hi << (8 - rest)) | (last >> rest) }) & mask(n);
        (v, (last & mask(rest)) as u8, rest)
    } else {
        let mut v: u128 = left as u128;
        let mut i = 0;
        while i < k {
            let sh = l + 8 * i;
            if sh < 128 {
                v |= (bytes[i] as u128) << sh;
            }
            i += 1;
        }
        let out = v & mask(n);
        let rem = if k == 0 { ((left as u16) >> n) as u8 } else { ((bytes[k - 1] as u16) >> (8 - rest)) as u8 };
        (out, rem, rest)
    }
}

/// The integer an `n`-bit field means, from its raw bits.
/// Msb0/Big: the bits as they are.  Msb0/Little: the bits cut in 8-bit groups from the
/// front (the last may be short), least significant group first.  Lsb0/Little: as they
/// are.  Lsb0/Big: ceil(n/8) bytes, byte-swapped.
pub fn field_value(raw: u128, n: usize, e: Endian, order: Order) -> u128 {
    let nb = (n + 7) / 8;
    if order == M {
        if e == BE {
            return raw;
        }
        let mut v = 0u128;
        let mut i = 0;
        let mut off = 0;
        while i < nb {
            let w = if n - off < 8 { n - off } else { 8 };
            let g = (raw >> (n - off - w)) & mask(w);
            v |= g << (8 * i);
            off += w;
            i += 1;
        }
        v
    } else {
        if e == LE {
            return raw;
        }
        let mut v = 0u128;
        let mut i = 0;
        while i < nb {
            v |= ((raw >> (8 * i)) & 0xff) << (8 * (nb - 1 - i));
            i += 1;
        }
        v
    }
}

/// Inverse of `field_value` on its range.
pub fn field_bits(v: u128, n: usize, e: Endian, order: Order) -> u128 {
    let nb = (n + 7) / 8;
    if order == M {
        if e == BE {
            return v & mask(n);
        }
        let mut raw = 0u128;
        let mut i = 0;
        let mut off = 0;
        while i < nb {
            let w = if n - off < 8 { n - off } else { 8 };
            let g = (v >> (8 * i)) & mask(w);
            raw |= g << (n - off - w);
            off += w;
            i += 1;
        }
        raw
    } else {
        // byte swap is an involution
        if e == LE { v & mask(n) } else { field_value(v, 8 * nb, BE, L) & mask(n) }
    }
}

/// width of the value an `n`-bit field holds (Lsb0/Big fields of more than a byte hold
/// whole bytes, the least significant of which may be short)
pub fn value_width(n: usize, e: Endian, order: Order) -> usize {
    if order == L && e == BE && n > 8 { (n + 7) / 8 * 8 } else { n }
}

/// Is `v` (a `w`-bit container's two's complement pattern, sign-extended to 128 bits when
/// signed) a value an `n`-bit field can hold?
pub fn fits(v: u128, n: usize, e: Endian, order: Order, signed: bool) -> bool {
    let w = value_width(n, e, order);
    let inside = if signed { sext(v & mask(w), w) == v } else { v & mask(w) == v };
    let short = n % 8;
    inside && (w == n || (v & 0xff) >> short == 0)
}

/// sign extension of an `n`-bit two's complement value to 128 bits
pub fn sext(v: u128, n: usize) -> u128 {
    if n == 0 || n >= 128 { v } else { (((v << (128 - n)) as i128) >> (128 - n)) as u128 }
}

/// A write of the `n <= 128`-bit number `raw` after `l <= 7` pending bits `left` of the same
/// order: byte `i` of what reaches the stream.
pub fn put_byte(left: u8, l: usize, raw: u128, n: usize, order: Order, i: usize) -> u8 {
    if order == M {
        if i == 0 {
            let low = raw >> (n - (8 - l));
            if l == 0 { low as u8 } else { (left << (8 - l)) | low as u8 }
        } else {
            (raw >> (n - (8 - l) - 8 * i)) as u8
        }
    } else if i == 0 {
        left | (raw << l) as u8
    } else {
        (raw >> (8 * i - l)) as u8
    }
}
/// ... and what stays pending: (value, length)
pub fn put_rest(left: u8, l: usize, raw: u128, n: usize, order: Order) -> (u8, usize) {
    let k = (l + n) / 8;
    let rl = (l + n) % 8;
    if rl == 0 {
        return (0, 0);
    }
    let v = if k == 0 {
        if order == M {
            ((left as u16) << n) as u8 | raw as u8
        } else {
            left | (raw << l) as u8
        }
    } else if order == M {
        raw as u8
    } else {
        let sh = 8 * k - l;
        if sh >= 128 { 0 } else { (raw >> sh) as u8 }
    };
    (v & mask(rl) as u8, rl)
}
