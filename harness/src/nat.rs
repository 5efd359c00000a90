//! `Nat`: a field type that is the contract of integer fields (what C01 and C02 prove of the real
//! integer types), for verifying the code that uses fields against that contract.  Its value is a
//! number; a field of `n` bits takes the low `n` bits of it.
use crate::spec::*;
use deku::bitvec::{BitSlice, Msb0};
use deku::ctx::*;
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;

#[derive(Clone, Copy, PartialEq)]
pub struct Nat(pub u32);

fn rd<R: Read + Seek>(r: &mut Reader<R>, n: usize, e: Endian, o: Order) -> Result<Nat, DekuError> {
    let mut buf = [0u8; 4];
    r.read_bits_into(&mut BitSlice::<u8, Msb0>::from_slice_mut(&mut buf)[..n], o)?;
    let raw = if n == 0 { 0 } else { u32::from_be_bytes(buf) >> (32 - n) };
    Ok(Nat(field_value(raw as u128, n, e, o) as u32))
}
fn wr<W: Write + Seek>(v: Nat, w: &mut Writer<W>, n: usize, e: Endian, o: Order) -> Result<(), DekuError> {
    if n == 0 {
        return Ok(());
    }
    let raw = field_bits(v.0 as u128 & mask(value_width(n, e, o)), n, e, o) as u32;
    let buf = (raw << (32 - n)).to_be_bytes();
    w.write_bits_order(&BitSlice::<u8, Msb0>::from_slice(&buf)[..n], o)
}
macro_rules! forms { ($($c:ty, $p:pat => $n:expr, $e:expr, $o:expr;)*) => {$(
impl DekuReader<'_, $c> for Nat {
    fn from_reader_with_ctx<R: Read + Seek>(r: &mut Reader<R>, $p: $c) -> Result<Nat, DekuError> {
        rd(r, $n, $e, $o)
    }
}
impl DekuWriter<$c> for Nat {
    fn to_writer<W: Write + Seek>(&self, w: &mut Writer<W>, $p: $c) -> Result<(), DekuError> {
        wr(*self, w, $n, $e, $o)
    }
})*} }
forms! {
    (Endian, BitSize, Order), (e, n, o) => n.0, e, o;
    (Endian, ByteSize, Order), (e, n, o) => 8 * n.0, e, o;
    (Endian, BitSize), (e, n) => n.0, e, M;
    (Endian, ByteSize), (e, n) => 8 * n.0, e, M;
    (BitSize, Order), (n, o) => n.0, LE, o;
    BitSize, n => n.0, LE, M;
    ByteSize, n => 8 * n.0, LE, M;
}
