//! C09: what each attribute of a derived struct does, on reading and on writing.
//! Every contract quantifies over all input bytes / all field values.
use crate::ghost::*;
use crate::io::*;
#[cfg(not(kani))]
use crate::kani;
use crate::spec::{BE, L, LE, M};
use alloc::vec;
use alloc::vec::Vec;
use deku::ctx::{BitSize, ByteSize, Endian, Order};
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;

fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
fn be(a: u8, b: u8) -> u16 {
    u16::from_be_bytes([a, b])
}
fn le(a: u8, b: u8) -> u16 {
    u16::from_le_bytes([a, b])
}

// ---- endian
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct EndianS {
    a: u16,
    #[deku(endian = "little")]
    b: u16,
    c: u16,
    d: EndianChild,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "endian", ctx = "endian: deku::ctx::Endian")]
pub struct EndianChild {
    x: u16,
    #[deku(endian = "big")]
    y: u16,
}
pub fn endian_read() {
    let d: [u8; 10] = any();
    read_is(d, 80, EndianS { a: be(d[0], d[1]), b: le(d[2], d[3]), c: be(d[4], d[5]), d: EndianChild { x: be(d[6], d[7]), y: be(d[8], d[9]) } });
}
pub fn endian_write() {
    let (a, b, c, x, y): (u16, u16, u16, u16, u16) = (any(), any(), any(), any(), any());
    let (p, q, r, s, t) = (a.to_be_bytes(), b.to_le_bytes(), c.to_be_bytes(), x.to_be_bytes(), y.to_be_bytes());
    wrote(&EndianS { a, b, c, d: EndianChild { x, y } }, [p[0], p[1], q[0], q[1], r[0], r[1], s[0], s[1], t[0], t[1]]);
}
// a child takes the endianness of its field
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct EndianField {
    #[deku(endian = "little")]
    d: EndianChild,
    e: u16,
}
pub fn endian_field_read() {
    let d: [u8; 6] = any();
    read_is(d, 48, EndianField { d: EndianChild { x: le(d[0], d[1]), y: be(d[2], d[3]) }, e: be(d[4], d[5]) });
}
pub fn endian_field_write() {
    let (x, y, e): (u16, u16, u16) = (any(), any(), any());
    let (p, q, r) = (x.to_le_bytes(), y.to_be_bytes(), e.to_be_bytes());
    wrote(&EndianField { d: EndianChild { x, y }, e }, [p[0], p[1], q[0], q[1], r[0], r[1]]);
}

// ---- bits, bytes
pub fn bits_read() {
    let d: [u8; 3] = any();
    let w = be(d[0], d[1]);
    let c = (w & 3) as i8;
    read_is(d, 24, Bits { a: (w >> 13) as u8, b: (w >> 3) & 0x3ff, f: w >> 2 & 1 == 1, c: if c > 1 { c - 4 } else { c }, e: d[2] });
}
pub fn lsb_read() {
    let d: [u8; 4] = any();
    read_is(d, 32, LsbBits { a: d[0] & 7, b: d[0] >> 3, c: d[1] & 15, e: d[1] >> 4, f: be(d[2], d[3]) });
}
pub fn lsb_field_read() {
    let d: [u8; 3] = any();
    let w = le(d[0], d[1]);
    read_is(d, 24, LsbField { a: w & 0x1fff, b: (w >> 13) as u8, c: d[2] });
}
// bit order handed to a child, and to the child's child
pub fn order_child_read() {
    let d: [u8; 1] = any();
    read_is(d, 8, LsbParent { a: d[0] & 3, c: OrderChild { x: d[0] >> 2 & 15, y: d[0] >> 6 } });
}
// a child that cares for neither
pub fn override_read() {
    let d: [u8; 5] = any();
    read_is(d, 40, Override { a: be(d[0], d[1] & 31), t: d[1] >> 5, c: OverrideChild { f: d[2] >> 7 == 1, x: d[2] & 127, y: be(d[3], d[4]) } });
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Bytes {
    #[deku(bytes = 3, endian = "big")]
    a: u32,
    #[deku(bytes = 1)]
    b: i32,
    #[deku(bytes = 2, endian = "little")]
    c: i32,
}
pub fn bytes_read() {
    let d: [u8; 6] = any();
    read_is(d, 48, Bytes { a: u32::from_be_bytes([0, d[0], d[1], d[2]]), b: d[3] as i8 as i32, c: le(d[4], d[5]) as i16 as i32 });
}
pub fn bytes_write() {
    let d: [u8; 6] = any();
    wrote(&Bytes { a: u32::from_be_bytes([0, d[0], d[1], d[2]]), b: d[3] as i8 as i32, c: le(d[4], d[5]) as i16 as i32 }, d);
}
// sizes from other fields and expressions
pub fn dyn_bits_read<const K: u8>() {
    let t: [u8; 2] = any();
    let w = be(t[0], t[1]);
    let d = [K, t[0], t[1]];
    read_is(d, 24, DynBits { n: K, a: w >> (16 - K), b: crate::spec::field_value((w & ((1u32 << (16 - K)) - 1) as u16) as u128, 16 - K as usize, LE, M) as u16 });
}

// ---- count, limits
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Count {
    #[deku(update = "self.v.len()")]
    n: u8,
    #[deku(count = "n", endian = "big")]
    v: Vec<u16>,
    z: u8,
}
pub fn count_read<const K: usize>() {
    let t: [u8; 5] = any();
    let d = [K as u8, t[0], t[1], t[2], t[3], t[4]];
    let r = rd::<Count, 6>(d);
    assert!(r.n == 16 + 16 * K, "bits consumed");
    let v = match r.v { Ok(v) => v, Err(_) => panic!("valid input is refused") };
    assert!(v.n == K as u8 && v.v.len() == K && v.z == t[2 * K]);
    let mut i = 0;
    while i < K {
        assert!(v.v[i] == be(t[2 * i], t[2 * i + 1]), "element");
        i += 1;
    }
}
/// update makes the length field agree with the elements; without it the stored value is written
pub fn count_write() {
    let (n, a, b, z): (u8, u16, u16, u8) = (any(), any(), any(), any());
    let mut v = Count { n, v: vec![a, b], z };
    let (p, q) = (a.to_be_bytes(), b.to_be_bytes());
    wrote(&v, [n, p[0], p[1], q[0], q[1], z]);
    assert!(v.update().is_ok());
    assert!(v.n == 2 && v.z == z, "update");
    wrote(&v, [2, p[0], p[1], q[0], q[1], z]);
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct BytesRead {
    #[deku(bytes_read = "2 * 2", endian = "big")]
    v: Vec<u16>,
    #[deku(bits_read = "8")]
    w: Vec<u8>,
    #[deku(until = "|x: &u8| *x == 0xff")]
    u: Vec<u8>,
}
pub fn limits_read<const K: usize>() {
    let t: [u8; 8] = any();
    let mut d = t;
    let mut i = 5;
    while i < 8 {
        kani::assume(d[i] != 0xff);
        i += 1;
    }
    d[5 + K] = 0xff;
    let r = rd::<BytesRead, 8>(d);
    assert!(r.n == 40 + 8 * (K + 1), "bits consumed");
    let v = match r.v { Ok(v) => v, Err(_) => panic!("valid input is refused") };
    assert!(v.v.len() == 2 && v.v[0] == be(d[0], d[1]) && v.v[1] == be(d[2], d[3]), "bytes_read");
    assert!(v.w.len() == 1 && v.w[0] == d[4], "bits_read");
    assert!(v.u.len() == K + 1, "until");
    let mut i = 0;
    while i <= K {
        assert!(v.u[i] == d[5 + i], "until");
        i += 1;
    }
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct ReadAll {
    a: u8,
    #[deku(read_all, endian = "little")]
    v: Vec<u16>,
}
pub fn read_all() {
    let d: [u8; 5] = any();
    let r = rd::<ReadAll, 5>(d);
    assert!(r.n == 40);
    let v = match r.v { Ok(v) => v, Err(_) => panic!("valid input is refused") };
    assert!(v.a == d[0] && v.v.len() == 2 && v.v[0] == le(d[1], d[2]) && v.v[1] == le(d[3], d[4]));
}

// ---- cond, default, skip
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct Cond {
    f: u8,
    #[deku(cond = "*f == 1", default = "0x1234")]
    a: u16,
    #[deku(cond = "*a > 0x8000")]
    b: Option<u8>,
    #[deku(skip, default = "*f ^ 0xff")]
    s: u8,
    #[deku(skip, cond = "*f == 1", default = "7")]
    t: u8,
    #[deku(skip)]
    u: u8,
    z: u8,
}
pub fn cond_read_yes() {
    let t: [u8; 4] = any();
    let d = [1, t[0], t[1], t[2], t[3]];
    let a = be(t[0], t[1]);
    let big = a > 0x8000;
    // skip with a condition: skipped when it holds
    read_is(d, if big { 40 } else { 32 }, Cond { f: 1, a, b: if big { Some(t[2]) } else { None }, s: 0xfe, t: 7, u: 0, z: if big { t[3] } else { t[2] } });
}
pub fn cond_read_no() {
    let d: [u8; 3] = any();
    kani::assume(d[0] != 1);
    read_is(d, 24, Cond { f: d[0], a: 0x1234, b: None, s: d[0] ^ 0xff, t: d[1], u: 0, z: d[2] });
}
pub fn cond_write_yes() {
    let (a, s, t, u, z): (u16, u8, u8, u8, u8) = (any(), any(), any(), any(), any());
    kani::assume(a <= 0x8000);
    let p = a.to_be_bytes();
    wrote(&Cond { f: 1, a, b: None, s, t, u, z }, [1, p[0], p[1], z]);
}
pub fn cond_write_some() {
    let (a, b, s, t, u, z): (u16, u8, u8, u8, u8, u8) = (any(), any(), any(), any(), any(), any());
    kani::assume(a > 0x8000);
    let p = a.to_be_bytes();
    wrote(&Cond { f: 1, a, b: Some(b), s, t, u, z }, [1, p[0], p[1], b, z]);
}
pub fn cond_write_no() {
    let (f, a, s, t, u, z): (u8, u16, u8, u8, u8, u8) = (any(), any(), any(), any(), any(), any());
    kani::assume(f != 1 && a <= 0x8000);
    // `cond` alone is about reading; with `skip` it says when to skip
    let p = a.to_be_bytes();
    wrote(&Cond { f, a, b: None, s, t, u, z }, [f, p[0], p[1], t, z]);
}

// ---- temp, temp_value
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq)]
pub struct TempByte {
    #[deku(temp, temp_value = "self.v.len() as u8")]
    pub n: u8,
    pub m: u8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(temp, temp_value = "self.v[0] ^ 0x5a")]
    pub sum: u8,
    #[deku(skip, default = "*sum")]
    pub copy: u8,
}
pub fn temp_read() {
    let t: [u8; 4] = any();
    let r = rd::<TempByte, 5>([2, t[0], t[1], t[2], t[3]]);
    assert!(r.n == 40);
    let v = match r.v { Ok(v) => v, Err(_) => panic!("valid input is refused") };
    assert!(v.m == t[0] && v.v.len() == 2 && v.v[0] == t[1] && v.v[1] == t[2] && v.copy == t[3]);
}
pub fn temp_bits_read() {
    let t: [u8; 4] = any();
    let d = [0x20 | (t[0] & 15), t[1], t[2], t[3]];
    let r = rd::<Temp, 4>(d);
    assert!(r.n == 32);
    let v = match r.v { Ok(v) => v, Err(_) => panic!("valid input is refused") };
    assert!(v.m == t[0] & 15 && v.v.len() == 2 && v.v[0] == t[1] && v.v[1] == t[2] && v.copy == t[3]);
}

// ---- magic
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(magic = b"dk")]
pub struct Magic {
    a: u8,
    #[deku(magic = b"\xf0")]
    b: u8,
}
pub fn magic_read() {
    let d: [u8; 5] = any();
    let r = rd::<Magic, 5>(d);
    if d[0] == b'd' && d[1] == b'k' && d[3] == 0xf0 {
        assert!(matches!(r.v, Ok(Magic { a, b }) if a == d[2] && b == d[4]), "right magic is refused");
        assert!(r.n == 40);
    } else {
        assert!(matches!(r.v, Err(DekuError::Parse(_))), "wrong magic is accepted");
    }
}
pub fn magic_write() {
    let (a, b): (u8, u8) = (any(), any());
    wrote(&Magic { a, b }, [b'd', b'k', a, 0xf0, b]);
}

// ---- padding
pub fn pad_read() {
    let d: [u8; 7] = any();
    read_is(d, 56, Pad { a: d[2], b: d[3] & 31, c: d[4] >> 4, e: d[4] & 3, f: d[6] & 15 });
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct PadDyn {
    n: u8,
    #[deku(pad_bytes_before = "*n as usize", pad_bytes_after = "(*n as usize) / 2")]
    a: u8,
    z: u8,
}
pub fn pad_dyn_read<const K: u8>() {
    let t: [u8; 6] = any();
    let k = K as usize;
    let mut d = [0; 7];
    d[0] = K;
    let mut i = 0;
    while i < 6 {
        d[1 + i] = t[i];
        i += 1;
    }
    read_is(d, 8 * (3 + k + k / 2), PadDyn { n: K, a: d[1 + k], z: d[2 + k + k / 2] });
}
pub fn pad_dyn_write() {
    let (a, z): (u8, u8) = (any(), any());
    wrote(&PadDyn { n: 0, a, z }, [0, a, z]);
    wrote(&PadDyn { n: 1, a, z }, [1, 0, a, z]);
    wrote(&PadDyn { n: 3, a, z }, [3, 0, 0, 0, a, 0, z]);
}
/// padding of any length, here beyond a block
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct PadLong {
    #[deku(pad_bytes_before = "65")]
    a: u8,
}
pub fn pad_long_read() {
    let mut d: [u8; 66] = [0xa5; 66];
    (d[64], d[65]) = (any(), any());
    read_is(d, 8 * 66, PadLong { a: d[65] });
}
pub fn pad_long_write() {
    let a = any();
    let w = wr::<_, 66>(&PadLong { a });
    assert!(w.r.is_ok() && w.len == 66, "length of the padding");
    assert!(w.data[0] == 0 && w.data[63] == 0 && w.data[64] == 0 && w.data[65] == a);
}
pub fn pad_lsb_read() {
    let d: [u8; 2] = any();
    read_is(d, 16, PadLsb { a: d[0] >> 3 & 3, b: d[0] >> 5 & 1, c: d[1] & 15 });
}

// ---- assert, assert_eq
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Assert {
    #[deku(assert = "*a >= 0x10")]
    a: u8,
    #[deku(assert_eq = "0x20")]
    b: u8,
    #[deku(assert = "*c > *a && *c != *b")]
    c: u8,
}
pub fn assert_read() {
    let d: [u8; 3] = any();
    let ok = d[0] >= 0x10 && d[1] == 0x20 && d[2] > d[0] && d[2] != d[1];
    let r = rd::<Assert, 3>(d);
    if ok {
        assert!(matches!(r.v, Ok(Assert { a, b, c }) if a == d[0] && b == d[1] && c == d[2]), "assertions that hold are refused");
    } else {
        assert!(matches!(r.v, Err(DekuError::Assertion(_))), "violated assertion is accepted");
    }
}
pub fn assert_write() {
    let (a, b, c): (u8, u8, u8) = (any(), any(), any());
    let v = Assert { a, b, c };
    if a >= 0x10 && b == 0x20 && c > a && c != b {
        wrote(&v, [a, b, c]);
    } else {
        assert!(matches!(wr::<_, 3>(&v).r, Err(DekuError::Assertion(_))), "violated assertion is written");
    }
}

// ---- map, update
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Map {
    #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x ^ 0x80) }")]
    a: u8,
    #[deku(endian = "big", map = "Map::odd")]
    b: u32,
}
impl Map {
    fn odd(x: u16) -> Result<u32, DekuError> {
        if x & 1 == 1 { Ok(x as u32 * 2) } else { Err(DekuError::Parse("even".into())) }
    }
}
pub fn map_read() {
    let d: [u8; 3] = any();
    let r = rd::<Map, 3>(d);
    if d[2] & 1 == 1 {
        assert!(matches!(r.v, Ok(Map { a, b }) if a == d[0] ^ 0x80 && b == 2 * be(d[1], d[2]) as u32), "mapped value");
        assert!(r.n == 24);
    } else {
        assert!(matches!(r.v, Err(DekuError::Parse(_))), "error of the map is dropped");
    }
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Update {
    #[deku(update = "self.b ^ 0xff")]
    a: u8,
    b: u8,
    #[deku(update = "self.a as u16 + 1")]
    c: u16,
    #[deku(update = "self.c")]
    e: u8,
}
/// updates run in declaration order; one that does not convert is an error
pub fn update() {
    let (a, b, c, e): (u8, u8, u16, u8) = (any(), any(), any(), any());
    let mut v = Update { a, b, c, e };
    let r = v.update();
    assert!(v.a == b ^ 0xff && v.b == b && v.c == (b ^ 0xff) as u16 + 1, "update");
    if b == 0 {
        assert!(matches!(r, Err(DekuError::Parse(_))), "update that does not fit");
    } else {
        assert!(r.is_ok() && v.e as u16 == v.c);
    }
}

// ---- ctx, ctx_default
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "k: u8, w: u16")]
pub struct CtxChild {
    #[deku(map = "|x: u8| -> Result<_, DekuError> { Ok(x.wrapping_add(k)) }", writer = "x.wrapping_sub(k).to_writer(deku::writer, ())")]
    x: u8,
    #[deku(cond = "w == 3", default = "9")]
    y: u8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Ctx {
    k: u8,
    #[deku(ctx = "*k, 3")]
    a: CtxChild,
    #[deku(ctx = "k ^ 1, 4")]
    b: CtxChild,
}
pub fn ctx_read() {
    let d: [u8; 4] = any();
    read_is(d, 32, Ctx { k: d[0], a: CtxChild { x: d[1].wrapping_add(d[0]), y: d[2] }, b: CtxChild { x: d[3].wrapping_add(d[0] ^ 1), y: 9 } });
}
pub fn ctx_write() {
    let (k, p, q, r, s): (u8, u8, u8, u8, u8) = (any(), any(), any(), any(), any());
    wrote(&Ctx { k, a: CtxChild { x: p, y: q }, b: CtxChild { x: r, y: s } }, [k, p.wrapping_sub(k), q, r.wrapping_sub(k ^ 1), s]);
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "n: usize, c: u8", ctx_default = "1, 5")]
pub struct CtxDefault {
    #[deku(count = "n")]
    v: Vec<u8>,
    #[deku(skip, default = "c")]
    e: u8,
}
pub fn ctx_default() {
    let d: [u8; 2] = any();
    let r = rd::<CtxDefault, 2>(d);
    assert!(r.n == 8 && matches!(r.v, Ok(v) if v.v.len() == 1 && v.v[0] == d[0] && v.e == 5), "default context");
    let r = rd_ctx::<CtxDefault, _, 2>(Src::new(d), (2usize, d[0]));
    assert!(r.n == 16 && matches!(r.v, Ok(v) if v.v.len() == 2 && v.v[1] == d[1] && v.e == d[0]), "given context");
}

// ---- custom reader and writer
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Custom {
    a: u8,
    #[deku(reader = "Custom::r(deku::reader, *a)", writer = "Custom::w(deku::writer, *b, self.a)")]
    b: u16,
    c: u8,
}
impl Custom {
    fn r<R: Read + Seek>(r: &mut Reader<R>, a: u8) -> Result<u16, DekuError> {
        let x = u8::from_reader_with_ctx(r, ())?;
        Ok(u16::from_be_bytes([a, x]))
    }
    fn w<W: Write + Seek>(w: &mut Writer<W>, b: u16, a: u8) -> Result<(), DekuError> {
        (b as u8 ^ a).to_writer(w, ())
    }
}
pub fn custom_read() {
    let d: [u8; 3] = any();
    read_is(d, 24, Custom { a: d[0], b: be(d[0], d[1]), c: d[2] });
}
pub fn custom_write() {
    let (a, b, c): (u8, u16, u8) = (any(), any(), any());
    wrote(&Custom { a, b, c }, [a, b as u8 ^ a, c]);
}

// ---- position variables, tuple structs, generics
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Offsets {
    #[deku(bits = 4)]
    a: u8,
    #[deku(skip, default = "deku::bit_offset as u8")]
    b: u8,
    #[deku(bits = 12, endian = "big")]
    c: u16,
    #[deku(skip, default = "deku::byte_offset as u8 * 10")]
    e: u8,
    f: u8,
}
pub fn offsets() {
    let d: [u8; 3] = any();
    read_is(d, 24, Offsets { a: d[0] >> 4, b: 4, c: be(d[0] & 15, d[1]), e: 20, f: d[2] });
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Gen<T>(#[deku(endian = "big")] u16, T, #[deku(count = "2", ctx = "Endian::Little")] Vec<u16>)
where
    T: for<'a> DekuReader<'a> + DekuWriter;
pub fn generic_read() {
    let d: [u8; 7] = any();
    let r = rd::<Gen<u8>, 7>(d);
    assert!(r.n == 56 && matches!(r.v, Ok(Gen(a, b, v)) if a == be(d[0], d[1]) && b == d[2] && v.len() == 2 && v[0] == le(d[3], d[4]) && v[1] == le(d[5], d[6])));
}
pub fn generic_write() {
    let d: [u8; 7] = any();
    wrote(&Gen(be(d[0], d[1]), d[2], vec![le(d[3], d[4]), le(d[5], d[6])]), d);
}

/// a value that does not fit its bits is refused, whatever is before and after it
pub fn bits_refuse() {
    let (a, b, f, c, e): (u8, u16, bool, i8, u8) = (any(), any(), any(), any(), any());
    kani::assume(!(a < 8 && b < 1024 && c >= -2 && c < 2));
    let v = Bits { a, b, f, c, e };
    assert!(matches!(wr::<_, 3>(&v).r, Err(DekuError::InvalidParam(_))), "value that does not fit its bits is written");
}
macro_rules! twin { ($($t:tt)*) => {
    /// with the real integers
    pub mod real {
        use super::*;
        pub type Fu8 = u8;
        pub type Fu16 = u16;
        pub type Fi8 = i8;
        pub type Fb = bool;
        pub fn n8(x: u8) -> u8 { x }
        pub fn n16(x: u16) -> u16 { x }
        pub fn i8_(x: i8) -> i8 { x }
        pub fn nb(x: bool) -> bool { x }
        $($t)*
    }
    /// with the contract of integer fields in their place
    pub mod over_contract {
        use super::*;
        use crate::nat::Nat;
        pub type Fu8 = Nat;
        pub type Fu16 = Nat;
        pub type Fi8 = Nat;
        pub type Fb = Nat;
        pub fn n8(x: u8) -> Nat { Nat(x as u32) }
        pub fn n16(x: u16) -> Nat { Nat(x as u32) }
        pub fn i8_(x: i8) -> Nat { Nat(x as u32) }
        pub fn nb(x: bool) -> Nat { Nat(x as u32) }
        $($t)*
    }
} }
twin! {
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big")]
pub struct Bits {
    #[deku(bits = 3)]
    pub a: Fu8,
    #[deku(bits = 10)]
    pub b: Fu16,
    #[deku(bits = 1)]
    pub f: Fb,
    #[deku(bits = 2)]
    pub c: Fi8,
    pub e: u8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct LsbBits {
    #[deku(bits = 3)]
    pub a: Fu8,
    #[deku(bits = 5)]
    pub b: Fu8,
    #[deku(bits = 4)]
    pub c: Fu8,
    #[deku(bits = 4)]
    pub e: Fu8,
    pub f: u16,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct LsbField {
    #[deku(bit_order = "lsb", bits = 13, endian = "little")]
    pub a: Fu16,
    #[deku(bit_order = "lsb", bits = 3)]
    pub b: Fu8,
    pub c: u8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct LsbParent {
    #[deku(bits = 2)]
    pub a: Fu8,
    pub c: OrderChild,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(bit_order = "o", ctx = "o: deku::ctx::Order")]
pub struct OrderChild {
    #[deku(bits = 4)]
    pub x: Fu8,
    #[deku(bits = 2)]
    pub y: Fu8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "lsb")]
pub struct Override {
    #[deku(bits = 13)]
    pub a: Fu16,
    #[deku(bits = 3)]
    pub t: Fu8,
    pub c: OverrideChild,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(endian = "big", bit_order = "msb", ctx = "_: deku::ctx::Endian, _: deku::ctx::Order")]
pub struct OverrideChild {
    #[deku(bits = 1)]
    pub f: Fb,
    #[deku(bits = 7)]
    pub x: Fu8,
    pub y: u16,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct DynBits {
    pub n: u8,
    #[deku(bits = "*n as usize", endian = "big")]
    pub a: Fu16,
    #[deku(bits = "16 - *n as usize")]
    pub b: Fu16,
}
#[deku_derive(DekuRead, DekuWrite)]
#[derive(PartialEq)]
pub struct Temp {
    #[deku(temp, temp_value = "self.v.len() as u8", bits = 4)]
    pub n: u8,
    #[deku(bits = 4)]
    pub m: Fu8,
    #[deku(count = "n")]
    pub v: Vec<u8>,
    #[deku(temp, temp_value = "self.v[0] ^ 0x5a")]
    pub sum: u8,
    #[deku(skip, default = "*sum")]
    pub copy: u8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct Pad {
    #[deku(pad_bytes_before = "2")]
    pub a: u8,
    #[deku(pad_bits_before = "3", bits = 5)]
    pub b: Fu8,
    #[deku(bits = 4, pad_bits_after = "2")]
    pub c: Fu8,
    #[deku(bits = 2, pad_bytes_after = "1")]
    pub e: Fu8,
    #[deku(pad_bits_before = "4", bits = 4)]
    pub f: Fu8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(bit_order = "lsb")]
pub struct PadLsb {
    #[deku(pad_bits_before = "3", bits = 2)]
    pub a: Fu8,
    #[deku(bits = 1, pad_bits_after = "2")]
    pub b: Fu8,
    #[deku(bits = 4, pad_bits_after = "4")]
    pub c: Fu8,
}
pub fn bits_write() {
    let (w, e): (u16, u8) = (any(), any());
    let c = (w & 3) as i8;
    let v = Bits { a: n8((w >> 13) as u8), b: n16((w >> 3) & 0x3ff), f: nb(w >> 2 & 1 == 1), c: i8_(if c > 1 { c - 4 } else { c }), e };
    wrote(&v, [(w >> 8) as u8, w as u8, e]);
}
pub fn lsb_write() {
    let d: [u8; 4] = any();
    wrote(&LsbBits { a: n8(d[0] & 7), b: n8(d[0] >> 3), c: n8(d[1] & 15), e: n8(d[1] >> 4), f: be(d[2], d[3]) }, d);
}
pub fn lsb_field_write() {
    let d: [u8; 3] = any();
    let w = le(d[0], d[1]);
    wrote(&LsbField { a: n16(w & 0x1fff), b: n8((w >> 13) as u8), c: d[2] }, d);
}
pub fn order_child_write() {
    let d: [u8; 1] = any();
    wrote(&LsbParent { a: n8(d[0] & 3), c: OrderChild { x: n8(d[0] >> 2 & 15), y: n8(d[0] >> 6) } }, d);
}
pub fn override_write() {
    let d: [u8; 5] = any();
    wrote(&Override { a: n16(be(d[0], d[1] & 31)), t: n8(d[1] >> 5), c: OverrideChild { f: nb(d[2] >> 7 == 1), x: n8(d[2] & 127), y: be(d[3], d[4]) } }, d);
}
pub fn dyn_bits_write<const K: u8>() {
    let w: u16 = any();
    let b = w & ((1u32 << (16 - K)) - 1) as u16;
    let t = w.to_be_bytes();
    wrote(&DynBits { n: K, a: n16(w >> (16 - K)), b: n16(crate::spec::field_value(b as u128, 16 - K as usize, LE, M) as u16) }, [K, t[0], t[1]]);
}
pub fn temp_write() {
    let (m, a, b, copy): (u8, u8, u8, u8) = (any(), any(), any(), any());
    kani::assume(m < 16);
    wrote(&Temp { m: n8(m), v: vec![a, b], copy }, [0x20 | m, a, b, a ^ 0x5a]);
}
pub fn pad_write() {
    let d: [u8; 4] = any();
    wrote(&Pad { a: d[0], b: n8(d[1] & 31), c: n8(d[2] >> 4), e: n8(d[2] & 3), f: n8(d[3] & 15) }, [0, 0, d[0], d[1] & 31, d[2] & 0xf3, 0, d[3] & 15]);
}
pub fn pad_lsb_write() {
    let d: [u8; 2] = any();
    wrote(&PadLsb { a: n8(d[0] >> 3 & 3), b: n8(d[0] >> 5 & 1), c: n8(d[1] & 15) }, [d[0] & 0x38, d[1] & 15]);
}
}
use real::*;
