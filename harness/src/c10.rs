//! C10: enums are selected and written by their id.  The id in the data is unconstrained in every
//! reading contract.
use crate::ghost::*;
use crate::io::*;
#[cfg(not(kani))]
use crate::kani;
use deku::ctx::{BitSize, Endian, Order};
use deku::no_std_io::{Read, Seek, Write};
use deku::prelude::*;

fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
fn be(a: u8, b: u8) -> u16 {
    u16::from_be_bytes([a, b])
}
fn le(a: u8, b: u8) -> u16 {
    u16::from_le_bytes([a, b])
}
fn got<T: PartialEq, const N: usize>(d: [u8; N], want: Option<(usize, T)>)
where
    T: for<'a> DekuReader<'a>,
{
    let r = rd::<T, N>(d);
    match (r.v, want) {
        (Ok(v), Some((n, w))) => {
            assert!(v == w, "another variant or value than the id says");
            assert!(r.n == n, "bits consumed");
        }
        (Err(DekuError::Parse(_)), None) => {}
        (Err(_), None) => panic!("not the parse error an unknown id gives"),
        (Ok(_), None) => panic!("an id that no variant has is accepted"),
        (Err(_), Some(_)) => panic!("the id of a variant is refused"),
    }
}

// ---- ids, no default
pub const FOUR: u8 = 2 + 2;
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum Plain {
    #[deku(id = 1)]
    A,
    #[deku(id = "0x80")]
    B(u8),
    #[deku(id = 3)]
    C {
        #[deku(endian = "big")]
        x: u16,
    },
    #[deku(id = "FOUR")]
    D(u8, u8),
}
pub fn plain_read() {
    let d: [u8; 3] = any();
    got(d, match d[0] {
        1 => Some((8, Plain::A)),
        0x80 => Some((16, Plain::B(d[1]))),
        3 => Some((24, Plain::C { x: be(d[1], d[2]) })),
        4 => Some((24, Plain::D(d[1], d[2]))),
        _ => None,
    });
}
pub fn plain_write() {
    let (x, y): (u8, u8) = (any(), any());
    wrote(&Plain::A, [1]);
    wrote(&Plain::B(x), [0x80, x]);
    wrote(&Plain::C { x: be(x, y) }, [3, x, y]);
    wrote(&Plain::D(x, y), [4, x, y]);
}
pub fn plain_id() {
    let (x, y): (u8, u8) = (any(), any());
    assert!(matches!(Plain::A.deku_id(), Ok(1)));
    assert!(matches!(Plain::B(x).deku_id(), Ok(0x80)));
    assert!(matches!(Plain::C { x: be(x, y) }.deku_id(), Ok(3)));
    assert!(matches!(Plain::D(x, y).deku_id(), Ok(4)));
}

// ---- an explicit default variant, which is not the last and has an id of its own
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum Default {
    #[deku(id = 1)]
    A(u8),
    #[deku(id = 2, default)]
    B(u8),
    #[deku(id = 3)]
    C,
}
pub fn default_read() {
    let d: [u8; 2] = any();
    got(d, Some(match d[0] {
        1 => (16, Default::A(d[1])),
        3 => (8, Default::C),
        _ => (16, Default::B(d[1])),
    }));
}
pub fn default_write() {
    let x: u8 = any();
    wrote(&Default::A(x), [1, x]);
    wrote(&Default::B(x), [2, x]);
    wrote(&Default::C, [3]);
    assert!(matches!(Default::B(x).deku_id(), Ok(2)) && matches!(Default::C.deku_id(), Ok(3)));
}

// ---- patterns: the first match in declaration order
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum Pat {
    #[deku(id = 5)]
    Five,
    #[deku(id_pat = "4..=6 | 0x20")]
    Low(u8),
    #[deku(id_pat = "0..=0x1f")]
    Mid { id: u8, x: u8 },
    #[deku(id_pat = "&id if id > 0xf0")]
    Guard(u8),
    #[deku(id = 0xf1)]
    Never,
    #[deku(id_pat = "_")]
    Rest { id: u8, x: u8 },
}
pub fn pat_read() {
    let d: [u8; 2] = any();
    got(d, Some(match d[0] {
        5 => (8, Pat::Five),
        4 | 6 | 0x20 => (8, Pat::Low(d[0])),
        0..=0x1f => (16, Pat::Mid { id: d[0], x: d[1] }),
        0xf1..=0xff => (8, Pat::Guard(d[0])),
        _ => (16, Pat::Rest { id: d[0], x: d[1] }),
    }));
}
pub fn pat_write() {
    let (id, x): (u8, u8) = (any(), any());
    wrote(&Pat::Five, [5]);
    wrote(&Pat::Low(id), [id]);
    wrote(&Pat::Mid { id, x }, [id, x]);
    wrote(&Pat::Guard(id), [id]);
    wrote(&Pat::Never, [0xf1]);
    wrote(&Pat::Rest { id, x }, [id, x]);
    assert!(matches!(Pat::Five.deku_id(), Ok(5)) && matches!(Pat::Never.deku_id(), Ok(0xf1)));
    assert!(matches!(Pat::Low(id).deku_id(), Err(DekuError::IdVariantNotFound)));
}
// `_` before the last variant; a default besides patterns
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum PatDefault {
    #[deku(id_pat = "1..=9")]
    A(u8),
    #[deku(id = 40, default)]
    B,
    #[deku(id_pat = "10..=19")]
    C(u8, u8),
}
pub fn pat_default_read() {
    let d: [u8; 2] = any();
    got(d, Some(match d[0] {
        1..=9 => (8, PatDefault::A(d[0])),
        10..=19 => (16, PatDefault::C(d[0], d[1])),
        _ => (8, PatDefault::B),
    }));
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum PatNone {
    #[deku(id_pat = "1..=9")]
    A(u8),
    #[deku(id = 40)]
    B,
}
pub fn pat_none_read() {
    let d: [u8; 1] = any();
    got(d, match d[0] {
        1..=9 => Some((8, PatNone::A(d[0]))),
        40 => Some((8, PatNone::B)),
        _ => None,
    });
}

// ---- discriminants
#[derive(PartialEq, Clone, Copy, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
#[repr(u8)]
pub enum Disc {
    A = 3,
    B,
    C = 0x80,
    D,
    E = 1,
}
pub fn disc_read() {
    let d: [u8; 1] = any();
    got(d, match d[0] {
        3 => Some((8, Disc::A)),
        4 => Some((8, Disc::B)),
        0x80 => Some((8, Disc::C)),
        0x81 => Some((8, Disc::D)),
        1 => Some((8, Disc::E)),
        _ => None,
    });
}
pub fn disc_write() {
    let k: u8 = any();
    let v = match k % 5 {
        0 => Disc::A,
        1 => Disc::B,
        2 => Disc::C,
        3 => Disc::D,
        _ => Disc::E,
    };
    wrote(&v, [v as u8]);
}
#[derive(PartialEq, Clone, Copy, DekuRead, DekuWrite)]
#[deku(id_type = "i16", id_endian = "big", endian = "little")]
#[repr(i16)]
pub enum DiscSigned {
    A = -2,
    B,
    C,
    #[deku(id = 0x1234)]
    D,
    E = 0x1234 + 1,
}
pub fn disc_signed_read() {
    let d: [u8; 2] = any();
    got(d, match be(d[0], d[1]) as i16 {
        -2 => Some((16, DiscSigned::A)),
        -1 => Some((16, DiscSigned::B)),
        0 => Some((16, DiscSigned::C)),
        0x1234 => Some((16, DiscSigned::D)),
        0x1235 => Some((16, DiscSigned::E)),
        _ => None,
    });
}
pub fn disc_signed_write() {
    wrote(&DiscSigned::A, [0xff, 0xfe]);
    wrote(&DiscSigned::B, [0xff, 0xff]);
    wrote(&DiscSigned::C, [0, 0]);
    wrote(&DiscSigned::D, [0x12, 0x34]);
    wrote(&DiscSigned::E, [0x12, 0x35]);
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u32", endian = "big", bytes = 3)]
#[repr(u32)]
pub enum DiscBytes {
    A = 1,
    B = 0xabcdef,
    #[deku(id_pat = "0x100..=0x200")]
    P {
        id: u32,
        x: u16,
    },
}
pub fn disc_bytes_read() {
    let d: [u8; 5] = any();
    let id = u32::from_be_bytes([0, d[0], d[1], d[2]]);
    got(d, match id {
        1 => Some((24, DiscBytes::A)),
        0xabcdef => Some((24, DiscBytes::B)),
        0x100..=0x200 => Some((40, DiscBytes::P { id, x: be(d[3], d[4]) })),
        _ => None,
    });
}
pub fn disc_bytes_write() {
    let (a, b, c): ([u8; 3], u8, u8) = (any(), any(), any());
    wrote(&DiscBytes::A, [0, 0, 1]);
    wrote(&DiscBytes::B, [0xab, 0xcd, 0xef]);
    wrote(&DiscBytes::P { id: u32::from_be_bytes([0, a[0], a[1], a[2]]), x: be(b, c) }, [a[0], a[1], a[2], b, c]);
}

// ---- size, order and endianness of the id, and of the fields
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u16", id_endian = "little", endian = "big")]
pub enum IdEndian {
    #[deku(id = 0x0102)]
    A(u16),
    #[deku(id = 0x0201)]
    B(#[deku(endian = "little")] u16),
    #[deku(id_pat = "0xff00..=0xffff")]
    C(u16, u16),
}
pub fn id_endian_read() {
    let d: [u8; 4] = any();
    got(d, match le(d[0], d[1]) {
        0x0102 => Some((32, IdEndian::A(be(d[2], d[3])))),
        0x0201 => Some((32, IdEndian::B(le(d[2], d[3])))),
        0xff00..=0xffff => Some((32, IdEndian::C(le(d[0], d[1]), be(d[2], d[3])))),
        _ => None,
    });
}
pub fn id_endian_write() {
    let (x, y, i, j): (u8, u8, u8, u8) = (any(), any(), any(), any());
    wrote(&IdEndian::A(be(x, y)), [2, 1, x, y]);
    wrote(&IdEndian::B(le(x, y)), [1, 2, x, y]);
    wrote(&IdEndian::C(le(i, j), be(x, y)), [i, j, x, y]);
}
// the id takes the endianness of the container
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u16", endian = "big")]
pub enum BigId {
    #[deku(id = 0x0102)]
    A,
    #[deku(id_pat = "_")]
    B { id: u16, x: u16 },
}
pub fn big_id_read() {
    let d: [u8; 4] = any();
    got(d, Some(match be(d[0], d[1]) {
        0x0102 => (16, BigId::A),
        id => (32, BigId::B { id, x: be(d[2], d[3]) }),
    }));
}
pub fn big_id_write() {
    let d: [u8; 4] = any();
    wrote(&BigId::A, [1, 2]);
    wrote(&BigId::B { id: be(d[0], d[1]), x: be(d[2], d[3]) }, d);
}
pub fn bits_id_read() {
    let d: [u8; 2] = any();
    let rest = be(d[0], d[1]) & 0x1fff;
    got(d, match d[0] >> 5 {
        1 => Some((16, BitsId::A((rest >> 8) as u8, rest as u8))),
        6 => Some((8, BitsId::B((rest >> 8) as u8))),
        7 => Some((8, BitsId::C(7, (rest >> 8) as u8))),
        _ => None,
    });
}
pub fn lsb_id_read() {
    let d: [u8; 2] = any();
    got(d, match d[0] & 7 {
        1 => Some((16, LsbId::A(d[0] >> 3, d[1]))),
        6 => Some((8, LsbId::B { x: d[0] >> 3 })),
        k => Some((8, LsbId::C(k, d[0] >> 3))),
    });
}

// ---- the id comes from the context
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "id: u8, e: deku::ctx::Endian", id = "id", endian = "e")]
pub enum FromCtx {
    #[deku(id = 1)]
    A(u16),
    #[deku(id = 2)]
    B,
    #[deku(id_pat = "0x80..=0xff")]
    C(u16, u8),
}
#[derive(PartialEq, DekuRead, DekuWrite)]
pub struct WithId {
    id: u8,
    #[deku(endian = "big", ctx = "*id")]
    body: FromCtxBe,
    z: u8,
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "e: deku::ctx::Endian, id: u8", id = "id ^ 1", endian = "e")]
pub enum FromCtxBe {
    #[deku(id = 1)]
    A(u16),
    #[deku(id = 2, default)]
    B,
}
pub fn from_ctx_read() {
    let d: [u8; 3] = any();
    let id: u8 = any();
    let r = rd_ctx::<FromCtx, _, 3>(Src::new(d), (id, Endian::Big));
    match id {
        1 => assert!(r.n == 16 && matches!(r.v, Ok(FromCtx::A(x)) if x == be(d[0], d[1]))),
        2 => assert!(r.n == 0 && matches!(r.v, Ok(FromCtx::B))),
        0x80..=0xff => assert!(r.n == 24 && matches!(r.v, Ok(FromCtx::C(x, y)) if x == be(d[0], d[1]) && y == d[2])),
        _ => assert!(r.n == 0 && matches!(r.v, Err(DekuError::Parse(_)))),
    }
}
pub fn from_ctx_write() {
    let (x, y, z): (u8, u8, u8) = (any(), any(), any());
    wrote_ctx(&FromCtx::A(be(x, y)), (1, Endian::Big), [x, y]);
    wrote_ctx(&FromCtx::B, (2, Endian::Big), []);
    wrote_ctx(&FromCtx::C(be(x, y), z), (0x80, Endian::Big), [x, y, z]);
    assert!(matches!(FromCtx::A(0).deku_id(), Ok(1)) && matches!(FromCtx::B.deku_id(), Ok(2)));
}
pub fn with_id_read() {
    let d: [u8; 4] = any();
    read_is(d, if d[0] == 0 { 32 } else { 16 }, if d[0] == 0 {
        WithId { id: 0, body: FromCtxBe::A(be(d[1], d[2])), z: d[3] }
    } else {
        WithId { id: d[0], body: FromCtxBe::B, z: d[1] }
    });
}
pub fn with_id_write() {
    let d: [u8; 4] = any();
    wrote(&WithId { id: d[0], body: FromCtxBe::A(be(d[1], d[2])), z: d[3] }, d);
    wrote(&WithId { id: d[0], body: FromCtxBe::B, z: d[1] }, [d[0], d[1]]);
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(ctx = "id: u8", id = "id", ctx_default = "2")]
pub enum CtxDefault {
    #[deku(id = 1)]
    A(u16),
    #[deku(id = 2)]
    B(u8),
}
pub fn ctx_default_read() {
    let d: [u8; 2] = any();
    got(d, Some((8, CtxDefault::B(d[0]))));
}

// ---- magic, ids that are not integers, reader and writer of a variant
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "[u8; 2]", magic = b"m")]
pub enum BytesId {
    #[deku(id = b"ab")]
    A(u8),
    #[deku(id = b"ba")]
    B,
}
pub fn bytes_id_read() {
    let d: [u8; 4] = any();
    got(d, match (d[0], d[1], d[2]) {
        (b'm', b'a', b'b') => Some((32, BytesId::A(d[3]))),
        (b'm', b'b', b'a') => Some((24, BytesId::B)),
        _ => None,
    });
}
pub fn bytes_id_write() {
    let x: u8 = any();
    wrote(&BytesId::A(x), [b'm', b'a', b'b', x]);
    wrote(&BytesId::B, [b'm', b'b', b'a']);
    assert!(matches!(BytesId::A(x).deku_id(), Ok([b'a', b'b'])) && matches!(BytesId::B.deku_id(), Ok([b'b', b'a'])));
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "Disc")]
pub enum EnumId {
    #[deku(id = "Disc::B")]
    A(u8),
    #[deku(id = "Disc::A")]
    B,
    #[deku(id_pat = "Disc::C | Disc::D")]
    C(Disc, u8),
}
pub fn enum_id_read() {
    let d: [u8; 2] = any();
    got(d, match d[0] {
        4 => Some((16, EnumId::A(d[1]))),
        3 => Some((8, EnumId::B)),
        0x80 => Some((16, EnumId::C(Disc::C, d[1]))),
        0x81 => Some((16, EnumId::C(Disc::D, d[1]))),
        _ => None,
    });
}
pub fn enum_id_write() {
    let x: u8 = any();
    wrote(&EnumId::A(x), [4, x]);
    wrote(&EnumId::B, [3]);
    wrote(&EnumId::C(Disc::D, x), [0x81, x]);
    assert!(matches!(EnumId::A(x).deku_id(), Ok(Disc::B)) && matches!(EnumId::B.deku_id(), Ok(Disc::A)));
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "bool")]
pub enum BoolId {
    #[deku(id = true)]
    A(u8),
    #[deku(id = false)]
    B,
}
pub fn bool_id() {
    let d: [u8; 2] = any();
    got(d, match d[0] {
        1 => Some((16, BoolId::A(d[1]))),
        0 => Some((8, BoolId::B)),
        _ => None,
    });
    wrote(&BoolId::A(d[1]), [1, d[1]]);
    wrote(&BoolId::B, [0]);
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8")]
pub enum Custom {
    #[deku(id = 1, reader = "return Custom::r(deku::reader)", writer = "Custom::w(field_0, deku::writer)")]
    A(u8),
    #[deku(id = 2)]
    B(#[deku(assert = "*field_0 != 7", update = "9u8")] u8),
}
impl Custom {
    fn r<R: Read + Seek>(r: &mut Reader<R>) -> Result<Custom, DekuError> {
        Ok(Custom::A(u8::from_reader_with_ctx(r, ())? ^ 0xff))
    }
    fn w<W: Write + Seek>(x: &u8, w: &mut Writer<W>) -> Result<(), DekuError> {
        (x ^ 0xff).to_writer(w, ())
    }
}
pub fn variant_field_attributes() {
    let x: u8 = any();
    let mut v = Custom::B(x);
    if x == 7 {
        assert!(matches!(wr::<_, 2>(&v).r, Err(DekuError::Assertion(_))), "violated assertion is written");
        assert!(matches!(rd::<Custom, 2>([2, x]).v, Err(DekuError::Assertion(_))), "violated assertion is accepted");
    } else {
        wrote(&v, [2, x]);
        got([2, x], Some((16, Custom::B(x))));
    }
    assert!(v.update().is_ok() && v == Custom::B(9), "update of a variant's field");
    let mut w = Custom::A(x);
    assert!(w.update().is_ok() && w == Custom::A(x), "update of another variant");
}
macro_rules! twin { ($($t:tt)*) => {
    /// with the real integers
    pub mod real {
        use super::*;
        pub type Fu8 = u8;
        pub fn n8(x: u8) -> u8 { x }
        $($t)*
    }
    /// with the contract of integer fields in their place
    pub mod over_contract {
        use super::*;
        use crate::nat::Nat;
        pub type Fu8 = Nat;
        pub fn n8(x: u8) -> Nat { Nat(x as u32) }
        $($t)*
    }
} }
twin! {
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8", bits = 3)]
pub enum BitsId {
    #[deku(id = 1)]
    A(#[deku(bits = 5)] Fu8, u8),
    #[deku(id = 6)]
    B(#[deku(bits = 5)] Fu8),
    #[deku(id_pat = "7")]
    C(u8, #[deku(bits = 5)] Fu8),
}
#[derive(PartialEq, DekuRead, DekuWrite)]
#[deku(id_type = "u8", bits = 3, bit_order = "lsb")]
pub enum LsbId {
    #[deku(id = 1)]
    A(#[deku(bits = 5)] Fu8, u8),
    #[deku(id = 6)]
    B {
        #[deku(bits = 5)]
        x: Fu8,
    },
    #[deku(id_pat = "_")]
    C(u8, #[deku(bits = 5)] Fu8),
}
pub fn bits_id_write() {
    let (x, y): (u8, u8) = (any(), any());
    kani::assume(x < 32);
    wrote(&BitsId::A(n8(x), y), [0x20 | x, y]);
    wrote(&BitsId::B(n8(x)), [0xc0 | x]);
    wrote(&BitsId::C(7, n8(x)), [0xe0 | x]);
}
pub fn lsb_id_write() {
    let (x, y): (u8, u8) = (any(), any());
    kani::assume(x < 32);
    wrote(&LsbId::A(n8(x), y), [1 | x << 3, y]);
    wrote(&LsbId::B { x: n8(x) }, [6 | x << 3]);
    wrote(&LsbId::C(4, n8(x)), [4 | x << 3]);
}
}
use real::*;

pub fn custom_read() {
    let d: [u8; 2] = any();
    kani::assume(!(d[0] == 2 && d[1] == 7));
    got(d, match d[0] {
        1 => Some((16, Custom::A(d[1] ^ 0xff))),
        2 => Some((16, Custom::B(d[1]))),
        _ => None,
    });
    assert!(matches!(Custom::A(d[0]).deku_id(), Ok(1)) && matches!(Custom::B(d[0]).deku_id(), Ok(2)));
}
pub fn custom_write() {
    let x: u8 = any();
    wrote(&Custom::A(x), [x ^ 0xff]);
}
