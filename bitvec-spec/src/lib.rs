//! Executable contract of the part of `bitvec` 1.x that deku relies on.
//!
//! This is NOT deku code.  It is the assumed contract of deku's one arithmetic dependency, written
//! as executable definitions so that the verifier can discharge the obligations of the real deku
//! source against it.  Storage is `u8` only (the only storage deku instantiates).  Every operation
//! is defined bit by bit: "bit i of the slice" is the whole specification.  `difftest/` next to this
//! crate checks it operation by operation against the real bitvec 1.1.1 on every run.
#![cfg_attr(not(feature = "std"), no_std)]
#![allow(clippy::all, internal_features)]
#![cfg_attr(kani, feature(core_intrinsics))]
#[cfg(feature = "alloc")]
extern crate alloc;

pub mod order {
    /// Order of bits inside a byte.
    pub trait BitOrder: 'static + Copy + core::fmt::Debug + Default + Eq + Ord + core::hash::Hash {
        #[doc(hidden)]
        const MSB: bool;
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Msb0;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Lsb0;
    impl BitOrder for Msb0 {
        const MSB: bool = true;
    }
    impl BitOrder for Lsb0 {
        const MSB: bool = false;
    }
    pub type LocalBits = Lsb0;
}

pub mod store {
    pub trait BitStore: 'static + Copy + core::fmt::Debug + Default {
        type Mem;
        type Alias: BitStore<Alias = Self::Alias>;
        const ZERO: Self;
    }
    impl BitStore for u8 {
        type Mem = u8;
        type Alias = u8;
        const ZERO: u8 = 0;
    }
}

pub mod view {
    use crate::{order::BitOrder, slice::BitSlice, store::BitStore};
    pub trait BitView {
        type Store: BitStore;
        fn view_bits<O: BitOrder>(&self) -> &BitSlice<Self::Store, O>;
        fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<Self::Store, O>;
    }
    pub trait BitViewSized: BitView + Sized + Copy {
        const ZERO: Self;
        #[doc(hidden)]
        fn raw(&self) -> &[Self::Store];
        #[doc(hidden)]
        fn raw_mut(&mut self) -> &mut [Self::Store];
    }
    impl BitView for u8 {
        type Store = u8;
        #[inline(always)]
        fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> {
            BitSlice::from_slice(core::slice::from_ref(self))
        }
        #[inline(always)]
        fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> {
            BitSlice::from_slice_mut(core::slice::from_mut(self))
        }
    }
    impl BitViewSized for u8 {
        const ZERO: Self = 0;
        fn raw(&self) -> &[u8] {
            core::slice::from_ref(self)
        }
        fn raw_mut(&mut self) -> &mut [u8] {
            core::slice::from_mut(self)
        }
    }
    impl BitView for [u8] {
        type Store = u8;
        #[inline(always)]
        fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> {
            BitSlice::from_slice(self)
        }
        #[inline(always)]
        fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> {
            BitSlice::from_slice_mut(self)
        }
    }
    impl<const N: usize> BitView for [u8; N] {
        type Store = u8;
        #[inline(always)]
        fn view_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> {
            BitSlice::from_slice(self)
        }
        #[inline(always)]
        fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> {
            BitSlice::from_slice_mut(self)
        }
    }
    impl<const N: usize> BitViewSized for [u8; N] {
        const ZERO: Self = [0; N];
        #[inline(always)]
        fn raw(&self) -> &[u8] {
            self
        }
        #[inline(always)]
        fn raw_mut(&mut self) -> &mut [u8] {
            self
        }
    }
    pub trait AsBits<T: BitStore> {
        fn as_bits<O: BitOrder>(&self) -> &BitSlice<T, O>;
    }
    impl AsBits<u8> for [u8] {
        fn as_bits<O: BitOrder>(&self) -> &BitSlice<u8, O> {
            BitSlice::from_slice(self)
        }
    }
    pub trait AsMutBits<T: BitStore> {
        fn as_mut_bits<O: BitOrder>(&mut self) -> &mut BitSlice<T, O>;
    }
    impl AsMutBits<u8> for [u8] {
        fn as_mut_bits<O: BitOrder>(&mut self) -> &mut BitSlice<u8, O> {
            BitSlice::from_slice_mut(self)
        }
    }
}

pub mod ptr {
    /// Error of the `try_from_slice` constructors: the slice is too long to address.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct BitSpanError;
    impl core::fmt::Display for BitSpanError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("slice too long")
        }
    }
}

pub mod slice;
pub use slice::BitSlice;

pub mod field {
    use crate::{order::BitOrder, slice::BitSlice, store::BitStore};

    pub trait Integral: Copy {
        #[doc(hidden)]
        const BITS_: u32;
        #[doc(hidden)]
        fn from_u128(v: u128) -> Self;
        #[doc(hidden)]
        fn to_u128(self) -> u128;
        #[doc(hidden)]
        const SIGNED: bool;
    }
    macro_rules! integral { ($($t:ty, $u:ty, $s:expr);* $(;)?) => {$(
        impl Integral for $t {
            const BITS_: u32 = <$t>::BITS;
            #[inline(always)] fn from_u128(v: u128) -> Self { v as $t }
            #[inline(always)] fn to_u128(self) -> u128 { self as $u as u128 }
            const SIGNED: bool = $s;
        }
    )*} }
    integral!(u8,u8,false; u16,u16,false; u32,u32,false; u64,u64,false; u128,u128,false; usize,usize,false;
              i8,u8,true; i16,u16,true; i32,u32,true; i64,u64,true; i128,u128,true; isize,usize,true);

    pub trait BitField {
        fn load_le<I: Integral>(&self) -> I;
        fn load_be<I: Integral>(&self) -> I;
        fn store_le<I: Integral>(&mut self, value: I);
        fn store_be<I: Integral>(&mut self, value: I);
        #[inline(always)]
        fn load<I: Integral>(&self) -> I {
            if cfg!(target_endian = "little") {
                self.load_le()
            } else {
                self.load_be()
            }
        }
        #[inline(always)]
        fn store<I: Integral>(&mut self, value: I) {
            if cfg!(target_endian = "little") {
                self.store_le(value)
            } else {
                self.store_be(value)
            }
        }
    }

    #[inline(always)]
    fn check<I: Integral>(len: usize) {
        assert!(
            len >= 1 && len <= I::BITS_ as usize,
            "bitvec: cannot transfer this many bits"
        );
    }

    #[inline(always)]
    fn sign<I: Integral>(v: u128, len: usize) -> I {
        if I::SIGNED && len < 128 {
            let s = 128 - len;
            I::from_u128(((v << s) as i128 >> s) as u128)
        } else {
            I::from_u128(v)
        }
    }

    impl<T: BitStore, O: BitOrder> BitField for BitSlice<T, O> {
        #[inline(always)]
        fn load_be<I: Integral>(&self) -> I {
            check::<I>(self.len());
            if O::MSB {
                let n = self.len();
                if n <= 64 {
                    return sign::<I>(self.get_bits(0, n) as u128, n);
                }
                let hi = self.get_bits(0, n - 64) as u128;
                return sign::<I>((hi << 64) | self.get_bits(n - 64, 64) as u128, n);
            }
            let mut acc: u128 = 0;
            let mut i = 0;
            while i < self.elts() {
                let (at, w) = self.span(i);
                acc = (acc << w) | self.get_bits(at, w) as u128;
                i += 1;
            }
            sign::<I>(acc, self.len())
        }
        #[inline(always)]
        fn load_le<I: Integral>(&self) -> I {
            check::<I>(self.len());
            let mut acc: u128 = 0;
            let mut i = self.elts();
            while i > 0 {
                i -= 1;
                let (at, w) = self.span(i);
                acc = (acc << w) | self.get_bits(at, w) as u128;
            }
            sign::<I>(acc, self.len())
        }
        #[inline(always)]
        fn store_be<I: Integral>(&mut self, value: I) {
            check::<I>(self.len());
            let mut v = value.to_u128();
            let n = self.len();
            if O::MSB && n <= 64 {
                return self.put_bits(0, n, v as u64);
            }
            let mut i = self.elts();
            while i > 0 {
                i -= 1;
                let (at, w) = self.span(i);
                self.put_bits(at, w, v as u64);
                v >>= w;
            }
        }
        #[inline(always)]
        fn store_le<I: Integral>(&mut self, value: I) {
            check::<I>(self.len());
            let mut v = value.to_u128();
            let n = self.elts();
            let mut i = 0;
            while i < n {
                let (at, w) = self.span(i);
                self.put_bits(at, w, v as u64);
                v >>= w;
                i += 1;
            }
        }
    }
}

pub mod array {
    use crate::{order::BitOrder, slice::BitSlice, view::BitViewSized};
    use core::marker::PhantomData;

    #[repr(transparent)]
    pub struct BitArray<A = [u8; 8], O = crate::order::Lsb0>
    where
        A: BitViewSized,
        O: BitOrder,
    {
        _ord: PhantomData<O>,
        pub data: A,
    }
    impl<A: BitViewSized, O: BitOrder> BitArray<A, O> {
        pub const ZERO: Self = Self {
            _ord: PhantomData,
            data: A::ZERO,
        };
        #[inline(always)]
        pub fn new(data: A) -> Self {
            Self {
                _ord: PhantomData,
                data,
            }
        }
        #[inline(always)]
        pub fn into_inner(self) -> A {
            self.data
        }
        #[inline(always)]
        pub fn as_bitslice(&self) -> &BitSlice<A::Store, O> {
            self.data.view_bits::<O>()
        }
        #[inline(always)]
        pub fn as_mut_bitslice(&mut self) -> &mut BitSlice<A::Store, O> {
            self.data.view_bits_mut::<O>()
        }
        #[inline(always)]
        pub fn as_raw_slice(&self) -> &[A::Store] {
            self.data.raw()
        }
        #[inline(always)]
        pub fn as_raw_mut_slice(&mut self) -> &mut [A::Store] {
            self.data.raw_mut()
        }
    }
    impl<A: BitViewSized, O: BitOrder> Clone for BitArray<A, O> {
        #[inline(always)]
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<A: BitViewSized, O: BitOrder> Copy for BitArray<A, O> {}
    impl<A: BitViewSized, O: BitOrder> core::ops::Deref for BitArray<A, O> {
        type Target = BitSlice<A::Store, O>;
        #[inline(always)]
        fn deref(&self) -> &Self::Target {
            self.as_bitslice()
        }
    }
    impl<A: BitViewSized, O: BitOrder> core::ops::DerefMut for BitArray<A, O> {
        #[inline(always)]
        fn deref_mut(&mut self) -> &mut Self::Target {
            self.as_mut_bitslice()
        }
    }
    impl<A: BitViewSized, O: BitOrder> From<A> for BitArray<A, O> {
        #[inline(always)]
        fn from(a: A) -> Self {
            Self::new(a)
        }
    }
    impl<A: BitViewSized, O: BitOrder> Default for BitArray<A, O> {
        fn default() -> Self {
            Self::ZERO
        }
    }
    impl<A: BitViewSized, O: BitOrder> core::fmt::Debug for BitArray<A, O> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            core::fmt::Debug::fmt(self.as_bitslice(), f)
        }
    }
    impl<A: BitViewSized, O: BitOrder, Idx> core::ops::Index<Idx> for BitArray<A, O>
    where
        BitSlice<A::Store, O>: core::ops::Index<Idx>,
    {
        type Output = <BitSlice<A::Store, O> as core::ops::Index<Idx>>::Output;
        #[inline(always)]
        fn index(&self, i: Idx) -> &Self::Output {
            &self.as_bitslice()[i]
        }
    }
    impl<A: BitViewSized, O: BitOrder, Idx> core::ops::IndexMut<Idx> for BitArray<A, O>
    where
        BitSlice<A::Store, O>: core::ops::IndexMut<Idx>,
    {
        #[inline(always)]
        fn index_mut(&mut self, i: Idx) -> &mut Self::Output {
            &mut self.as_mut_bitslice()[i]
        }
    }
    impl<A: BitViewSized, O: BitOrder> PartialEq for BitArray<A, O> {
        fn eq(&self, o: &Self) -> bool {
            self.as_bitslice() == o.as_bitslice()
        }
    }
    impl<A: BitViewSized, O: BitOrder> Eq for BitArray<A, O> {}
}
pub use array::BitArray;

#[cfg(feature = "alloc")]
pub mod vec;
#[cfg(feature = "alloc")]
pub use vec::BitVec;
#[cfg(feature = "alloc")]
pub mod boxed {
    pub use crate::vec::BitVec as BitBox;
}

pub mod index {
    pub use crate::slice::BitSliceIndex;
}

pub mod mem {
    pub const fn bits_of<T>() -> usize {
        core::mem::size_of::<T>() * 8
    }
    pub const fn elts<T>(bits: usize) -> usize {
        (bits + 7) / 8
    }
}

#[macro_export]
macro_rules! bitarr {
    ($t:ty, $o:ty; $v:expr; $n:expr) => {
        $crate::array::BitArray::<[$t; ($n + 7) / 8], $o>::new(
            [if ($v) != 0 { 0xff } else { 0 }; ($n + 7) / 8],
        )
    };
    (const $t:ty, $o:ty; $v:expr; $n:expr) => {
        $crate::bitarr!($t, $o; $v; $n)
    };
}

#[macro_export]
macro_rules! bits {
    (mut $t:ty, $o:ty; $v:expr; $n:expr) => {
        &mut $crate::bitarr!($t, $o; $v; $n)[..$n]
    };
    ($t:ty, $o:ty; $v:expr; $n:expr) => {
        &$crate::bitarr!($t, $o; $v; $n)[..$n]
    };
    ($t:ty, $o:ty $(; $($v:expr),* $(,)?)?) => {
        $crate::bitvec!($t, $o $(; $($v),*)?).leak_ref()
    };
}

#[macro_export]
macro_rules! bitvec {
    ($t:ty, $o:ty; $v:expr; $n:expr) => {
        $crate::vec::BitVec::<$t, $o>::repeat(($v) != 0, $n)
    };
    ($t:ty, $o:ty $(; $($v:expr),* $(,)?)?) => {{
        #[allow(unused_mut)]
        let mut bv = $crate::vec::BitVec::<$t, $o>::new();
        $($(bv.push(($v) != 0);)*)?
        bv
    }};
}

pub mod prelude {
    pub use crate::array::BitArray;
    pub use crate::field::BitField as _;
    pub use crate::field::BitField;
    pub use crate::order::{BitOrder, LocalBits, Lsb0, Msb0};
    pub use crate::slice::BitSlice;
    pub use crate::store::BitStore;
    #[cfg(feature = "alloc")]
    pub use crate::vec::BitVec;
    pub use crate::view::{AsBits, AsMutBits, BitView, BitViewSized};
    pub use crate::{bitarr, bits, bitvec};
}
