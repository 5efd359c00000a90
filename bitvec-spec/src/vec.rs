//! `BitVec`: an owned, growable sequence of bits starting at bit 0 of its first byte.
use crate::{order::BitOrder, ptr::BitSpanError, slice::BitSlice, store::BitStore};
use alloc::vec::Vec;
use core::marker::PhantomData;

pub struct BitVec<T: BitStore = u8, O: BitOrder = crate::order::Lsb0> {
    data: Vec<T>,
    len: usize,
    _o: PhantomData<O>,
}
impl<T: BitStore, O: BitOrder> BitVec<T, O> {
    pub const EMPTY: Self = Self::new();
    pub const fn new() -> Self {
        Self {
            data: Vec::new(),
            len: 0,
            _o: PhantomData,
        }
    }
    pub fn with_capacity(bits: usize) -> Self {
        Self {
            data: Vec::with_capacity((bits + 7) / 8),
            len: 0,
            _o: PhantomData,
        }
    }
    pub fn repeat(bit: bool, n: usize) -> Self {
        let mut me = Self {
            data: alloc::vec![T::ZERO; n.div_ceil(8)],
            len: n,
            _o: PhantomData,
        };
        if bit {
            me.as_mut_bitslice().fill(true);
        }
        me
    }
    pub fn from_slice(s: &[T]) -> Self {
        Self {
            data: s.to_vec(),
            len: s.len() * 8,
            _o: PhantomData,
        }
    }
    pub fn try_from_slice(s: &[T]) -> Result<Self, BitSpanError> {
        Ok(Self::from_slice(s))
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        let len = v.len() * 8;
        Self {
            data: v,
            len,
            _o: PhantomData,
        }
    }
    pub fn from_element(e: T) -> Self {
        Self::from_slice(&[e])
    }
    pub fn from_bitslice(s: &BitSlice<T, O>) -> Self {
        let mut me = Self::new();
        me.extend_from_bitslice(s);
        me
    }
    #[inline(always)]
    pub fn as_bitslice(&self) -> &BitSlice<T, O> {
        &BitSlice::from_slice(&self.data)[..self.len]
    }
    #[inline(always)]
    pub fn as_mut_bitslice(&mut self) -> &mut BitSlice<T, O> {
        let n = self.len;
        &mut BitSlice::from_slice_mut(&mut self.data)[..n]
    }
    pub fn as_raw_slice(&self) -> &[T] {
        &self.data
    }
    pub fn as_raw_mut_slice(&mut self) -> &mut [T] {
        &mut self.data
    }
    pub fn into_vec(self) -> Vec<T> {
        self.data
    }
    #[doc(hidden)]
    pub fn leak_ref<'a>(self) -> &'a BitSlice<T, O> {
        let n = self.len;
        &BitSlice::from_slice(self.data.leak())[..n]
    }
    pub fn push(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.data.push(T::ZERO);
        }
        self.len += 1;
        let n = self.len;
        self.as_mut_bitslice().set(n - 1, b);
    }
    pub fn pop(&mut self) -> Option<bool> {
        if self.len == 0 {
            return None;
        }
        let b = self.as_bitslice()[self.len - 1];
        self.truncate(self.len - 1);
        Some(b)
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            self.len = n;
            self.data.truncate((n + 7) / 8);
        }
    }
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    pub fn resize(&mut self, n: usize, v: bool) {
        self.truncate(n);
        while self.len < n {
            self.push(v)
        }
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn extend_from_bitslice<T2: BitStore, O2: BitOrder>(&mut self, s: &BitSlice<T2, O2>) {
        let mut i = 0;
        while i < s.len() {
            self.push(s.bit(i));
            i += 1;
        }
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len);
        let mut r = Self::new();
        r.extend_from_bitslice(&self.as_bitslice()[at..]);
        self.truncate(at);
        r
    }
    pub fn insert(&mut self, at: usize, v: bool) {
        assert!(at <= self.len);
        self.push(false);
        let n = self.len;
        let mut i = n - 1;
        while i > at {
            let b = self.as_bitslice()[i - 1];
            self.as_mut_bitslice().set(i, b);
            i -= 1;
        }
        self.as_mut_bitslice().set(at, v);
    }
    pub fn append<T2: BitStore, O2: BitOrder>(&mut self, o: &mut BitVec<T2, O2>) {
        self.extend_from_bitslice(o.as_bitslice());
        o.clear();
    }
}
impl<T: BitStore, O: BitOrder> core::ops::Deref for BitVec<T, O> {
    type Target = BitSlice<T, O>;
    #[inline(always)]
    fn deref(&self) -> &BitSlice<T, O> {
        self.as_bitslice()
    }
}
impl<T: BitStore, O: BitOrder> core::ops::DerefMut for BitVec<T, O> {
    #[inline(always)]
    fn deref_mut(&mut self) -> &mut BitSlice<T, O> {
        self.as_mut_bitslice()
    }
}
impl<T: BitStore, O: BitOrder> Clone for BitVec<T, O> {
    fn clone(&self) -> Self {
        Self {
            data: self.data.clone(),
            len: self.len,
            _o: PhantomData,
        }
    }
}
impl<T: BitStore, O: BitOrder> Default for BitVec<T, O> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: BitStore, O: BitOrder> core::fmt::Debug for BitVec<T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        core::fmt::Debug::fmt(self.as_bitslice(), f)
    }
}
impl<T: BitStore, O: BitOrder> PartialEq for BitVec<T, O> {
    fn eq(&self, o: &Self) -> bool {
        self.as_bitslice() == o.as_bitslice()
    }
}
impl<T: BitStore, O: BitOrder> Eq for BitVec<T, O> {}
impl<T: BitStore, O: BitOrder> Extend<bool> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = bool>>(&mut self, it: I) {
        for b in it {
            self.push(b)
        }
    }
}
impl<T: BitStore, O: BitOrder> FromIterator<bool> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = bool>>(it: I) -> Self {
        let mut me = Self::new();
        me.extend(it);
        me
    }
}
impl<T: BitStore, O: BitOrder> AsRef<BitSlice<T, O>> for BitVec<T, O> {
    fn as_ref(&self) -> &BitSlice<T, O> {
        self
    }
}
impl<T: BitStore, O: BitOrder, Idx> core::ops::Index<Idx> for BitVec<T, O>
where
    BitSlice<T, O>: core::ops::Index<Idx>,
{
    type Output = <BitSlice<T, O> as core::ops::Index<Idx>>::Output;
    fn index(&self, i: Idx) -> &Self::Output {
        &self.as_bitslice()[i]
    }
}
impl<T: BitStore, O: BitOrder, Idx> core::ops::IndexMut<Idx> for BitVec<T, O>
where
    BitSlice<T, O>: core::ops::IndexMut<Idx>,
{
    fn index_mut(&mut self, i: Idx) -> &mut Self::Output {
        &mut self.as_mut_bitslice()[i]
    }
}
