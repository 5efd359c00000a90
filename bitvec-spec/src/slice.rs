//! `BitSlice`: a region of bits.  A `&BitSlice` is a pointer to the first byte plus
//! `len << 3 | head`, where `head` is the bit position of bit 0 inside that byte.
use crate::{order::BitOrder, ptr::BitSpanError, store::BitStore};
use core::marker::PhantomData;
use core::ops::*;

#[repr(transparent)]
pub struct BitSlice<T: BitStore = u8, O: BitOrder = crate::order::Lsb0> {
    _ord: PhantomData<(T, O)>,
    mem: [()],
}

#[inline(always)]
fn make<T: BitStore, O: BitOrder>(ptr: *const u8, head: usize, len: usize) -> *const BitSlice<T, O> {
    core::ptr::slice_from_raw_parts(ptr as *const (), (len << 3) | head) as *const BitSlice<T, O>
}

#[cfg(kani)]
#[inline(always)]
fn step(p: *const u8, k: usize) -> *const u8 {
    unsafe { core::intrinsics::arith_offset(p, k as isize) }
}
#[cfg(not(kani))]
#[inline(always)]
fn step(p: *const u8, k: usize) -> *const u8 {
    p.wrapping_add(k)
}

/// The `w` bits (`1 <= w <= 64`) that start `at` bits after the start of byte `p`, right-aligned.
/// Msb0: the first bit is the most significant one; Lsb0: the first bit is the least significant.
#[inline(always)]
fn load<O: BitOrder>(p: *const u8, at: usize, w: usize) -> u64 {
    let k = at >> 3;
    let off = at & 7;
    let last = (at + w - 1) >> 3;
    let mut q = step(p, k);
    if k == last {
        let b = unsafe { *q };
        return ((b >> (if O::MSB { 8 - off - w } else { off })) & (0xff >> (8 - w))) as u64;
    }
    let n = last - k + 1;
    let mut acc: u128 = 0;
    let mut i = 0;
    while i < n {
        let b = unsafe { *q } as u128;
        if O::MSB {
            acc = (acc << 8) | b;
        } else {
            acc |= b << (i << 3);
        }
        q = step(q, 1);
        i += 1;
    }
    ((acc >> (if O::MSB { (n << 3) - off - w } else { off })) as u64) & (u64::MAX >> (64 - w))
}

/// Stores the low `w` bits (`1 <= w <= 64`) of `v`; the counterpart of `load`.
#[inline(always)]
fn store<O: BitOrder>(p: *mut u8, at: usize, w: usize, mut v: u64) {
    let k = at >> 3;
    let off = at & 7;
    let last = (at + w - 1) >> 3;
    if k == last {
        let q = step(p, k) as *mut u8;
        if w == 8 {
            unsafe { *q = v as u8 };
            return;
        }
        let sh = if O::MSB { 8 - off - w } else { off };
        let m = (0xffu8 >> (8 - w)) << sh;
        unsafe { *q = (*q & !m) | (((v as u8) << sh) & m) };
        return;
    }
    let t = ((at + w - 1) & 7) + 1; // bits used in the last byte, 1..=8
    if O::MSB {
        let q = step(p, last) as *mut u8;
        if t == 8 {
            unsafe { *q = v as u8 };
        } else {
            unsafe { *q = (*q & (0xff >> t)) | ((v as u8) << (8 - t)) };
        }
        v >>= t;
        let mut i = last - 1;
        while i > k {
            let q = step(p, i) as *mut u8;
            unsafe { *q = v as u8 };
            v >>= 8;
            i -= 1;
        }
        let q = step(p, k) as *mut u8;
        if off == 0 {
            unsafe { *q = v as u8 };
        } else {
            let m = 0xffu8 >> off;
            unsafe { *q = (*q & !m) | (v as u8 & m) };
        }
    } else {
        let q = step(p, k) as *mut u8;
        unsafe { *q = (*q & !(0xffu8 << off)) | ((v as u8) << off) };
        v >>= 8 - off;
        let mut i = k + 1;
        while i < last {
            let q = step(p, i) as *mut u8;
            unsafe { *q = v as u8 };
            v >>= 8;
            i += 1;
        }
        let q = step(p, last) as *mut u8;
        if t == 8 {
            unsafe { *q = v as u8 };
        } else {
            let m = 0xffu8 >> (8 - t);
            unsafe { *q = (*q & !m) | (v as u8 & m) };
        }
    }
}

impl<T: BitStore, O: BitOrder> BitSlice<T, O> {
    #[inline(always)]
    fn base(&self) -> *const u8 {
        self as *const Self as *const u8
    }
    #[inline(always)]
    fn head(&self) -> usize {
        self.mem.len() & 7
    }
    #[inline(always)]
    pub fn len(&self) -> usize {
        self.mem.len() >> 3
    }
    #[inline(always)]
    pub fn is_empty(&self) -> bool {
        self.mem.len() < 8
    }
    /// Number of bytes the region touches.
    #[doc(hidden)]
    #[inline(always)]
    pub fn elts(&self) -> usize {
        let m = self.mem.len();
        if m < 8 {
            0
        } else {
            ((m >> 3) + (m & 7) + 7) >> 3
        }
    }
    /// Bits `from .. from + w` (`1 <= w <= 64`), right-aligned.
    #[doc(hidden)]
    #[inline(always)]
    pub fn get_bits(&self, from: usize, w: usize) -> u64 {
        load::<O>(self.base(), (self.mem.len() & 7) + from, w)
    }
    #[doc(hidden)]
    #[inline(always)]
    pub fn put_bits(&mut self, from: usize, w: usize, v: u64) {
        store::<O>(self.base() as *mut u8, (self.mem.len() & 7) + from, w, v)
    }
    /// First bit position and width of the part of the region that lies in byte `i`.
    #[doc(hidden)]
    #[inline(always)]
    pub fn span(&self, i: usize) -> (usize, usize) {
        let head = self.mem.len() & 7;
        let from = if i == 0 { 0 } else { (i << 3) - head };
        let room = if i == 0 { 8 - head } else { 8 };
        let left = (self.mem.len() >> 3) - from;
        (from, if left < room { left } else { room })
    }
    #[inline(always)]
    pub fn empty<'a>() -> &'a Self {
        unsafe { &*make(core::ptr::NonNull::<u8>::dangling().as_ptr(), 0, 0) }
    }
    #[inline(always)]
    pub fn empty_mut<'a>() -> &'a mut Self {
        unsafe { &mut *(make::<T, O>(core::ptr::NonNull::<u8>::dangling().as_ptr(), 0, 0) as *mut Self) }
    }
    #[inline(always)]
    pub fn from_slice(s: &[T]) -> &Self {
        unsafe { &*make(s.as_ptr() as *const u8, 0, s.len() * 8) }
    }
    #[inline(always)]
    pub fn from_slice_mut(s: &mut [T]) -> &mut Self {
        unsafe { &mut *(make::<T, O>(s.as_mut_ptr() as *const u8, 0, s.len() * 8) as *mut Self) }
    }
    #[inline(always)]
    pub fn from_element(e: &T) -> &Self {
        Self::from_slice(core::slice::from_ref(e))
    }
    #[inline(always)]
    pub fn from_element_mut(e: &mut T) -> &mut Self {
        Self::from_slice_mut(core::slice::from_mut(e))
    }
    #[inline(always)]
    pub fn try_from_slice(s: &[T]) -> Result<&Self, BitSpanError> {
        Ok(Self::from_slice(s))
    }
    #[inline(always)]
    pub fn try_from_slice_mut(s: &mut [T]) -> Result<&mut Self, BitSpanError> {
        Ok(Self::from_slice_mut(s))
    }
    #[inline(always)]
    fn sub_ptr(&self, from: usize, to: usize) -> *const Self {
        let at = self.head() + from;
        // an empty region may start one past the end: keep the pointer inside the allocation
        if from == to {
            return make(self.base(), 0, 0);
        }
        make(step(self.base(), at >> 3), at & 7, to - from)
    }
    #[inline(always)]
    fn sub(&self, from: usize, to: usize) -> &Self {
        assert!(from <= to && to <= self.len(), "bit range out of bounds");
        unsafe { &*self.sub_ptr(from, to) }
    }
    #[inline(always)]
    fn sub_mut(&mut self, from: usize, to: usize) -> &mut Self {
        assert!(from <= to && to <= self.len(), "bit range out of bounds");
        unsafe { &mut *(self.sub_ptr(from, to) as *mut Self) }
    }
    #[inline(always)]
    fn alias_mut<'a>(&mut self, from: usize, to: usize) -> &'a mut BitSlice<T::Alias, O> {
        assert!(from <= to && to <= self.len(), "bit range out of bounds");
        let p = self.sub_ptr(from, to) as *const [()];
        unsafe { &mut *(p as *mut [()] as *mut BitSlice<T::Alias, O>) }
    }
    #[doc(hidden)]
    #[inline(always)]
    pub fn bit(&self, i: usize) -> bool {
        let at = (self.mem.len() & 7) + i;
        let b = unsafe { *step(self.base(), at >> 3) };
        b & bit_mask::<O>(at) != 0
    }
    #[inline(always)]
    pub fn set(&mut self, i: usize, v: bool) {
        assert!(i < self.len(), "bit index out of bounds");
        self.put(i, v)
    }
    #[inline(always)]
    pub fn replace(&mut self, i: usize, v: bool) -> bool {
        assert!(i < self.len(), "bit index out of bounds");
        let old = self.bit(i);
        self.put(i, v);
        old
    }
    #[inline(always)]
    fn put(&mut self, i: usize, v: bool) {
        let at = (self.mem.len() & 7) + i;
        let m = bit_mask::<O>(at);
        let q = step(self.base(), at >> 3) as *mut u8;
        unsafe { *q = if v { *q | m } else { *q & !m } };
    }
    #[inline(always)]
    pub fn copy_from_bitslice(&mut self, src: &Self) {
        let n = self.len();
        assert!(n == src.len(), "copying between bit slices of different lengths");
        let mut at = 0;
        while at < n {
            let w = if n - at < 64 { n - at } else { 64 };
            let v = src.get_bits(at, w);
            self.put_bits(at, w, v);
            at += w;
        }
    }
    #[inline(always)]
    pub fn clone_from_bitslice<T2: BitStore, O2: BitOrder>(&mut self, src: &BitSlice<T2, O2>) {
        assert_eq!(self.len(), src.len(), "cloning between bit slices of different lengths");
        let mut i = 0;
        while i < self.len() {
            let b = src.bit(i);
            self.put(i, b);
            i += 1;
        }
    }
    #[inline(always)]
    pub fn split_at(&self, mid: usize) -> (&Self, &Self) {
        assert!(mid <= self.len(), "split point out of bounds");
        (self.sub(0, mid), self.sub(mid, self.len()))
    }
    #[inline(always)]
    pub fn split_at_mut(
        &mut self,
        mid: usize,
    ) -> (&mut BitSlice<T::Alias, O>, &mut BitSlice<T::Alias, O>) {
        assert!(mid <= self.len(), "split point out of bounds");
        let n = self.len();
        (self.alias_mut(0, mid), self.alias_mut(mid, n))
    }
    #[inline(always)]
    pub fn get<'a, I: BitSliceIndex<'a, T, O>>(&'a self, i: I) -> Option<I::Immut> {
        i.get(self)
    }
    #[inline(always)]
    pub fn get_mut<'a, I: BitSliceIndex<'a, T, O>>(&'a mut self, i: I) -> Option<I::Mut> {
        i.get_mut(self)
    }
    #[inline(always)]
    pub fn first(&self) -> Option<BitRef<'_>> {
        self.get(0)
    }
    #[inline(always)]
    pub fn last(&self) -> Option<BitRef<'_>> {
        if self.is_empty() {
            None
        } else {
            self.get(self.len() - 1)
        }
    }
    pub fn first_one(&self) -> Option<usize> {
        let mut i = 0;
        while i < self.len() {
            if self.bit(i) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn first_zero(&self) -> Option<usize> {
        let mut i = 0;
        while i < self.len() {
            if !self.bit(i) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn last_one(&self) -> Option<usize> {
        let mut i = self.len();
        while i > 0 {
            i -= 1;
            if self.bit(i) {
                return Some(i);
            }
        }
        None
    }
    pub fn last_zero(&self) -> Option<usize> {
        let mut i = self.len();
        while i > 0 {
            i -= 1;
            if !self.bit(i) {
                return Some(i);
            }
        }
        None
    }
    pub fn leading_zeros(&self) -> usize {
        self.first_one().unwrap_or(self.len())
    }
    pub fn leading_ones(&self) -> usize {
        self.first_zero().unwrap_or(self.len())
    }
    pub fn trailing_zeros(&self) -> usize {
        self.last_one().map_or(self.len(), |i| self.len() - 1 - i)
    }
    pub fn trailing_ones(&self) -> usize {
        self.last_zero().map_or(self.len(), |i| self.len() - 1 - i)
    }
    pub fn count_ones(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.len() {
            n += self.bit(i) as usize;
            i += 1;
        }
        n
    }
    pub fn count_zeros(&self) -> usize {
        self.len() - self.count_ones()
    }
    pub fn any(&self) -> bool {
        self.first_one().is_some()
    }
    pub fn all(&self) -> bool {
        self.first_zero().is_none()
    }
    pub fn not_any(&self) -> bool {
        !self.any()
    }
    pub fn not_all(&self) -> bool {
        !self.all()
    }
    pub fn some(&self) -> bool {
        self.any() && self.not_all()
    }
    pub fn fill(&mut self, v: bool) {
        let mut i = 0;
        while i < self.len() {
            self.put(i, v);
            i += 1;
        }
    }
    pub fn reverse(&mut self) {
        let n = self.len();
        let mut i = 0;
        while i < n / 2 {
            self.swap(i, n - 1 - i);
            i += 1;
        }
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        assert!(a < self.len() && b < self.len(), "bit index out of bounds");
        let x = self.bit(a);
        let y = self.bit(b);
        self.put(a, y);
        self.put(b, x);
    }
    /// Moves every bit `by` places towards the end; the vacated front is zero.
    pub fn shift_end(&mut self, by: usize) {
        if by == 0 {
            return;
        }
        let n = self.len();
        assert!(by <= n, "shift out of bounds");
        let mut end = n;
        while end > by {
            let w = if end - by < 64 { end - by } else { 64 };
            let v = self.get_bits(end - by - w, w);
            self.put_bits(end - w, w, v);
            end -= w;
        }
        self.zero(0, by);
    }
    #[inline(always)]
    fn zero(&mut self, from: usize, to: usize) {
        let mut at = from;
        while at < to {
            let w = if to - at < 64 { to - at } else { 64 };
            self.put_bits(at, w, 0);
            at += w;
        }
    }
    pub fn shift_right(&mut self, by: usize) {
        self.shift_end(by)
    }
    pub fn shift_left(&mut self, by: usize) {
        self.shift_start(by)
    }
    /// Moves every bit `by` places towards the start; the vacated end is zero.
    pub fn shift_start(&mut self, by: usize) {
        if by == 0 {
            return;
        }
        let n = self.len();
        assert!(by <= n, "shift out of bounds");
        let mut i = 0;
        while i < n {
            let b = if i + by < n { self.bit(i + by) } else { false };
            self.put(i, b);
            i += 1;
        }
    }
    pub fn rotate_left(&mut self, by: usize) {
        assert!(by <= self.len(), "rotation out of bounds");
        let mut k = 0;
        while k < by {
            let f = self.bit(0);
            let mut i = 1;
            while i < self.len() {
                let b = self.bit(i);
                self.put(i - 1, b);
                i += 1;
            }
            let n = self.len();
            self.put(n - 1, f);
            k += 1;
        }
    }
    pub fn rotate_right(&mut self, by: usize) {
        assert!(by <= self.len(), "rotation out of bounds");
        let n = self.len();
        self.rotate_left(n - by)
    }
    pub fn copy_within<R: RangeBounds<usize>>(&mut self, r: R, dest: usize) {
        let (a, b) = bounds(r, self.len());
        assert!(a <= b && b <= self.len() && dest + (b - a) <= self.len());
        if dest <= a {
            let mut i = 0;
            while i < b - a {
                let v = self.bit(a + i);
                self.put(dest + i, v);
                i += 1;
            }
        } else {
            let mut i = b - a;
            while i > 0 {
                i -= 1;
                let v = self.bit(a + i);
                self.put(dest + i, v);
            }
        }
    }
    #[inline(always)]
    pub fn iter(&self) -> Iter<'_, T, O> {
        Iter {
            s: self,
            a: 0,
            b: self.len(),
        }
    }
    #[inline(always)]
    pub fn iter_mut(&mut self) -> IterMut<'_, T, O> {
        let b = self.len();
        IterMut {
            s: self,
            a: 0,
            b,
            _m: PhantomData,
        }
    }
    #[inline(always)]
    pub fn iter_ones(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.len()).filter(move |i| self.bit(*i))
    }
    #[inline(always)]
    pub fn iter_zeros(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.len()).filter(move |i| !self.bit(*i))
    }
    #[cfg(feature = "alloc")]
    pub fn to_bitvec(&self) -> crate::vec::BitVec<T, O> {
        crate::vec::BitVec::from_bitslice(self)
    }
    #[inline(always)]
    pub fn chunks(&self, n: usize) -> Chunks<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        Chunks { s: self, n }
    }
    #[inline(always)]
    pub fn rchunks(&self, n: usize) -> RChunks<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        RChunks { s: self, n }
    }
    #[inline(always)]
    pub fn chunks_exact(&self, n: usize) -> ChunksExact<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        let cut = self.len() - self.len() % n;
        ChunksExact {
            s: self.sub(0, cut),
            rem: self.sub(cut, self.len()),
            n,
        }
    }
    #[inline(always)]
    pub fn rchunks_exact(&self, n: usize) -> RChunksExact<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        let cut = self.len() % n;
        RChunksExact {
            s: self.sub(cut, self.len()),
            rem: self.sub(0, cut),
            n,
        }
    }
    #[inline(always)]
    pub fn chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        let b = self.len();
        ChunksMut {
            s: self,
            a: 0,
            b,
            n,
            _m: PhantomData,
        }
    }
    #[inline(always)]
    pub fn rchunks_mut(&mut self, n: usize) -> RChunksMut<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        let b = self.len();
        RChunksMut {
            s: self,
            b,
            n,
            _m: PhantomData,
        }
    }
    #[inline(always)]
    pub fn chunks_exact_mut(&mut self, n: usize) -> ChunksExactMut<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        let len = self.len();
        ChunksExactMut {
            s: self,
            a: 0,
            cut: len - len % n,
            len,
            n,
            _m: PhantomData,
        }
    }
    #[inline(always)]
    pub fn rchunks_exact_mut(&mut self, n: usize) -> RChunksExactMut<'_, T, O> {
        assert!(n != 0, "chunk width cannot be 0");
        let len = self.len();
        RChunksExactMut {
            s: self,
            b: len,
            cut: len % n,
            n,
            _m: PhantomData,
        }
    }
    pub fn domain(&self) -> Domain<'_, T, O> {
        let head = self.head();
        let end = head + self.len();
        let p = self.base();
        if self.len() == 0 {
            return Domain::Region {
                head: None,
                body: &[],
                tail: None,
            };
        }
        let elts = (end + 7) / 8;
        if elts == 1 && head != 0 && end != 8 {
            return Domain::Enclave(PartialElement {
                byte: unsafe { *p },
                _m: PhantomData,
            });
        }
        let a = (head != 0) as usize;
        let b = if end % 8 != 0 { elts - 1 } else { elts };
        Domain::Region {
            head: if a != 0 {
                Some(PartialElement {
                    byte: unsafe { *p },
                    _m: PhantomData,
                })
            } else {
                None
            },
            body: if a >= b {
                &[]
            } else {
                unsafe { core::slice::from_raw_parts(p.add(a) as *const T, b - a) }
            },
            tail: if b < elts {
                Some(PartialElement {
                    byte: unsafe { *p.add(b) },
                    _m: PhantomData,
                })
            } else {
                None
            },
        }
    }
}

pub struct PartialElement<'a, T, O> {
    #[allow(dead_code)]
    byte: u8,
    _m: PhantomData<(&'a T, O)>,
}
pub enum Domain<'a, T: BitStore, O: BitOrder> {
    Enclave(PartialElement<'a, T, O>),
    Region {
        head: Option<PartialElement<'a, T, O>>,
        body: &'a [T],
        tail: Option<PartialElement<'a, T, O>>,
    },
}
impl<'a, T: BitStore, O: BitOrder> Domain<'a, T, O> {
    pub fn enclave(self) -> Option<PartialElement<'a, T, O>> {
        match self {
            Domain::Enclave(e) => Some(e),
            _ => None,
        }
    }
    pub fn region(
        self,
    ) -> Option<(
        Option<PartialElement<'a, T, O>>,
        &'a [T],
        Option<PartialElement<'a, T, O>>,
    )> {
        match self {
            Domain::Region { head, body, tail } => Some((head, body, tail)),
            _ => None,
        }
    }
}

fn bounds<R: RangeBounds<usize>>(r: R, len: usize) -> (usize, usize) {
    let a = match r.start_bound() {
        Bound::Included(a) => *a,
        Bound::Excluded(a) => *a + 1,
        Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        Bound::Included(b) => *b + 1,
        Bound::Excluded(b) => *b,
        Bound::Unbounded => len,
    };
    (a, b)
}

macro_rules! range_index { ($($r:ty, $s:ident, $len:ident => $a:expr, $b:expr);* $(;)?) => {$(
    impl<T: BitStore, O: BitOrder> Index<$r> for BitSlice<T, O> {
        type Output = BitSlice<T, O>;
        #[inline(always)]
        fn index(&self, $s: $r) -> &Self { let $len = self.len(); let _ = $len; let _ = &$s; self.sub($a, $b) }
    }
    impl<T: BitStore, O: BitOrder> IndexMut<$r> for BitSlice<T, O> {
        #[inline(always)]
        fn index_mut(&mut self, $s: $r) -> &mut Self { let $len = self.len(); let _ = $len; let _ = &$s; self.sub_mut($a, $b) }
    }
    impl<'a, T: BitStore, O: BitOrder> BitSliceIndex<'a, T, O> for $r {
        type Immut = &'a BitSlice<T, O>;
        type Mut = &'a mut BitSlice<T, O>;
        #[inline(always)]
        fn get(self, x: &'a BitSlice<T, O>) -> Option<Self::Immut> {
            let $s = self; let $len = x.len(); let _ = $len; let _ = &$s;
            let (a, b) = ($a, $b);
            if a <= b && b <= x.len() { Some(x.sub(a, b)) } else { None }
        }
        #[inline(always)]
        fn get_mut(self, x: &'a mut BitSlice<T, O>) -> Option<Self::Mut> {
            let $s = self; let $len = x.len(); let _ = $len; let _ = &$s;
            let (a, b) = ($a, $b);
            if a <= b && b <= x.len() { Some(x.sub_mut(a, b)) } else { None }
        }
    }
)*} }
range_index! {
    Range<usize>, r, n => r.start, r.end;
    RangeTo<usize>, r, n => 0, r.end;
    RangeFrom<usize>, r, n => r.start, n;
    RangeInclusive<usize>, r, n => *r.start(), *r.end() + 1;
    RangeToInclusive<usize>, r, n => 0, r.end + 1;
    RangeFull, r, n => 0, n;
}
impl<T: BitStore, O: BitOrder> Index<usize> for BitSlice<T, O> {
    type Output = bool;
    #[inline(always)]
    fn index(&self, i: usize) -> &bool {
        assert!(i < self.len(), "bit index out of bounds");
        if self.bit(i) {
            &true
        } else {
            &false
        }
    }
}

pub trait BitSliceIndex<'a, T: BitStore, O: BitOrder> {
    type Immut;
    type Mut;
    fn get(self, x: &'a BitSlice<T, O>) -> Option<Self::Immut>;
    fn get_mut(self, x: &'a mut BitSlice<T, O>) -> Option<Self::Mut>;
}
impl<'a, T: BitStore, O: BitOrder> BitSliceIndex<'a, T, O> for usize {
    type Immut = BitRef<'a>;
    type Mut = BitRefMut<'a>;
    #[inline(always)]
    fn get(self, x: &'a BitSlice<T, O>) -> Option<BitRef<'a>> {
        if self < x.len() {
            Some(BitRef {
                v: x.bit(self),
                _m: PhantomData,
            })
        } else {
            None
        }
    }
    #[inline(always)]
    fn get_mut(self, x: &'a mut BitSlice<T, O>) -> Option<BitRefMut<'a>> {
        if self < x.len() {
            Some(bit_mut(x, self))
        } else {
            None
        }
    }
}
#[inline(always)]
fn bit_mut<'a, T: BitStore, O: BitOrder>(x: *mut BitSlice<T, O>, i: usize) -> BitRefMut<'a> {
    let s = unsafe { &mut *x };
    let at = (s.mem.len() & 7) + i;
    let m = bit_mask::<O>(at);
    let p = step(s.base(), at >> 3) as *mut u8;
    BitRefMut {
        v: unsafe { *p } & m != 0,
        p,
        m,
        _m: PhantomData,
    }
}
#[inline(always)]
fn bit_mask<O: BitOrder>(at: usize) -> u8 {
    if O::MSB {
        0x80 >> (at & 7)
    } else {
        1 << (at & 7)
    }
}

/// Reads of one bit.
#[derive(Clone, Copy, Debug)]
pub struct BitRef<'a> {
    v: bool,
    _m: PhantomData<&'a ()>,
}
impl Deref for BitRef<'_> {
    type Target = bool;
    #[inline(always)]
    fn deref(&self) -> &bool {
        &self.v
    }
}
/// Proxy for one mutable bit; written back when dropped.
pub struct BitRefMut<'a> {
    v: bool,
    p: *mut u8,
    m: u8,
    _m: PhantomData<&'a mut ()>,
}
impl BitRefMut<'_> {
    pub fn commit(self, v: bool) {
        let mut s = self;
        s.v = v;
    }
    pub fn set(&mut self, v: bool) {
        self.v = v
    }
}
impl Deref for BitRefMut<'_> {
    type Target = bool;
    #[inline(always)]
    fn deref(&self) -> &bool {
        &self.v
    }
}
impl DerefMut for BitRefMut<'_> {
    #[inline(always)]
    fn deref_mut(&mut self) -> &mut bool {
        &mut self.v
    }
}
impl Drop for BitRefMut<'_> {
    #[inline(always)]
    fn drop(&mut self) {
        let p = unsafe { &mut *self.p };
        if self.v {
            *p |= self.m
        } else {
            *p &= !self.m
        }
    }
}

pub struct Iter<'a, T: BitStore, O: BitOrder> {
    s: &'a BitSlice<T, O>,
    a: usize,
    b: usize,
}
impl<'a, T: BitStore, O: BitOrder> Iter<'a, T, O> {
    #[inline(always)]
    pub fn by_vals(self) -> ByVals<'a, T, O> {
        ByVals(self)
    }
    #[inline(always)]
    pub fn by_refs(self) -> impl Iterator<Item = &'a bool> + 'a {
        ByVals(self).map(|b| if b { &true } else { &false })
    }
}
impl<'a, T: BitStore, O: BitOrder> Iterator for Iter<'a, T, O> {
    type Item = BitRef<'a>;
    #[inline(always)]
    fn next(&mut self) -> Option<BitRef<'a>> {
        if self.a < self.b {
            let v = self.s.bit(self.a);
            self.a += 1;
            Some(BitRef { v, _m: PhantomData })
        } else {
            None
        }
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.b - self.a, Some(self.b - self.a))
    }
}
impl<'a, T: BitStore, O: BitOrder> DoubleEndedIterator for Iter<'a, T, O> {
    #[inline(always)]
    fn next_back(&mut self) -> Option<BitRef<'a>> {
        if self.a < self.b {
            self.b -= 1;
            Some(BitRef {
                v: self.s.bit(self.b),
                _m: PhantomData,
            })
        } else {
            None
        }
    }
}
impl<T: BitStore, O: BitOrder> ExactSizeIterator for Iter<'_, T, O> {}
pub struct ByVals<'a, T: BitStore, O: BitOrder>(Iter<'a, T, O>);
impl<T: BitStore, O: BitOrder> Iterator for ByVals<'_, T, O> {
    type Item = bool;
    #[inline(always)]
    fn next(&mut self) -> Option<bool> {
        self.0.next().map(|b| *b)
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T: BitStore, O: BitOrder> DoubleEndedIterator for ByVals<'_, T, O> {
    #[inline(always)]
    fn next_back(&mut self) -> Option<bool> {
        self.0.next_back().map(|b| *b)
    }
}
impl<T: BitStore, O: BitOrder> ExactSizeIterator for ByVals<'_, T, O> {}
impl<'a, T: BitStore, O: BitOrder> IntoIterator for &'a BitSlice<T, O> {
    type Item = BitRef<'a>;
    type IntoIter = Iter<'a, T, O>;
    #[inline(always)]
    fn into_iter(self) -> Iter<'a, T, O> {
        self.iter()
    }
}
pub struct IterMut<'a, T: BitStore, O: BitOrder> {
    s: *mut BitSlice<T, O>,
    a: usize,
    b: usize,
    _m: PhantomData<&'a mut ()>,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for IterMut<'a, T, O> {
    type Item = BitRefMut<'a>;
    #[inline(always)]
    fn next(&mut self) -> Option<BitRefMut<'a>> {
        if self.a < self.b {
            self.a += 1;
            Some(bit_mut(self.s, self.a - 1))
        } else {
            None
        }
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.b - self.a, Some(self.b - self.a))
    }
}
impl<'a, T: BitStore, O: BitOrder> DoubleEndedIterator for IterMut<'a, T, O> {
    #[inline(always)]
    fn next_back(&mut self) -> Option<BitRefMut<'a>> {
        if self.a < self.b {
            self.b -= 1;
            Some(bit_mut(self.s, self.b))
        } else {
            None
        }
    }
}
impl<T: BitStore, O: BitOrder> ExactSizeIterator for IterMut<'_, T, O> {}

macro_rules! chunk_iter { ($name:ident, |$me:ident| $front:expr, $back:expr, $len:expr) => {
    impl<'a, T: BitStore, O: BitOrder> Iterator for $name<'a, T, O> {
        type Item = &'a BitSlice<T, O>;
        #[inline(always)]
        fn next(&mut self) -> Option<Self::Item> {
            let $me = self;
            if $me.s.is_empty() { return None; }
            let (x, r) = $front;
            $me.s = r;
            Some(x)
        }
        #[inline(always)]
        fn size_hint(&self) -> (usize, Option<usize>) { let $me = self; let l = $len; (l, Some(l)) }
    }
    impl<'a, T: BitStore, O: BitOrder> DoubleEndedIterator for $name<'a, T, O> {
        #[inline(always)]
        fn next_back(&mut self) -> Option<Self::Item> {
            let $me = self;
            if $me.s.is_empty() { return None; }
            let (x, r) = $back;
            $me.s = r;
            Some(x)
        }
    }
    impl<T: BitStore, O: BitOrder> ExactSizeIterator for $name<'_, T, O> {}
} }
#[inline(always)]
fn front<T: BitStore, O: BitOrder>(s: &BitSlice<T, O>, k: usize) -> (&BitSlice<T, O>, &BitSlice<T, O>) {
    s.split_at(k)
}
#[inline(always)]
fn back<T: BitStore, O: BitOrder>(s: &BitSlice<T, O>, k: usize) -> (&BitSlice<T, O>, &BitSlice<T, O>) {
    let (a, b) = s.split_at(s.len() - k);
    (b, a)
}
#[inline(always)]
fn tail_of(len: usize, n: usize) -> usize {
    if len % n == 0 {
        n
    } else {
        len % n
    }
}
#[derive(Clone)]
pub struct Chunks<'a, T: BitStore, O: BitOrder> {
    s: &'a BitSlice<T, O>,
    n: usize,
}
chunk_iter!(
    Chunks,
    |m| front(m.s, core::cmp::min(m.n, m.s.len())),
    back(m.s, tail_of(m.s.len(), m.n)),
    (m.s.len() + m.n - 1) / m.n
);
#[derive(Clone)]
pub struct RChunks<'a, T: BitStore, O: BitOrder> {
    s: &'a BitSlice<T, O>,
    n: usize,
}
chunk_iter!(
    RChunks,
    |m| back(m.s, core::cmp::min(m.n, m.s.len())),
    front(m.s, tail_of(m.s.len(), m.n)),
    (m.s.len() + m.n - 1) / m.n
);
#[derive(Clone)]
pub struct ChunksExact<'a, T: BitStore, O: BitOrder> {
    s: &'a BitSlice<T, O>,
    rem: &'a BitSlice<T, O>,
    n: usize,
}
impl<'a, T: BitStore, O: BitOrder> ChunksExact<'a, T, O> {
    #[inline(always)]
    pub fn remainder(&self) -> &'a BitSlice<T, O> {
        self.rem
    }
}
chunk_iter!(ChunksExact, |m| front(m.s, m.n), back(m.s, m.n), m.s.len() / m.n);
#[derive(Clone)]
pub struct RChunksExact<'a, T: BitStore, O: BitOrder> {
    s: &'a BitSlice<T, O>,
    rem: &'a BitSlice<T, O>,
    n: usize,
}
impl<'a, T: BitStore, O: BitOrder> RChunksExact<'a, T, O> {
    #[inline(always)]
    pub fn remainder(&self) -> &'a BitSlice<T, O> {
        self.rem
    }
}
chunk_iter!(RChunksExact, |m| back(m.s, m.n), front(m.s, m.n), m.s.len() / m.n);

pub struct ChunksMut<'a, T: BitStore, O: BitOrder> {
    s: *mut BitSlice<T, O>,
    a: usize,
    b: usize,
    n: usize,
    _m: PhantomData<&'a mut ()>,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for ChunksMut<'a, T, O> {
    type Item = &'a mut BitSlice<T::Alias, O>;
    #[inline(always)]
    fn next(&mut self) -> Option<Self::Item> {
        if self.a >= self.b {
            return None;
        }
        let e = core::cmp::min(self.a + self.n, self.b);
        let x = unsafe { &mut *self.s }.alias_mut(self.a, e);
        self.a = e;
        Some(x)
    }
}
pub struct RChunksMut<'a, T: BitStore, O: BitOrder> {
    s: *mut BitSlice<T, O>,
    b: usize,
    n: usize,
    _m: PhantomData<&'a mut ()>,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for RChunksMut<'a, T, O> {
    type Item = &'a mut BitSlice<T::Alias, O>;
    #[inline(always)]
    fn next(&mut self) -> Option<Self::Item> {
        if self.b == 0 {
            return None;
        }
        let a = self.b.saturating_sub(self.n);
        let x = unsafe { &mut *self.s }.alias_mut(a, self.b);
        self.b = a;
        Some(x)
    }
}
pub struct ChunksExactMut<'a, T: BitStore, O: BitOrder> {
    s: *mut BitSlice<T, O>,
    a: usize,
    cut: usize,
    len: usize,
    n: usize,
    _m: PhantomData<&'a mut ()>,
}
impl<'a, T: BitStore, O: BitOrder> ChunksExactMut<'a, T, O> {
    #[inline(always)]
    pub fn into_remainder(self) -> &'a mut BitSlice<T::Alias, O> {
        unsafe { &mut *self.s }.alias_mut(self.cut, self.len)
    }
    #[inline(always)]
    pub fn take_remainder(&mut self) -> &'a mut BitSlice<T::Alias, O> {
        let x = unsafe { &mut *self.s }.alias_mut(self.cut, self.len);
        self.len = self.cut;
        x
    }
}
impl<'a, T: BitStore, O: BitOrder> Iterator for ChunksExactMut<'a, T, O> {
    type Item = &'a mut BitSlice<T::Alias, O>;
    #[inline(always)]
    fn next(&mut self) -> Option<Self::Item> {
        if self.a >= self.cut {
            return None;
        }
        let x = unsafe { &mut *self.s }.alias_mut(self.a, self.a + self.n);
        self.a += self.n;
        Some(x)
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let l = (self.cut - self.a) / self.n;
        (l, Some(l))
    }
}
impl<T: BitStore, O: BitOrder> ExactSizeIterator for ChunksExactMut<'_, T, O> {}
pub struct RChunksExactMut<'a, T: BitStore, O: BitOrder> {
    s: *mut BitSlice<T, O>,
    b: usize,
    cut: usize,
    n: usize,
    _m: PhantomData<&'a mut ()>,
}
impl<'a, T: BitStore, O: BitOrder> RChunksExactMut<'a, T, O> {
    #[inline(always)]
    pub fn into_remainder(self) -> &'a mut BitSlice<T::Alias, O> {
        unsafe { &mut *self.s }.alias_mut(0, self.cut)
    }
    #[inline(always)]
    pub fn take_remainder(&mut self) -> &'a mut BitSlice<T::Alias, O> {
        unsafe { &mut *self.s }.alias_mut(0, self.cut)
    }
}
impl<'a, T: BitStore, O: BitOrder> Iterator for RChunksExactMut<'a, T, O> {
    type Item = &'a mut BitSlice<T::Alias, O>;
    #[inline(always)]
    fn next(&mut self) -> Option<Self::Item> {
        if self.b <= self.cut {
            return None;
        }
        let x = unsafe { &mut *self.s }.alias_mut(self.b - self.n, self.b);
        self.b -= self.n;
        Some(x)
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let l = (self.b - self.cut) / self.n;
        (l, Some(l))
    }
}
impl<T: BitStore, O: BitOrder> ExactSizeIterator for RChunksExactMut<'_, T, O> {}

impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<BitSlice<T2, O2>> for BitSlice<T, O> {
    fn eq(&self, o: &BitSlice<T2, O2>) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut i = 0;
        while i < self.len() {
            if self.bit(i) != o.bit(i) {
                return false;
            }
            i += 1;
        }
        true
    }
}
impl<T: BitStore, O: BitOrder> Eq for BitSlice<T, O> {}
impl<T: BitStore, O: BitOrder> core::fmt::Debug for BitSlice<T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("[")?;
        let mut i = 0;
        while i < self.len() {
            f.write_str(if self.bit(i) { "1" } else { "0" })?;
            i += 1;
        }
        f.write_str("]")
    }
}
impl<'a, T: BitStore, O: BitOrder> Default for &'a BitSlice<T, O> {
    fn default() -> Self {
        BitSlice::empty()
    }
}
impl<'a, T: BitStore, O: BitOrder> TryFrom<&'a [T]> for &'a BitSlice<T, O> {
    type Error = BitSpanError;
    fn try_from(s: &'a [T]) -> Result<Self, BitSpanError> {
        Ok(BitSlice::from_slice(s))
    }
}
impl<T: BitStore, O: BitOrder> AsRef<BitSlice<T, O>> for BitSlice<T, O> {
    fn as_ref(&self) -> &Self {
        self
    }
}
impl<T: BitStore, O: BitOrder> AsMut<BitSlice<T, O>> for BitSlice<T, O> {
    fn as_mut(&mut self) -> &mut Self {
        self
    }
}
