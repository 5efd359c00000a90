//! Native stand-in for the `kani` module: runs the same contracts on concrete values,
//! either replaying a verifier counterexample or on generated values.
use std::cell::RefCell;

pub struct Vacuous;
pub enum Feed {
    Replay(Vec<Vec<u8>>, usize),
    Random(u64),
}
thread_local! { static FEED: RefCell<Feed> = const { RefCell::new(Feed::Random(1)) };
static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) }; }

pub fn set(f: Feed) {
    FEED.with(|c| *c.borrow_mut() = f);
    LOG.with(|c| c.borrow_mut().clear());
}
pub fn log() -> Vec<Vec<u8>> {
    LOG.with(|c| c.borrow().clone())
}
fn raw(n: usize) -> Vec<u8> {
    let v = FEED.with(|c| match &mut *c.borrow_mut() {
        Feed::Replay(v, i) => {
            let r = v.get(*i).cloned().unwrap_or_default();
            *i += 1;
            let mut r = r;
            r.resize(n, 0);
            r
        }
        Feed::Random(s) => {
            let mut next = || {
                *s ^= *s << 13;
                *s ^= *s >> 7;
                *s ^= *s << 17;
                *s
            };
            let mode = next() % 8;
            (0..n)
                .map(|i| match mode {
                    0 => 0,
                    1 => 0xff,
                    2 => if i == 0 { (next() >> 24) as u8 & 7 } else { 0 },
                    3 => if i == 0 { (next() >> 24) as u8 } else { 0 },
                    _ => (next() >> 24) as u8,
                })
                .collect()
        }
    });
    LOG.with(|c| c.borrow_mut().push(v.clone()));
    v
}
pub trait Arbitrary: Sized {
    fn any() -> Self;
}
macro_rules! prim { ($($t:ty)*) => {$(impl Arbitrary for $t {
    fn any() -> Self { <$t>::from_le_bytes(raw(core::mem::size_of::<$t>()).try_into().unwrap()) }
})*} }
prim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
impl Arbitrary for bool {
    fn any() -> Self {
        let b = raw(1)[0];
        match FEED.with(|c| matches!(&*c.borrow(), Feed::Replay(..))) {
            true => { assume(b < 2); b == 1 }
            false => b & 1 == 1,
        }
    }
}
impl<const N: usize> Arbitrary for [u8; N] {
    fn any() -> Self {
        raw(N).try_into().unwrap()
    }
}
pub fn any<T: Arbitrary>() -> T {
    T::any()
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Vacuous)
    }
}
