#![allow(clippy::all, dead_code, unused_imports, unused_macros, static_mut_refs)]
//! Contracts (pre- and postconditions) for deku's public functions.
//! Every `contracts!` item is one obligation: it sets up an arbitrary state satisfying
//! the precondition, calls the real function from /repo and asserts the postcondition.
extern crate alloc;
extern crate std;

#[cfg(not(kani))]
#[path = "rt.rs"]
pub mod kani;

pub mod ghost;
pub mod spec;

/// core::mem::swap, without the byte-wise loop over MaybeUninit chunks that the
/// verifier cannot constant-propagate (same contract: the two values are exchanged).
pub fn swap<T>(a: &mut T, b: &mut T) {
    unsafe {
        let t = core::ptr::read(a);
        let u = core::ptr::read(b);
        core::ptr::write(a, u);
        core::ptr::write(b, t)
    }
}

/// `UNWIND name => { body }`: one obligation each, decided by the verifier (and evaluated
/// natively on generated values); after `; native`, `name => { body }`: evaluated natively only
/// (sampled, never counted as proved).
#[macro_export]
macro_rules! contracts {
    (; native $($nn:ident => $nb:block)*) => {
        $(#[cfg(not(kani))] pub fn $nn() $nb)*
        #[cfg(not(kani))]
        pub const REG: &[(&str, fn(), bool)] = &[$((stringify!($nn), $nn as fn(), true),)*];
    };
    ($($u:literal $name:ident => $body:block)*) => {
        $(pub fn $name() {
            $body
            // vacuity guard: the contract must be satisfiable and return (checked by the runner)
            #[cfg(kani)]
            kani::cover!(true, "end of contract reached");
        })*
        /// code generation root; the runner decides the groups, and where that does not settle
        /// a group, its contracts one by one
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(core::mem::swap, crate::swap)]
        pub fn mega() {
            groups();
        }
        #[cfg(not(kani))]
        pub const REG: &[(&str, fn(), bool)] = &[$((stringify!($name), $name as fn(), false),)*];
    };
}
include!("mods.rs");
