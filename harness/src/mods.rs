pub mod common;
pub mod c01;
#[cfg(not(kani))]
pub const REGISTRY: &[(&str, &[(&str, fn())])] = &[("c01", c01::REG)];
