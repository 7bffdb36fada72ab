//! A small property-based testing engine: recorded choice sequences, shrinking, crash isolation, evidence.
#![allow(clippy::all)]
pub mod src;
pub mod alloc;
pub mod sys;
pub mod run;
pub mod io;
pub mod hex;
pub use src::{Rng, Src};
pub use run::{Cx, Fail, Main, Res};
pub use hex::hex;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Returns `Err(Fail)` from the enclosing property with a formatted message.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::new(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail::new(format!($($t)*))); } };
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for c in data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h ^= u64::from_le_bytes(b).wrapping_add((c.len() as u64) << 56);
        h = h.wrapping_mul(0x100000001b3).rotate_left(29);
        h ^= h >> 32;
    }
    h = (h ^ (h >> 33)).wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 29)
}
pub fn hash_str(seed: u64, s: &str) -> u64 { hash_bytes(seed, s.as_bytes()) }
