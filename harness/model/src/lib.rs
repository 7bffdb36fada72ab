//! Independent reference model of the wire format, and the erased registry records.
#![allow(clippy::all)]
pub mod codec;
pub mod std_types;
#[cfg(feature = "ext")]
pub mod ext_types;
pub mod ty;
pub mod dty;
pub mod bulk;
pub mod props;
pub mod faults;
pub mod huge;
pub mod rest;
pub use codec::{DE, In, M, Out};
pub use ty::{Ty, Val, flags};
