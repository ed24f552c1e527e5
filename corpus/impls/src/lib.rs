#![allow(dead_code, unused, non_snake_case)]
#![cfg_attr(not(feature = "std"), no_std)]
#[cfg(any(feature = "alloc", feature = "std"))]
extern crate alloc;
#[path = "../../derive/src/sym.rs"]
pub mod sym;
pub mod el;
pub mod wrap;
#[cfg(any(feature = "alloc", feature = "std"))]
pub mod coll;
#[cfg(feature = "std")]
pub mod maps;
