#![allow(dead_code, unused)]
#![cfg_attr(not(feature = "std"), no_std)]
#[cfg(any(feature = "alloc", feature = "std"))]
extern crate alloc;
pub mod sym;
pub mod rd;
pub mod wr;
pub mod pr;
pub mod ns;
