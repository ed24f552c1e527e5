#![allow(dead_code, unused, non_snake_case)]
#![cfg_attr(not(feature = "std"), no_std)]
#[cfg(any(feature = "alloc", feature = "std"))]
extern crate alloc;
pub mod sym;
pub mod gen;
