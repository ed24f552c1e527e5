use crate::sym::*;
use deku::ctx::*;
use deku::prelude::*;
use deku::writer::*;
use deku::no_std_io::{Seek, SeekFrom};

pub fn w_wr_write_bytes(w: &mut Writer<Io>, b: &[u8]) -> Result<(), DekuError> { w.write_bytes(b) }
pub fn w_wr_finalize(w: &mut Writer<Io>) -> Result<(), DekuError> { w.finalize() }
pub fn w_wr_seek(w: &mut Writer<Io>, p: SeekFrom) -> deku::no_std_io::Result<u64> { w.seek(p) }
#[cfg(feature = "bits")]
pub fn w_wr_write_bits(w: &mut Writer<Io>, b: &deku::bitvec::BitSlice<u8, deku::bitvec::Msb0>) -> Result<(), DekuError> { w.write_bits(b) }
#[cfg(feature = "bits")]
pub fn w_wr_write_bits_order(w: &mut Writer<Io>, b: &deku::bitvec::BitSlice<u8, deku::bitvec::Msb0>, o: Order) -> Result<(), DekuError> { w.write_bits_order(b, o) }
