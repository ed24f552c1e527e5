use crate::sym::*;
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::*;
use deku::no_std_io::{Seek, SeekFrom};

pub fn w_rd_end(r: &mut Reader<Io>) -> bool { r.end() }
pub fn w_rd_seek(r: &mut Reader<Io>, p: SeekFrom) -> deku::no_std_io::Result<u64> { r.seek(p) }
pub fn w_rd_skip_bits(r: &mut Reader<Io>, n: usize, o: Order) -> Result<(), DekuError> { r.skip_bits(n, o) }
pub fn w_rd_read_bytes(r: &mut Reader<Io>, n: usize, b: &mut [u8], o: Order) -> Result<ReaderRet, DekuError> { r.read_bytes(n, b, o) }
pub fn w_rd_read_bytes_const(r: &mut Reader<Io>, b: &mut [u8; 4], o: Order) -> Result<ReaderRet, DekuError> { r.read_bytes_const::<4>(b, o) }
pub fn w_rd_read_bytes_const_into(r: &mut Reader<Io>, b: &mut [u8; 4], o: Order) -> Result<(), DekuError> { r.read_bytes_const_into::<4>(b, o) }
#[cfg(feature = "bits")]
pub fn w_rd_read_bits_into(r: &mut Reader<Io>, b: &mut deku::bitvec::BitSlice<u8, deku::bitvec::Msb0>, o: Order) -> Result<(), DekuError> { r.read_bits_into(b, o) }
#[cfg(all(feature = "bits", any(feature = "std", feature = "alloc")))]
pub fn w_rd_read_bits(r: &mut Reader<Io>, n: usize, o: Order) -> Result<Option<deku::bitvec::BitVec<u8, deku::bitvec::Msb0>>, DekuError> { r.read_bits(n, o) }
#[cfg(any(feature = "std", feature = "alloc"))]
pub fn w_ex_vec(r: &mut Reader<Io>, n: usize) -> Result<alloc::vec::Vec<u8>, DekuError> { <alloc::vec::Vec<u8> as DekuReader<'_, ReadExact>>::from_reader_with_ctx(r, ReadExact(n)) }
