//! NoSeek over an arbitrary stream
use crate::sym::*;
use deku::noseek::NoSeek;
use deku::no_std_io::{Read, Result, Seek, SeekFrom, Write};

pub fn w_ns_seek(s: &mut NoSeek<Io>, p: SeekFrom) -> Result<u64> { s.seek(p) }
pub fn w_ns_read(s: &mut NoSeek<Io>, b: &mut [u8]) -> Result<usize> { s.read(b) }
pub fn w_ns_read_exact(s: &mut NoSeek<Io>, b: &mut [u8]) -> Result<()> { s.read_exact(b) }
pub fn w_ns_write(s: &mut NoSeek<Io>, b: &[u8]) -> Result<usize> { s.write(b) }
pub fn w_ns_write_all(s: &mut NoSeek<Io>, b: &[u8]) -> Result<()> { s.write_all(b) }
pub fn w_ns_flush(s: &mut NoSeek<Io>) -> Result<()> { s.flush() }
#[cfg(feature = "std")]
pub fn w_ns_stream_position(s: &mut NoSeek<Io>) -> Result<u64> { s.stream_position() }
#[cfg(feature = "std")]
pub fn w_ns_read_vectored(s: &mut NoSeek<Io>, b: &mut [std::io::IoSliceMut<'_>]) -> Result<usize> { s.read_vectored(b) }
#[cfg(feature = "std")]
pub fn w_ns_write_vectored(s: &mut NoSeek<Io>, b: &[std::io::IoSlice<'_>]) -> Result<usize> { s.write_vectored(b) }
#[cfg(feature = "std")]
pub fn w_ns_read_to_end(s: &mut NoSeek<Io>, b: &mut Vec<u8>) -> Result<usize> { s.read_to_end(b) }
#[cfg(feature = "std")]
pub fn w_ns_read_to_string(s: &mut NoSeek<Io>, b: &mut String) -> Result<usize> { s.read_to_string(b) }
