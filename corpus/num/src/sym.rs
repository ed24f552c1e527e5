//! Opaque stand-ins. Every function of this module is a frontier of the analysis:
//! its body is never looked at, its call is an event of the abstract trace.
use deku::no_std_io::{self, Read, Seek, SeekFrom, Write};
use deku::prelude::*;

/// An arbitrary stream: any method may fail in any way.
pub struct Io(());
impl Read for Io {
    #[inline(never)]
    fn read(&mut self, _b: &mut [u8]) -> no_std_io::Result<usize> { loop {} }
    #[inline(never)]
    fn read_exact(&mut self, _b: &mut [u8]) -> no_std_io::Result<()> { loop {} }
    #[cfg(feature = "std")]
    #[inline(never)]
    fn read_vectored(&mut self, _b: &mut [std::io::IoSliceMut<'_>]) -> no_std_io::Result<usize> { loop {} }
    #[cfg(feature = "std")]
    #[inline(never)]
    fn read_to_end(&mut self, _b: &mut Vec<u8>) -> no_std_io::Result<usize> { loop {} }
    #[cfg(feature = "std")]
    #[inline(never)]
    fn read_to_string(&mut self, _b: &mut String) -> no_std_io::Result<usize> { loop {} }
}
impl Write for Io {
    #[inline(never)]
    fn write(&mut self, _b: &[u8]) -> no_std_io::Result<usize> { loop {} }
    #[inline(never)]
    fn flush(&mut self) -> no_std_io::Result<()> { loop {} }
    #[inline(never)]
    fn write_all(&mut self, _b: &[u8]) -> no_std_io::Result<()> { loop {} }
    #[cfg(feature = "std")]
    #[inline(never)]
    fn write_vectored(&mut self, _b: &[std::io::IoSlice<'_>]) -> no_std_io::Result<usize> { loop {} }
}
impl Seek for Io {
    #[inline(never)]
    fn seek(&mut self, _p: SeekFrom) -> no_std_io::Result<u64> { loop {} }
}
