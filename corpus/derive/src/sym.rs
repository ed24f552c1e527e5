//! Opaque stand-ins: bodies are never looked at, calls are events or pure terms of the analysis.
use deku::ctx::*;
use deku::no_std_io::{self, Read, Seek, SeekFrom, Write};
use deku::prelude::*;

pub struct Io(());
impl Read for Io {
    #[inline(never)]
    fn read(&mut self, _b: &mut [u8]) -> no_std_io::Result<usize> { loop {} }
    #[inline(never)]
    fn read_exact(&mut self, _b: &mut [u8]) -> no_std_io::Result<()> { loop {} }
}
impl Write for Io {
    #[inline(never)]
    fn write(&mut self, _b: &[u8]) -> no_std_io::Result<usize> { loop {} }
    #[inline(never)]
    fn flush(&mut self) -> no_std_io::Result<()> { loop {} }
    #[inline(never)]
    fn write_all(&mut self, _b: &[u8]) -> no_std_io::Result<()> { loop {} }
}
impl Seek for Io {
    #[inline(never)]
    fn seek(&mut self, _p: SeekFrom) -> no_std_io::Result<u64> { loop {} }
}

/// An arbitrary field type, readable and writable with any context.
#[derive(Debug, Clone, Copy)]
pub struct Leaf<const K: usize>(pub(crate) ());
impl<'a, const K: usize, Ctx> DekuReader<'a, Ctx> for Leaf<K> {
    #[inline(never)]
    fn from_reader_with_ctx<R: Read + Seek>(_r: &mut Reader<R>, _ctx: Ctx) -> Result<Self, DekuError> { loop {} }
}
impl<const K: usize, Ctx> DekuWriter<Ctx> for Leaf<K> {
    #[inline(never)]
    fn to_writer<W: Write + Seek>(&self, _w: &mut Writer<W>, _ctx: Ctx) -> Result<(), DekuError> { loop {} }
}
/// An arbitrary collection of leaves, read under a limit.
#[derive(Debug, Clone, Copy)]
pub struct Coll<const K: usize>(());
impl<'a, const K: usize, Ctx, P: FnMut(&Leaf<K>) -> bool> DekuReader<'a, (Limit<Leaf<K>, P>, Ctx)> for Coll<K> {
    #[inline(never)]
    fn from_reader_with_ctx<R: Read + Seek>(_r: &mut Reader<R>, _ctx: (Limit<Leaf<K>, P>, Ctx)) -> Result<Self, DekuError> { loop {} }
}
impl<const K: usize, Ctx> DekuWriter<Ctx> for Coll<K> {
    #[inline(never)]
    fn to_writer<W: Write + Seek>(&self, _w: &mut Writer<W>, _ctx: Ctx) -> Result<(), DekuError> { loop {} }
}
impl<const K: usize> Default for Coll<K> {
    #[inline(never)]
    fn default() -> Self { loop {} }
}
impl<const K: usize> DekuSize for Leaf<K> {
    const SIZE_BITS: usize = 1000 + K * 17;
}
impl<const K: usize> Default for Leaf<K> {
    #[inline(never)]
    fn default() -> Self { loop {} }
}
impl<const K: usize> PartialEq for Leaf<K> {
    #[inline(never)]
    fn eq(&self, _o: &Self) -> bool { loop {} }
}
impl<const K: usize> PartialEq for Coll<K> {
    #[inline(never)]
    fn eq(&self, _o: &Self) -> bool { loop {} }
}
impl<const K: usize, const J: usize> TryFrom<Raw<J>> for Coll<K> {
    type Error = DekuError;
    #[inline(never)]
    fn try_from(_r: Raw<J>) -> Result<Self, DekuError> { loop {} }
}
/// Convertible into any leaf, fallibly.
pub struct Raw<const K: usize>(());
impl<const K: usize, const J: usize> TryFrom<Raw<J>> for Leaf<K> {
    type Error = DekuError;
    #[inline(never)]
    fn try_from(_r: Raw<J>) -> Result<Self, DekuError> { loop {} }
}

#[inline(never)]
pub fn un<const K: usize, A>(_a: A) -> usize { loop {} }
#[inline(never)]
pub fn us<const K: usize, A>(_a: A) -> i64 { loop {} }
#[inline(never)]
pub fn ub<const K: usize, A>(_a: A) -> bool { loop {} }
#[inline(never)]
pub fn uh<const K: usize, A>(_a: A) -> u8 { loop {} }
#[inline(never)]
pub fn ul<const K: usize, const J: usize, A>(_a: A) -> Leaf<J> { loop {} }
#[inline(never)]
pub fn uc<const K: usize, const J: usize, A>(_a: A) -> Coll<J> { loop {} }
#[inline(never)]
pub fn uq<const K: usize, A>(_a: A) -> Raw<K> { loop {} }
#[inline(never)]
pub fn ue<const K: usize, A>(_a: A) -> Endian { loop {} }
#[inline(never)]
pub fn uo<const K: usize, A>(_a: A) -> Order { loop {} }
#[inline(never)]
pub fn um<const K: usize, const J: usize, A>(_a: A) -> Result<Leaf<J>, DekuError> { loop {} }
#[inline(never)]
pub fn ur<const K: usize, const J: usize, R: Read + Seek, A>(_r: &mut Reader<R>, _a: A) -> Result<Leaf<J>, DekuError> { loop {} }
#[inline(never)]
pub fn ux<const K: usize, T, R: Read + Seek, A>(_r: &mut Reader<R>, _a: A) -> Result<T, DekuError> { loop {} }
#[inline(never)]
pub fn uw<const K: usize, W: Write + Seek, A>(_w: &mut Writer<W>, _a: A) -> Result<(), DekuError> { loop {} }
