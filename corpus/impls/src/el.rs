//! An opaque element that occupies memory (zero-sized ones are special to collections).
use deku::ctx::*;
use deku::no_std_io::{self, Read, Seek, SeekFrom, Write};
use deku::prelude::*;
use core::hash::{Hash, Hasher};

#[derive(Debug)]
pub struct El<const K: usize>(u32);
impl<'a, const K: usize, Ctx> DekuReader<'a, Ctx> for El<K> {
    #[inline(never)]
    fn from_reader_with_ctx<R: Read + Seek>(_r: &mut Reader<R>, _ctx: Ctx) -> Result<Self, DekuError> { loop {} }
}
impl<const K: usize, Ctx> DekuWriter<Ctx> for El<K> {
    #[inline(never)]
    fn to_writer<W: Write + Seek>(&self, _w: &mut Writer<W>, _ctx: Ctx) -> Result<(), DekuError> { loop {} }
}
impl<const K: usize> PartialEq for El<K> {
    #[inline(never)]
    fn eq(&self, _o: &Self) -> bool { loop {} }
}
impl<const K: usize> Eq for El<K> {}
impl<const K: usize> Hash for El<K> {
    #[inline(never)]
    fn hash<H: Hasher>(&self, _h: &mut H) { loop {} }
}
impl<const K: usize> Clone for El<K> {
    #[inline(never)]
    fn clone(&self) -> Self { loop {} }
}
impl<const K: usize> Drop for El<K> {
    #[inline(never)]
    fn drop(&mut self) { loop {} }
}
/// A stop condition: an event of the analysis.
#[inline(never)]
pub fn pred<const K: usize, T>(_a: &T) -> bool { loop {} }
#[derive(Default)]
pub struct Hs(());
impl core::hash::BuildHasher for Hs {
    type Hasher = Hx;
    #[inline(never)]
    fn build_hasher(&self) -> Hx { loop {} }
}
pub struct Hx(());
impl Hasher for Hx {
    #[inline(never)]
    fn finish(&self) -> u64 { loop {} }
    #[inline(never)]
    fn write(&mut self, _b: &[u8]) { loop {} }
}
