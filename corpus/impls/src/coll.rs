use crate::el::*;
use crate::sym::*;
use alloc::{borrow::Cow, boxed::Box, ffi::CString, sync::Arc, vec::Vec};
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
type R<T> = Result<T, DekuError>;
type E1 = El<1>;

macro_rules! rd { ($n:ident, $t:ty, $c:ty) => { pub fn $n(r: &mut Reader<Io>, ctx: $c) -> R<$t> { <$t as DekuReader<'_, $c>>::from_reader_with_ctx(r, ctx) } } }
macro_rules! wr { ($n:ident, $t:ty, $c:ty) => { pub fn $n(w: &mut Writer<Io>, v: &$t, ctx: $c) -> R<()> { <$t as DekuWriter<$c>>::to_writer(v, w, ctx) } } }

macro_rules! lim {
    ($t:ty, $e:ty, $cn:ident, $un:ident, $bi:ident, $by:ident, $en:ident) => {
        pub fn $cn(r: &mut Reader<Io>, n: usize, ctx: u8) -> R<$t> { <$t>::from_reader_with_ctx(r, (Limit::<$e, _>::new_count(n), ctx)) }
        pub fn $un(r: &mut Reader<Io>, ctx: u8) -> R<$t> { <$t>::from_reader_with_ctx(r, (Limit::<$e, _>::new_until(|x: &$e| pred::<1, $e>(x)), ctx)) }
        pub fn $bi(r: &mut Reader<Io>, n: usize, ctx: u8) -> R<$t> { <$t>::from_reader_with_ctx(r, (Limit::<$e, _>::new_bit_size(BitSize(n)), ctx)) }
        pub fn $by(r: &mut Reader<Io>, n: usize, ctx: u8) -> R<$t> { <$t>::from_reader_with_ctx(r, (Limit::<$e, _>::new_byte_size(ByteSize(n)), ctx)) }
        pub fn $en(r: &mut Reader<Io>, ctx: u8) -> R<$t> { <$t>::from_reader_with_ctx(r, (Limit::<$e, _>::end(), ctx)) }
    };
}
pub(crate) use lim;
lim!(Vec<E1>, E1, r_vec_count, r_vec_until, r_vec_bits, r_vec_bytes, r_vec_end);
lim!(Box<[E1]>, E1, r_bxs_count, r_bxs_until, r_bxs_bits, r_bxs_bytes, r_bxs_end);
lim!(Arc<[E1]>, E1, r_ars_count, r_ars_until, r_ars_bits, r_ars_bytes, r_ars_end);
lim!(Vec<Leaf<1>>, Leaf<1>, r_vez_count, r_vez_until, r_vez_bits, r_vez_bytes, r_vez_end);
// without a context
pub fn r_vnc_count(r: &mut Reader<Io>, n: usize) -> R<Vec<E1>> { Vec::<E1>::from_reader_with_ctx(r, Limit::<E1, _>::from(n)) }
pub fn r_vnc_until(r: &mut Reader<Io>) -> R<Vec<E1>> { Vec::<E1>::from_reader_with_ctx(r, Limit::<E1, _>::from(|x: &E1| pred::<1, E1>(x))) }
pub fn r_vnc_bits(r: &mut Reader<Io>, n: usize) -> R<Vec<E1>> { Vec::<E1>::from_reader_with_ctx(r, Limit::<E1, _>::from(BitSize(n))) }
pub fn r_vnc_bytes(r: &mut Reader<Io>, n: usize) -> R<Vec<E1>> { Vec::<E1>::from_reader_with_ctx(r, Limit::<E1, _>::from(ByteSize(n))) }
pub fn r_vnc_end(r: &mut Reader<Io>) -> R<Vec<E1>> { Vec::<E1>::from_reader_with_ctx(r, Limit::<E1, _>::end()) }
pub fn r_vu8_exact(r: &mut Reader<Io>, n: usize) -> R<Vec<u8>> { Vec::<u8>::from_reader_with_ctx(r, ReadExact(n)) }

wr!(w_vec, Vec<E1>, u8);
rd!(r_box, Box<E1>, u8); wr!(w_box, Box<E1>, u8);
rd!(r_arc, Arc<E1>, u8); wr!(w_arc, Arc<E1>, u8);
wr!(w_bxs, Box<[E1]>, u8); wr!(w_ars, Arc<[E1]>, u8);
pub fn r_cow(r: &mut Reader<Io>, ctx: u8) -> R<Cow<'static, E1>> { <Cow<'static, E1>>::from_reader_with_ctx(r, ctx) }
pub fn w_cow(w: &mut Writer<Io>, v: &Cow<'static, E1>, ctx: u8) -> R<()> { v.to_writer(w, ctx) }
rd!(r_cstr, CString, ()); wr!(w_cstr, CString, ()); wr!(w_cstr_e, CString, Endian);
rd!(r_cstr_n, CString, ByteSize);
