use crate::el::*;
use crate::sym::*;
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use core::num::*;
use core::net::*;
type R<T> = Result<T, DekuError>;
type E1 = El<1>;

macro_rules! rd { ($n:ident, $t:ty, $c:ty) => { pub fn $n(r: &mut Reader<Io>, ctx: $c) -> R<$t> { <$t as DekuReader<'_, $c>>::from_reader_with_ctx(r, ctx) } } }
macro_rules! wr { ($n:ident, $t:ty, $c:ty) => { pub fn $n(w: &mut Writer<Io>, v: &$t, ctx: $c) -> R<()> { <$t as DekuWriter<$c>>::to_writer(v, w, ctx) } } }

rd!(r_unit, (), u8); wr!(w_unit, (), u8);
rd!(r_opt, Option<E1>, u8); wr!(w_opt, Option<E1>, u8);
wr!(w_ref, &E1, u8);
rd!(r_t1, (E1,), u8); wr!(w_t1, (E1,), u8);
rd!(r_t2, (E1, El<2>), u8); wr!(w_t2, (E1, El<2>), u8);
rd!(r_t3, (E1, El<2>, El<3>), u8); wr!(w_t3, (E1, El<2>, El<3>), u8);
rd!(r_t4, (E1, El<2>, El<3>, El<4>), u8); wr!(w_t4, (E1, El<2>, El<3>, El<4>), u8);
rd!(r_t5, (E1, El<2>, El<3>, El<4>, El<5>), u8); wr!(w_t5, (E1, El<2>, El<3>, El<4>, El<5>), u8);
rd!(r_t6, (E1, El<2>, El<3>, El<4>, El<5>, El<6>), u8); wr!(w_t6, (E1, El<2>, El<3>, El<4>, El<5>, El<6>), u8);
rd!(r_t7, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>), u8); wr!(w_t7, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>), u8);
rd!(r_t8, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>), u8); wr!(w_t8, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>), u8);
rd!(r_t9, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>), u8); wr!(w_t9, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>), u8);
rd!(r_t10, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>), u8); wr!(w_t10, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>), u8);
rd!(r_t11, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>), u8); wr!(w_t11, (E1, El<2>, El<3>, El<4>, El<5>, El<6>, El<7>, El<8>, El<9>, El<10>, El<11>), u8);
rd!(r_a0, [E1; 0], u8); wr!(w_a0, [E1; 0], u8);
rd!(r_a1, [E1; 1], u8); wr!(w_a1, [E1; 1], u8);
rd!(r_a3, [E1; 3], u8); wr!(w_a3, [E1; 3], u8);
rd!(r_a17, [E1; 17], u8); wr!(w_a17, [E1; 17], u8);
rd!(r_a200, [E1; 200], u8); wr!(w_a200, [E1; 200], u8);
wr!(w_sl, [E1], u8);
wr!(w_rsl, &[E1], u8);
rd!(r_bool, bool, Endian); wr!(w_bool, bool, Endian);
rd!(r_bool0, bool, ()); wr!(w_bool0, bool, ());

macro_rules! nz { ($r:ident, $w:ident, $t:ty) => { rd!($r, $t, Endian); wr!($w, $t, Endian); } }
nz!(r_nzu8, w_nzu8, NonZeroU8); nz!(r_nzu16, w_nzu16, NonZeroU16); nz!(r_nzu32, w_nzu32, NonZeroU32); nz!(r_nzu64, w_nzu64, NonZeroU64);
nz!(r_nzu128, w_nzu128, NonZeroU128); nz!(r_nzusize, w_nzusize, NonZeroUsize);
nz!(r_nzi8, w_nzi8, NonZeroI8); nz!(r_nzi16, w_nzi16, NonZeroI16); nz!(r_nzi32, w_nzi32, NonZeroI32); nz!(r_nzi64, w_nzi64, NonZeroI64);
nz!(r_nzi128, w_nzi128, NonZeroI128); nz!(r_nzisize, w_nzisize, NonZeroIsize);
rd!(r_nz_unit, NonZeroU16, ()); wr!(w_nz_unit, NonZeroU16, ());
rd!(r_nz_by, NonZeroU16, (Endian, ByteSize)); wr!(w_nz_by, NonZeroU16, (Endian, ByteSize));
rd!(r_nz_byo, NonZeroI32, (Endian, ByteSize, Order)); wr!(w_nz_byo, NonZeroI32, (Endian, ByteSize, Order));
#[cfg(all(feature = "bits", any(feature = "alloc", feature = "std")))]
mod nb {
    use super::*;
    rd!(r_nz_bi, NonZeroU16, (Endian, BitSize)); wr!(w_nz_bi, NonZeroU16, (Endian, BitSize));
    rd!(r_nz_bio, NonZeroI32, (Endian, BitSize, Order)); wr!(w_nz_bio, NonZeroI32, (Endian, BitSize, Order));
}
rd!(r_ip4, Ipv4Addr, Endian); wr!(w_ip4, Ipv4Addr, Endian);
rd!(r_ip6, Ipv6Addr, Endian); wr!(w_ip6, Ipv6Addr, Endian);
wr!(w_ip, IpAddr, Endian);
