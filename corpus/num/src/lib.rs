//! Numbers between bits of the same order: every root reads (or writes) `k` bits, a number in one of the
//! context forms deku offers, and three more bits. The analysis fixes sizes, offsets, endianness and order.
#![allow(dead_code, unused)]
#![cfg_attr(not(feature = "std"), no_std)]
#[cfg(feature = "alloc")]
extern crate alloc;
#[cfg(feature = "alloc")]
use alloc::vec::Vec;
pub mod sym;
use crate::sym::Io;
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;

pub fn other(o: Order) -> Order { match o { Order::Msb0 => Order::Lsb0, Order::Lsb0 => Order::Msb0 } }
/// what precedes: nothing (0), `k` bits, the end of input test (8), or a byte in the other order (16)
#[cfg(feature = "bits")]
pub fn lead(r: &mut Reader<&mut Io>, k: usize, o: Order) -> Result<u8, DekuError> {
    if k == 8 { r.end(); }
    if k == 0 || k == 8 { return Ok(0); }
    if k == 16 {
        let x = u8::from_reader_with_ctx(r, (Endian::Big, BitSize(4), other(o)))?;
        let y = u8::from_reader_with_ctx(r, (Endian::Big, BitSize(4), other(o)))?;
        return Ok(x | y << 4);
    }
    u8::from_reader_with_ctx(r, (Endian::Big, BitSize(k), o))
}
#[cfg(feature = "bits")]
pub fn tail(r: &mut Reader<&mut Io>, o: Order) -> Result<u8, DekuError> { u8::from_reader_with_ctx(r, (Endian::Big, BitSize(3), o)) }
#[cfg(not(feature = "bits"))]
pub fn lead(r: &mut Reader<&mut Io>, k: usize, o: Order) -> Result<u8, DekuError> {
    if k == 8 { r.end(); }
    Ok(0)
}
#[cfg(not(feature = "bits"))]
pub fn tail(r: &mut Reader<&mut Io>, o: Order) -> Result<u8, DekuError> { u8::from_reader_with_ctx(r, ()) }
#[cfg(feature = "bits")]
pub fn wlead(w: &mut Writer<&mut Io>, v: u8, k: usize, o: Order) -> Result<(), DekuError> {
    if k == 0 || k == 8 { return Ok(()); }
    if k == 16 {
        (v & 15).to_writer(w, (Endian::Big, BitSize(4), other(o)))?;
        return (v >> 4).to_writer(w, (Endian::Big, BitSize(4), other(o)));
    }
    v.to_writer(w, (Endian::Big, BitSize(k), o))
}
#[cfg(feature = "bits")]
pub fn wtail(w: &mut Writer<&mut Io>, v: u8, o: Order) -> Result<(), DekuError> { v.to_writer(w, (Endian::Big, BitSize(3), o)) }
#[cfg(not(feature = "bits"))]
pub fn wlead(w: &mut Writer<&mut Io>, v: u8, k: usize, o: Order) -> Result<(), DekuError> { Ok(()) }
#[cfg(not(feature = "bits"))]
pub fn wtail(w: &mut Writer<&mut Io>, v: u8, o: Order) -> Result<(), DekuError> { v.to_writer(w, ()) }

macro_rules! form { ($t:ident $r:ident $w:ident ($e:ident $o:ident $n:ident) $ctx:expr) => {
    pub fn $r(io: &mut Io, k: usize, $o: Order, $e: Endian, $n: usize) -> Result<(u8, $t, u8), DekuError> {
        let mut r = Reader::new(io);
        let a = lead(&mut r, k, $o)?;
        let v = <$t>::from_reader_with_ctx(&mut r, $ctx)?;
        let z = tail(&mut r, $o)?;
        Ok((a, v, z))
    }
    pub fn $w(io: &mut Io, a: u8, v: &$t, z: u8, k: usize, $o: Order, $e: Endian, $n: usize) -> Result<(), DekuError> {
        let mut w = Writer::new(io);
        wlead(&mut w, a, k, $o)?;
        v.to_writer(&mut w, $ctx)?;
        wtail(&mut w, z, $o)?;
        w.finalize()
    }
} }
macro_rules! num { ($($t:ident)*) => {$(
    pub mod $t {
        use super::*;
        form!($t r_0 w_0 (e o n) ());
        form!($t r_e w_e (e o n) e);
        form!($t r_o w_o (e o n) o);
        form!($t r_eo w_eo (e o n) (e, o));
        form!($t r_y w_y (e o n) ByteSize(n));
        form!($t r_ey w_ey (e o n) (e, ByteSize(n)));
        form!($t r_eyo w_eyo (e o n) (e, ByteSize(n), o));
    }
)*}}
num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
#[cfg(feature = "bits")]
macro_rules! numb { ($($t:ident $m:ident)*) => {$(
    pub mod $m {
        use super::*;
        form!($t r_b w_b (e o n) BitSize(n));
        form!($t r_bo w_bo (e o n) (BitSize(n), o));
        form!($t r_eb w_eb (e o n) (e, BitSize(n)));
        form!($t r_ebo w_ebo (e o n) (e, BitSize(n), o));
    }
)*}}
#[cfg(feature = "bits")]
numb!(u8 b_u8 u16 b_u16 u32 b_u32 u64 b_u64 u128 b_u128 usize b_usize i8 b_i8 i16 b_i16 i32 b_i32 i64 b_i64 i128 b_i128 isize b_isize);

/// The operations of the reader and writer themselves, between bits of the same order
#[cfg(feature = "bits")]
pub mod ops {
    use super::*;
    use deku::bitvec::{BitView, Msb0};
    pub type Read<T> = Result<(u8, T, u8, usize), DekuError>;
    macro_rules! rd { ($r:ident $t:ty, ($rd:ident $o:ident $n:ident) $b:block) => {
        pub fn $r(io: &mut Io, k: usize, $o: Order, e: Endian, $n: usize) -> Read<$t> {
            let mut r = Reader::new(io);
            let a = lead(&mut r, k, $o)?;
            let $rd = &mut r;
            let v = $b;
            let z = tail(&mut r, $o)?;
            Ok((a, v, z, r.bits_read))
        }
    } }
    rd!(r_into [u8; 8], (r o n) { let mut buf = [0u8; 8]; r.read_bits_into(&mut buf.view_bits_mut::<Msb0>()[..n], o)?; buf });
    rd!(r_into_at [u8; 8], (r o n) { let mut buf = [0u8; 8]; r.read_bits_into(&mut buf.view_bits_mut::<Msb0>()[3..3 + n], o)?; buf });
    #[cfg(feature = "alloc")]
    rd!(r_bits Option<deku::bitvec::BitVec<u8, Msb0>>, (r o n) { r.read_bits(n, o)? });
    rd!(r_skip (), (r o n) { r.skip_bits(n, o)? });
    rd!(r_bytes [u8; 8], (r o n) { let mut buf = [0u8; 8]; r.read_bytes(n, &mut buf, o)?; buf });
    rd!(r_const [u8; 3], (r o n) { let mut buf = [0u8; 3]; r.read_bytes_const::<3>(&mut buf, o)?; buf });
    rd!(r_const_into [u8; 3], (r o n) { let mut buf = [0u8; 3]; r.read_bytes_const_into::<3>(&mut buf, o)?; buf });
    macro_rules! wr { ($w:ident ($wr:ident $v:ident $o:ident $n:ident) $b:block) => {
        pub fn $w(io: &mut Io, a: u8, $v: &[u8; 8], z: u8, k: usize, $o: Order, e: Endian, $n: usize) -> Result<usize, DekuError> {
            let mut w = Writer::new(io);
            wlead(&mut w, a, k, $o)?;
            let $wr = &mut w;
            $b
            wtail(&mut w, z, $o)?;
            w.finalize()?;
            w.finalize()?;
            Ok(w.bits_written)
        }
    } }
    wr!(w_bits (w v o n) { w.write_bits_order(&v.view_bits::<Msb0>()[..n], o)?; });
    wr!(w_bits_at (w v o n) { w.write_bits_order(&v.view_bits::<Msb0>()[5..5 + n], o)?; });
    wr!(w_plain (w v o n) { w.write_bits(&v.view_bits::<Msb0>()[..n])?; });
    wr!(w_bytes (w v o n) { w.write_bytes(&v[..n])?; });
    #[cfg(feature = "alloc")]
    rd!(r_rest (Vec<bool>, Vec<bool>), (r o n) { if n != 0 { r.skip_bits(n, o)?; } let x = r.rest(); (x, r.rest()) });
    #[cfg(feature = "alloc")]
    pub fn w_rest(io: &mut Io, a: u8, v: &[u8; 8], z: u8, k: usize, o: Order, e: Endian, n: usize) -> Result<(Vec<bool>, Vec<bool>, usize), DekuError> {
        let mut w = Writer::new(io);
        wlead(&mut w, a, k, o)?;
        if n != 0 { w.write_bits_order(&v.view_bits::<Msb0>()[..n], o)?; }
        let x = w.rest();
        let y = w.rest();
        wtail(&mut w, z, o)?;
        w.finalize()?;
        Ok((x, y, w.bits_written))
    }
}

/// The ways into and out of a derived type
#[cfg(feature = "bits")]
pub mod entry {
    use super::*;
    use core::convert::TryFrom;
    #[derive(DekuRead, DekuWrite)]
    pub struct Whole { #[deku(bits = 3)] a: u8, #[deku(bits = 5)] b: u8, #[deku(endian = "big")] c: u16 }
    #[derive(DekuRead, DekuWrite)]
    pub struct Part { #[deku(bits = 3)] a: u8, #[deku(bits = 4)] b: u8 }
    #[derive(DekuRead, DekuWrite)]
    pub struct Odd { #[deku(bits = 4)] a: u8, b: u8 }
    #[derive(DekuRead, DekuWrite)]
    #[deku(bit_order = "lsb")]
    pub struct Lsb { #[deku(bits = 3)] a: u8, #[deku(bits = 5)] b: u8, c: u8 }
    #[derive(DekuRead, DekuWrite)]
    pub struct Nothing {}
    #[derive(DekuRead, DekuWrite)]
    pub struct Far { a: u8, #[deku(seek_from_current = "2")] b: u8 }
    #[derive(DekuRead, DekuWrite)]
    pub struct Beyond { a: u8, #[deku(seek_from_current = "2")] b: () }
    #[derive(DekuRead, DekuWrite)]
    #[deku(ctx = "n: u8", ctx_default = "5")]
    pub struct Ctx { #[deku(bits = 8)] a: u8, #[deku(cond = "n == 5")] b: u8 }
    #[derive(DekuRead, DekuWrite)]
    #[deku(id_type = "u8")]
    pub enum Sum { #[deku(id = 1)] One(u8), #[deku(id = 7)] Two { #[deku(endian = "big")] c: u16 } }
    #[derive(DekuRead, DekuWrite)]
    #[deku(id_type = "u8", bits = 4)]
    pub enum Pat { #[deku(id = 1)] One(#[deku(bits = 4)] u8), #[deku(id_pat = "_")] Rest { id: u8, #[deku(bits = 4)] c: u8 } }
    macro_rules! entry { ($($t:ident $m:ident)*) => {$(
        pub mod $m {
            use super::*;
            pub fn r_from_bytes(d: &[u8], off: usize) -> Result<((&[u8], usize), $t), DekuError> { $t::from_bytes((d, off)) }
            pub fn r_from_reader(io: &mut Io, off: usize) -> Result<(usize, $t), DekuError> { $t::from_reader((io, off)) }
            pub fn r_try_from(d: &[u8]) -> Result<$t, DekuError> { $t::try_from(d) }
            #[cfg(feature = "alloc")]
            pub fn w_to_bytes(v: &$t) -> Result<Vec<u8>, DekuError> { v.to_bytes() }
            #[cfg(feature = "alloc")]
            pub fn w_into_vec(v: $t) -> Result<Vec<u8>, DekuError> { Vec::<u8>::try_from(v) }
            #[cfg(feature = "alloc")]
            pub fn w_to_bits(v: &$t) -> Result<deku::bitvec::BitVec<u8, deku::bitvec::Msb0>, DekuError> { v.to_bits() }
            #[cfg(feature = "alloc")]
            pub fn w_into_bits(v: $t) -> Result<deku::bitvec::BitVec<u8, deku::bitvec::Msb0>, DekuError> { deku::bitvec::BitVec::try_from(v) }
            pub fn w_to_slice(v: &$t, b: &mut [u8]) -> Result<usize, DekuError> { v.to_slice(b) }
        }
    )*} }
    entry!(Whole whole Part part Odd odd Lsb lsb Nothing nothing Far far Beyond beyond Ctx ctx Sum sum Pat pat);
    pub fn r_sum_id(v: &Sum) -> Result<u8, DekuError> { v.deku_id() }
    pub fn r_pat_id(v: &Pat) -> Result<u8, DekuError> { v.deku_id() }
}

/// Conversions of errors, limits and settings
pub mod conv {
    use super::*;
    use deku::no_std_io::{Error, ErrorKind};
    use deku::prelude::NeedSize;
    use core::str::FromStr;
    pub fn s_to_io(e: DekuError) -> Error { e.into() }
    pub fn s_from_io(e: Error) -> DekuError { e.into() }
    pub fn s_int(e: core::num::TryFromIntError) -> DekuError { e.into() }
    pub fn s_slice(e: core::array::TryFromSliceError) -> DekuError { e.into() }
    pub fn s_need(n: usize) -> (usize, usize) { let s = NeedSize::new(n); (s.bit_size(), s.byte_size()) }
    pub fn s_endian(s: &str) -> Result<Endian, ParseEndianError> { Endian::from_str(s) }
    pub fn s_endian_new() -> (Endian, Endian) { (Endian::new(), Endian::default()) }
    pub fn s_endian_is(e: Endian) -> (bool, bool) { (e.is_le(), e.is_be()) }
    pub fn s_order() -> Order { Order::default() }
    pub fn s_count(n: usize) -> Limit<u8, fn(&u8) -> bool> { n.into() }
    pub fn s_new_count(n: usize) -> Limit<u8, fn(&u8) -> bool> { Limit::new_count(n) }
    pub fn s_bytes(n: usize) -> Limit<u8, fn(&u8) -> bool> { ByteSize(n).into() }
    pub fn s_new_bytes(n: usize) -> Limit<u8, fn(&u8) -> bool> { Limit::new_byte_size(ByteSize(n)) }
    pub fn s_bits(n: usize) -> Limit<u8, fn(&u8) -> bool> { BitSize(n).into() }
    pub fn s_new_bits(n: usize) -> Limit<u8, fn(&u8) -> bool> { Limit::new_bit_size(BitSize(n)) }
    pub fn s_end() -> Limit<u8, fn(&u8) -> bool> { Limit::end() }
    fn stop(v: &u8) -> bool { *v == 7 }
    pub fn s_until(v: u8) -> Option<bool> { match Limit::new_until(stop) { Limit::Until(mut p, _) => Some(p(&v)), _ => None } }
    pub fn s_into_until(v: u8) -> Option<bool> { match Limit::<u8, fn(&u8) -> bool>::from(stop as fn(&u8) -> bool) { Limit::Until(mut p, _) => Some(p(&v)), _ => None } }
    pub fn s_size_of() -> [BitSize; 4] { [BitSize::of::<u8>(), BitSize::of::<u64>(), BitSize::of::<[u16; 5]>(), BitSize::of::<()>()] }
    pub fn s_size_val(a: &[u16; 3], b: &u8) -> [BitSize; 2] { [BitSize::of_val(a), BitSize::of_val(b)] }
}
