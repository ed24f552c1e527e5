use crate::sym::*;
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::*;
use deku::writer::*;
macro_rules! prim { ($($t:ident)*) => {$(
    #[allow(non_snake_case)]
    pub mod $t {
        use super::*;
        pub fn w_pr_rd_e(r: &mut Reader<Io>, e: Endian) -> Result<$t, DekuError> { <$t>::from_reader_with_ctx(r, e) }
        pub fn w_pr_rd_eo(r: &mut Reader<Io>, e: Endian, o: Order) -> Result<$t, DekuError> { <$t>::from_reader_with_ctx(r, (e, o)) }
        pub fn w_pr_rd_ey(r: &mut Reader<Io>, e: Endian, n: usize) -> Result<$t, DekuError> { <$t>::from_reader_with_ctx(r, (e, ByteSize(n))) }
        pub fn w_pr_wr_e(r: &mut Writer<Io>, v: &$t, e: Endian) -> Result<(), DekuError> { v.to_writer(r, e) }
        pub fn w_pr_wr_eo(r: &mut Writer<Io>, v: &$t, e: Endian, o: Order) -> Result<(), DekuError> { v.to_writer(r, (e, o)) }
    }
)*}}
prim!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64);
macro_rules! primb { ($($t:ident $m:ident)*) => {$(
    #[cfg(feature = "bits")]
    pub mod $m {
        use super::*;
        pub fn w_pb_rd_eb(r: &mut Reader<Io>, e: Endian, n: usize) -> Result<$t, DekuError> { <$t>::from_reader_with_ctx(r, (e, BitSize(n))) }
        pub fn w_pb_rd_ebo(r: &mut Reader<Io>, e: Endian, n: usize, o: Order) -> Result<$t, DekuError> { <$t>::from_reader_with_ctx(r, (e, BitSize(n), o)) }
        pub fn w_pb_wr_eb(r: &mut Writer<Io>, v: &$t, e: Endian, n: usize) -> Result<(), DekuError> { v.to_writer(r, (e, BitSize(n))) }
        pub fn w_pb_wr_ebo(r: &mut Writer<Io>, v: &$t, e: Endian, n: usize, o: Order) -> Result<(), DekuError> { v.to_writer(r, (e, BitSize(n), o)) }
        pub fn w_pb_wr_ey(r: &mut Writer<Io>, v: &$t, e: Endian, n: usize) -> Result<(), DekuError> { v.to_writer(r, (e, ByteSize(n))) }
    }
)*}}
primb!(u8 b_u8 u16 b_u16 u32 b_u32 u64 b_u64 u128 b_u128 i8 b_i8 i16 b_i16 i32 b_i32 i64 b_i64 i128 b_i128);
