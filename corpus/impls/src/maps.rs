use crate::coll::lim;
use crate::el::*;
use crate::sym::*;
use deku::ctx::*;
use deku::prelude::*;
use deku::reader::Reader;
use deku::writer::Writer;
use std::collections::{HashMap, HashSet};
type R<T> = Result<T, DekuError>;
type M = HashMap<El<1>, El<2>, Hs>;
type S = HashSet<El<1>, Hs>;
type KV = (El<1>, El<2>);
lim!(M, KV, r_map_count, r_map_until, r_map_bits, r_map_bytes, r_map_end);
lim!(S, El<1>, r_set_count, r_set_until, r_set_bits, r_set_bytes, r_set_end);
pub fn r_mnc_count(r: &mut Reader<Io>, n: usize) -> R<M> { M::from_reader_with_ctx(r, Limit::<KV, _>::from(n)) }
pub fn r_mnc_until(r: &mut Reader<Io>) -> R<M> { M::from_reader_with_ctx(r, Limit::<KV, _>::from(|x: &KV| pred::<1, KV>(x))) }
pub fn r_snc_count(r: &mut Reader<Io>, n: usize) -> R<S> { S::from_reader_with_ctx(r, Limit::<El<1>, _>::from(n)) }
pub fn r_snc_end(r: &mut Reader<Io>) -> R<S> { S::from_reader_with_ctx(r, Limit::<El<1>, _>::end()) }
pub fn w_map(w: &mut Writer<Io>, v: &M, ctx: u8) -> R<()> { v.to_writer(w, ctx) }
pub fn w_set(w: &mut Writer<Io>, v: &S, ctx: u8) -> R<()> { v.to_writer(w, ctx) }
