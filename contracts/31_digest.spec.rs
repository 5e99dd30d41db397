// ---------- the two-level chunked digest
use crate::signing_block::algorithms::alg_hash;
pub use crate::shim::io::{stream_upto, stream_rest};
pub open spec fn first_chunk(s: Seq<u8>) -> int { if s.len() <= 0x10_0000 { s.len() as int } else { 0x10_0000 } }
/// digest of one chunk: 0xa5, its length, its bytes
pub open spec fn chunk_digest(a: Algorithms, c: Seq<u8>) -> Seq<u8> { alg_hash(a, seq![0xa5u8] + le4(c.len() as u32) + c) }
/// digests of the 1 MiB chunks of a region, in order
pub open spec fn cds(a: Algorithms, s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { seq![chunk_digest(a, s.take(first_chunk(s)))] + cds(a, s.skip(first_chunk(s))) } }
/// 0x5a, the number of chunks, their digests
pub open spec fn top_digest(a: Algorithms, d: Seq<Seq<u8>>) -> Seq<u8> { alg_hash(a, seq![0x5au8] + le4(d.len() as u32) + flat(d)) }
/// the end record (and what follows it) with its directory offset replaced
pub open spec fn eocd_with(s: Seq<u8>, co: u32) -> Seq<u8> { s.take(16) + le4(co) + s.skip(20) }
/// the digest of a module whose entries end at `stop`, whose directory is [cd0, cd1) and whose end record starts at cd1
pub open spec fn module_digest(a: Algorithms, c: Seq<u8>, stop: int, cd0: int, cd1: int) -> Seq<u8> {
    top_digest(a, cds(a, c.take(stop)) + cds(a, c.subrange(cd0, cd1)) + cds(a, eocd_with(c.skip(cd1), stop as u32)))
}
/// one step of the chunk loop
pub broadcast proof fn lemma_cds_step(acc: Seq<Seq<u8>>, a: Algorithms, s: Seq<u8>)
    requires s.len() > 0
    ensures #[trigger] (acc + cds(a, s)) == acc.push(chunk_digest(a, s.take(first_chunk(s)))) + cds(a, s.skip(first_chunk(s)))
{
    let d = chunk_digest(a, s.take(first_chunk(s)));
    assert(acc + (seq![d] + cds(a, s.skip(first_chunk(s)))) =~= acc.push(d) + cds(a, s.skip(first_chunk(s))));
}
pub broadcast proof fn lemma_cds_done(acc: Seq<Seq<u8>>, a: Algorithms, s: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] (acc + cds(a, s)) == acc
{ assert(acc + cds(a, s) =~= acc); }
/// C06: inserting any bytes between entries and directory, and advancing the recorded offset, leaves the digest alone
pub proof fn lemma_digest_ignores_block(a: Algorithms, e: Seq<u8>, b: Seq<u8>, d: Seq<u8>, r: Seq<u8>, co: u32)
    requires r.len() >= 20, e.len() <= 0xffff_ffff
    ensures module_digest(a, e + b + d + eocd_with(r, co), e.len() as int, (e + b).len() as int, (e + b + d).len() as int)
        == module_digest(a, e + d + r, e.len() as int, e.len() as int, (e + d).len() as int) //@C06
{
    let (x, y) = (e + b + d + eocd_with(r, co), e + d + r);
    assert(x.take(e.len() as int) =~= e); assert(y.take(e.len() as int) =~= e);
    assert(x.subrange((e + b).len() as int, (e + b + d).len() as int) =~= d); assert(y.subrange(e.len() as int, (e + d).len() as int) =~= d);
    assert(x.skip((e + b + d).len() as int) =~= eocd_with(r, co)); assert(y.skip((e + d).len() as int) =~= r);
    assert(eocd_with(eocd_with(r, co), e.len() as u32) =~= eocd_with(r, e.len() as u32));
}
