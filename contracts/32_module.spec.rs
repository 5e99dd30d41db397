// ---------- a module as a whole
pub open spec fn is_last_eocd(c: Seq<u8>, i: int) -> bool { is_eocd(c, i) && c.len() - 65557 <= i && no_eocd_from(c, i + 1) }
/// where the end record starts
pub open spec fn last_eocd(c: Seq<u8>) -> int { choose|i: int| is_last_eocd(c, i) }
pub broadcast proof fn lemma_last_eocd(c: Seq<u8>, i: int)
    requires #[trigger] is_last_eocd(c, i)
    ensures last_eocd(c) == i
{
    let j = last_eocd(c);
    assert(is_last_eocd(c, j));
    assert(is_eocd(c, j) && is_eocd(c, i));
}
pub broadcast proof fn lemma_eocd_last(c: Seq<u8>, i: int)
    requires #[trigger] is_eocd(c, i), c.len() - 65557 <= i, no_eocd_from(c, i + 1)
    ensures is_last_eocd(c, i), last_eocd(c) == i
{ lemma_last_eocd(c, i); }
/// the directory offset the end record names
pub open spec fn cd_at(c: Seq<u8>) -> int { eocd_at(c, last_eocd(c)).co as int }
/// a block that ends right where the directory starts begins here
pub open spec fn blk_start(c: Seq<u8>) -> int { cd_at(c) - 8 - un8(c.subrange(cd_at(c) - 24, cd_at(c) - 16)) }
/// the file holds a block framed right before the directory
pub open spec fn has_blk(c: Seq<u8>) -> bool {
    magic_ends(c, cd_at(c)) && 0 <= blk_start(c) && blk_frame(c.subrange(blk_start(c), cd_at(c)))
}
/// where the entries end; raw: what lies before the directory counts as entries
pub open spec fn stop_at(c: Seq<u8>, raw: bool) -> int { if !raw && magic_ends(c, cd_at(c)) { blk_start(c) } else { cd_at(c) } }
/// what writing block b, whose size field says n, puts out: what was there as a block before is left out
pub open spec fn written(c: Seq<u8>, raw: bool, b: Seq<u8>, n: int) -> Seq<u8> {
    c.take(stop_at(c, raw)) + b + c.subrange(cd_at(c), last_eocd(c)) + eocd_with(c.skip(last_eocd(c)), (stop_at(c, raw) + n) as u32)
}
pub open spec fn with_block(c: Seq<u8>, raw: bool, b: Seq<u8>) -> Seq<u8> { written(c, raw, b, b.len() as int) }
/// the file without its block
pub open spec fn without_block(c: Seq<u8>) -> Seq<u8> {
    c.take(blk_start(c)) + c.subrange(cd_at(c), last_eocd(c)) + eocd_with(c.skip(last_eocd(c)), blk_start(c) as u32)
}
/// replacing the directory offset in the decoded record and appending what follows it
pub broadcast proof fn lemma_eocd_patch(c: Seq<u8>, i: int, m: EocdM)
    requires is_eocd(c, i), m == (EocdM { at: m.at, co: m.co, ..eocd_at(c, i) })
    ensures #![trigger is_last_eocd(c, i), m.e()] m.e() + c.skip(i + eocd_len(c, i)) == eocd_with(c.skip(i), m.co), m.e().len() == eocd_len(c, i)
{
    lemma_eocd_bytes(c, i);
    let e = eocd_at(c, i);
    assert(m.e() =~= e.e().take(16) + le4(m.co) + e.e().skip(20));
    assert(m.e() + c.skip(i + eocd_len(c, i)) =~= eocd_with(c.skip(i), m.co));
}
pub broadcast proof fn lemma_out5(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, e: Seq<u8>, t: Seq<u8>)
    ensures #[trigger] (((((o + a) + b) + c) + e) + t) == o + (((a + b) + c) + (e + t))
{ assert((((((o + a) + b) + c) + e) + t) =~= o + (((a + b) + c) + (e + t))); }
/// the next n bytes of a stream that has them
pub broadcast proof fn lemma_stream_upto(c: Seq<u8>, at: int, n: int)
    requires 0 <= at, 0 <= n, at + n <= c.len()
    ensures #[trigger] stream_upto(c, at, n) == c.subrange(at, at + n)
{ assert(stream_upto(c, at, n) =~= c.subrange(at, at + n)); }
pub broadcast proof fn lemma_take_sub(c: Seq<u8>, n: int) requires 0 <= n <= c.len() ensures #[trigger] c.take(n) == c.subrange(0, n)
{ assert(c.take(n) =~= c.subrange(0, n)); }
/// what a well-formed unsigned module is: entries, directory, end record naming the directory
pub open spec fn plain(e: Seq<u8>, d: Seq<u8>, r: Seq<u8>) -> bool {
    !magic_ends(e + d + r, e.len() as int) &&
    last_eocd(e + d + r) == e.len() + d.len() && is_last_eocd(e + d + r, (e + d).len() as int) && un4(r.subrange(16, 20)) == e.len()
}
/// C07: entries, block, directory and adjusted end record; stripping gives the module back, signing again replaces the block.
/// The end record of the signed file must still be the last one: the new directory offset must not spell a record itself.
pub proof fn lemma_sign_strip(e: Seq<u8>, d: Seq<u8>, r: Seq<u8>, b: Seq<u8>, b2: Seq<u8>)
    requires plain(e, d, r), blk_frame(b), e.len() + b.len() <= 0xffff_ffff,
        is_last_eocd(with_block(e + d + r, false, b), (e + b + d).len() as int),
    ensures with_block(e + d + r, false, b) == e + b + d + eocd_with(r, (e + b).len() as u32), //@C07
        has_blk(with_block(e + d + r, false, b)), //@C07
        without_block(with_block(e + d + r, false, b)) == e + d + r, //@C07
        with_block(with_block(e + d + r, false, b), false, b2) == with_block(e + d + r, false, b2), //@C07
{
    broadcast use {lemma_last_eocd, lemma_sub_sub};
    let y = e + d + r; let w = with_block(y, false, b); let co = (e + b).len() as u32;
    let (i, j) = ((e + d).len() as int, (e + b + d).len() as int);
    assert(y.subrange(i + 16, i + 20) =~= r.subrange(16, 20));
    assert(y.take(e.len() as int) =~= e); assert(y.subrange(e.len() as int, i) =~= d); assert(y.skip(i) =~= r);
    assert(w =~= e + b + d + eocd_with(r, co));
    lemma_le4(co); lemma_un4(r.subrange(16, 20));
    assert(w.subrange(j + 16, j + 20) =~= le4(co));
    assert(last_eocd(w) == j && cd_at(w) == (e + b).len());
    let q = (e + b).len() as int;
    assert(w.subrange(q - 24, q - 16) =~= b.subrange(b.len() - 24, b.len() - 16));
    assert(w.subrange(q - 16, q) =~= b.subrange(b.len() - 16, b.len() as int));
    assert(blk_start(w) == e.len());
    assert(w.subrange(e.len() as int, q) =~= b);
    assert(w.take(e.len() as int) =~= e); assert(w.subrange(q, j) =~= d); assert(w.skip(j) =~= eocd_with(r, co));
    assert(eocd_with(eocd_with(r, co), e.len() as u32) =~= r);
    assert(without_block(w) =~= y);
    let co2 = (e.len() + b2.len()) as u32;
    assert(eocd_with(eocd_with(r, co), co2) =~= eocd_with(r, co2));
}
