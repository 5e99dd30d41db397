// ---------- signing
use crate::signing_block::algorithms::alg_verifies;
pub open spec fn blob(d: Seq<u8>) -> BlobM { BlobM { size: d.len() as usize, data: d } }
pub open spec fn digm(a: Algorithms, d: Seq<u8>) -> AlgDataM { AlgDataM { size: (8 + d.len()) as usize, alg: a, data: d } }
/// the signer's certificate, then its chain in order
pub open spec fn certs_of(first: Seq<u8>, chain: Seq<Vec<u8>>) -> Seq<BlobM> { seq![blob(first)] + Seq::new(chain.len(), |i: int| blob(chain[i]@)) }
pub broadcast proof fn lemma_certs_step(first: Seq<u8>, chain: Seq<Vec<u8>>, i: int)
    requires 0 <= i < chain.len()
    ensures #![trigger certs_of(first, chain.take(i)), chain[i]] certs_of(first, chain.take(i + 1)) == certs_of(first, chain.take(i)).push(blob(chain[i]@))
{ assert(certs_of(first, chain.take(i + 1)) =~= certs_of(first, chain.take(i)).push(blob(chain[i]@))); }
pub open spec fn seal<M: Sized4>(items: Seq<M>) -> ListM<M> { ListM { size: sizes(items, items.len() as int) as usize, items } }
/// C13: one signer, exactly these digests and certificates, no attributes, one signature that verifies under the signer's key over the signed data as serialised
pub open spec fn v2_by(v: V2M, dg: ListM<AlgDataM>, certs: Seq<BlobM>, a: Algorithms, pk: Seq<u8>) -> bool {
    v.signers.items.len() == 1 && signer_by(v.signers.items[0], dg, certs, a, pk)
}
pub open spec fn signer_by(s: SignerM, dg: ListM<AlgDataM>, certs: Seq<BlobM>, a: Algorithms, pk: Seq<u8>) -> bool {
    s.sd.digests == dg && s.sd.certs.items == certs && s.sd.attrs.items.len() == 0
    && s.sigs.items.len() == 1 && s.sigs.items[0].alg == a && s.key.data == pk
    && alg_verifies(a, pk, s.sd.signed(), s.sigs.items[0].data)
}
pub open spec fn stamp_by(s: StampM, dg: ListM<AlgDataM>, cert: Seq<u8>, timed: bool, a: Algorithms, pk: Seq<u8>) -> bool {
    s.block.sd.digests == dg && s.block.sd.certs.items == seq![blob(cert)]
    && (if timed { s.block.sd.attrs.items.len() == 1 && s.block.sd.attrs.items[0].id == 0xe43c_5946u32 && s.block.sd.attrs.items[0].data.len() == 8 } else { s.block.sd.attrs.items.len() == 0 })
    && s.block.sigs.items.len() == 1 && s.block.sigs.items[0].alg == a && s.block.key.data == pk
    && alg_verifies(a, pk, s.block.sd.signed(), s.block.sigs.items[0].data)
}
pub broadcast proof fn lemma_e_signed2(x: Sd2M) ensures #[trigger] x.e().subrange(4, x.e().len() as int) == x.signed()
{ lemma_le4(x.size as u32); assert(x.e().subrange(4, x.e().len() as int) =~= x.signed()); }
pub broadcast proof fn lemma_e_signed_st(x: SdStM) ensures #[trigger] x.e().subrange(4, x.e().len() as int) == x.signed()
{ lemma_le4(x.signed().len() as u32); assert(x.e().subrange(4, x.e().len() as int) =~= x.signed()); }
/// the first n entries without stamps and padding
pub open spec fn others(s: Seq<ValM>, n: int) -> Seq<ValM> decreases n
{ if n <= 0 { Seq::empty() } else if s[n - 1] is Stamp || s[n - 1].id() == 0x4272_6577u32 { others(s, n - 1) } else { others(s, n - 1).push(s[n - 1]) } }
pub open spec fn digs(p: Seq<(Algorithms, Vec<u8>)>) -> Seq<AlgDataM> { Seq::new(p.len(), |i: int| digm(p[i].0, p[i].1@)) }
pub broadcast proof fn lemma_one_sizes<M: Sized4>(s: Seq<M>, n: int) requires n == 1 ensures #[trigger] sizes(s, n) == s[0].sz() + 4
{ reveal_with_fuel(sizes, 2); }
pub broadcast proof fn lemma_no_sizes<M: Sized4>(s: Seq<M>, n: int) requires n == 0 ensures #[trigger] sizes(s, n) == 0 {}
pub broadcast proof fn lemma_sizes_pos<M: Sized4>(s: Seq<M>, n: int) ensures #[trigger] sizes(s, n) >= 0 decreases n { if n > 0 { lemma_sizes_pos(s, n - 1); } }
pub broadcast proof fn lemma_encs_algdatam(s: Seq<AlgDataM>, n: int)
    requires all_ok(s), n <= s.len()
    ensures (#[trigger] encs(s, n)).len() == sizes(s, n)
    decreases n
{ if n > 0 { lemma_encs_algdatam(s, n - 1); assert(s[n - 1].ok()); lemma_len_algdatam(s[n - 1]); } }
pub broadcast proof fn lemma_encs_blobm(s: Seq<BlobM>, n: int)
    requires all_ok(s), n <= s.len()
    ensures (#[trigger] encs(s, n)).len() == sizes(s, n)
    decreases n
{ if n > 0 { lemma_encs_blobm(s, n - 1); assert(s[n - 1].ok()); lemma_len_blobm(s[n - 1]); } }
pub broadcast proof fn lemma_encs_attrm(s: Seq<AttrM>, n: int)
    requires all_ok(s), n <= s.len()
    ensures (#[trigger] encs(s, n)).len() == sizes(s, n)
    decreases n
{ if n > 0 { lemma_encs_attrm(s, n - 1); assert(s[n - 1].ok()); lemma_len_attrm(s[n - 1]); } }
pub broadcast proof fn lemma_encs_signerm(s: Seq<SignerM>, n: int)
    requires all_ok(s), n <= s.len()
    ensures (#[trigger] encs(s, n)).len() == sizes(s, n)
    decreases n
{ if n > 0 { lemma_encs_signerm(s, n - 1); assert(s[n - 1].ok()); lemma_len_signerm(s[n - 1]); } }
proof fn lemma_len_algdatam(x: AlgDataM) requires x.ok() ensures x.e().len() == x.sz() + 4 { broadcast use {seq_facts, lemma_padz}; }
proof fn lemma_len_blobm(x: BlobM) requires x.ok() ensures x.e().len() == x.sz() + 4 { broadcast use {seq_facts, lemma_padz}; }
proof fn lemma_len_attrm(x: AttrM) requires x.ok() ensures x.e().len() == x.sz() + 4 { broadcast use {seq_facts, lemma_padz}; }
proof fn lemma_len_signerm(x: SignerM) requires x.ok() ensures x.e().len() == x.sz() + 4 { broadcast use {seq_facts, lemma_padz}; lemma_sd2_len(x.sd); x.sigs.rt(Seq::empty()); lemma_blob_len(x.key); lemma_le4(x.size as u32); }
pub broadcast proof fn lemma_certs_ok(first: Seq<u8>, chain: Seq<Vec<u8>>)
    requires first.len() <= usize::MAX, sizes(certs_of(first, chain), certs_of(first, chain).len() as int) <= 0x1000_0000
    ensures all_ok(#[trigger] certs_of(first, chain))
{
    let c = certs_of(first, chain);
    lemma_sizes_mono(c, c.len() as int);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).ok() by {
        assert(sizes(c, i + 1) <= sizes(c, c.len() as int));
        assert(0 <= sizes(c, i)) by { lemma_sizes_pos(c, i); }
        let d = if i == 0 { first } else { chain[i - 1]@ };
        assert(i > 0 ==> chain[i - 1].len() == d.len());
        assert(c[i] == blob(d));
    }
}
pub broadcast group sign_facts { lemma_one_sizes, lemma_no_sizes, lemma_sizes_pos, lemma_encs_algdatam, lemma_encs_blobm, lemma_encs_attrm, lemma_encs_signerm, lemma_certs_ok }
pub broadcast proof fn lemma_vsizes_push<T: HasM<M = ValM>>(a: Seq<T>, x: T, n: int)
    requires n == a.len() + 1
    ensures #[trigger] vsizes(ms(a.push(x)), n) == vsizes(ms(a), n - 1) + 8 + x.m().sz()
{ lemma_ms_push(a, x); lemma_vsizes_same(ms(a), ms(a.push(x)), n - 1); }
pub broadcast proof fn lemma_vsizes_none(s: Seq<ValM>, n: int) requires n == 0 ensures #[trigger] vsizes(s, n) == 0 {}
pub broadcast proof fn lemma_others(s: Seq<ValM>, n: int)
    requires 0 <= n <= s.len()
    ensures vsizes(#[trigger] others(s, n), others(s, n).len() as int) <= vsizes(s, n), all_ok(s) ==> all_okx(others(s, n))
    decreases n
{
    if n > 0 {
        lemma_others(s, n - 1);
        let o = others(s, n - 1);
        lemma_vsizes_same(o, o.push(s[n - 1]), o.len() as int);
    }
}
pub broadcast proof fn lemma_alg_hash_len(a: Algorithms, d: Seq<u8>) ensures (#[trigger] alg_hash(a, d)).len() <= 64 { broadcast use {axiom_sha256_len, axiom_sha512_len}; }
pub broadcast proof fn lemma_one<T>(s: Seq<T>, x: T) requires s.len() == 0 ensures #[trigger] s.push(x) == seq![x] { assert(s.push(x) =~= seq![x]); }
