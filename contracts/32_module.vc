%%file src/file_formats/module/mod.rs file_formats::module
%%broadcast crate::shim::io_facts lemma_sub_full lemma_sub_sub lemma_last_eocd
%%fn Module::new
    ensures r matches Ok(m) ==> m.wf() && m.path == path && !m.raw && m.sig is None, //@C07
%%fn Module::new_raw
    ensures r matches Ok(m) ==> m.wf() && m.path == path && m.raw && m.sig is None, //@C07
%%fn Module::get_signing_block
    requires self.wf() //@C01
    ensures
        self.sig matches Some(b) ==> r matches Ok(x) && x == b, //@C07 C16
        self.sig is None && self.raw ==> (r matches Err(e) && has1(e) && !has0(e)), //@C16
        self.sig is None && !self.raw ==> match r {
            Ok(b) => is_last_eocd(self.c(), last_eocd(self.c())) && has_blk(self.c()) && b.decoded() && b.file_offset_end == cd_at(self.c()) && b.file_offset_start == blk_start(self.c()),
            Err(e) => !has1(e) && (has0(e) ==> is_last_eocd(self.c(), last_eocd(self.c())) && !magic_ends(self.c(), cd_at(self.c()))),
        }, //@C16 C07
        self.sig is None && !self.raw ==> (r matches Ok(b) ==> (blk_at_end(self.c(), cd_at(self.c())) matches Some(m) ==> ms(b.content@) == m)), //@C16
%%fn Module::stored
    ensures r == (Module { sig: None, ..*self }) //@C07 C16
%%fn Module::find_eocd
    requires self.wf() //@C01
    ensures
        r matches Ok(e) ==> is_last_eocd(self.c(), e.file_offset as int) && e.m() == eocd_at(self.c(), e.file_offset as int), //@C05 C07 C16
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn Module::get_offsets
    requires self.wf() //@C01
    ensures r matches Ok(o) ==> self.layout(o), //@C06 C07 C16
%%fn Module::digest
    requires self.wf() //@C01
    ensures r matches Ok(d) ==> d@ == module_digest(*algo, self.c(), stop_at(self.c(), self.raw), cd_at(self.c()), last_eocd(self.c())), //@C06
%%fn Module::get_raw_module
    requires self.wf() //@C01
    ensures
        self.raw ==> (r matches Ok(v) ==> v@ == self.c()), //@C07
        !self.raw ==> (r matches Ok(v) ==> has_blk(self.c()) && v@ == without_block(self.c())), //@C07 C16
        self.raw ==> (r matches Err(e) ==> !has0(e) && !has1(e)), //@C16
        !self.raw ==> (r matches Err(e) ==> !has1(e) && (has0(e) ==> is_last_eocd(self.c(), last_eocd(self.c())) && !magic_ends(self.c(), cd_at(self.c())))), //@C16
%%hint start
hide(is_eocd); hide(eocd_at); hide(EocdM::e); hide(blk_frame);
broadcast use {lemma_eocd_patch, lemma_eocd_room, lemma_take_sub, lemma_assoc, lemma_empty_l};
%%fn Module::write_with_signature
    requires self.wf(), self.sig matches Some(b) ==> b.size_of_block_start <= 0x3fff_ffff_ffff_ffff //@C01
    ensures r is Ok ==> exists|b: SigningBlock| self.blk(b) && final(writer).out() == old(writer).out() + written(self.c(), self.raw, #[trigger] b.e(), b.size_of_block_start + 8), //@C07
%%attr
#[verifier::spinoff_prover]
%%hint start
hide(is_eocd); hide(eocd_at); hide(EocdM::e); hide(blk_frame); hide(SigningBlock::e); hide(eocd_len); hide(un8); hide(eocd_with);
broadcast use {lemma_eocd_patch, lemma_eocd_room, lemma_stream_upto, lemma_take_sub, lemma_out5};
%%fn Module::sign_v2
    requires old(self).wf(), cert@.len() <= 0x0800_0000 //@C01
    ensures
        r is Ok ==> (final(self).sig matches Some(b) && *final(self) == (Module { sig: Some(b), ..*old(self) }) && (b.total() + 32) % 4096 == 0 && b.file_offset_start == stop_at(old(self).c(), old(self).raw)), //@C03 C07
        r is Ok ==> (final(self).sig matches Some(b) && padded(ms(b.content@), seq![ms(b.content@)[0]]) && (ms(b.content@)[0] matches ValM::V2(v)
            && v2_by(v, seal(seq![digm(*algo, module_digest(*algo, old(self).c(), stop_at(old(self).c(), old(self).raw), cd_at(old(self).c()), last_eocd(old(self).c())))]), seq![blob(cert@)], *algo, private_key.pubder()))), //@C06 C13
        r is Err ==> *final(self) == *old(self), //@C07
%%hint start
broadcast use {lemma_e_signed2, sign_facts, lemma_alg_hash_len, lemma_vsizes_push, lemma_vsizes_none, lemma_ms_push, lemma_one};
%%fn Module::verify_full
    requires self.wf() //@C01
    ensures self.unread(r) || exists|rt: TrustedRoots| rt.wf() && #[trigger] self.judged_by(r, rt), //@C11 C12
%%loop 0
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%loop 1
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%loop 2
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%loop 3
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%hint start
broadcast use lemma_true_insert;
%%hint tail
assert(self.blk(signing_block) && self.true_digests(digest_context.digests@) && all_judged(vx_ret, signing_block, digest_context.digests@, verifier.cert_verifier.trusted_roots));
assert(self.judged_by(vx_ret, verifier.cert_verifier.trusted_roots));
%%fn Module::verify_with_roots
    requires self.wf(), roots.wf() //@C01
    ensures self.unread(r) || self.judged_by(r, roots), //@C11 C12
%%loop 0
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%loop 1
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%loop 2
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%loop 3
    invariant $i <= $s@.len(), self.true_digests(digest_context.digests@), //@C11 C12
    decreases $s@.len() - $i
%%hint start
broadcast use lemma_true_insert;
%%hint tail
assert(self.blk(signing_block) && self.true_digests(digest_context.digests@) && all_judged(vx_ret, signing_block, digest_context.digests@, verifier.cert_verifier.trusted_roots));
assert(self.judged_by(vx_ret, verifier.cert_verifier.trusted_roots));
%%spec
use crate::vrf::{TrustedRoots, VerifyAllResult, VerifyError, v2_judged, v2_of, st_judged, first_stamp, absent};
pub open spec fn all_judged(r: VerifyAllResult, b: SigningBlock, d: Map<u32, Vec<u8>>, rt: TrustedRoots) -> bool {
    v2_judged(r.v2, v2_of(ms(b.content@), b.content@.len() as int), Some(d), rt) && st_judged(r.source_stamp, first_stamp(ms(b.content@), b.content@.len() as int), Some(d), rt)
}
pub broadcast proof fn lemma_true_insert(m: Module, d: Map<u32, Vec<u8>>, a: Algorithms, v: Vec<u8>)
    requires m.true_digests(d), v@ == m.dig(a)
    ensures #![trigger d.insert(id_of(a), v), m.true_digests(d)] m.true_digests(d.insert(id_of(a), v))
{
    let e = d.insert(id_of(a), v);
    assert forall|id: u32| #[trigger] e.contains_key(id) implies (exists|b: Algorithms| id_of(b) == id && e[id]@ == #[trigger] m.dig(b)) by {
        if id == id_of(a) { assert(e[id]@ == m.dig(a)); } else { assert(d.contains_key(id)); }
    }
}
impl Module {
    pub open spec fn dig(&self, a: Algorithms) -> Seq<u8> { module_digest(a, self.c(), stop_at(self.c(), self.raw), cd_at(self.c()), last_eocd(self.c())) }
    /// what is supplied to verification are digests of this file
    pub open spec fn true_digests(&self, d: Map<u32, Vec<u8>>) -> bool { forall|id: u32| #[trigger] d.contains_key(id) ==> exists|a: Algorithms| id_of(a) == id && d[id]@ == #[trigger] self.dig(a) }
    /// C11, C12: the block of the file is judged against digests of the file; without one nothing is valid
    pub open spec fn judged_by(&self, r: VerifyAllResult, rt: TrustedRoots) -> bool {
        exists|b: SigningBlock, d: Map<u32, Vec<u8>>| self.blk(b) && self.true_digests(d) && #[trigger] all_judged(r, b, d, rt)
    }
    pub open spec fn unread(&self, r: VerifyAllResult) -> bool { self.sig is None && r.v2 is Err && !absent(r.v2) && absent(r.source_stamp) }
    pub open spec fn c(&self) -> Seq<u8> { crate::shim::fs::bytes_at(self.path) }
    pub open spec fn wf(&self) -> bool { self.file_len == self.c().len() }
    /// the block that gets written
    pub open spec fn blk(&self, b: SigningBlock) -> bool { match self.sig { Some(s) => b == s, None => !self.raw && has_blk(self.c()) && b.decoded() && b.file_offset_end == cd_at(self.c()) } }
    /// C16: the entries end where the block right before the directory starts, or where the directory starts if no magic is there
    pub open spec fn layout(&self, o: FileOffsets) -> bool {
        is_last_eocd(self.c(), o.stop_cd as int) && o.start_content == 0 && o.start_eocd == o.stop_cd && o.stop_eocd == self.c().len()
        && o.start_cd == cd_at(self.c()) && o.start_cd <= o.stop_cd
        && o.stop_content == stop_at(self.c(), self.raw) && (!self.raw && magic_ends(self.c(), cd_at(self.c())) ==> has_blk(self.c()))
    }
}
