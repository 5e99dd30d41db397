%%file src/verifier.rs vrf
%%fn extract_public_key_from_cert
    ensures match r { Ok(v) => spki_of(cert_der@) == Some(v@), Err(_) => spki_of(cert_der@) is None } //@C11 C12
%%fn verify_pubkey_binding
    ensures r is Ok <==> spki_of(cert_der@) == Some(signing_pubkey@) //@C11 C12
%%fn VerifyAllResult::is_valid
    ensures r == verdict(*self) //@C12
%%fn VerifyAllResult::has_v2
    ensures r == !(self.v2 matches Err(VerifyError::NoSignature)) //@C12
%%fn VerifyAllResult::has_source_stamp
    ensures r == !(self.source_stamp matches Err(VerifyError::NoSignature)) //@C12
%%fn VerifyAllResult::v2_error
    ensures match r { Some(e) => self.v2 == Err::<VerifyResult, VerifyError>(*e), None => self.v2 is Ok } //@C12
%%fn VerifyAllResult::source_stamp_error
    ensures match r { Some(e) => self.source_stamp == Err::<VerifyResult, VerifyError>(*e), None => self.source_stamp is Ok } //@C12
%%fn VerifyResult::from_signers
    ensures
        r.signers == signers || signers@.len() == 0, //@C11 C12
        r.signature_valid == (signers@.len() > 0 && forall|k: int| 0 <= k < signers@.len() ==> (#[trigger] signers@[k]).signature_valid), //@C11 C12
        r.digest_valid == (signers@.len() > 0 && forall|k: int| 0 <= k < signers@.len() ==> (#[trigger] signers@[k]).digest_valid), //@C11 C12
        r.cert_chain_valid == (signers@.len() > 0 && forall|k: int| 0 <= k < signers@.len() ==> (#[trigger] signers@[k]).cert_chain_valid), //@C11 C12
        r.is_trusted == (signers@.len() > 0 && forall|k: int| 0 <= k < signers@.len() ==> (#[trigger] signers@[k]).is_trusted), //@C11 C12
%%loop 0
    invariant $i <= $s@.len(), $acc, forall|k: int| 0 <= k < $i ==> (#[trigger] $s@[k]).signature_valid
    decreases $s@.len() - $i
%%loop 1
    invariant $i <= $s@.len(), $acc, forall|k: int| 0 <= k < $i ==> (#[trigger] $s@[k]).digest_valid
    decreases $s@.len() - $i
%%loop 2
    invariant $i <= $s@.len(), $acc, forall|k: int| 0 <= k < $i ==> (#[trigger] $s@[k]).cert_chain_valid
    decreases $s@.len() - $i
%%loop 3
    invariant $i <= $s@.len(), $acc, forall|k: int| 0 <= k < $i ==> (#[trigger] $s@[k]).is_trusted
    decreases $s@.len() - $i
%%loop 4
    invariant $i <= $s@.len()
    decreases $s@.len() - $i
%%loop 5
    invariant $i <= $s@.len()
    decreases $s@.len() - $i
%%fn TrustedRoots::new
    ensures r.wf() && r.roots@.len() == 0 //@C11 C12
%%fn TrustedRoots::with_builtin
    ensures r.wf() //@C11 C12
%%fn TrustedRoots::add_root
    requires old(self).wf()
    ensures final(self).wf() && final(self).roots@ == old(self).roots@.push(cert_der) //@C11 C12
%%hint start
broadcast use lemma_anchors_push;
%%fn TrustedRoots::add_root_pem
    requires old(self).wf()
    ensures
        final(self).wf(), //@C11 C12
        match r {
            Ok(_) => pem_in(pem_data@) matches Some(m) && m.tag == cert_tag() && vv(final(self).roots@) == vv(old(self).roots@).push(m.data),
            Err(_) => *final(self) == *old(self),
        } //@C11 C12
%%fn TrustedRoots::is_direct_root
    ensures r == vv(self.roots@).contains(cert_der@) //@C11 C12
%%loop 0
    invariant $i <= $s@.len(), !$acc, forall|k: int| 0 <= k < $i ==> (#[trigger] vv($s@)[k]) != cert_der@
    decreases $s@.len() - $i
%%hint loopstart 0
assert(vv($s@)[$i as int] == $s@[$i as int]@);
%%fn TrustedRoots::is_empty
    ensures r == (self.roots@.len() == 0) //@C11 C12
%%fn TrustedRoots::trust_anchors
    ensures r@ == self.trust_anchors@ //@C11 C12
%%fn TrustedRoots::roots
    ensures r@ == self.roots@ //@C11 C12
%%fn CertChainVerifier::trusted_roots
    ensures *r == self.trusted_roots //@C11 C12
%%fn CertChainVerifier::new
    ensures r.trusted_roots == trusted_roots //@C11 C12
%%fn CertChainVerifier::with_builtin_roots
    ensures r.trusted_roots.wf() //@C11 C12
%%fn CertChainVerifier::verify_chain
    requires self.trusted_roots.wf()
    ensures
        r.1 ==> trusted(self.trusted_roots, end_entity@, vv(intermediates@)), //@C11 C12
        surely_trusted(self.trusted_roots, end_entity@, vv(intermediates@)) ==> r.0 && r.1, //@C11 C12
        r.0 ==> r.1 || linked(end_entity@, vv(intermediates@)), //@C11 C12
%%loop 0
    invariant $i <= $s@.len(), ders($acc@) == vv($s@).take($i as int)
    decreases $s@.len() - $i
%%hint loopend 0
assert(vv($s@).take($i as int) =~= vv($s@).take($i - 1).push($s@[$i - 1]@));
%%hint afterloop 0
assert(vv($s@).take($s@.len() as int) =~= vv($s@));
%%hint start
broadcast use lemma_ders_push;
%%fn CertChainVerifier::validate_chain_structure
    ensures r == linked(end_entity@, vv(intermediates@)) //@C11 C12
%%hint start
broadcast use lemma_linked_mono;
%%loop 0
    invariant $i <= $s@.len(), linked_to(end_entity@, vv($s@), $i as int), current_cert.tbs_certificate.issuer@ == issuer_of(if $i == 0 { end_entity@ } else { vv($s@)[$i - 1] })
    decreases $s@.len() - $i
%%hint loopstart 0
assert(vv($s@)[$i as int] == $s@[$i as int]@);
proof { if linked(end_entity@, vv(intermediates@)) { lemma_linked_mono(end_entity@, vv($s@), $i + 1, $s@.len() as int); } }
%%fn DigestContext::new
    ensures r.digests@ == Map::<u32, Vec<u8>>::empty() //@C11 C12
%%fn DigestContext::add_digest
    ensures final(self).digests@ == old(self).digests@.insert(algo_id, digest) //@C11 C12
%%fn DigestContext::get_digest
    ensures match r { Some(v) => self.digests@.contains_key(algo_id) && *v == self.digests@[algo_id], None => !self.digests@.contains_key(algo_id) } //@C11 C12
%%fn DigestContext::verify_digest
    ensures r == (self.digests@.contains_key(algo_id) && self.digests@[algo_id]@ == stored_digest@) //@C11 C12
%%fn SignatureVerifier::new
    ensures r.cert_verifier == cert_verifier //@C11 C12
%%fn SignatureVerifier::with_builtin_roots
    ensures r.wf() //@C11 C12
%%fn SignatureVerifier::with_trusted_roots
    ensures r.cert_verifier.trusted_roots == roots //@C11 C12
%%fn SignatureVerifier::verify_v2_with_digest
    requires self.wf() //@C01
    ensures
        v2_judged(r, v2_of(ms(signing_block.content@), signing_block.content@.len() as int), ctx_of(digest_context), self.cert_verifier.trusted_roots), //@C11
%%hint start
broadcast use {lemma_first_dig, lemma_e_signed2};
let ghost cc = ms(signing_block.content@);
let ghost dc = ctx_of(digest_context);
let ghost rt = self.cert_verifier.trusted_roots;
%%loop 0
    invariant $i <= $s@.len(), v2_done(signer_results@, v2_of(cc, $i as int), dc, rt) //@C11
    decreases $s@.len() - $i
%%hint loopstart 0
let ghost pre = v2_of(cc, $i as int);
assert(ms($s@)[$i as int] == $s@[$i as int].m());
%%hint loopend 0
assert(v2_done(signer_results@, v2_of(cc, $i as int), dc, rt));
%%hint beforeloop 1
assert(pre + ms(v2.signers.signers_data@).take(0) =~= pre);
%%hint afterloop 1
assert(ms(v2.signers.signers_data@).take(v2.signers.signers_data@.len() as int) =~= ms(v2.signers.signers_data@));
%%hint loopstart 1
proof { lemma_take_push(pre, ms($s@), $i as int); }
%%loop 1
    invariant $i <= $s@.len(), v2_done(signer_results@, pre + ms($s@).take($i as int), dc, rt) //@C11
    decreases $s@.len() - $i
%%loop 2
    invariant
        $i <= $s@.len(), sig_valid == ($s@.len() > 0), //@C11
        forall|k: int| 0 <= k < $i ==> #[trigger] v2_sig_ok(signer.m(), k), //@C11
        dc is None ==> signer_result.error is None && !signer_result.digest_valid, //@C11
        dc is Some ==> (signer_result.error is None <==> forall|k: int| 0 <= k < $i ==> #[trigger] v2_dig_ok(signer.m(), k, dc)), //@C11
        dc is Some && signer_result.error is None ==> signer_result.digest_valid == ($i > 0), //@C11
        signer_result.signature_valid == false, signer_result.is_trusted == false, signer_result.cert_chain_valid == false,
    decreases $s@.len() - $i
%%hint loopend 1
assert(v2_one(signer_results@.last(), signer.m(), dc, rt));
%%hint afterloop 2
assert(!sig_valid && signer.m().sigs.items.len() > 0 ==> exists|k: int| 0 <= k < signer.m().sigs.items.len() && !v2_sig_ok(signer.m(), k));
assert(sig_valid && (dc is None || v2_digs(signer.m(), dc)) ==> signer_result.error is None);
assert(sig_valid && dc is Some && v2_digs(signer.m(), dc) ==> signer_result.digest_valid);
%%hint let digest 1
assert(signed_dig(signer.m().sd.digests.items, *algo) == Some(digest.m()));
assert(v2_sig_ok(signer.m(), kk) == alg_verifies(*algo, pubkey@, raw_data@, sig.signature@));
%%hint loopstart 2
let ghost kk = $i as int;
assert(signer.m().sigs.items[kk] == $s@[kk].m());
assert(v2_sig_ok(signer.m(), kk) ==> signed_dig(signer.m().sd.digests.items, $s@[kk].m().alg) is Some);
%%hint loopend 2
assert(v2_dig_ok(signer.m(), kk, dc) == dig_ok(signer.m().sd.digests.items, *algo, dc));
%%loop 3
    invariant $i <= $s@.len(), dig_for(ms($s@), *algo, $i as int) is None, $acc is None //@C11
    decreases $s@.len() - $i
%%hint loopstart 3
assert(ms($s@)[$i as int] == $s@[$i as int].m());
%%loop 4
    invariant $i <= $s@.len(), vv($acc@) == datas(ms($s@), 1, $i as int) //@C11
    decreases $s@.len() - $i
%%hint loopstart 4
assert(ms($s@)[$i as int] == $s@[$i as int].m());
%%hint loopend 4
assert(datas(ms($s@), 1, $i as int) =~= (if $i <= 1 { Seq::empty() } else { datas(ms($s@), 1, $i - 1).push(ms($s@)[$i - 1].data) }));
%%loop 5
    invariant $i <= $s@.len(), ($acc@.len() == 0) == (forall|k: int| 0 <= k < $i ==> (#[trigger] $s@[k]).error is None) //@C11
    decreases $s@.len() - $i
%%fn SignatureVerifier::verify_source_stamp_with_digest
    requires self.wf() //@C01
    ensures st_judged(r, first_stamp(ms(signing_block.content@), signing_block.content@.len() as int), ctx_of(digest_context), self.cert_verifier.trusted_roots), //@C12
%%hint start
broadcast use {lemma_first_dig, lemma_e_signed_st, lemma_first_stamp};
let ghost cc = ms(signing_block.content@);
let ghost dc = ctx_of(digest_context);
let ghost rt = self.cert_verifier.trusted_roots;
let ghost nc: Seq<Seq<u8>> = Seq::empty();
assert(forall|e: Seq<Vec<u8>>| e.len() == 0 ==> #[trigger] vv(e) =~= nc);
%%loop 0
    invariant $i <= $s@.len(), first_stamp(cc, $i as int) is None, signer_results@.len() == 0 //@C12
    decreases $s@.len() - $i
%%hint loopstart 0
assert(ms($s@)[$i as int] == $s@[$i as int].m());
%%loop 1
    invariant
        $i <= $s@.len(), sig_valid == ($s@.len() > 0), //@C12
        forall|k: int| 0 <= k < $i ==> #[trigger] st_sig_ok(stamp_block.m(), k), //@C12
        dc is None ==> signer_result.error is None && !signer_result.digest_valid && !digest_verified, //@C12
        dc is Some ==> (signer_result.error is None <==> forall|k: int| 0 <= k < $i ==> !#[trigger] st_dig_bad(stamp_block.m(), k, dc)), //@C12
        digest_verified <==> exists|k: int| 0 <= k < $i && #[trigger] st_dig_ok(stamp_block.m(), k, dc), //@C12
        signer_result.error is None ==> signer_result.digest_valid == digest_verified, //@C12
        signer_result.signature_valid == false, signer_result.is_trusted == false, signer_result.cert_chain_valid == false,
    decreases $s@.len() - $i
%%hint loopstart 1
let ghost kk = $i as int;
assert(stamp_block.m().sigs.items[kk] == $s@[kk].m());
assert(st_sig_ok(stamp_block.m(), kk) == alg_verifies($s@[kk].m().alg, pubkey@, raw_data@, $s@[kk].m().data));
%%hint loopend 1
assert(st_dig_ok(stamp_block.m(), kk, dc) == dig_ok(stamp_block.m().sd.digests.items, *algo, dc));
assert(st_dig_bad(stamp_block.m(), kk, dc) == (digest is Some && !dig_ok(stamp_block.m().sd.digests.items, *algo, dc)));
%%hint afterloop 0
assert(match first_stamp(cc, cc.len() as int) { None => signer_results@.len() == 0, Some(s) => signer_results@.len() == 1 && st_one(signer_results@[0], s, dc, rt) });
%%loop 2
    invariant $i <= $s@.len(), dig_for(ms($s@), *algo, $i as int) is None, $acc is None //@C12
    decreases $s@.len() - $i
%%hint loopstart 2
assert(ms($s@)[$i as int] == $s@[$i as int].m());
%%hint let digest 0
assert(match digest { Some(d) => signed_dig(stamp_block.m().sd.digests.items, *algo) == Some(d.m()), None => signed_dig(stamp_block.m().sd.digests.items, *algo) is None });
%%loop 3
    invariant $i <= $s@.len(), ($acc@.len() == 0) == (forall|k: int| 0 <= k < $i ==> (#[trigger] $s@[k]).error is None) //@C12
    decreases $s@.len() - $i
%%fn SignatureVerifier::verify_source_stamp
    requires self.wf() //@C01
    ensures st_judged(r, first_stamp(ms(signing_block.content@), signing_block.content@.len() as int), None, self.cert_verifier.trusted_roots), //@C12
%%fn SignatureVerifier::verify_all_with_digest
    requires self.wf() //@C01
    ensures
        v2_judged(r.v2, v2_of(ms(signing_block.content@), signing_block.content@.len() as int), ctx_of(digest_context), self.cert_verifier.trusted_roots), //@C11
        st_judged(r.source_stamp, first_stamp(ms(signing_block.content@), signing_block.content@.len() as int), ctx_of(digest_context), self.cert_verifier.trusted_roots), //@C12
%%fn verify_with_digest
    ensures exists|rt: TrustedRoots| v2_judged(r, v2_of(ms(signing_block.content@), signing_block.content@.len() as int), Some(digest_context.digests@), rt) //@C11
%%fn verify_with_roots_and_digest
    requires roots.wf()
    ensures v2_judged(r, v2_of(ms(signing_block.content@), signing_block.content@.len() as int), Some(digest_context.digests@), roots) //@C11
%%spec
pub use crate::signing_block::algorithms::alg_verifies;
pub use crate::keystore::cert_tag;
use crate::Algorithms;
impl TrustedRoots { pub open spec fn wf(&self) -> bool { self.trust_anchors@ == anchors(vv(self.roots@), self.roots@.len() as int) } }
impl SignatureVerifier { pub open spec fn wf(&self) -> bool { self.cert_verifier.trusted_roots.wf() } }
/// the anchors the roots make, in order
pub open spec fn anchors(r: Seq<Seq<u8>>, n: int) -> Seq<crate::shim::pki::TrustAnchor<'static>> decreases n
{ if n <= 0 { Seq::empty() } else { match anchor_of(r[n - 1]) { Some(a) => anchors(r, n - 1).push(a), None => anchors(r, n - 1) } } }
/// the certificate is one of the roots, or webpki finds a path to one that is valid now and fit for code signing
pub open spec fn trusted(r: TrustedRoots, ee: Seq<u8>, inter: Seq<Seq<u8>>) -> bool {
    r.roots@.len() > 0 && (vv(r.roots@).contains(ee) || exists|t: u64| #[trigger] crate::shim::time::is_now(t) && path_ok(ee, inter, r.trust_anchors@, t, crate::shim::webpki::Usage::Code))
}
pub open spec fn surely_trusted(r: TrustedRoots, ee: Seq<u8>, inter: Seq<Seq<u8>>) -> bool {
    r.roots@.len() > 0 && (vv(r.roots@).contains(ee) || (exists|t: u64| crate::shim::time::is_now(t)) && forall|t: u64| #[trigger] crate::shim::time::is_now(t) ==> path_ok(ee, inter, r.trust_anchors@, t, crate::shim::webpki::Usage::Code))
}
/// each certificate names the next as its issuer
pub open spec fn linked(ee: Seq<u8>, inter: Seq<Seq<u8>>) -> bool { inter.len() == 0 || (cert_ok(ee) && linked_to(ee, inter, inter.len() as int)) }
pub open spec fn linked_to(ee: Seq<u8>, inter: Seq<Seq<u8>>, n: int) -> bool decreases n
{ if n <= 0 { true } else { linked_to(ee, inter, n - 1) && cert_ok(inter[n - 1]) && issuer_of(if n == 1 { ee } else { inter[n - 2] }) == subject_of(inter[n - 1]) } }
/// present and fully valid
pub open spec fn full(x: Result<VerifyResult, VerifyError>) -> bool { x matches Ok(r) && r.signature_valid && r.digest_valid && r.cert_chain_valid && r.is_trusted }
pub open spec fn absent(x: Result<VerifyResult, VerifyError>) -> bool { x matches Err(VerifyError::NoSignature) }
/// C12: something is present, and all that is present is fully valid
pub open spec fn verdict(x: VerifyAllResult) -> bool { (full(x.v2) || absent(x.v2)) && (full(x.source_stamp) || absent(x.source_stamp)) && !(absent(x.v2) && absent(x.source_stamp)) }
pub broadcast proof fn lemma_ders_push(s: Seq<crate::shim::pki::CertificateDer>, x: crate::shim::pki::CertificateDer)
    ensures #[trigger] ders(s.push(x)) == ders(s).push(x@)
{ assert(ders(s.push(x)) =~= ders(s).push(x@)); }
pub broadcast proof fn lemma_linked_mono(ee: Seq<u8>, inter: Seq<Seq<u8>>, k: int, n: int)
    requires k <= n, linked_to(ee, inter, n)
    ensures #![trigger linked_to(ee, inter, k), linked_to(ee, inter, n)] linked_to(ee, inter, k)
    decreases n - k
{ if k < n { lemma_linked_mono(ee, inter, k, n - 1); } }
/// the signed digest for an algorithm: the first one listed
pub open spec fn dig_for(d: Seq<AlgDataM>, a: Algorithms, n: int) -> Option<AlgDataM> decreases n
{ if n <= 0 { None } else { match dig_for(d, a, n - 1) { Some(x) => Some(x), None => if d[n - 1].alg == a { Some(d[n - 1]) } else { None } } } }
pub broadcast proof fn lemma_first_dig(d: Seq<AlgDataM>, a: Algorithms, k: int, n: int)
    requires k <= n, dig_for(d, a, k) is Some
    ensures #![trigger dig_for(d, a, k), dig_for(d, a, n)] dig_for(d, a, n) == dig_for(d, a, k)
    decreases n - k
{ if k < n { lemma_first_dig(d, a, k, n - 1); } }
pub open spec fn signed_dig(d: Seq<AlgDataM>, a: Algorithms) -> Option<AlgDataM> { dig_for(d, a, d.len() as int) }
pub open spec fn ctx_of(c: Option<&DigestContext>) -> Option<Map<u32, Vec<u8>>> { match c { Some(x) => Some(x.digests@), None => None } }
/// the signed digest of the algorithm is the one supplied
pub open spec fn dig_ok(d: Seq<AlgDataM>, a: Algorithms, c: Option<Map<u32, Vec<u8>>>) -> bool {
    signed_dig(d, a) matches Some(x) && c matches Some(m) && m.contains_key(id_of(a)) && m[id_of(a)]@ == x.data
}
pub open spec fn v2_sig_ok(s: SignerM, k: int) -> bool {
    alg_verifies(s.sigs.items[k].alg, s.key.data, s.sd.signed(), s.sigs.items[k].data) && signed_dig(s.sd.digests.items, s.sigs.items[k].alg) is Some
}
pub open spec fn v2_dig_ok(s: SignerM, k: int, c: Option<Map<u32, Vec<u8>>>) -> bool { dig_ok(s.sd.digests.items, s.sigs.items[k].alg, c) }
pub open spec fn bound(key: Seq<u8>, certs: Seq<BlobM>) -> bool { certs.len() > 0 && spki_of(certs[0].data) == Some(key) }
/// C11: at least one signature, each verifies under the key over the signed data as serialised and has a signed digest, and the key is the certificate's
pub open spec fn v2_genuine(s: SignerM) -> bool {
    s.sigs.items.len() > 0 && (forall|k: int| 0 <= k < s.sigs.items.len() ==> #[trigger] v2_sig_ok(s, k)) && bound(s.key.data, s.sd.certs.items)
}
pub open spec fn v2_digs(s: SignerM, c: Option<Map<u32, Vec<u8>>>) -> bool {
    c is Some && s.sigs.items.len() > 0 && forall|k: int| 0 <= k < s.sigs.items.len() ==> #[trigger] v2_dig_ok(s, k, c)
}
pub open spec fn datas(s: Seq<BlobM>, lo: int, hi: int) -> Seq<Seq<u8>> { Seq::new((if hi >= lo { hi - lo } else { 0 }) as nat, |i: int| s[lo + i].data) }
pub open spec fn v2_trusted(s: SignerM, rt: TrustedRoots) -> bool { bound(s.key.data, s.sd.certs.items) && trusted(rt, s.sd.certs.items[0].data, datas(s.sd.certs.items, 1, s.sd.certs.items.len() as int)) }
pub open spec fn v2_linked(s: SignerM) -> bool { bound(s.key.data, s.sd.certs.items) && linked(s.sd.certs.items[0].data, datas(s.sd.certs.items, 1, s.sd.certs.items.len() as int)) }
pub open spec fn v2_surely(s: SignerM, rt: TrustedRoots) -> bool { bound(s.key.data, s.sd.certs.items) && surely_trusted(rt, s.sd.certs.items[0].data, datas(s.sd.certs.items, 1, s.sd.certs.items.len() as int)) }
/// what the result of one signer may say
pub open spec fn v2_one(x: SignerVerifyResult, s: SignerM, c: Option<Map<u32, Vec<u8>>>, rt: TrustedRoots) -> bool {
    (x.signature_valid ==> x.error is None && v2_genuine(s))
    && (x.error is None && x.digest_valid ==> v2_digs(s, c))
    && (x.is_trusted ==> v2_trusted(s, rt))
    && (x.cert_chain_valid ==> v2_trusted(s, rt) || v2_linked(s))
    && (v2_surely(s, rt) ==> x.is_trusted && x.cert_chain_valid)
    && (v2_genuine(s) && (c is None || v2_digs(s, c)) ==> x.error is None && x.signature_valid && (c is Some ==> x.digest_valid))
}
pub open spec fn v2_done(x: Seq<SignerVerifyResult>, s: Seq<SignerM>, c: Option<Map<u32, Vec<u8>>>, rt: TrustedRoots) -> bool {
    x.len() == s.len() && forall|k: int| #![trigger x[k]] #![trigger s[k]] 0 <= k < s.len() ==> v2_one(x[k], s[k], c, rt)
}
/// the signers of all v2 blocks, in order
pub open spec fn v2_of(c: Seq<ValM>, n: int) -> Seq<SignerM> decreases n
{ if n <= 0 { Seq::empty() } else { match c[n - 1] { ValM::V2(v) => v2_of(c, n - 1) + v.signers.items, _ => v2_of(c, n - 1) } } }
pub open spec fn v2_judged(r: Result<VerifyResult, VerifyError>, ss: Seq<SignerM>, c: Option<Map<u32, Vec<u8>>>, rt: TrustedRoots) -> bool {
    (absent(r) <==> ss.len() == 0)
    && (r matches Ok(v) ==> v.signers@.len() == ss.len()
        && (v.signature_valid ==> forall|k: int| 0 <= k < ss.len() ==> v2_genuine(#[trigger] ss[k]))
        && (v.digest_valid ==> forall|k: int| 0 <= k < ss.len() ==> v2_digs(#[trigger] ss[k], c))
        && (v.is_trusted ==> forall|k: int| 0 <= k < ss.len() ==> v2_trusted(#[trigger] ss[k], rt))
        && (v.cert_chain_valid ==> forall|k: int| 0 <= k < ss.len() ==> v2_trusted(#[trigger] ss[k], rt) || v2_linked(ss[k])))
    && (ss.len() > 0 && (forall|k: int| 0 <= k < ss.len() ==> v2_genuine(#[trigger] ss[k]) && (c is None || v2_digs(ss[k], c)))
        ==> (r matches Ok(v) && v.signature_valid && (c is Some ==> v.digest_valid)
            && ((forall|k: int| 0 <= k < ss.len() ==> v2_surely(#[trigger] ss[k], rt)) ==> v.is_trusted && v.cert_chain_valid)))
}
pub broadcast proof fn lemma_anchors_push(s: Seq<Vec<u8>>, x: Vec<u8>)
    ensures #[trigger] anchors(vv(s.push(x)), s.push(x).len() as int) == (match anchor_of(x@) { Some(a) => anchors(vv(s), s.len() as int).push(a), None => anchors(vv(s), s.len() as int) })
{ lemma_anchors_frame(vv(s.push(x)), vv(s), s.len() as int); }
proof fn lemma_anchors_frame(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int)
    requires n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k]
    ensures anchors(a, n) == anchors(b, n)
    decreases n
{ if n > 0 { lemma_anchors_frame(a, b, n - 1); } }
proof fn lemma_take_push<A>(p: Seq<A>, m: Seq<A>, i: int)
    requires 0 <= i < m.len()
    ensures p + m.take(i + 1) == (p + m.take(i)).push(m[i])
{ assert(p + m.take(i + 1) =~= (p + m.take(i)).push(m[i])); }
/// the first source stamp
pub open spec fn first_stamp(c: Seq<ValM>, n: int) -> Option<StBlockM> decreases n
{ if n <= 0 { None } else { match first_stamp(c, n - 1) { Some(x) => Some(x), None => match c[n - 1] { ValM::Stamp(s) => Some(s.block), _ => None } } } }
pub broadcast proof fn lemma_first_stamp(c: Seq<ValM>, k: int, n: int)
    requires k <= n, first_stamp(c, k) is Some
    ensures #![trigger first_stamp(c, k), first_stamp(c, n)] first_stamp(c, n) == first_stamp(c, k)
    decreases n - k
{ if k < n { lemma_first_stamp(c, k, n - 1); } }
pub open spec fn st_sig_ok(s: StBlockM, k: int) -> bool { alg_verifies(s.sigs.items[k].alg, s.key.data, s.sd.signed(), s.sigs.items[k].data) }
pub open spec fn st_dig_ok(s: StBlockM, k: int, c: Option<Map<u32, Vec<u8>>>) -> bool { dig_ok(s.sd.digests.items, s.sigs.items[k].alg, c) }
/// a digest is signed for the algorithm and it is not the supplied one
pub open spec fn st_dig_bad(s: StBlockM, k: int, c: Option<Map<u32, Vec<u8>>>) -> bool { signed_dig(s.sd.digests.items, s.sigs.items[k].alg) is Some && !dig_ok(s.sd.digests.items, s.sigs.items[k].alg, c) }
/// C12
pub open spec fn st_genuine(s: StBlockM) -> bool {
    s.sigs.items.len() > 0 && (forall|k: int| 0 <= k < s.sigs.items.len() ==> #[trigger] st_sig_ok(s, k)) && bound(s.key.data, s.sd.certs.items)
}
pub open spec fn st_digs(s: StBlockM, c: Option<Map<u32, Vec<u8>>>) -> bool {
    c is Some && (exists|k: int| 0 <= k < s.sigs.items.len() && #[trigger] st_dig_ok(s, k, c)) && st_undisputed(s, c)
}
pub open spec fn st_undisputed(s: StBlockM, c: Option<Map<u32, Vec<u8>>>) -> bool { forall|k: int| 0 <= k < s.sigs.items.len() ==> !#[trigger] st_dig_bad(s, k, c) }
pub open spec fn st_trusted(s: StBlockM, rt: TrustedRoots) -> bool { bound(s.key.data, s.sd.certs.items) && trusted(rt, s.sd.certs.items[0].data, Seq::empty()) }
pub open spec fn st_surely(s: StBlockM, rt: TrustedRoots) -> bool { bound(s.key.data, s.sd.certs.items) && surely_trusted(rt, s.sd.certs.items[0].data, Seq::empty()) }
pub open spec fn st_one(x: SignerVerifyResult, s: StBlockM, c: Option<Map<u32, Vec<u8>>>, rt: TrustedRoots) -> bool {
    (x.signature_valid ==> x.error is None && st_genuine(s))
    && (x.error is None && x.signature_valid && x.digest_valid ==> st_digs(s, c))
    && (x.is_trusted ==> st_trusted(s, rt))
    && (x.cert_chain_valid ==> bound(s.key.data, s.sd.certs.items))
    && (st_surely(s, rt) ==> x.is_trusted && x.cert_chain_valid)
    && (st_genuine(s) && (c is None || st_undisputed(s, c)) ==> x.error is None && x.signature_valid && (st_digs(s, c) ==> x.digest_valid))
}
pub open spec fn st_judged(r: Result<VerifyResult, VerifyError>, ss: Option<StBlockM>, c: Option<Map<u32, Vec<u8>>>, rt: TrustedRoots) -> bool {
    (absent(r) <==> ss is None)
    && (r matches Ok(v) ==> (ss matches Some(s)
        && (v.signature_valid ==> st_genuine(s))
        && (v.digest_valid ==> st_digs(s, c))
        && (v.is_trusted ==> st_trusted(s, rt))
        && (v.cert_chain_valid ==> bound(s.key.data, s.sd.certs.items))))
    && (ss matches Some(s) ==> (st_genuine(s) && (c is None || st_undisputed(s, c))
        ==> (r matches Ok(v) && v.signature_valid && (st_digs(s, c) ==> v.digest_valid) && (st_surely(s, rt) ==> v.is_trusted && v.cert_chain_valid))))
}
