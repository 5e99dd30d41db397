%%file src/signer.rs signer
%%fn ModuleSignerConfig::new
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.cert_chain@.len() == 0 //@C13 C15
%%fn ModuleSignerConfig::with_cert_chain
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.cert_chain == cert_chain //@C13 C15
%%fn ModuleSignerConfig::from_credentials
    ensures r.private_key == creds.private_key && r.certificate == creds.certificate && r.algorithm == creds.algorithm && r.cert_chain == creds.cert_chain //@C13 C15
%%fn V2Signer::new
    ensures r.config == config //@C13
%%fn V2Signer::sign
    requires self.config.fits(digests.size as int) //@C01
    ensures
        r matches Ok(v) ==> v2_by(v.m(), digests.m(), self.config.certs(), self.config.algorithm, self.config.private_key.pubder()), //@C13
        r matches Ok(v) ==> v.m().id == 0x7109871au32 && v.m().size <= 0x2000_0000 && (digests.m().ok() ==> v.m().ok()), //@C02 C13
        r is Ok ==> key_fits(self.config.algorithm, self.config.private_key), //@C13
%%hint start
broadcast use {lemma_certs_step, lemma_e_signed2, sign_facts};
assert(self.config.certificate.len() == self.config.certificate@.len());
%%loop 0
    invariant $i <= self.config.cert_chain@.len(), ms($acc@) == certs_of(self.config.certificate@, self.config.cert_chain@.take($i as int)) //@C13
    decreases self.config.cert_chain@.len() - $i
%%hint afterloop 0
assert(self.config.cert_chain@.take($i as int) =~= self.config.cert_chain@);
%%fn V2Signer::sign_with_digests
    requires self.config.fits(sizes(digs(digest_pairs@), digest_pairs@.len() as int)) //@C01
    ensures
        r matches Ok(v) ==> v2_by(v.m(), seal(digs(digest_pairs@)), self.config.certs(), self.config.algorithm, self.config.private_key.pubder()), //@C13
%%hint start
broadcast use sign_facts;
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == digs($g.take($i as int)) //@C13
    decreases $s@.len()
%%hint loopend 0
assert(ms($acc@) =~= digs($g.take($i as int)));
%%hint afterloop 0
assert($g.take($i as int) =~= $g);
%%fn SourceStampSigner::new
    ensures r.config == config && r.timestamp_enabled //@C13
%%fn SourceStampSigner::with_timestamp
    ensures r.config == config && r.timestamp_enabled == timestamp_enabled //@C13
%%fn SourceStampSigner::sign
    requires self.config.fits(digests.size as int) //@C01
    ensures
        r matches Ok(v) ==> stamp_by(v.m(), digests.m(), self.config.certificate@, self.timestamp_enabled, self.config.algorithm, self.config.private_key.pubder()), //@C13
        r matches Ok(v) ==> v.m().id == 0x6dff_800du32 && v.m().size <= 0x2000_0000 && (digests.m().ok() ==> v.m().ok()), //@C02 C13
        r is Ok ==> key_fits(self.config.algorithm, self.config.private_key), //@C13
%%hint start
broadcast use {lemma_e_signed_st, sign_facts};
assert(self.config.certificate.len() == self.config.certificate@.len());
assert(self.config.certs()[0] == blob(self.config.certificate@));
proof { lemma_sizes_mono(self.config.certs(), self.config.certs().len() as int); }
assert(sizes(self.config.certs(), 1) <= 0x1000_0000);
%%fn SourceStampSigner::sign_with_digests
    requires self.config.fits(sizes(digs(digest_pairs@), digest_pairs@.len() as int)) //@C01
    ensures
        r matches Ok(v) ==> stamp_by(v.m(), seal(digs(digest_pairs@)), self.config.certificate@, self.timestamp_enabled, self.config.algorithm, self.config.private_key.pubder()), //@C13
%%hint start
broadcast use sign_facts;
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == digs($g.take($i as int)) //@C13
    decreases $s@.len()
%%hint loopend 0
assert(ms($acc@) =~= digs($g.take($i as int)));
%%hint afterloop 0
assert($g.take($i as int) =~= $g);
%%fn ModuleSigner::v2_only
    ensures r.v2_config == Some(config) && r.stamp_config is None && r.timestamp_enabled && r.padding_enabled //@C13
%%fn ModuleSigner::with_source_stamp
    ensures r.v2_config == Some(v2_config) && r.stamp_config == Some(stamp_config) && r.timestamp_enabled && r.padding_enabled //@C13
%%fn ModuleSigner::stamp_only
    ensures r.v2_config is None && r.stamp_config == Some(stamp_config) && r.timestamp_enabled && r.padding_enabled //@C13
%%fn ModuleSigner::timestamp_enabled
    ensures r == (ModuleSigner { timestamp_enabled: enabled, ..self }) //@C13
%%fn ModuleSigner::padding_enabled
    ensures r == (ModuleSigner { padding_enabled: enabled, ..self }) //@C13
%%fn ModuleSigner::required_algorithms
    ensures
        self.v2_config matches Some(c) ==> r@.contains(c.algorithm), //@C13
        self.stamp_config matches Some(c) ==> r@.contains(c.algorithm), //@C13
        forall|i: int| 0 <= i < r@.len() ==> (self.v2_config matches Some(c) && c.algorithm == #[trigger] r@[i]) || (self.stamp_config matches Some(c) && c.algorithm == r@[i]), //@C13
%%hint tail
assert(vx_ret@.len() > 0 ==> vx_ret@.contains(vx_ret@[0]));
assert(vx_ret@.len() > 1 ==> vx_ret@.contains(vx_ret@[1]));
%%fn ModuleSigner::sign
    requires self.fits(digests.size as int) //@C01
    ensures
        r matches Ok(b) ==> b.built() && (self.padding_enabled ==> (b.total() + 32) % 4096 == 0), //@C03
        r matches Ok(b) ==> self.signed(b, digests.m()), //@C13
        digests.m().ok() ==> (r matches Ok(b) ==> all_ok(ms(b.content@))), //@C02 C13
%%hint start
broadcast use {lemma_vsizes_push, lemma_vsizes_none, lemma_ms_push, lemma_padded_ok, lemma_small_ok};
%%fn ModuleSigner::add_source_stamp
    requires self.fits(digests.size as int), vsizes(ms(existing_block.content@), existing_block.content@.len() as int) <= 0x0fff_ffff_ffff_ffff //@C01
    ensures
        r matches Ok(b) ==> b.built() && (self.padding_enabled ==> (b.total() + 32) % 4096 == 0), //@C03 C14
        r matches Ok(b) ==> self.stamp_config is Some && self.stamped(ms(existing_block.content@), b, digests.m()), //@C14
        digests.m().ok() && all_ok(ms(existing_block.content@)) ==> (r matches Ok(b) ==> all_ok(ms(b.content@))), //@C14
%%hint start
broadcast use {lemma_vsizes_push, lemma_vsizes_none, lemma_ms_push, lemma_padded_ok, lemma_small_ok, lemma_others};
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == others(ms($g), $i as int) //@C14
    decreases $s@.len()
%%fn clone_private_key
    ensures r matches Ok(k) ==> k.pubder() == key.pubder() && (forall|a: Algorithms| key_fits(a, k) == key_fits(a, *key)), //@C13
%%spec
pub use crate::signing_block::algorithms::key_fits;
impl ModuleSignerConfig {
    pub open spec fn certs(&self) -> Seq<BlobM> { certs_of(self.certificate@, self.cert_chain@) }
    /// lists of this size keep every length prefix exact
    pub open spec fn fits(&self, n: int) -> bool { sizes(self.certs(), self.certs().len() as int) + n <= 0x1000_0000 }
}
impl ModuleSigner {
    pub closed spec fn fits(&self, n: int) -> bool { (self.v2_config matches Some(c) ==> c.fits(n)) && (self.stamp_config matches Some(c) ==> c.fits(n)) }
    pub closed spec fn v2_entry(&self, x: ValM, dg: ListM<AlgDataM>) -> bool { self.v2_config matches Some(c) && x matches ValM::V2(v) && v2_by(v, dg, c.certs(), c.algorithm, c.private_key.pubder()) }
    pub closed spec fn stamp_entry(&self, x: ValM, dg: ListM<AlgDataM>) -> bool { self.stamp_config matches Some(c) && x matches ValM::Stamp(v) && stamp_by(v, dg, c.certificate@, self.timestamp_enabled, c.algorithm, c.private_key.pubder()) }
    /// one entry per configured scheme, v2 first
    pub closed spec fn signed(&self, b: SigningBlock, dg: ListM<AlgDataM>) -> bool {
        exists|m: Seq<ValM>| #[trigger] padded(ms(b.content@), m) && m.len() == (if self.v2_config is Some { 1int } else { 0 }) + (if self.stamp_config is Some { 1int } else { 0 }) && m.len() > 0
        && (self.v2_config is Some ==> self.v2_entry(m[0], dg)) && (self.stamp_config is Some ==> self.stamp_entry(m[m.len() - 1], dg))
    }
    /// every entry but old stamps and padding, in order, then the new stamp
    pub closed spec fn stamped(&self, o: Seq<ValM>, b: SigningBlock, dg: ListM<AlgDataM>) -> bool {
        exists|x: ValM| self.stamp_entry(x, dg) && padded(ms(b.content@), #[trigger] others(o, o.len() as int).push(x))
    }
}
