%%file src/signing_block/scheme_v2.rs signing_block::scheme_v2
%%fn Signers::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        ListM::<SignerM>::p_in(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint beforeloop 0
let ghost vx_d0 = $i.data@;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), $s - $i.pos);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn Signers::new
    requires sizes(ms(signers_data@), signers_data@.len() as int) <= usize::MAX
    ensures r.m() == (ListM { size: sizes(ms(signers_data@), signers_data@.len() as int) as usize, items: ms(signers_data@) }) //@C02 C03 C13
%%hint start
proof { lemma_sizes_mono(ms(signers_data@), signers_data@.len() as int); }
%%loop 0
    invariant $i <= signers_data@.len(), $acc == sizes(ms(signers_data@), $i as int), sizes(ms(signers_data@), signers_data@.len() as int) <= usize::MAX
    decreases signers_data@.len() - $i
%%hint loopstart 0
assert(sizes(ms(signers_data@), $i + 1) <= sizes(ms(signers_data@), signers_data@.len() as int));
%%fn Signers::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%hint start
hide(<SignerM as Cod>::e);
%%loop 0
    invariant $i <= self.signers_data@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.signers_data@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn Signer::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        SignerM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn SignedData::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        Sd2M::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn Signer::to_u8;SignedData::to_u8;SignatureSchemeV2::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn Signer::new
    requires 12 + signed_data.size + signatures.size + pub_key.size <= usize::MAX
    ensures r.m() == (SignerM { size: (12 + signed_data.size + signatures.size + pub_key.size) as usize, sd: signed_data.m(), sigs: signatures.m(), key: pub_key.m() }) //@C02 C03 C13
%%fn SignedData::new
    requires 16 + digests.size + certificates.size + additional_attributes.size <= usize::MAX
    ensures r.m() == (Sd2M { size: (16 + digests.size + certificates.size + additional_attributes.size) as usize, digests: digests.m(), certs: certificates.m(), attrs: additional_attributes.m(), fix: true }) //@C02 C03 C13
%%fn SignatureSchemeV2::new
    requires 8 + signers.size <= usize::MAX
    ensures r.m() == (V2M { size: (8 + signers.size) as usize, id: 0x7109871au32, signers: signers.m() }) //@C02 C03 C13
%%fn SignatureSchemeV2::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        ListM::<SignerM>::p_in(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == (V2M { size, id, signers: m }) && final(data).rem() == t, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%spec
impl HasM for Signers { type M = ListM<SignerM>; open spec fn m(&self) -> ListM<SignerM> { ListM { size: self.size, items: ms(self.signers_data@) } } }
impl HasM for Signer { type M = SignerM; open spec fn m(&self) -> SignerM { SignerM { size: self.size, sd: self.signed_data.m(), sigs: self.signatures.m(), key: self.pub_key.m() } } }
impl HasM for SignedData { type M = Sd2M; open spec fn m(&self) -> Sd2M { Sd2M { size: self.size, digests: self.digests.m(), certs: self.certificates.m(), attrs: self.additional_attributes.m(), fix: self._private_auto_padding_fix } } }
impl HasM for SignatureSchemeV2 { type M = V2M; open spec fn m(&self) -> V2M { V2M { size: self.size, id: self.id, signers: self.signers.m() } } }
%%file src/signing_block/source_stamp.rs signing_block::source_stamp
%%fn StampBlock::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        StBlockM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn SignedData::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        SdStM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn StampBlock::to_u8;SignedData::to_u8;SourceStamp::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn StampBlock::new
    requires signed_data.m().sz() + 12 + signatures.size + public_key.size <= usize::MAX
    ensures r.m() == (StBlockM { size: (12 + signed_data.m().sz() + signatures.size + public_key.size) as usize, sd: signed_data.m(), sigs: signatures.m(), key: public_key.m() }) //@C02 C03 C13
%%fn SignedData::new
    ensures r.m() == (SdStM { digests: digests.m(), certs: certificates.m(), attrs: additional_attributes.m() }) //@C02 C13
%%fn SignedData::size
    requires self.m().sz() <= usize::MAX
    ensures r == self.m().sz() //@C02 C03
%%fn SourceStamp::new
    requires 8 + stamp_block.size <= usize::MAX
    ensures r.m() == (StampM { size: (8 + stamp_block.size) as usize, id: 0x6dff_800du32, block: stamp_block.m() }) //@C02 C03 C13
%%fn SourceStamp::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        StBlockM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == (StampM { size, id, block: m }) && final(data).rem() == t, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn SourceStampSignerConfig::new
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.timestamp_enabled == timestamp_enabled //@C13
%%fn SourceStampSigner::new
    ensures r.config == config //@C13
%%fn SourceStampSigner::sign
    requires self.config.fits(digests.size as int) //@C01
    ensures
        r matches Ok(v) ==> stamp_by(v.m(), digests.m(), self.config.certificate@, self.config.timestamp_enabled, self.config.algorithm, self.config.private_key.pubder()), //@C13
        r matches Ok(v) ==> v.m().id == 0x6dff_800du32 && v.m().size <= 0x2000_0000 && (digests.m().ok() ==> v.m().ok()), //@C02 C13
        r is Ok ==> key_fits(self.config.algorithm, self.config.private_key), //@C13
%%hint start
broadcast use {lemma_e_signed_st, sign_facts};
%%fn SourceStampSigner::sign_with_digests
    requires self.config.fits(sizes(digs(digest_pairs@), digest_pairs@.len() as int)) //@C01
    ensures
        r matches Ok(v) ==> stamp_by(v.m(), seal(digs(digest_pairs@)), self.config.certificate@, self.config.timestamp_enabled, self.config.algorithm, self.config.private_key.pubder()), //@C13
%%hint start
broadcast use sign_facts;
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == digs($g.take($i as int)) //@C13
    decreases $s@.len()
%%hint loopend 0
assert(ms($acc@) =~= digs($g.take($i as int)));
%%hint afterloop 0
assert($g.take($i as int) =~= $g);
%%fn SourceStampSignerBuilder::new
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.timestamp_enabled //@C13
%%fn SourceStampSignerBuilder::timestamp_enabled
    ensures r == (SourceStampSignerBuilder { timestamp_enabled: enabled, ..self }) //@C13
%%fn SourceStampSignerBuilder::build
    ensures r.config.private_key == self.private_key && r.config.certificate == self.certificate && r.config.algorithm == self.algorithm && r.config.timestamp_enabled == self.timestamp_enabled //@C13
%%spec
pub use crate::signing_block::algorithms::key_fits;
impl SourceStampSignerConfig { pub open spec fn fits(&self, n: int) -> bool { self.certificate@.len() + 4 + n <= 0x1000_0000 } }
impl HasM for SignedData { type M = SdStM; open spec fn m(&self) -> SdStM { SdStM { digests: self.digests.m(), certs: self.certificates.m(), attrs: self.additional_attributes.m() } } }
impl HasM for StampBlock { type M = StBlockM; open spec fn m(&self) -> StBlockM { StBlockM { size: self.size, sd: self.signed_data.m(), sigs: self.signatures.m(), key: self.public_key.m() } } }
impl HasM for SourceStamp { type M = StampM; open spec fn m(&self) -> StampM { StampM { size: self.size, id: self.id, block: self.stamp_block.m() } } }
%%file src/signing_block/elf_section_info.rs signing_block::elf_section_info
%%fn SectionEntry::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        SecM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn SectionEntry::to_u8;ElfSectionInfo::to_u8
    ensures r@ == self.m().e() //@C02
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn SectionEntry::new
    ensures r.m() == (SecM { name_len: name@.len() as u16, name: name@, off: file_offset, size: size }) //@C02 C03
%%fn SectionEntry::byte_size
    requires 18 + self.name@.len() <= usize::MAX
    ensures r == 18 + self.name@.len() //@C02 C03
%%fn ElfSectionInfo::to_u8
%%loop 0
    invariant $i <= self.sections@.len(), $acc@ == encs(self.m().secs, $i as int) //@C02
    decreases self.sections@.len() - $i
%%fn ElfSectionInfo::from_tuples
    requires 8 + sec_bytes(tupled(entries@), entries@.len() as int) <= usize::MAX
    ensures r.m() == (ElfM { size: (8 + sec_bytes(tupled(entries@), entries@.len() as int)) as usize, id: 0x4c45_534bu32, count: entries@.len() as u32, secs: tupled(entries@) }) //@C02 C03
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == tupled($g).take($i as int) //@C02
    decreases $s@.len()
%%hint loopend 0
assert(ms($acc@) =~= tupled($g).take($i as int));
%%hint afterloop 0
assert(tupled($g).take($i as int) =~= tupled($g));
%%fn ElfSectionInfo::new
    requires 8 + sec_bytes(ms(sections@), sections@.len() as int) <= usize::MAX
    ensures r.m() == (ElfM { size: (8 + sec_bytes(ms(sections@), sections@.len() as int)) as usize, id: 0x4c45_534bu32, count: sections@.len() as u32, secs: ms(sections@) }) //@C02 C03
%%hint start
proof { lemma_sec_mono(ms(sections@), sections@.len() as int); }
%%loop 0
    invariant $i <= sections@.len(), $acc == sec_bytes(ms(sections@), $i as int), sec_bytes(ms(sections@), sections@.len() as int) <= usize::MAX
    decreases sections@.len() - $i
%%hint loopstart 0
assert(sec_bytes(ms(sections@), $i + 1) <= sec_bytes(ms(sections@), sections@.len() as int));
%%fn ElfSectionInfo::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        ValM::p_val(size, 0x4c45_534bu32, old(data).rem()) matches Some(ValM::Elf(m)) ==> r matches Ok(v) && v.m() == (ElfM { id, ..m }), //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%bodysub Vec::with_capacity( => vx_reserve(data.len(), 
%%hint beforeloop 0
let ghost vx_d0 = data.data@;
let ghost vx_p0 = p_count(ms($acc@), data.rem(), $s as int);
%%loop 0
    invariant
        data.wf(), //@C01
        data.data@ == vx_d0, //@C01
        $i <= $s,
        vx_p0 is Some ==> p_count(ms($acc@), data.rem(), $s - $i) == vx_p0, //@C02
    decreases data.rem().len()
%%spec
pub open spec fn tupled(t: Seq<(&VStr, u64, u64)>) -> Seq<SecM> { Seq::new(t.len(), |i: int| SecM { name_len: t[i].0@.len() as u16, name: t[i].0@, off: t[i].1, size: t[i].2 }) }
impl HasM for SectionEntry { type M = SecM; open spec fn m(&self) -> SecM { SecM { name_len: self.name_len, name: self.name@, off: self.file_offset, size: self.size } } }
impl HasM for ElfSectionInfo { type M = ElfM; open spec fn m(&self) -> ElfM { ElfM { size: self.size, id: self.id, count: self.section_count, secs: ms(self.sections@) } } }
