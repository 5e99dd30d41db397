#!/usr/bin/env python3
# Writes 21_schemes.vc and 22_block.vc.
import importlib.util
def parse(keys, p, extra=''):
    return f'''%%fn {keys}
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        {p}(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
{extra}        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
'''
SZ='        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01\n'
def listy(n,f,m,k):
    return parse(f'{n}::parse',f'ListM::<{m}>::p_{k}',SZ)+f'''%%hint beforeloop 0
let ghost vx_d0 = $i.data@;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), $s - $i.pos);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn {n}::new
    requires sizes(ms({f}@), {f}@.len() as int) <= usize::MAX
    ensures r.m() == (ListM {{ size: sizes(ms({f}@), {f}@.len() as int) as usize, items: ms({f}@) }}) //@C02 C03 C13
%%hint start
proof {{ lemma_sizes_mono(ms({f}@), {f}@.len() as int); }}
%%loop 0
    invariant $i <= {f}@.len(), $acc == sizes(ms({f}@), $i as int), sizes(ms({f}@), {f}@.len() as int) <= usize::MAX
    decreases {f}@.len() - $i
%%hint loopstart 0
assert(sizes(ms({f}@), $i + 1) <= sizes(ms({f}@), {f}@.len() as int));
%%fn {n}::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%hint start
hide(<{m} as Cod>::e);
%%loop 0
    invariant $i <= self.{f}@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.{f}@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
'''
TOU8='''    ensures r@ == self.m().e() //@C02 C13
%%hint tail
assert(vx_ret@ =~= self.m().e());
'''
o='''%%file src/signing_block/scheme_v2.rs signing_block::scheme_v2
'''
o+=listy('Signers','signers_data','SignerM','in')
o+=parse('Signer::parse','SignerM::p',SZ)+parse('SignedData::parse','Sd2M::p',SZ)
o+='%%fn Signer::to_u8;SignedData::to_u8;SignatureSchemeV2::to_u8\n'+TOU8
o+='''%%fn Signer::new
    requires 12 + signed_data.size + signatures.size + pub_key.size <= usize::MAX
    ensures r.m() == (SignerM { size: (12 + signed_data.size + signatures.size + pub_key.size) as usize, sd: signed_data.m(), sigs: signatures.m(), key: pub_key.m() }) //@C02 C03 C13
%%fn SignedData::new
    requires 16 + digests.size + certificates.size + additional_attributes.size <= usize::MAX
    ensures r.m() == (Sd2M { size: (16 + digests.size + certificates.size + additional_attributes.size) as usize, digests: digests.m(), certs: certificates.m(), attrs: additional_attributes.m(), fix: true }) //@C02 C03 C13
%%fn SignatureSchemeV2::new
    requires 8 + signers.size <= usize::MAX
    ensures r.m() == (V2M { size: (8 + signers.size) as usize, id: 0x7109871au32, signers: signers.m() }) //@C02 C03 C13
%%fn SignatureSchemeV2::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        ListM::<SignerM>::p_in(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == (V2M { size, id, signers: m }) && final(data).rem() == t, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%spec
impl HasM for Signers { type M = ListM<SignerM>; open spec fn m(&self) -> ListM<SignerM> { ListM { size: self.size, items: ms(self.signers_data@) } } }
impl HasM for Signer { type M = SignerM; open spec fn m(&self) -> SignerM { SignerM { size: self.size, sd: self.signed_data.m(), sigs: self.signatures.m(), key: self.pub_key.m() } } }
impl HasM for SignedData { type M = Sd2M; open spec fn m(&self) -> Sd2M { Sd2M { size: self.size, digests: self.digests.m(), certs: self.certificates.m(), attrs: self.additional_attributes.m(), fix: self._private_auto_padding_fix } } }
impl HasM for SignatureSchemeV2 { type M = V2M; open spec fn m(&self) -> V2M { V2M { size: self.size, id: self.id, signers: self.signers.m() } } }
'''
o+='''%%file src/signing_block/source_stamp.rs signing_block::source_stamp
'''
o+=parse('StampBlock::parse','StBlockM::p',SZ)+parse('SignedData::parse','SdStM::p')
o+='%%fn StampBlock::to_u8;SignedData::to_u8;SourceStamp::to_u8\n'+TOU8
o+='''%%fn StampBlock::new
    requires signed_data.m().sz() + 12 + signatures.size + public_key.size <= usize::MAX
    ensures r.m() == (StBlockM { size: (12 + signed_data.m().sz() + signatures.size + public_key.size) as usize, sd: signed_data.m(), sigs: signatures.m(), key: public_key.m() }) //@C02 C03 C13
%%fn SignedData::new
    ensures r.m() == (SdStM { digests: digests.m(), certs: certificates.m(), attrs: additional_attributes.m() }) //@C02 C13
%%fn SignedData::size
    requires self.m().sz() <= usize::MAX
    ensures r == self.m().sz() //@C02 C03
%%fn SourceStamp::new
    requires 8 + stamp_block.size <= usize::MAX
    ensures r.m() == (StampM { size: (8 + stamp_block.size) as usize, id: 0x6dff_800du32, block: stamp_block.m() }) //@C02 C03 C13
%%fn SourceStamp::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        StBlockM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == (StampM { size, id, block: m }) && final(data).rem() == t, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn SourceStampSignerConfig::new
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.timestamp_enabled == timestamp_enabled //@C13
%%fn SourceStampSigner::new
    ensures r.config == config //@C13
%%fn SourceStampSigner::sign
    requires self.config.fits(digests.size as int) //@C01
    ensures
        r matches Ok(v) ==> stamp_by(v.m(), digests.m(), self.config.certificate@, self.config.timestamp_enabled, self.config.algorithm, self.config.private_key.pubder()), //@C13
        r matches Ok(v) ==> v.m().id == 0x6dff_800du32 && v.m().size <= 0x2000_0000 && (digests.m().ok() ==> v.m().ok()), //@C02 C13
        r is Ok ==> key_fits(self.config.algorithm, self.config.private_key), //@C13
%%hint start
broadcast use {lemma_e_signed_st, sign_facts};
%%fn SourceStampSigner::sign_with_digests
    requires self.config.fits(sizes(digs(digest_pairs@), digest_pairs@.len() as int)) //@C01
    ensures
        r matches Ok(v) ==> stamp_by(v.m(), seal(digs(digest_pairs@)), self.config.certificate@, self.config.timestamp_enabled, self.config.algorithm, self.config.private_key.pubder()), //@C13
%%hint start
broadcast use sign_facts;
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == digs($g.take($i as int)) //@C13
    decreases $s@.len()
%%hint loopend 0
assert(ms($acc@) =~= digs($g.take($i as int)));
%%hint afterloop 0
assert($g.take($i as int) =~= $g);
%%fn SourceStampSignerBuilder::new
    ensures r.private_key == private_key && r.certificate == certificate && r.algorithm == algorithm && r.timestamp_enabled //@C13
%%fn SourceStampSignerBuilder::timestamp_enabled
    ensures r == (SourceStampSignerBuilder { timestamp_enabled: enabled, ..self }) //@C13
%%fn SourceStampSignerBuilder::build
    ensures r.config.private_key == self.private_key && r.config.certificate == self.certificate && r.config.algorithm == self.algorithm && r.config.timestamp_enabled == self.timestamp_enabled //@C13
%%spec
pub use crate::signing_block::algorithms::key_fits;
impl SourceStampSignerConfig { pub open spec fn fits(&self, n: int) -> bool { self.certificate@.len() + 4 + n <= 0x1000_0000 } }
impl HasM for SignedData { type M = SdStM; open spec fn m(&self) -> SdStM { SdStM { digests: self.digests.m(), certs: self.certificates.m(), attrs: self.additional_attributes.m() } } }
impl HasM for StampBlock { type M = StBlockM; open spec fn m(&self) -> StBlockM { StBlockM { size: self.size, sd: self.signed_data.m(), sigs: self.signatures.m(), key: self.public_key.m() } } }
impl HasM for SourceStamp { type M = StampM; open spec fn m(&self) -> StampM { StampM { size: self.size, id: self.id, block: self.stamp_block.m() } } }
%%file src/signing_block/elf_section_info.rs signing_block::elf_section_info
'''
o+=parse('SectionEntry::parse','SecM::p')
o+='%%fn SectionEntry::to_u8;ElfSectionInfo::to_u8\n'+TOU8.replace('r@ == self.m().e() //@C02 C13','r@ == self.m().e() //@C02')
o+='''%%fn SectionEntry::new
    ensures r.m() == (SecM { name_len: name@.len() as u16, name: name@, off: file_offset, size: size }) //@C02 C03
%%fn SectionEntry::byte_size
    requires 18 + self.name@.len() <= usize::MAX
    ensures r == 18 + self.name@.len() //@C02 C03
%%fn ElfSectionInfo::to_u8
%%loop 0
    invariant $i <= self.sections@.len(), $acc@ == encs(self.m().secs, $i as int) //@C02
    decreases self.sections@.len() - $i
%%fn ElfSectionInfo::from_tuples
    requires 8 + sec_bytes(tupled(entries@), entries@.len() as int) <= usize::MAX
    ensures r.m() == (ElfM { size: (8 + sec_bytes(tupled(entries@), entries@.len() as int)) as usize, id: 0x4c45_534bu32, count: entries@.len() as u32, secs: tupled(entries@) }) //@C02 C03
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), ms($acc@) == tupled($g).take($i as int) //@C02
    decreases $s@.len()
%%hint loopend 0
assert(ms($acc@) =~= tupled($g).take($i as int));
%%hint afterloop 0
assert(tupled($g).take($i as int) =~= tupled($g));
%%fn ElfSectionInfo::new
    requires 8 + sec_bytes(ms(sections@), sections@.len() as int) <= usize::MAX
    ensures r.m() == (ElfM { size: (8 + sec_bytes(ms(sections@), sections@.len() as int)) as usize, id: 0x4c45_534bu32, count: sections@.len() as u32, secs: ms(sections@) }) //@C02 C03
%%hint start
proof { lemma_sec_mono(ms(sections@), sections@.len() as int); }
%%loop 0
    invariant $i <= sections@.len(), $acc == sec_bytes(ms(sections@), $i as int), sec_bytes(ms(sections@), sections@.len() as int) <= usize::MAX
    decreases sections@.len() - $i
%%hint loopstart 0
assert(sec_bytes(ms(sections@), $i + 1) <= sec_bytes(ms(sections@), sections@.len() as int));
%%fn ElfSectionInfo::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        ValM::p_val(size, 0x4c45_534bu32, old(data).rem()) matches Some(ValM::Elf(m)) ==> r matches Ok(v) && v.m() == (ElfM { id, ..m }), //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%bodysub Vec::with_capacity( => vx_reserve(data.len(), 
%%hint beforeloop 0
let ghost vx_d0 = data.data@;
let ghost vx_p0 = p_count(ms($acc@), data.rem(), $s as int);
%%loop 0
    invariant
        data.wf(), //@C01
        data.data@ == vx_d0, //@C01
        $i <= $s,
        vx_p0 is Some ==> p_count(ms($acc@), data.rem(), $s - $i) == vx_p0, //@C02
    decreases data.rem().len()
%%spec
pub open spec fn tupled(t: Seq<(&VStr, u64, u64)>) -> Seq<SecM> { Seq::new(t.len(), |i: int| SecM { name_len: t[i].0@.len() as u16, name: t[i].0@, off: t[i].1, size: t[i].2 }) }
impl HasM for SectionEntry { type M = SecM; open spec fn m(&self) -> SecM { SecM { name_len: self.name_len, name: self.name@, off: self.file_offset, size: self.size } } }
impl HasM for ElfSectionInfo { type M = ElfM; open spec fn m(&self) -> ElfM { ElfM { size: self.size, id: self.id, count: self.section_count, secs: ms(self.sections@) } } }
'''
open('21_schemes.vc','w').write(o)
o='''%%crate
%%file src/signing_block/mod.rs signing_block
%%broadcast crate::shim::io_facts lemma_sub_full lemma_sub_sub
%%fn RawData::new
    ensures r.m() == (RawM { size: (4 + data@.len()) as usize, id, data: data@ }) //@C02 C03
%%fn RawData::to_u8
    ensures r@ == self.m().e() //@C02 C03
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn ValueSigningBlock::new_v2
    requires 8 + signers.size <= usize::MAX
    ensures r.m() == ValM::V2(V2M { size: (8 + signers.size) as usize, id: 0x7109871au32, signers: signers.m() }) //@C02 C13
%%fn ValueSigningBlock::new_source_stamp
    requires 8 + stamp_block.size <= usize::MAX
    ensures r.m() == ValM::Stamp(StampM { size: (8 + stamp_block.size) as usize, id: 0x6dff_800du32, block: stamp_block.m() }) //@C02 C13
%%fn ValueSigningBlock::id
    ensures r == self.m().id() //@C02 C03
%%fn ValueSigningBlock::inner_size
    ensures r == self.m().sz() //@C02 C03
%%fn ValueSigningBlock::size
    requires self.m().sz() + 8 <= usize::MAX
    ensures r == self.m().sz() + 8 //@C02 C03
%%fn ValueSigningBlock::to_u8
    ensures r@ == self.m().e() //@C02
'''
o+=parse('ValueSigningBlock::parse','ValM::p')
o+='''%%hint start
hide(ListM::p_in); hide(p_count); hide(<StBlockM as Cod>::p); reveal(p_valm);
'''
o+='''%%fn SigningBlock::extract_values
    requires old(data).wf(), old(data).pos == 0 //@C01
    ensures p_list(Seq::<ValM>::empty(), old(data).rem(), old(data).rem().len() as int) matches Some((m, _)) ==> r matches Ok(v) && ms(v@) == m, //@C02
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint beforeloop 0
let ghost vx_d0 = $i.data@;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), $s - $i.pos);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn SigningBlock::content_to_u8
    ensures r@ == encs(ms(self.content@), self.content@.len() as int) //@C02 C03
%%loop 0
    invariant $i <= self.content@.len(), $acc@ == encs(ms(self.content@), $i as int) //@C02
    decreases self.content@.len() - $i
%%fn SigningBlock::to_u8
    ensures r@ == self.e() //@C02 C03
%%hint tail
assert(vx_ret@ =~= self.e());
%%fn SigningBlock::get_full_size
    requires self.size_of_block_start + 8 <= usize::MAX
    ensures r == self.size_of_block_start + 8 //@C03 C07
%%fn SigningBlock::offset_by
    requires old(self).file_offset_start + offset <= usize::MAX, old(self).file_offset_end + offset <= usize::MAX
    ensures *final(self) == (SigningBlock { file_offset_start: (old(self).file_offset_start + offset) as usize, file_offset_end: (old(self).file_offset_end + offset) as usize, ..*old(self) }) //@C07
%%fn SigningBlock::new
    requires vsizes(ms(content@), content@.len() as int) <= 0x3fff_ffff_ffff_ffff
    ensures match r {
        Ok(b) => b.built() && ms(b.content@) == ms(content@) && padded(ms(b.content@), ms(content@)), //@C02 C03
        Err(_) => vsizes(ms(content@), content@.len() as int) + 24 > 16384, //@C03
    },
    r matches Ok(b) ==> vsizes(ms(content@), content@.len() as int) + 24 <= 16384, //@C03
%%hint start
proof { lemma_vsizes_mono(ms(content@), content@.len() as int); }
%%loop 0
    invariant $i <= content@.len(), $acc == vsizes(ms(content@), $i as int), vsizes(ms(content@), content@.len() as int) <= 0x3fff_ffff_ffff_ffff
    decreases content@.len() - $i
%%hint loopstart 0
assert(vsizes(ms(content@), $i + 1) <= vsizes(ms(content@), content@.len() as int));
%%fn SigningBlock::new_with_padding
    requires vsizes(ms(content@), content@.len() as int) <= 0x3fff_ffff_ffff_ffff
    ensures r matches Ok(b) ==> b.built(), //@C03
        r matches Ok(b) ==> (b.total() + 32) % 4096 == 0, //@C03
        r matches Ok(b) ==> padded(ms(b.content@), ms(content@)), //@C03 C14
%%hint start
proof { lemma_vsizes_mono(ms(content@), content@.len() as int); }
%%loop 0
    invariant $i <= content@.len()
    decreases content@.len() - $i
%%loop 1
    invariant $i <= content@.len(), $acc == vsizes(ms(content@), $i as int), vsizes(ms(content@), content@.len() as int) <= 0x3fff_ffff_ffff_ffff
    decreases content@.len() - $i
%%hint loopstart 1
assert(vsizes(ms(content@), $i + 1) <= vsizes(ms(content@), content@.len() as int));
%%hint beforeloop 2
let ghost vx_n = $s@.len() as int;
proof { lemma_vsizes_mono(ms($s@), vx_n); lemma_pad_content(content@, $s@);
    assert($s@.take(content@.len() as int) =~= content@);
    if $s@.len() == content@.len() { assert($s@ =~= content@); } else { assert($s@ =~= content@.push($s@.last())); assert(ms($s@) == ms(content@).push(pad_entry($s@.last().m().sz() - 4))); } }
%%loop 2
    invariant $i <= $s@.len(), $acc == vsizes(ms($s@), $i as int), vsizes(ms($s@), $s@.len() as int) <= 0x4fff_ffff_ffff_ffff
    decreases $s@.len() - $i
%%hint loopstart 2
assert(vsizes(ms($s@), $i + 1) <= vsizes(ms($s@), $s@.len() as int));
%%fn SigningBlock::parse_full_block
    requires data@.len() >= 24 ==> un8(data@.subrange(data@.len() - 24, data@.len() - 16)) <= 16384 //@C01
    ensures
        r matches Ok(b) ==> blk_frame(data@) && b.decoded() && b.size_of_block_start == data@.len() - 8 && b.file_offset_start == 0 && b.file_offset_end == data@.len(), //@C03
        blk_magic(data@) || data@.len() < 32 ==> (r matches Err(e) ==> !has0(e) && !has1(e)), //@C16
        p_blk(data@) matches Some(m) ==> r matches Ok(b) && ms(b.content@) == m, //@C02
%%fn SigningBlock::from_u8
    ensures
        r matches Ok(b) ==> b.decoded() && exists|k: int, e: int| 0 <= k && k + b.size_of_block_start + 8 == e && e <= data@.len() && #[trigger] blk_frame(data@.subrange(k, e)), //@C03
        p_blk(data@) matches Some(m) ==> r matches Ok(b) && ms(b.content@) == m, //@C02
%%hint start
hide(p_list); hide(un8);
%%loop 0
    invariant 16 <= $i, $i <= $s, $s == data@.len(), data@.len() >= 32, $i > 16 ==> !blk_frame(data@) //@C02
    decreases $s - $i
%%fn SigningBlock::from_reader
    ensures
        r matches Ok(b) ==> b.decoded() && b.file_offset_end == b.file_offset_start + b.size_of_block_start + 8 && b.file_offset_end <= file_len - end_offset
            && b.file_offset_end <= reader.content().len() && blk_frame(reader.content().subrange(b.file_offset_start as int, b.file_offset_end as int)), //@C03 C16
        r matches Err(e) ==> !has1(e), //@C16
        magic_ends(reader.content(), file_len - end_offset) ==> match r { Ok(b) => b.file_offset_end == file_len - end_offset, Err(e) => !has0(e) && !has1(e) }, //@C16
        blk_at_end(reader.content(), file_len - end_offset) matches Some(m) ==> match r { Ok(b) => ms(b.content@) == m, Err(_) => !reader.calm() }, //@C02
%%hint start
hide(p_list); hide(un8);
let ghost vx_c = reader.content(); let ghost vx_q = reader.calm();
%%loop 0
    invariant reader.content() == vx_c, reader.calm() == vx_q, 0 <= $i <= $s, //@C01
        magic_ends(vx_c, file_len - end_offset) ==> $i == $s && $g, //@C16
    decreases (if $g { $i + 1 } else { 0 })
%%fn SigningBlock::recalculate_size
    requires vsizes(ms(old(self).content@), old(self).content@.len() as int) <= 0x3fff_ffff_ffff_ffff, old(self).file_offset_start <= 0x3fff_ffff_ffff_ffff
    ensures
        final(self).content@ == old(self).content@, final(self).magic == old(self).magic, final(self).file_offset_start == old(self).file_offset_start, //@C14 C03
        final(self).sizes_ok(), //@C14 C03
%%hint start
proof { lemma_vsizes_mono(ms(self.content@), self.content@.len() as int); }
%%loop 0
    invariant $i <= self.content@.len(), $acc == vsizes(ms(self.content@), $i as int), vsizes(ms(self.content@), self.content@.len() as int) <= 0x3fff_ffff_ffff_ffff
    decreases self.content@.len() - $i
%%hint loopstart 0
assert(vsizes(ms(self.content@), $i + 1) <= vsizes(ms(self.content@), self.content@.len() as int));
%%spec
impl HasM for RawData { type M = RawM; open spec fn m(&self) -> RawM { RawM { size: self.size, id: self.id, data: self.data@ } } }
impl HasM for ValueSigningBlock { type M = ValM; open spec fn m(&self) -> ValM {
    match self {
        ValueSigningBlock::BaseSigningBlock(x) => ValM::Base(x.m()),
        ValueSigningBlock::SignatureSchemeV2Block(x) => ValM::V2(x.m()),
        ValueSigningBlock::SourceStampBlock(x) => ValM::Stamp(x.m()),
        ValueSigningBlock::ElfSectionInfoBlock(x) => ValM::Elf(x.m()),
    } } }
impl SigningBlock {
    pub open spec fn e(&self) -> Seq<u8> {
        le8(self.size_of_block_start as u64) + (encs(ms(self.content@), self.content@.len() as int) + (le8(self.size_of_block_end as u64) + self.magic@))
    }
    pub open spec fn total(&self) -> int { vsizes(ms(self.content@), self.content@.len() as int) }
    /// the size fields say what the entries declare
    pub open spec fn sizes_ok(&self) -> bool {
        self.content_size == self.total() && self.size_of_block_start == self.total() + 24 && self.size_of_block_end == self.size_of_block_start
        && self.file_offset_end == self.file_offset_start + self.size_of_block_start + 8
    }
    /// a block as the decoder leaves it
    pub open spec fn decoded(&self) -> bool {
        self.size_of_block_start == self.size_of_block_end && 24 <= self.size_of_block_start && self.size_of_block_start <= 16384 && self.content_size == self.size_of_block_start - 24 && self.magic@ == magic_seq()
    }
    /// a block as the constructors leave it
    pub open spec fn built(&self) -> bool {
        self.sizes_ok() && self.file_offset_start == 0 && self.magic@ == magic_seq() && self.total() + 24 <= 16384
    }
}
/// C02, C03: a block the constructors built from well-formed entries serialises to a form the decoder accepts and decodes to the same entries
pub proof fn lemma_block_round_trip(b: SigningBlock)
    requires b.built(), all_ok(ms(b.content@)),
    ensures p_blk(b.e()) == Some(ms(b.content@)), //@C02
        b.e().len() == b.size_of_block_start + 8, b.e().len() <= 16392, blk_frame(b.e()), //@C03
{
    let c = ms(b.content@);
    let n = b.size_of_block_start as u64;
    let es = encs(c, c.len() as int);
    let d = b.e();
    lemma_vals_len(c, c.len() as int);
    lemma_le8(n);
    assert(d.subrange(0, 8) =~= le8(n));
    assert(d.subrange(8, d.len() - 24) =~= es);
    assert(d.subrange(d.len() - 24, d.len() - 16) =~= le8(n));
    assert(d.subrange(d.len() - 16, d.len() as int) =~= magic_seq());
    lemma_list(Seq::<ValM>::empty(), c, Seq::<u8>::empty());
    lemma_empty_r(es); lemma_empty_l(c);
}
'''
open('22_block.vc','w').write(o)
