%%file src/signable.rs signable
%%nouse
%%broadcast crate::shim::io_facts lemma_sub_full lemma_last_eocd
%%header
use crate::shim::fs::File; use crate::shim::io::{Read, Seek, SeekFrom, Write}; use crate::shim::path::Path; use crate::shim::goblin;
use crate::file_formats::module::zip::find_eocd; use crate::file_formats::module::Module; use crate::signing_block::algorithms::Algorithms; use crate::signing_block::SigningBlock;
use crate::file_formats::elf::{ElfError, ElfFile};
%%trait From
%%inherent Signable
%%skipitem Signable
%%fn <SignableError as From<std::io::Error>>::from
    ensures r == SignableError::Io(err)
%%fn <SignableError as From<ElfError>>::from
    ensures r == SignableError::Elf(err)
%%fn SignableFile::format
    ensures r == (match self { SignableFile::Module(_) => FileFormat::Module, SignableFile::Elf(_) => FileFormat::Elf }) //@C09
%%fn SignableFile::open
    ensures r matches Ok(f) ==> f.wf() && f.opened(*path), //@C05 C09
%%fn SignableFile::set_elf_sections
    ensures
        *old(self) is Module ==> r is Err, //@C09
        r is Err ==> *final(self) == *old(self), //@C09
        *old(self) matches SignableFile::Elf(e) ==> (*final(self) matches SignableFile::Elf(g) && g.c() == e.c() && (r is Ok ==> g.names() == picked(strs(sections@), sections@.len() as int))), //@C09
        *old(self) is Elf ==> (r is Err <==> !may_sign(picked(strs(sections@), sections@.len() as int))), //@C09
%%fn SignableFile::digest_regions
    requires self.wf() //@C01
    ensures
        self matches SignableFile::Module(m) ==> (r matches Ok(v) ==> m.regions(v@)), //@C06 C16
        self matches SignableFile::Elf(e) ==> (r matches Ok(v) ==> exists|s: Seq<(String, u64, u64)>| #[trigger] e.resolves(s) && regions(v@, s)), //@C09
%%fn SignableFile::digest
    requires self.wf() //@C01
    ensures
        self matches SignableFile::Module(m) ==> (r matches Ok(d) ==> d@ == m.dig(*algo)), //@C06
        self matches SignableFile::Elf(e) ==> (r matches Ok(d) ==> exists|s: Seq<(String, u64, u64)>| #[trigger] e.resolves(s) && d@ == elf_digest(*algo, e.c(), s)), //@C10
%%fn SignableFile::signing_block
    requires self.wf() //@C01
    ensures
        self matches SignableFile::Module(m) ==> m.finds_block(r), //@C16
        self matches SignableFile::Elf(e) ==> e.finds_block(r), //@C08
%%fn SignableFile::write_with_signature
    requires self.wf() //@C01
    ensures
        self matches SignableFile::Module(m) ==> (r is Ok ==> m.writes(old(writer).out(), signing_block.e(), final(writer).out())), //@C07
        self matches SignableFile::Elf(e) ==> (r is Ok ==> exists|o: Seq<u8>| final(writer).out() == old(writer).out() + o && #[trigger] placed(e.c(), signing_block.e(), o)), //@C08
%%fn detect_file_format
    ensures r matches Ok(f) ==> looks(*path, f), //@C05 C09
%%hint start
broadcast use {lemma_take_sub, lemma_sub_full, lemma_sub_sub, lemma_last_eocd, lemma_eocd_last};
%%fn maybe_missing_signature
    ensures r == (has0(*err) || has1(*err)) //@C16
%%fn <Module as Signable>::format
    ensures r == FileFormat::Module
%%fn <Module as Signable>::open
    ensures r matches Ok(m) ==> m.wf() && m.path == *path && !m.raw && m.sig is None, //@C07
%%fn <Module as Signable>::digest_regions
    requires self.wf() //@C01
    ensures r matches Ok(v) ==> self.regions(v@), //@C06 C16
%%fn <Module as Signable>::digest
    requires self.wf() //@C01
    ensures r matches Ok(d) ==> d@ == self.dig(*algo), //@C06
%%fn <Module as Signable>::get_signing_block
    requires self.wf() //@C01
    ensures self.finds_block(r) //@C16
%%fn <Module as Signable>::write_with_signature
    requires self.wf() //@C01
    ensures r is Ok ==> self.writes(old(writer).out(), signing_block.e(), final(writer).out()), //@C07 C16
%%attr
#[verifier::spinoff_prover]
%%hint start
hide(is_eocd); hide(eocd_at); hide(EocdM::e); hide(blk_frame); hide(SigningBlock::e); hide(eocd_len); hide(un8); hide(eocd_with); hide(without_block);
broadcast use {lemma_eocd_patch, lemma_eocd_room, lemma_take_sub, lemma_out5, lemma_sub_full, lemma_last_eocd, lemma_eocd_last};
%%fn <ElfFile as Signable>::format
    ensures r == FileFormat::Elf
%%fn <ElfFile as Signable>::open
    ensures r matches Ok(f) ==> f.path == *path && f.c() == crate::shim::fs::bytes_at(*path) && elf_ok(f.c()) && f.names().len() == 2 && f.names()[0] == seq![46u8, 116, 101, 120, 116] && f.names()[1] == seq![46u8, 114, 111, 100, 97, 116, 97], //@C09
%%fn <ElfFile as Signable>::digest_regions
    ensures r matches Ok(v) ==> exists|s: Seq<(String, u64, u64)>| #[trigger] self.resolves(s) && regions(v@, s), //@C09
%%fn <ElfFile as Signable>::digest
    ensures r matches Ok(d) ==> exists|s: Seq<(String, u64, u64)>| #[trigger] self.resolves(s) && d@ == elf_digest(*algo, self.c(), s), //@C10
%%fn <ElfFile as Signable>::get_signing_block
    ensures self.finds_block(r) //@C08
%%fn <ElfFile as Signable>::write_with_signature
    ensures r is Ok ==> exists|o: Seq<u8>| final(writer).out() == old(writer).out() + o && #[trigger] placed(self.c(), signing_block.e(), o), //@C08
%%fn <Module as Signable>::verify
    ensures r is Err //@C11 C12
%%fn <ElfFile as Signable>::verify
    ensures r is Err //@C11 C12
%%spec
use crate::vrf::VerifyResult;
use crate::file_formats::elf::{placed, picked, strs, may_sign, regions, elf_ok, sec, sign_name, shdrs_of};
use crate::signing_block::*;
use crate::shim::fs::bytes_at;
pub open spec fn looks(p: Path, f: FileFormat) -> bool {
    match f {
        FileFormat::Elf => bytes_at(p).len() >= 4 && bytes_at(p).take(4) == seq![0x7fu8, 0x45, 0x4c, 0x46],
        FileFormat::Module => bytes_at(p).len() >= 4 && (bytes_at(p).take(2) == seq![0x50u8, 0x4b] || is_last_eocd(bytes_at(p), last_eocd(bytes_at(p)))),
    }
}
impl SignableFile {
    pub open spec fn wf(&self) -> bool { self matches SignableFile::Module(m) ==> m.wf() }
    pub open spec fn opened(&self, p: Path) -> bool {
        match self {
            SignableFile::Module(m) => m.path == p && !m.raw && m.sig is None && looks(p, FileFormat::Module),
            SignableFile::Elf(f) => f.path == p && f.c() == bytes_at(p) && looks(p, FileFormat::Elf) && elf_ok(f.c()) && f.names().len() == 2 && f.names()[0] == seq![46u8, 116, 101, 120, 116] && f.names()[1] == seq![46u8, 114, 111, 100, 97, 116, 97],
        }
    }
}
impl Module {
    /// entries, directory, end record: what lies between them is the block and nothing else
    pub open spec fn regions(&self, v: Seq<DigestRegion>) -> bool {
        is_last_eocd(self.c(), last_eocd(self.c())) && v.len() == 3
        && v[0].offset == 0 && v[0].size == stop_at(self.c(), self.raw)
        && v[1].offset == cd_at(self.c()) && v[1].offset + v[1].size == last_eocd(self.c())
        && v[2].offset == last_eocd(self.c()) && v[2].offset + v[2].size == self.c().len()
    }
    /// C16: no block only where there is none; one that is there is found or complained about
    pub open spec fn finds_block(&self, r: Result<Option<SigningBlock>, SignableError>) -> bool {
        match r {
            Ok(Some(b)) => (self.sig matches Some(s) && b == s) || (self.sig is None && !self.raw && has_blk(self.c()) && b.decoded() && b.file_offset_end == cd_at(self.c()) && b.file_offset_start == blk_start(self.c())
                && (blk_at_end(self.c(), cd_at(self.c())) matches Some(m) ==> ms(b.content@) == m)),
            Ok(None) => self.sig is None && (self.raw || !magic_ends(self.c(), cd_at(self.c()))),
            Err(_) => self.sig is None && !self.raw,
        }
    }
    /// what the file holds apart from its block
    pub open spec fn bare(&self) -> Seq<u8> { if !self.raw && magic_ends(self.c(), cd_at(self.c())) { without_block(self.c()) } else { self.c() } }
    /// C07
    pub open spec fn writes(&self, before: Seq<u8>, k: Seq<u8>, after: Seq<u8>) -> bool {
        is_last_eocd(self.bare(), last_eocd(self.bare())) && after == before + with_block(self.bare(), true, k)
        && (!self.raw && magic_ends(self.c(), cd_at(self.c())) ==> has_blk(self.c()))
    }
}
impl ElfFile {
    pub open spec fn finds_block(&self, r: Result<Option<SigningBlock>, SignableError>) -> bool {
        match r {
            Ok(Some(k)) => self.has_block() && k.decoded() && (p_blk(self.blk_bytes()) matches Some(m) ==> ms(k.content@) == m),
            Ok(None) => elf_ok(self.c()) && (sec(self.c(), sign_name()) is None || shdrs_of(self.c())[sec(self.c(), sign_name())->0].sh_size == 0),
            Err(_) => !(self.has_block() && p_blk(self.blk_bytes()) is Some) && !(elf_ok(self.c()) && sec(self.c(), sign_name()) is None),
        }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::io::Error> for SignableError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: crate::shim::io::Error) -> Self { SignableError::Io(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ElfError> for SignableError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ElfError) -> Self { SignableError::Elf(e) } }
