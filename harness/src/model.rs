//! Reference model of the signing block, written from the format, not from the code.
use ksusig::common::*;
use ksusig::signing_block::algorithms::Algorithms;
use ksusig::signing_block::elf_section_info::{ElfSectionInfo, SectionEntry};
use ksusig::signing_block::{scheme_v2, source_stamp};
use ksusig::{RawData, SigningBlock, ValueSigningBlock};

pub const MAGIC: &[u8; 16] = b"KSU Sig Block 42";
pub const V2_ID: u32 = 0x7109_871a;
pub const STAMP_ID: u32 = 0x6dff_800d;
pub const ELF_ID: u32 = 0x4c45_534b;
pub const PAD_ID: u32 = 0x4272_6577;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SD {
    pub digests: Vec<(u32, Vec<u8>)>,
    pub certs: Vec<Vec<u8>>,
    pub attrs: Vec<(u32, Vec<u8>)>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sgn {
    pub sd: SD,
    pub sigs: Vec<(u32, Vec<u8>)>,
    pub pk: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    V2(Vec<Sgn>),
    Stamp(Sgn),
    Elf(Vec<(String, u64, u64)>),
    Raw(u32, Vec<u8>),
}

pub fn l32(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u32).to_le_bytes()[..], b].concat()
}
fn pairs(v: &[(u32, Vec<u8>)], inner_len: bool) -> Vec<u8> {
    let mut o = vec![];
    for (id, d) in v {
        let body = if inner_len { l32(d) } else { d.clone() };
        o.extend(l32(&[&id.to_le_bytes()[..], &body].concat()));
    }
    l32(&o)
}
/// signed data of a v2 signer without its length prefix (four zero bytes close it)
pub fn v2_signed(sd: &SD) -> Vec<u8> {
    [stamp_signed(sd), vec![0; 4]].concat()
}
pub fn stamp_signed(sd: &SD) -> Vec<u8> {
    let certs: Vec<u8> = sd.certs.iter().flat_map(|c| l32(c)).collect();
    [pairs(&sd.digests, true), l32(&certs), pairs(&sd.attrs, false)].concat()
}
fn sgn(s: &Sgn, v2: bool) -> Vec<u8> {
    let sd = if v2 { v2_signed(&s.sd) } else { stamp_signed(&s.sd) };
    l32(&[l32(&sd), pairs(&s.sigs, true), l32(&s.pk)].concat())
}
pub fn enc_value(e: &Ent) -> (u32, Vec<u8>) {
    match e {
        Ent::V2(v) => (V2_ID, l32(&v.iter().flat_map(|s| sgn(s, true)).collect::<Vec<u8>>())),
        Ent::Stamp(s) => (STAMP_ID, sgn(s, false)),
        Ent::Elf(v) => {
            let mut o = (v.len() as u32).to_le_bytes().to_vec();
            for (n, a, b) in v {
                o.extend((n.len() as u16).to_le_bytes());
                o.extend(n.as_bytes());
                o.extend(a.to_le_bytes());
                o.extend(b.to_le_bytes());
            }
            (ELF_ID, o)
        }
        Ent::Raw(id, d) => (*id, d.clone()),
    }
}
pub fn enc_ent(e: &Ent) -> Vec<u8> {
    let (id, v) = enc_value(e);
    [&(v.len() as u64 + 4).to_le_bytes()[..], &id.to_le_bytes(), &v].concat()
}
pub fn enc_content(v: &[Ent]) -> Vec<u8> {
    v.iter().flat_map(enc_ent).collect()
}
pub fn frame(content: &[u8]) -> Vec<u8> {
    let size = (content.len() as u64 + 24).to_le_bytes();
    [&size[..], content, &size, MAGIC].concat()
}
pub fn enc_block(v: &[Ent]) -> Vec<u8> {
    frame(&enc_content(v))
}

// ---- through the library's own constructors ----
pub fn alg(a: u32) -> Algorithms {
    match a {
        0x0201 => Algorithms::ECDSA_SHA2_256,
        0x0202 => Algorithms::ECDSA_SHA2_512,
        x => Algorithms::Unknown(x),
    }
}
pub fn alg_id(a: &Algorithms) -> u32 {
    match a {
        Algorithms::ECDSA_SHA2_256 => 0x0201,
        Algorithms::ECDSA_SHA2_512 => 0x0202,
        Algorithms::Unknown(x) => *x,
    }
}
pub fn lib_digests(v: &[(u32, Vec<u8>)]) -> Digests {
    Digests::new(v.iter().map(|(a, d)| Digest::new(alg(*a), d.clone())).collect())
}
pub fn lib_certs(v: &[Vec<u8>]) -> Certificates {
    Certificates::new(v.iter().map(|c| Certificate::new(c.clone())).collect())
}
pub fn lib_attrs(v: &[(u32, Vec<u8>)]) -> AdditionalAttributes {
    AdditionalAttributes::new(v.iter().map(|(id, d)| AdditionalAttribute { size: 4 + d.len(), id: *id, data: d.clone() }).collect())
}
pub fn lib_sigs(v: &[(u32, Vec<u8>)]) -> Signatures {
    Signatures::new(v.iter().map(|(a, d)| Signature::new(alg(*a), d.clone())).collect())
}
pub fn lib_v2_sd(sd: &SD) -> scheme_v2::SignedData {
    scheme_v2::SignedData::new(lib_digests(&sd.digests), lib_certs(&sd.certs), lib_attrs(&sd.attrs))
}
pub fn lib_stamp_sd(sd: &SD) -> source_stamp::SignedData {
    source_stamp::SignedData::new(lib_digests(&sd.digests), lib_certs(&sd.certs), lib_attrs(&sd.attrs))
}
pub fn lib_signer(s: &Sgn) -> scheme_v2::Signer {
    scheme_v2::Signer::new(lib_v2_sd(&s.sd), lib_sigs(&s.sigs), PubKey::new(s.pk.clone()))
}
pub fn lib_stamp(s: &Sgn) -> source_stamp::StampBlock {
    source_stamp::StampBlock::new(lib_stamp_sd(&s.sd), lib_sigs(&s.sigs), PubKey::new(s.pk.clone()))
}
pub fn lib_elf(v: &[(String, u64, u64)]) -> ElfSectionInfo {
    if v.len() % 2 == 0 {
        ElfSectionInfo::new(v.iter().map(|(n, a, b)| SectionEntry::new(n.clone(), *a, *b)).collect())
    } else {
        ElfSectionInfo::from_tuples(v.iter().map(|(n, a, b)| (n.as_str(), *a, *b)).collect())
    }
}
pub fn lib_ent(e: &Ent) -> ValueSigningBlock {
    match e {
        Ent::V2(v) => ValueSigningBlock::new_v2(scheme_v2::Signers::new(v.iter().map(lib_signer).collect())),
        Ent::Stamp(s) => ValueSigningBlock::new_source_stamp(lib_stamp(s)),
        Ent::Elf(v) => ValueSigningBlock::ElfSectionInfoBlock(lib_elf(v)),
        Ent::Raw(id, d) => ValueSigningBlock::BaseSigningBlock(RawData::new(*id, d.clone())),
    }
}
pub fn lib_content(v: &[Ent]) -> Vec<ValueSigningBlock> {
    v.iter().map(lib_ent).collect()
}

// ---- what a library value says ----
fn of_digests(d: &Digests) -> Vec<(u32, Vec<u8>)> {
    d.digests_data.iter().map(|x| (alg_id(&x.signature_algorithm_id), x.digest.clone())).collect()
}
fn of_certs(d: &Certificates) -> Vec<Vec<u8>> {
    d.certificates_data.iter().map(|x| x.certificate.clone()).collect()
}
fn of_attrs(d: &AdditionalAttributes) -> Vec<(u32, Vec<u8>)> {
    d.additional_attributes_data.iter().map(|x| (x.id, x.data.clone())).collect()
}
fn of_sigs(d: &Signatures) -> Vec<(u32, Vec<u8>)> {
    d.signatures_data.iter().map(|x| (alg_id(&x.signature_algorithm_id), x.signature.clone())).collect()
}
pub fn of_signer(s: &scheme_v2::Signer) -> Sgn {
    Sgn {
        sd: SD {
            digests: of_digests(&s.signed_data.digests),
            certs: of_certs(&s.signed_data.certificates),
            attrs: of_attrs(&s.signed_data.additional_attributes),
        },
        sigs: of_sigs(&s.signatures),
        pk: s.pub_key.data.clone(),
    }
}
pub fn of_stamp(s: &source_stamp::StampBlock) -> Sgn {
    Sgn {
        sd: SD {
            digests: of_digests(&s.signed_data.digests),
            certs: of_certs(&s.signed_data.certificates),
            attrs: of_attrs(&s.signed_data.additional_attributes),
        },
        sigs: of_sigs(&s.signatures),
        pk: s.public_key.data.clone(),
    }
}
pub fn of_ent(e: &ValueSigningBlock) -> Ent {
    match e {
        ValueSigningBlock::BaseSigningBlock(r) => Ent::Raw(r.id, r.data.clone()),
        ValueSigningBlock::SignatureSchemeV2Block(v) => Ent::V2(v.signers.signers_data.iter().map(of_signer).collect()),
        ValueSigningBlock::SourceStampBlock(s) => Ent::Stamp(of_stamp(&s.stamp_block)),
        ValueSigningBlock::ElfSectionInfoBlock(i) => {
            Ent::Elf(i.sections.iter().map(|s| (s.name.clone(), s.file_offset, s.size)).collect())
        }
    }
}
pub fn of_block(b: &SigningBlock) -> Vec<Ent> {
    b.content.iter().map(of_ent).collect()
}
