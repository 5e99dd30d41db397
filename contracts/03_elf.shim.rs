// ---------- goblin, scroll
pub mod goblin { use vstd::prelude::*; use super::*;
pub mod error { use vstd::prelude::*; use super::super::*; #[verifier::external_body] pub struct Error { _p: u8 } }
pub mod container { use vstd::prelude::*; use super::super::*;
#[derive(Clone, Copy)] pub enum Container { Little, Big }
#[derive(Clone, Copy)] pub enum Endian { Little, Big }
#[derive(Clone, Copy)] pub struct Ctx { pub container: Container, pub le: Endian }
}
/// class and byte order that a header's identification names
pub uninterp spec fn hdr_ctx(ident: [u8; 16]) -> container::Ctx;
pub mod elf { use vstd::prelude::*; use super::super::*; use super::*;
pub use header::Header;
pub use section_header::SectionHeader;
pub mod header { use vstd::prelude::*; use super::super::super::*; use super::super::*; use super::*;
    pub exec const ELFMAG: &'static [u8; 4] ensures ELFMAG@ == seq![0x7fu8, 0x45, 0x4c, 0x46] { let r = &[0x7fu8, 0x45, 0x4c, 0x46]; assert(r@ =~= seq![0x7fu8, 0x45, 0x4c, 0x46]); r }
    #[derive(Clone, Copy)] pub struct Header {
        pub e_ident: [u8; 16], pub e_type: u16, pub e_machine: u16, pub e_version: u32, pub e_entry: u64, pub e_phoff: u64, pub e_shoff: u64,
        pub e_flags: u32, pub e_ehsize: u16, pub e_phentsize: u16, pub e_phnum: u16, pub e_shentsize: u16, pub e_shnum: u16, pub e_shstrndx: u16,
    }
    impl Header {
        #[verifier::external_body] pub fn container(&self) -> (r: core::result::Result<container::Container, error::Error>) ensures r matches Ok(c) ==> c == hdr_ctx(self.e_ident).container { unimplemented!() }
        #[verifier::external_body] pub fn endianness(&self) -> (r: core::result::Result<container::Endian, error::Error>) ensures r matches Ok(c) ==> c == hdr_ctx(self.e_ident).le { unimplemented!() }
        #[verifier::external_body] pub fn size_with(ctx: &container::Ctx) -> (r: usize) ensures r == ehsize(*ctx) { unimplemented!() }
        /// panics on a buffer that is too short
        #[verifier::external_body] pub fn into_ctx(self, b: &mut [u8], ctx: container::Ctx)
            requires old(b)@.len() >= ehsize(ctx)
            ensures final(b)@ == hdr_bytes(self, ctx) + old(b)@.skip(ehsize(ctx)) { unimplemented!() }
    }
}
pub mod section_header { use vstd::prelude::*; use super::super::super::*; use super::super::*; use super::*;
    pub const SHT_PROGBITS: u32 = 1;
    pub const SHT_NOBITS: u32 = 8;
    pub struct SectionHeader {
        pub sh_name: usize, pub sh_type: u32, pub sh_flags: u64, pub sh_addr: u64, pub sh_offset: u64, pub sh_size: u64,
        pub sh_link: u32, pub sh_info: u32, pub sh_addralign: u64, pub sh_entsize: u64,
    }
    impl SectionHeader {
        #[verifier::external_body] pub fn size(ctx: container::Ctx) -> (r: usize) ensures r == shsize(ctx) { unimplemented!() }
        #[verifier::external_body] pub fn into_ctx(self, b: &mut [u8], ctx: container::Ctx)
            requires old(b)@.len() >= shsize(ctx)
            ensures final(b)@ == shdr_bytes(self, ctx) + old(b)@.skip(shsize(ctx)) { unimplemented!() }
    }
}
pub open spec fn ehsize(c: container::Ctx) -> int { if c.container is Big { 64 } else { 52 } }
pub open spec fn shsize(c: container::Ctx) -> int { if c.container is Big { 64 } else { 40 } }
pub uninterp spec fn hdr_bytes(h: Header, c: container::Ctx) -> Seq<u8>;
pub uninterp spec fn shdr_bytes(h: SectionHeader, c: container::Ctx) -> Seq<u8>;
pub uninterp spec fn hdr_of(b: Seq<u8>) -> Header;
pub uninterp spec fn shdrs_of(b: Seq<u8>) -> Seq<SectionHeader>;
/// the name at an offset of a file's section name table
pub uninterp spec fn name_in(b: Seq<u8>, off: usize) -> Option<Seq<u8>>;
pub uninterp spec fn elf_ok(b: Seq<u8>) -> bool;
/// the section-table fields of the header: e_shoff; e_shentsize, e_shnum, e_shstrndx
pub open spec fn sh_field(c: container::Ctx, i: int) -> bool { if c.container is Big { 40 <= i < 48 || 58 <= i < 64 } else { 32 <= i < 36 || 46 <= i < 52 } }
/// headers that differ in those fields only
pub open spec fn hdr_same(a: Header, b: Header) -> bool { a == (Header { e_shoff: a.e_shoff, e_shentsize: a.e_shentsize, e_shnum: a.e_shnum, e_shstrndx: a.e_shstrndx, ..b }) }
pub broadcast axiom fn axiom_hdr_len(h: Header, c: container::Ctx) ensures (#[trigger] hdr_bytes(h, c)).len() == ehsize(c);
pub broadcast axiom fn axiom_shdr_len(h: SectionHeader, c: container::Ctx) ensures (#[trigger] shdr_bytes(h, c)).len() == shsize(c);
/// re-encoding the header of a file gives the file's bytes, but for the fields that changed
pub broadcast axiom fn axiom_hdr_frame(b: Seq<u8>, h: Header, i: int)
    requires elf_ok(b), hdr_same(h, hdr_of(b)), 0 <= i < ehsize(hdr_ctx(hdr_of(b).e_ident)), !sh_field(hdr_ctx(hdr_of(b).e_ident), i)
    ensures #![trigger hdr_bytes(h, hdr_ctx(hdr_of(b).e_ident))[i]] hdr_bytes(h, hdr_ctx(hdr_of(b).e_ident))[i] == b[i];
pub broadcast axiom fn axiom_elf_len(b: Seq<u8>) requires elf_ok(b) ensures b.len() >= ehsize(hdr_ctx((#[trigger] hdr_of(b)).e_ident));
pub broadcast axiom fn axiom_shdrs_len(v: Vec<SectionHeader>) ensures #[trigger] v@.len() <= 0x0100_0000_0000_0000;
#[verifier::external_body] pub struct Strtab { _p: u8 }
impl Strtab {
    pub uninterp spec fn src(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn get_at(&self, off: usize) -> (r: Option<&VStr>) ensures match r { Some(s) => name_in(self.src(), off) == Some(s@), None => name_in(self.src(), off) is None } { unimplemented!() }
}
pub struct Elf { pub header: Header, pub section_headers: Vec<SectionHeader>, pub shdr_strtab: Strtab }
impl Elf {
    #[verifier::external_body] pub fn parse<S: VxSeq<u8>>(b: S) -> (r: core::result::Result<Elf, error::Error>)
        ensures match r { Ok(e) => elf_ok(b.sq()) && e.header == hdr_of(b.sq()) && e.section_headers@ == shdrs_of(b.sq()) && e.shdr_strtab.src() == b.sq(), Err(_) => !elf_ok(b.sq()) } { unimplemented!() }
}
pub broadcast group elf_facts { axiom_hdr_len, axiom_shdr_len, axiom_hdr_frame, axiom_elf_len, axiom_shdrs_len }
}
}
pub mod scroll { pub mod ctx { pub trait IntoCtx {} pub trait SizeWith {} } }
