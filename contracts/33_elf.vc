%%file src/file_formats/elf/digest.rs file_formats::elf::digest
%%broadcast lemma_vv_push
%%fn digest_chunk
    ensures r@ == chunk_digest(*algo, chunk@) //@C10
%%hint start
broadcast use lemma_empty_l;
%%fn digest_final
    ensures r@ == top_digest(*algo, vv(chunks@)) //@C10
%%hint start
broadcast use lemma_empty_l;
%%fn digest_elf_sections
    ensures
        final(file).content() == old(file).content(), //@C10
        r matches Ok(d) ==> d@ == elf_digest(*algo, old(file).content(), sections@), //@C10
%%loop 0
    invariant $i <= sections@.len(), file.content() == old(file).content(), vv(all_chunk_digests@) == elf_cds(*algo, file.content(), sections@, $i as int) //@C10
    decreases sections@.len() - $i
%%hint beforeloop 1
broadcast use {lemma_cds_step, lemma_cds_done};
let ghost vx_all = vv(all_chunk_digests@) + cds(*algo, reader.todo());
%%loop 1
    invariant vv(all_chunk_digests@) + cds(*algo, reader.todo()) == vx_all, file.content() == old(file).content(), //@C10
    decreases reader.todo().len()
%%file src/file_formats/elf/mod.rs file_formats::elf
%%broadcast crate::shim::io_facts crate::shim::goblin::elf::elf_facts
%%trait From
%%fn <ElfError as From<std::io::Error>>::from
    ensures r == ElfError::Io(err)
%%fn <ElfError as From<GoblinError>>::from
    ensures r == ElfError::Parse(err)
%%fn ElfFile::new
    ensures
        r matches Ok(f) ==> f.path == path && f.c() == crate::shim::fs::bytes_at(path) && elf_ok(f.c()) && f.names().len() == 2 && f.names()[0] == seq![46u8, 116, 101, 120, 116] && f.names()[1] == seq![46u8, 114, 111, 100, 97, 116, 97], //@C09
%%loop 0
    invariant $i <= $s@.len(), strs($acc@) == strs($s@).take($i as int) //@C09
    decreases $s@.len() - $i
%%hint loopend 0
assert(strs($acc@) =~= strs($s@).take($i as int));
%%hint afterloop 0
assert(strs($s@) =~= $s@.map_values(|s: VStr| s@));
assert(strs($acc@) =~= DEFAULT_SIGNED_SECTIONS_spec());
%%fn ElfFile::set_signed_sections
    ensures
        r is Ok ==> final(self).names() == picked(strs(sections@), sections@.len() as int) && final(self).c() == old(self).c() && final(self).path == old(self).path, //@C09
        r is Err ==> *final(self) == *old(self), //@C09
        r is Err <==> !may_sign(picked(strs(sections@), sections@.len() as int)), //@C09
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), strs($acc@) == picked(strs($g), $i as int) //@C09
    decreases $s@.len()
%%hint loopend 0
assert(strs($acc@) =~= picked(strs($g), $i as int));
%%loop 1
    invariant $i <= $s@.len(), !$acc ==> forall|j: int| 0 <= j < $i ==> !eq_ic((#[trigger] strs($s@)[j]), sign_name()), $acc ==> !may_sign(strs($s@)) //@C09
    decreases $s@.len() - $i
%%hint loopstart 1
assert(strs($s@)[$i as int] == $s@[$i as int]@);
%%fn ElfFile::resolved_sections
    ensures
        r matches Ok(v) ==> self.resolves(v@), //@C09
        r is Err ==> !self.signable(), //@C09
%%fn ElfFile::collect_sections
    requires elf.of(self.c()) //@C01
    ensures
        r matches Ok(v) ==> self.resolves(v@), //@C09
        r is Err ==> !self.signable(), //@C09
%%hint start
broadcast use lemma_find_in;
%%loop 0
    invariant $i <= $s@.len(), sel(self.c(), self.asked(), sections@, $i as int), forall|k: int| 0 <= k < $i ==> usable(self.c(), (#[trigger] self.asked()[k])@) //@C09
    decreases $s@.len() - $i
%%hint loopstart 0
assert(self.asked()[$i as int] == $s@[$i as int]);
%%fn ElfFile::digest_regions
    ensures
        r matches Ok(v) ==> exists|s: Seq<(String, u64, u64)>| #[trigger] self.resolves(s) && regions(v@, s), //@C09
%%loop 0
    invariant $s@ == $g.skip($i as int), $i <= $g.len(), $i <= $g.len() && regions($acc@, $g.take($i as int)) //@C09
    decreases $s@.len()
%%hint afterloop 0
assert($g.take($i as int) =~= $g);
%%fn ElfFile::digest
    ensures
        r matches Ok(d) ==> exists|s: Seq<(String, u64, u64)>| #[trigger] self.resolves(s) && d@ == elf_digest(*algo, self.c(), s), //@C10
%%fn ElfFile::get_signing_block
    ensures
        r matches Ok(Some(k)) ==> self.has_block() && k.decoded() && (exists|x: int, y: int| 0 <= x && x + k.size_of_block_start + 8 == y && y <= self.blk_bytes().len() && #[trigger] blk_frame(self.blk_bytes().subrange(x, y))) && (p_blk(self.blk_bytes()) matches Some(m) ==> ms(k.content@) == m), //@C08
        r matches Ok(None) ==> elf_ok(self.c()) && (sec(self.c(), sign_name()) is None || shdrs_of(self.c())[sec(self.c(), sign_name())->0].sh_size == 0), //@C08
        self.has_block() && p_blk(self.blk_bytes()) is Some ==> r matches Ok(Some(_)), //@C08
        elf_ok(self.c()) && sec(self.c(), sign_name()) is None ==> r matches Ok(None), //@C08
%%hint start
hide(blk_frame); hide(p_list);
%%fn ElfFile::write_with_signature
    ensures
        r is Ok ==> exists|o: Seq<u8>| final(writer).out() == old(writer).out() + o && #[trigger] placed(self.c(), signing_block.e(), o), //@C08
%%attr
#[verifier::spinoff_prover]
%%hint start
hide(SigningBlock::e); hide(entry_is); hide(find_sec); hide(sec); hide(placed_as);
broadcast use lemma_find_in;
let ghost mut vx_a = Seq::<u8>::empty(); let ghost mut vx_q = Seq::<u8>::empty(); let ghost mut vx_o1 = Seq::<u8>::empty(); let ghost mut vx_o2 = Seq::<u8>::empty(); let ghost mut vx_t = 0int; let ghost mut vx_hs = Seq::<SectionHeader>::empty();
%%hint let total_size
proof { lemma_table(sh_entry_size as int, section_headers@.len() as int, total_size as int); }
%%hint let signing_offset
proof { vx_a = output@; assert(sub_is(vx_a, signing_offset as int, signing_block.e())); }
%%hint let sh_table_offset
proof { vx_q = output@; if sec(self.c(), sign_name()) is None { assert(sub_is(vx_q, section_headers@[str_ix(self.c())].sh_offset as int, shstrtab_bytes@)); } assert(sub_is(output@, 0, vx_a)) by { assert(output@.take(vx_a.len() as int) =~= vx_a); } }
%%hint beforeloop 0
proof { assert(sub_is(output@, 0, vx_q)); vx_o1 = output@; vx_t = sh_table_offset as int; vx_hs = section_headers@; }
%%loop 0
    invariant $i <= $s@.len(), $s@ == vx_hs, output@.len() == vx_o1.len(), forall|i: int| 0 <= i < vx_t ==> (#[trigger] output@[i]) == vx_o1[i], forall|j: int| 0 <= j < $i ==> entry_is(output@, vx_t, ctx, j, #[trigger] vx_hs[j]) //@C08
    decreases $s@.len() - $i
%%hint loopstart 0
let ghost vx_p = output@; let ghost vx_n = $i as int; let ghost vx_z = shsize(ctx);
proof { assert(vx_n * vx_z + vx_z <= vx_hs.len() * vx_z) by (nonlinear_arith) requires 0 <= vx_n < vx_hs.len(), vx_z > 0; }
%%hint loopend 0
proof { lemma_entries(vx_p, output@, vx_t, ctx, vx_n, vx_hs); }
%%hint afterloop 0
proof { vx_o2 = output@; }
%%hint tail
proof { if vx_ret is Ok { lemma_placed(self.c(), signing_block.e(), vx_a, vx_q, vx_o1, vx_o2, output@, header, vx_hs, ctx, shstrtab_bytes@, signing_offset as int); } }
%%fn load_shstrtab
    requires elf.of(data@) //@C01
    ensures
        r matches Ok(v) ==> has_str(data@) && v@ == str_bytes(data@), //@C08
%%fn existing_name_offset
    requires elf.of(elf.shdr_strtab.src()) //@C01
    ensures r == (match sec(elf.shdr_strtab.src(), name@) { Some(i) => Some(elf.section_headers@[i].sh_name), None => None::<usize> }), //@C08
%%hint start
broadcast use {lemma_find_more, lemma_find_in};
%%hint loopstart 0
let ghost vx_f = find_sec(elf.shdr_strtab.src(), name@, $i + 1);
proof { if named(elf.shdr_strtab.src(), name@, $i as int) { lemma_find_more(elf.shdr_strtab.src(), name@, $i + 1, elf.section_headers@.len() as int); assert(sec(elf.shdr_strtab.src(), name@) == Some($i as int)); } }
%%loop 0
    invariant $i <= $s@.len(), $acc is None, find_sec(elf.shdr_strtab.src(), name@, $i as int) is None //@C08
    decreases $s@.len() - $i
%%fn find_section_index
    requires elf.of(elf.shdr_strtab.src()) //@C01
    ensures match r { Some(i) => sec(elf.shdr_strtab.src(), name@) == Some(i as int), None => sec(elf.shdr_strtab.src(), name@) is None }, //@C08
%%hint start
broadcast use {lemma_find_more, lemma_find_in};
%%hint loopstart 0
let ghost vx_f = find_sec(elf.shdr_strtab.src(), name@, $i + 1);
proof { if named(elf.shdr_strtab.src(), name@, $i as int) { lemma_find_more(elf.shdr_strtab.src(), name@, $i + 1, elf.section_headers@.len() as int); assert(sec(elf.shdr_strtab.src(), name@) == Some($i as int)); } }
%%loop 0
    invariant $i <= $s@.len(), $acc is None, find_sec(elf.shdr_strtab.src(), name@, $i as int) is None //@C08
    decreases $s@.len() - $i
%%fn ElfFile::parse_elf
    ensures match r { Ok(e) => elf_ok(self.c()) && e.of(self.c()), Err(_) => !elf_ok(self.c()) } //@C08 C09 C10
%%fn align_to
    requires value <= 0x7fff_ffff_ffff_ffff //@C01
    ensures align == 0 ==> r == value, align > 0 ==> r == aligned(value as int, align as int), //@C08
%%hint start
proof { if align > value { vstd::arithmetic::div_mod::lemma_small_mod(value as nat, align as nat); } }
%%fn append_aligned
    ensures
        final(target)@ == old(target)@ + zeros(r - old(target)@.len()) + data@, //@C08
        r == aligned(old(target)@.len() as int, if align == 0 { 1 } else { align as int }), //@C08
%%fn align_for_container
    ensures r == (if ctx.container is Big { 8usize } else { 4 }) //@C08
%%fn find_section
    requires elf.of(elf.shdr_strtab.src()) //@C01
    ensures finds(r, elf, name@, elf.section_headers@.len() as int) //@C08 C09
%%hint start
broadcast use {lemma_find_more, lemma_find_in};
%%hint loopstart 0
let ghost vx_f = find_sec(elf.shdr_strtab.src(), name@, $i + 1);
proof { if named(elf.shdr_strtab.src(), name@, $i as int) { lemma_find_more(elf.shdr_strtab.src(), name@, $i + 1, elf.section_headers@.len() as int); assert(sec(elf.shdr_strtab.src(), name@) == Some($i as int)); } }
%%loop 0
    invariant $i <= $s@.len(), $acc is None, finds($acc, elf, name@, $i as int) //@C08 C09
    decreases $s@.len() - $i
%%spec
pub open spec fn regions(v: Seq<DigestRegion>, s: Seq<(String, u64, u64)>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).name == s[i].0 && v[i].offset == s[i].1 && v[i].size == s[i].2 }
pub use crate::shim::goblin::elf::{elf_ok, hdr_of, shdrs_of, name_in, hdr_bytes, shdr_bytes, ehsize, shsize, sh_field, hdr_same, Header};
pub use crate::shim::goblin::hdr_ctx;
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the requested names, trimmed, without empty ones
pub open spec fn picked(s: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n
{ if n <= 0 { Seq::empty() } else if trimmed(s[n - 1]).len() == 0 { picked(s, n - 1) } else { picked(s, n - 1).push(trimmed(s[n - 1])) } }
/// ".ksu_sign"
pub open spec fn sign_name() -> Seq<u8> { seq![46u8, 107, 115, 117, 95, 115, 105, 103, 110] }
pub open spec fn may_sign(s: Seq<Seq<u8>>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> !eq_ic(#[trigger] s[i], sign_name()) }
/// the next multiple
pub open spec fn aligned(v: int, a: int) -> int { if v % a == 0 { v } else { v + a - v % a } }
pub open spec fn named(b: Seq<u8>, nm: Seq<u8>, i: int) -> bool { name_in(b, shdrs_of(b)[i].sh_name) == Some(nm) }
/// index of the first of the first n sections that has that name
pub open spec fn find_sec(b: Seq<u8>, nm: Seq<u8>, n: int) -> Option<int> decreases n
{ if n <= 0 { None } else { match find_sec(b, nm, n - 1) { Some(i) => Some(i), None => if named(b, nm, n - 1) { Some(n - 1) } else { None } } } }
pub open spec fn sec(b: Seq<u8>, nm: Seq<u8>) -> Option<int> { find_sec(b, nm, shdrs_of(b).len() as int) }
pub broadcast proof fn lemma_find_more(b: Seq<u8>, nm: Seq<u8>, n: int, m: int)
    requires n <= m, find_sec(b, nm, n) is Some
    ensures #![trigger find_sec(b, nm, n), find_sec(b, nm, m)] find_sec(b, nm, m) == find_sec(b, nm, n)
    decreases m - n
{ if n < m { lemma_find_more(b, nm, n, m - 1); } }
pub broadcast proof fn lemma_find_in(b: Seq<u8>, nm: Seq<u8>, n: int)
    ensures #[trigger] find_sec(b, nm, n) matches Some(i) ==> 0 <= i < n && named(b, nm, i)
    decreases n
{ if n > 0 { lemma_find_in(b, nm, n - 1); } }
/// a section that may be signed: there, with contents in the file
pub open spec fn usable(b: Seq<u8>, nm: Seq<u8>) -> bool { sec(b, nm) matches Some(i) && shdrs_of(b)[i].sh_type != 8 && shdrs_of(b)[i].sh_size != 0 }
pub open spec fn finds(o: Option<&SectionHeader>, elf: &Elf, nm: Seq<u8>, n: int) -> bool {
    match o { Some(s) => sec(elf.shdr_strtab.src(), nm) matches Some(i) && *s == elf.section_headers@[i], None => find_sec(elf.shdr_strtab.src(), nm, n) is None }
}
impl Elf { pub open spec fn of(&self, b: Seq<u8>) -> bool { self.header == hdr_of(b) && self.section_headers@ == shdrs_of(b) && self.shdr_strtab.src() == b } }
/// the first n of the named sections, as requested
pub open spec fn sel(b: Seq<u8>, names: Seq<String>, u: Seq<(String, u64, u64)>, n: int) -> bool {
    u.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] u[k]).0 == names[k] && usable(b, names[k]@) && u[k].1 == shdrs_of(b)[sec(b, names[k]@)->0].sh_offset && u[k].2 == shdrs_of(b)[sec(b, names[k]@)->0].sh_size
}
pub open spec fn inside(b: Seq<u8>, h: SectionHeader) -> bool { h.sh_offset + h.sh_size <= b.len() }
pub open spec fn sec_bytes(b: Seq<u8>, h: SectionHeader) -> Seq<u8> { b.subrange(h.sh_offset as int, h.sh_offset + h.sh_size) }
pub open spec fn str_ix(b: Seq<u8>) -> int { hdr_of(b).e_shstrndx as int }
pub open spec fn has_str(b: Seq<u8>) -> bool { str_ix(b) < shdrs_of(b).len() && inside(b, shdrs_of(b)[str_ix(b)]) }
pub open spec fn str_bytes(b: Seq<u8>) -> Seq<u8> { sec_bytes(b, shdrs_of(b)[str_ix(b)]) }
/// where the signature's header goes: the section of that name, or a new last one
pub open spec fn ksu_ix(b: Seq<u8>) -> int { match sec(b, sign_name()) { Some(i) => i, None => shdrs_of(b).len() as int } }
/// C08: o is file b with block k added
pub open spec fn placed(b: Seq<u8>, k: Seq<u8>, o: Seq<u8>) -> bool { exists|h: Header, hs: Seq<SectionHeader>| #[trigger] placed_as(b, k, o, h, hs) }
pub open spec fn placed_as(b: Seq<u8>, k: Seq<u8>, o: Seq<u8>, h: Header, hs: Seq<SectionHeader>) -> bool {
    let c = hdr_ctx(hdr_of(b).e_ident);
    // every byte of the old file stays where it was, but for the header's section table fields
    &&& o.len() >= b.len() && (forall|i: int| 0 <= i < b.len() && !sh_field(c, i) ==> (#[trigger] o[i]) == b[i])
    &&& hdr_same(h, hdr_of(b)) && h.e_shstrndx == hdr_of(b).e_shstrndx && o.take(ehsize(c)) == hdr_bytes(h, c)
    // the new table, past everything else
    &&& h.e_shnum == hs.len() && h.e_shentsize == shsize(c) && h.e_shoff >= b.len() && h.e_shoff % 8 == 0 && h.e_shoff + hs.len() * shsize(c) <= o.len()
    &&& forall|j: int| 0 <= j < hs.len() ==> entry_is(o, h.e_shoff as int, c, j, #[trigger] hs[j])
    // the other sections are as they were
    &&& hs.len() == (if sec(b, sign_name()) is None { shdrs_of(b).len() + 1 } else { shdrs_of(b).len() })
    &&& forall|j: int| 0 <= j < shdrs_of(b).len() && j != ksu_ix(b) && j != str_ix(b) ==> (#[trigger] hs[j]) == shdrs_of(b)[j]
    // the signature section
    &&& ksu_hdr(hs[ksu_ix(b)], c) && inside(o, hs[ksu_ix(b)]) && hs[ksu_ix(b)].sh_offset >= b.len() && sec_bytes(o, hs[ksu_ix(b)]) == k && hs[ksu_ix(b)].sh_size == k.len()
    // the names
    &&& sec(b, sign_name()) is Some ==> hs[ksu_ix(b)].sh_name == shdrs_of(b)[ksu_ix(b)].sh_name
    &&& sec(b, sign_name()) is Some && str_ix(b) != ksu_ix(b) ==> hs[str_ix(b)] == shdrs_of(b)[str_ix(b)]
    &&& sec(b, sign_name()) is None ==> has_str(b) && hs[str_ix(b)] == (SectionHeader { sh_offset: hs[str_ix(b)].sh_offset, sh_size: hs[str_ix(b)].sh_size, ..shdrs_of(b)[str_ix(b)] })
        && inside(o, hs[str_ix(b)]) && sec_bytes(o, hs[str_ix(b)]) == with_name(str_bytes(b)) && hs[ksu_ix(b)].sh_name + 10 == with_name(str_bytes(b)).len()
}
pub open spec fn entry_is(o: Seq<u8>, t: int, c: crate::shim::goblin::container::Ctx, j: int, h: SectionHeader) -> bool { o.subrange(t + j * shsize(c), t + j * shsize(c) + shsize(c)) == shdr_bytes(h, c) }
/// the parts of a written file, put together
pub proof fn lemma_placed(b: Seq<u8>, k: Seq<u8>, a: Seq<u8>, q: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>, o: Seq<u8>, h: Header, hs: Seq<SectionHeader>, ctx: crate::shim::goblin::container::Ctx, str: Seq<u8>, so: int)
    requires
        elf_ok(b), ctx == hdr_ctx(hdr_of(b).e_ident), has_str(b), hdr_same(h, hdr_of(b)), h.e_shstrndx == hdr_of(b).e_shstrndx,
        // the file, the block; the table of names; the headers; the header
        so == aligned(b.len() as int, if ctx.container is Big { 8 } else { 4 }), a == b + zeros(so - b.len()) + k,
        sub_is(q, 0, a), sub_is(o1, 0, q), q.len() <= h.e_shoff, h.e_shoff % 8 == 0, o1.len() == o2.len(),
        h.e_shnum == hs.len(), h.e_shentsize == shsize(ctx), h.e_shoff + hs.len() * shsize(ctx) <= o.len(),
        forall|i: int| 0 <= i < h.e_shoff ==> (#[trigger] o2[i]) == o1[i],
        forall|j: int| 0 <= j < hs.len() ==> entry_is(o2, h.e_shoff as int, ctx, j, #[trigger] hs[j]),
        o == hdr_bytes(h, ctx) + o2.skip(ehsize(ctx)), ehsize(ctx) <= o2.len(),
        hs.len() == (if sec(b, sign_name()) is None { shdrs_of(b).len() + 1 } else { shdrs_of(b).len() }),
        forall|j: int| 0 <= j < shdrs_of(b).len() && j != ksu_ix(b) && j != str_ix(b) ==> (#[trigger] hs[j]) == shdrs_of(b)[j],
        hs[ksu_ix(b)] == ksu_new(hs[ksu_ix(b)].sh_name, so, k.len() as int, ctx), so <= u64::MAX, k.len() <= u64::MAX,
        sec(b, sign_name()) is Some ==> hs[ksu_ix(b)].sh_name == shdrs_of(b)[ksu_ix(b)].sh_name,
        sec(b, sign_name()) is Some && str_ix(b) != ksu_ix(b) ==> hs[str_ix(b)] == shdrs_of(b)[str_ix(b)],
        sec(b, sign_name()) is None ==> str == with_name(str_bytes(b)) && sub_is(q, hs[str_ix(b)].sh_offset as int, str) && hs[str_ix(b)].sh_offset >= b.len()
            && hs[str_ix(b)] == (SectionHeader { sh_offset: hs[str_ix(b)].sh_offset, sh_size: str.len() as u64, ..shdrs_of(b)[str_ix(b)] }) && str.len() <= u64::MAX && hs[ksu_ix(b)].sh_name + 10 == str.len(),
    ensures placed(b, k, o)
{
    broadcast use crate::shim::goblin::elf::elf_facts;
    broadcast use lemma_find_in;
    let hb = hdr_bytes(h, ctx); let t = h.e_shoff as int;
    lemma_aligned(b.len() as int, if ctx.container is Big { 8 } else { 4 });
    assert forall|i: int| t <= i < o.len() implies (#[trigger] o[i]) == o2[i] by { }
    lemma_entries_keep(o2, o, t, ctx, hs);
    assert(o.take(ehsize(ctx)) =~= hb);
    assert forall|i: int| ehsize(ctx) <= i < t implies (#[trigger] o[i]) == o1[i] by { assert(o[i] == o2[i]); }
    lemma_sub_keep(q, a, o1, o, ehsize(ctx), t);
    assert forall|i: int| 0 <= i < b.len() && !sh_field(ctx, i) implies (#[trigger] o[i]) == b[i] by { if i < ehsize(ctx) { assert(o[i] == hb[i]); } else { assert(o[i] == o1[i]); assert(o1[i] == a[i]); assert(a[i] == b[i]); } }
    assert(sub_is(a, so, k));
    assert(sub_is(o, so, k));
    assert(sec_bytes(o, hs[ksu_ix(b)]) =~= k);
    if sec(b, sign_name()) is None { assert(sub_is(o, hs[str_ix(b)].sh_offset as int, str)); assert(sec_bytes(o, hs[str_ix(b)]) =~= str); }
    assert(placed_as(b, k, o, h, hs));
}
pub open spec fn ksu_new(nm: usize, so: int, n: int, c: crate::shim::goblin::container::Ctx) -> SectionHeader {
    SectionHeader { sh_name: nm, sh_type: 1, sh_flags: 0, sh_addr: 0, sh_offset: so as u64, sh_size: n as u64, sh_link: 0, sh_info: 0, sh_addralign: if c.container is Big { 8 } else { 4 }, sh_entsize: 0 }
}
/// x stands in s from position k on
pub open spec fn sub_is(s: Seq<u8>, k: int, x: Seq<u8>) -> bool { 0 <= k && k + x.len() <= s.len() && forall|i: int| k <= i < k + x.len() ==> (#[trigger] s[i]) == x[i - k] }
pub proof fn lemma_sub_keep(q: Seq<u8>, a: Seq<u8>, p: Seq<u8>, o: Seq<u8>, lo: int, hi: int)
    requires o.len() == p.len(), 0 <= lo <= a.len() <= q.len() <= hi <= o.len(), sub_is(p, 0, q), sub_is(q, 0, a), forall|i: int| lo <= i < hi ==> (#[trigger] o[i]) == p[i]
    ensures sub_is(p, 0, a),
        forall|k: int, x: Seq<u8>| lo <= k && #[trigger] sub_is(q, k, x) ==> sub_is(o, k, x),
        forall|k: int, x: Seq<u8>| lo <= k && #[trigger] sub_is(a, k, x) ==> sub_is(o, k, x)
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] p[i]) == a[i] by { assert(p[i] == q[i]); }
    assert forall|k: int, x: Seq<u8>| lo <= k && #[trigger] sub_is(q, k, x) implies sub_is(o, k, x) by {
        assert forall|i: int| k <= i < k + x.len() implies (#[trigger] o[i]) == x[i - k] by { assert(o[i] == p[i] && p[i] == q[i]); } }
    assert forall|k: int, x: Seq<u8>| lo <= k && #[trigger] sub_is(a, k, x) implies sub_is(o, k, x) by {
        assert forall|i: int| k <= i < k + x.len() implies (#[trigger] o[i]) == x[i - k] by { assert(o[i] == p[i] && p[i] == a[i]); } }
}
pub proof fn lemma_aligned(v: int, a: int)
    requires v >= 0, a == 4 || a == 8
    ensures aligned(v, a) % a == 0
{ if a == 4 { assert(aligned(v, 4) % 4 == 0); } else { assert(aligned(v, 8) % 8 == 0); } }
pub proof fn lemma_table(z: int, n: int, t: int)
    requires t == z * n, 0 < z <= 64, 0 <= n <= 0x0100_0000_0000_0000
    ensures t <= 0x4000_0000_0000_0000, t == n * z
{ assert(z * n <= 0x4000_0000_0000_0000 && z * n == n * z) by (nonlinear_arith) requires 0 < z <= 64, 0 <= n <= 0x0100_0000_0000_0000; }
pub proof fn lemma_entries(p: Seq<u8>, q: Seq<u8>, t: int, c: crate::shim::goblin::container::Ctx, n: int, hs: Seq<SectionHeader>)
    requires 0 <= t, 0 <= n < hs.len(), t + n * shsize(c) + shsize(c) <= p.len(), q == p.take(t + n * shsize(c)) + shdr_bytes(hs[n], c) + p.skip(t + n * shsize(c) + shsize(c)),
        forall|j: int| 0 <= j < n ==> entry_is(p, t, c, j, #[trigger] hs[j])
    ensures forall|j: int| 0 <= j < n + 1 ==> entry_is(q, t, c, j, #[trigger] hs[j])
{
    broadcast use crate::shim::goblin::elf::axiom_shdr_len;
    let z = shsize(c);
    assert(0 <= n * z) by (nonlinear_arith) requires 0 <= n, 0 < z;
    assert forall|j: int| 0 <= j < n + 1 implies entry_is(q, t, c, j, #[trigger] hs[j]) by {
        assert(0 <= j * z) by (nonlinear_arith) requires 0 <= j, 0 < z;
        if j < n {
            assert(j * z + z <= n * z) by (nonlinear_arith) requires j < n, 0 < z;
            assert(entry_is(p, t, c, j, hs[j]));
            assert(q.subrange(t + j * z, t + j * z + z) =~= p.subrange(t + j * z, t + j * z + z));
        } else { assert(q.subrange(t + n * z, t + n * z + z) =~= shdr_bytes(hs[n], c)); }
    }
}
pub proof fn lemma_entries_keep(p: Seq<u8>, q: Seq<u8>, t: int, c: crate::shim::goblin::container::Ctx, hs: Seq<SectionHeader>)
    requires 0 <= t, t + hs.len() * shsize(c) <= p.len(), q.len() == p.len(), forall|i: int| t <= i < p.len() ==> (#[trigger] q[i]) == p[i],
        forall|j: int| 0 <= j < hs.len() ==> entry_is(p, t, c, j, #[trigger] hs[j])
    ensures forall|j: int| 0 <= j < hs.len() ==> entry_is(q, t, c, j, #[trigger] hs[j])
{
    let z = shsize(c);
    assert forall|j: int| 0 <= j < hs.len() implies entry_is(q, t, c, j, #[trigger] hs[j]) by {
        assert(0 <= j * z && j * z + z <= hs.len() * z) by (nonlinear_arith) requires 0 <= j < hs.len(), 0 < z;
        assert(entry_is(p, t, c, j, hs[j]));
        assert(q.subrange(t + j * z, t + j * z + z) =~= p.subrange(t + j * z, t + j * z + z));
    }
}
pub open spec fn ksu_hdr(h: SectionHeader, c: crate::shim::goblin::container::Ctx) -> bool {
    h.sh_type == 1 && h.sh_flags == 0 && h.sh_addr == 0 && h.sh_link == 0 && h.sh_info == 0 && h.sh_entsize == 0 && h.sh_addralign == (if c.container is Big { 8u64 } else { 4 }) && h.sh_offset as int % h.sh_addralign as int == 0
}
/// the name table with the signature's name at its end, apart from an unterminated last name
pub open spec fn with_name(s: Seq<u8>) -> Seq<u8> { (if s.len() > 0 && s.last() != 0 { s.push(0) } else { s }) + sign_name().push(0) }
impl ElfFile {
    pub closed spec fn c(&self) -> Seq<u8> { self.data@ }
    pub closed spec fn asked(&self) -> Seq<String> { self.signed_sections@ }
    pub open spec fn names(&self) -> Seq<Seq<u8>> { strs(self.asked()) }
    /// C09: exactly the requested sections, in file order
    pub open spec fn resolves(&self, v: Seq<(String, u64, u64)>) -> bool { exists|u: Seq<(String, u64, u64)>| #[trigger] sort_of(u, v) && sel(self.c(), self.asked(), u, self.asked().len() as int) }
    /// C08: the section that carries a block
    pub open spec fn has_block(&self) -> bool { elf_ok(self.c()) && (sec(self.c(), sign_name()) matches Some(i) && inside(self.c(), shdrs_of(self.c())[i]) && shdrs_of(self.c())[i].sh_size != 0) }
    pub open spec fn blk_bytes(&self) -> Seq<u8> { sec_bytes(self.c(), shdrs_of(self.c())[sec(self.c(), sign_name())->0]) }
    pub open spec fn signable(&self) -> bool { elf_ok(self.c()) && forall|k: int| 0 <= k < self.asked().len() ==> usable(self.c(), (#[trigger] self.asked()[k])@) }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::shim::io::Error> for ElfError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: crate::shim::io::Error) -> Self { ElfError::Io(e) } }
impl vstd::std_specs::convert::FromSpecImpl<GoblinError> for ElfError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: GoblinError) -> Self { ElfError::Parse(e) } }
