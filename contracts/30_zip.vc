%%file src/file_formats/module/zip.rs file_formats::module::zip
%%broadcast lemma_sub_sub
%%fn EndOfCentralDirectoryRecord::to_u8
    ensures r@ == self.m().e() //@C05 C07
%%fn find_eocd
    requires file_len <= 0x7fff_ffff_ffff_ffff, //@C01
    ensures
        final(module).content() == old(module).content(), //@C05
        r matches Ok(e) ==> file_len <= old(module).content().len() && is_eocd(old(module).content().take(file_len as int), e.file_offset as int)
            && e.m() == eocd_at(old(module).content().take(file_len as int), e.file_offset as int), //@C05 C06 C07 C16
        r matches Ok(e) ==> file_len - 65557 <= e.file_offset && no_eocd_from(old(module).content().take(file_len as int), e.file_offset + 1), //@C05
        r matches Ok(e) ==> e.m().e() == old(module).content().subrange(e.file_offset as int, e.file_offset + eocd_len(old(module).content().take(file_len as int), e.file_offset as int)), //@C05
        r is Err && old(module).calm() && file_len <= old(module).content().len() ==> no_eocd_from(old(module).content().take(file_len as int), 0), //@C05
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint start
hide(EocdM::e); hide(eocd_at); hide(is_eocd); hide(eocd_len);
broadcast use {lemma_eocd_window, lemma_eocd_room};
%%hint tail
let ghost vx_lo: int = if file_len >= 65557 { file_len - 65557 } else { 0 };
proof { if vx_ret is Ok { lemma_eocd_window(module.content(), vx_lo, file_len as int, file_len as int, vx_ret->Ok_0.file_offset as int); } }
%%fn find_eocd_in_buffer
    requires buffer@.len() + buffer_offset == file_len, file_len <= 0x7fff_ffff_ffff_ffff, //@C01
    ensures
        r matches Ok(e) ==> buffer_offset <= e.file_offset && is_eocd(buffer@, e.file_offset - buffer_offset) && e.m() == (EocdM { at: e.file_offset as int, ..eocd_at(buffer@, e.file_offset - buffer_offset) })
            && (forall|j: int| e.file_offset - buffer_offset < j ==> !#[trigger] is_eocd(buffer@, j)), //@C05
        r is Err ==> forall|j: int| !#[trigger] is_eocd(buffer@, j), //@C05
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%loop 0
    invariant
        $i <= $s, $s == buffer@.len() - 22 || (buffer@.len() < 22 && $s == 0),
        forall|j: int| ($g ==> $i < j) ==> !#[trigger] is_eocd(buffer@, j), //@C05
    decreases $i + (if $g { 1int } else { 0int })
%%fn parse_eocd_at_offset
    requires buffer@.len() + buffer_offset == file_len, file_len <= 0x7fff_ffff_ffff_ffff, //@C01
        offset + 4 <= buffer@.len() && buffer@.subrange(offset as int, offset + 4) == eocd_sig(),
    ensures
        r matches Ok(e) ==> is_eocd(buffer@, offset as int) && e.m() == (EocdM { at: buffer_offset + offset, ..eocd_at(buffer@, offset as int) }), //@C05
        r is Err ==> !is_eocd(buffer@, offset as int), //@C05
%%fn create_fixed_buffer_4
    requires buf@.len() == 4 //@C01
    ensures r@ == buf@ //@C05
%%fn create_fixed_buffer_2
    requires buf@.len() == 2 //@C01
    ensures r@ == buf@ //@C05
%%fn FileOffsets::new
    ensures r == (FileOffsets { start_content: 0, stop_content, start_cd, stop_cd, start_eocd: stop_cd, stop_eocd }) //@C06 C07
%%fn FileOffsets::without_signature
    ensures r == (FileOffsets { start_content: 0, stop_content, start_cd: stop_content, stop_cd, start_eocd: stop_cd, stop_eocd }) //@C06 C07
%%spec
impl EndOfCentralDirectoryRecord {
    pub open spec fn m(&self) -> EocdM {
        EocdM { at: self.file_offset as int, sig: self.signature@, dn: self.disk_number, dc: self.disk_with_cd, ne: self.num_entries, te: self.total_entries,
            cs: self.cd_size, co: self.cd_offset, cl: self.comment_len, comment: self.comment@ }
    }
}
