// ---------- zip: end of central directory record
pub open spec fn eocd_sig() -> Seq<u8> { seq![0x50u8, 0x4bu8, 5u8, 6u8] }
/// a complete end record with its comment starts at i
pub open spec fn is_eocd(c: Seq<u8>, i: int) -> bool {
    0 <= i && i + 22 <= c.len() && c.subrange(i, i + 4) == eocd_sig() && i + 22 + un2(c.subrange(i + 20, i + 22)) <= c.len()
}
pub open spec fn eocd_len(c: Seq<u8>, i: int) -> int { 22 + un2(c.subrange(i + 20, i + 22)) }
/// no end record starts in the last 65557 bytes after lo (inclusive)
pub open spec fn no_eocd_from(c: Seq<u8>, lo: int) -> bool { forall|j: int| lo <= j && c.len() - 65557 <= j ==> !#[trigger] is_eocd(c, j) }
pub struct EocdM { pub at: int, pub sig: Seq<u8>, pub dn: u16, pub dc: u16, pub ne: u16, pub te: u16, pub cs: u32, pub co: u32, pub cl: u16, pub comment: Seq<u8> }
impl EocdM {
    pub open spec fn e(self) -> Seq<u8> {
        self.sig + le2(self.dn) + le2(self.dc) + le2(self.ne) + le2(self.te) + le4(self.cs) + le4(self.co) + le2(self.cl) + self.comment
    }
}
/// the record at i as the file has it
pub open spec fn eocd_at(c: Seq<u8>, i: int) -> EocdM {
    EocdM {
        at: i, sig: c.subrange(i, i + 4), dn: un2(c.subrange(i + 4, i + 6)), dc: un2(c.subrange(i + 6, i + 8)), ne: un2(c.subrange(i + 8, i + 10)),
        te: un2(c.subrange(i + 10, i + 12)), cs: un4(c.subrange(i + 12, i + 16)), co: un4(c.subrange(i + 16, i + 20)), cl: un2(c.subrange(i + 20, i + 22)),
        comment: c.subrange(i + 22, i + eocd_len(c, i)),
    }
}
pub proof fn lemma_eocd_bytes(c: Seq<u8>, i: int)
    requires is_eocd(c, i)
    ensures eocd_at(c, i).e() == c.subrange(i, i + eocd_len(c, i))
{
    lemma_un2(c.subrange(i + 4, i + 6)); lemma_un2(c.subrange(i + 6, i + 8)); lemma_un2(c.subrange(i + 8, i + 10)); lemma_un2(c.subrange(i + 10, i + 12));
    lemma_un4(c.subrange(i + 12, i + 16)); lemma_un4(c.subrange(i + 16, i + 20)); lemma_un2(c.subrange(i + 20, i + 22));
    assert(eocd_at(c, i).e() =~= c.subrange(i, i + eocd_len(c, i)));
}
pub broadcast proof fn lemma_eocd_room(c: Seq<u8>, i: int) requires #[trigger] is_eocd(c, i) ensures 0 <= i, i + 22 <= c.len(), i + eocd_len(c, i) <= c.len() {}
/// looking at a window that ends with the file finds the same records
pub broadcast proof fn lemma_eocd_window(c: Seq<u8>, lo: int, hi: int, hi2: int, j: int)
    requires hi2 == hi, 0 <= lo <= hi <= c.len(), lo <= j
    ensures
        #![trigger is_eocd(c.take(hi2), j), c.subrange(lo, hi)]
        is_eocd(c.take(hi), j) == is_eocd(c.subrange(lo, hi), j - lo),
        is_eocd(c.take(hi), j) ==> eocd_at(c.take(hi), j) == (EocdM { at: j, ..eocd_at(c.subrange(lo, hi), j - lo) })
            && eocd_at(c.take(hi), j).e() == c.subrange(j, j + eocd_len(c.take(hi), j)),
{
    broadcast use lemma_sub_sub;
    let (t, d) = (c.take(hi), c.subrange(lo, hi));
    assert(t == c.subrange(0, hi));
    if j + 22 <= hi && is_eocd(t, j) {
        lemma_eocd_bytes(t, j);
    }
}
