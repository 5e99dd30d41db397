// ---------- framing lemmas
pub proof fn lemma_frame4(s: Seq<u8>, n: u32, c: Seq<u8>, t: Seq<u8>)
    requires s == (le4(n) + c) + t, c.len() == n
    ensures s.len() >= 4, un4(s.take(4)) == n, s.skip(4) == c + t, s.skip(4).take(n as int) == c, s.skip(4).skip(n as int) == t, s.skip(4).len() >= n
{
    lemma_le4(n);
    assert(s.take(4) =~= le4(n)); assert(s.skip(4) =~= c + t);
    assert((c + t).take(n as int) =~= c); assert((c + t).skip(n as int) =~= t);
}
pub proof fn lemma_cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, t: Seq<u8>)
    ensures (a + (b + c)) + t == a + (b + (c + t))
{ assert((a + (b + c)) + t =~= a + (b + (c + t))); }
// ---------- v2 scheme
pub struct Sd2M { pub size: usize, pub digests: ListM<AlgDataM>, pub certs: ListM<BlobM>, pub attrs: ListM<AttrM>, pub fix: bool }
impl Sd2M {
    /// digests, certificates, attributes
    pub open spec fn body(self) -> Seq<u8> { self.digests.e() + (self.certs.e() + self.attrs.e()) }
    /// what a v2 signature covers: the signed data without its size prefix
    pub open spec fn signed(self) -> Seq<u8> { padz(self.body(), self.size) }
    pub open spec fn parts_size(self) -> int { 4 + self.digests.size + 4 + self.certs.size + 4 + self.attrs.size }
}
pub proof fn lemma_sub_take<T>(s: Seq<T>, a: Seq<T>, b: Seq<T>) requires s == a + b ensures s.take(a.len() as int) == a, s.skip(a.len() as int) == b
{ assert(s.take(a.len() as int) =~= a); assert(s.skip(a.len() as int) =~= b); }
impl Cod for Sd2M {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 { None } else {
            let n = un4(s.take(4)) as int;
            if n > s.skip(4).len() { None } else {
                match ListM::<AlgDataM>::p_in(s.skip(4).take(n)) {
                    Some((digests, t1)) => match ListM::<BlobM>::p_un(t1) {
                        Some((certs, t2)) => match ListM::<AttrM>::p_un(t2) {
                            Some((attrs, _)) => Some((Sd2M { size: n as usize, digests, certs, attrs, fix: true }, s.skip(4).skip(n))),
                            None => None,
                        },
                        None => None,
                    },
                    None => None,
                }
            }
        }
    }
    open spec fn e(self) -> Seq<u8> { le4(self.size as u32) + self.signed() }
    open spec fn ok(self) -> bool {
        self.digests.ok() && self.certs.ok() && self.attrs.ok() && self.fix && self.size <= 0xffff_ffff && self.size == self.parts_size() + 4
    }
    proof fn rt(self, t: Seq<u8>) {
        let z = zeros(4);
        let (d, c, a) = (self.digests.e(), self.certs.e(), self.attrs.e());
        self.digests.rt(c + (a + z));
        self.certs.rt(a + z);
        self.attrs.rt(z);
        lemma_cat3(d, c, a, z);
        assert(self.signed() == self.body() + z);
        lemma_frame4(self.e() + t, self.size as u32, self.signed(), t);
    }
}
pub struct SignerM { pub size: usize, pub sd: Sd2M, pub sigs: ListM<AlgDataM>, pub key: BlobM }
impl Cod for SignerM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 || un4(s.take(4)) > s.len() - 4 { None } else {
            match Sd2M::p(s.skip(4)) {
                Some((sd, t1)) => match ListM::<AlgDataM>::p_un(t1) {
                    Some((sigs, t2)) => match BlobM::p(t2) {
                        Some((key, t3)) => Some((SignerM { size: un4(s.take(4)) as usize, sd, sigs, key }, t3)),
                        None => None,
                    },
                    None => None,
                },
                None => None,
            }
        }
    }
    open spec fn e(self) -> Seq<u8> { le4(self.size as u32) + padz(self.sd.e() + (self.sigs.e() + self.key.e()), self.size) }
    open spec fn ok(self) -> bool {
        self.sd.ok() && self.sigs.ok() && self.key.ok() && self.size == 12 + self.sd.size + self.sigs.size + self.key.size && self.size <= 0xffff_ffff
    }
    proof fn rt(self, t: Seq<u8>) {
        let (d, g, k) = (self.sd.e(), self.sigs.e(), self.key.e());
        self.sd.rt(g + (k + t));
        lemma_sd2_len(self.sd);
        self.sigs.rt(k + t);
        self.key.rt(t);
        lemma_blob_len(self.key);
        lemma_padz(d + (g + k), self.size);
        lemma_cat3(d, g, k, t);
        lemma_frame4(self.e() + t, self.size as u32, d + (g + k), t);
    }
}
pub proof fn lemma_sd2_len(x: Sd2M) requires x.ok() ensures x.e().len() == 4 + x.size
{ x.digests.rt(Seq::empty()); x.certs.rt(Seq::empty()); x.attrs.rt(Seq::empty()); lemma_le4(x.size as u32); }
impl Sized4 for SignerM { open spec fn sz(self) -> nat { self.size as nat } }
pub struct V2M { pub size: usize, pub id: u32, pub signers: ListM<SignerM> }
impl V2M {
    pub open spec fn e(self) -> Seq<u8> { le8(self.size as u64) + padz(le4(self.id) + self.signers.e(), self.size) }
    pub open spec fn ok(self) -> bool { self.signers.ok() && self.id == 0x7109871au32 && self.size == 8 + self.signers.size }
}
// ---------- source stamp
pub struct SdStM { pub digests: ListM<AlgDataM>, pub certs: ListM<BlobM>, pub attrs: ListM<AttrM> }
impl SdStM {
    /// what a stamp signature covers
    pub open spec fn signed(self) -> Seq<u8> { self.digests.e() + (self.certs.e() + self.attrs.e()) }
    pub open spec fn sz(self) -> int { self.digests.size + self.certs.size + self.attrs.size + 12 }
}
impl Cod for SdStM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 { None } else {
            let n = un4(s.take(4)) as int;
            if n > s.skip(4).len() { None } else {
                match ListM::<AlgDataM>::p_in(s.skip(4).take(n)) {
                    Some((digests, t1)) => match ListM::<BlobM>::p_un(t1) {
                        Some((certs, t2)) => match ListM::<AttrM>::p_un(t2) {
                            Some((attrs, _)) => Some((SdStM { digests, certs, attrs }, s.skip(4).skip(n))),
                            None => None,
                        },
                        None => None,
                    },
                    None => None,
                }
            }
        }
    }
    open spec fn e(self) -> Seq<u8> { le4(self.signed().len() as u32) + self.signed() }
    open spec fn ok(self) -> bool { self.digests.ok() && self.certs.ok() && self.attrs.ok() && self.sz() <= 0xffff_ffff }
    proof fn rt(self, t: Seq<u8>) {
        lemma_sdst_len(self);
        let z = Seq::<u8>::empty();
        let (d, c, a) = (self.digests.e(), self.certs.e(), self.attrs.e());
        self.digests.rt(c + (a + z));
        self.certs.rt(a + z);
        self.attrs.rt(z);
        lemma_cat3(d, c, a, z);
        lemma_empty_r(self.signed());
        lemma_frame4(self.e() + t, self.signed().len() as u32, self.signed(), t);
    }
}
pub proof fn lemma_sdst_len(x: SdStM) requires x.ok() ensures x.signed().len() == x.sz(), x.e().len() == 4 + x.sz()
{ x.digests.rt(Seq::empty()); x.certs.rt(Seq::empty()); x.attrs.rt(Seq::empty()); lemma_le4(x.signed().len() as u32); }
pub struct StBlockM { pub size: usize, pub sd: SdStM, pub sigs: ListM<AlgDataM>, pub key: BlobM }
impl Cod for StBlockM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 { None } else {
            let n = un4(s.take(4)) as int;
            if n > s.skip(4).len() { None } else {
                match SdStM::p(s.skip(4).take(n)) {
                    Some((sd, t1)) => match ListM::<AlgDataM>::p_un(t1) {
                        Some((sigs, t2)) => match BlobM::p(t2) {
                            Some((key, t3)) => Some((StBlockM { size: n as usize, sd, sigs, key }, s.skip(4).skip(n))),
                            None => None,
                        },
                        None => None,
                    },
                    None => None,
                }
            }
        }
    }
    open spec fn e(self) -> Seq<u8> { le4(self.size as u32) + (self.sd.e() + (self.sigs.e() + self.key.e())) }
    open spec fn ok(self) -> bool {
        self.sd.ok() && self.sigs.ok() && self.key.ok() && self.size == 12 + self.sd.sz() + self.sigs.size + self.key.size && self.size <= 0xffff_ffff
    }
    proof fn rt(self, t: Seq<u8>) {
        let z = Seq::<u8>::empty();
        let (d, g, k) = (self.sd.e(), self.sigs.e(), self.key.e());
        self.sd.rt(g + (k + z));
        lemma_sdst_len(self.sd);
        self.sigs.rt(k + z);
        self.key.rt(z);
        lemma_blob_len(self.key);
        lemma_cat3(d, g, k, z);
        lemma_empty_r(d + (g + k));
        lemma_frame4(self.e() + t, self.size as u32, d + (g + k), t);
    }
}
pub proof fn lemma_blob_len(x: BlobM) requires x.ok() ensures x.e().len() == 4 + x.size { broadcast use {seq_facts, lemma_padz}; }
pub struct StampM { pub size: usize, pub id: u32, pub block: StBlockM }
impl StampM {
    pub open spec fn e(self) -> Seq<u8> { le8(self.size as u64) + (le4(self.id) + self.block.e()) }
    pub open spec fn ok(self) -> bool { self.block.ok() && self.id == 0x6dff_800du32 && self.size == 8 + self.block.size }
}
// ---------- ELF section info
pub struct SecM { pub name_len: u16, pub name: Seq<u8>, pub off: u64, pub size: u64 }
impl Cod for SecM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 2 { None } else {
            let n = un2(s.take(2)) as int;
            let b = s.skip(2);
            if n > b.len() { None } else {
                let c = b.skip(n);
                if !utf8_ok(b.take(n)) || c.len() < 16 { None } else {
                    Some((SecM { name_len: n as u16, name: b.take(n), off: un8(c.take(8)), size: un8(c.skip(8).take(8)) }, c.skip(8).skip(8)))
                }
            }
        }
    }
    open spec fn e(self) -> Seq<u8> { le2(self.name_len) + (self.name + (le8(self.off) + le8(self.size))) }
    open spec fn ok(self) -> bool { self.name_len == self.name.len() && utf8_ok(self.name) }
    proof fn rt(self, t: Seq<u8>) {
        broadcast use seq_facts;
        assert(self.e() + t =~= le2(self.name_len) + (self.name + (le8(self.off) + (le8(self.size) + t))));
    }
}
pub open spec fn sec_bytes(s: Seq<SecM>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { sec_bytes(s, n - 1) + 18 + s[n - 1].name.len() } }
pub proof fn lemma_sec_mono(s: Seq<SecM>, n: int)
    requires 0 <= n
    ensures forall|i: int| 0 <= i <= n ==> #[trigger] sec_bytes(s, i) <= sec_bytes(s, n), 0 <= sec_bytes(s, n)
    decreases n
{ if n > 0 { lemma_sec_mono(s, n - 1); } }
pub proof fn lemma_sec_enc(s: Seq<SecM>, n: int)
    ensures encs(s, n).len() == sec_bytes(s, n)
    decreases n
{ broadcast use seq_facts; if n > 0 { lemma_sec_enc(s, n - 1); } }
/// n entries one after the other
pub open spec fn p_count<M: Cod>(acc: Seq<M>, s: Seq<u8>, n: int) -> Option<(Seq<M>, Seq<u8>)> decreases n
{ if n <= 0 { Some((acc, s)) } else { match M::p(s) { Some((m, t)) => p_count(acc.push(m), t, n - 1), None => None } } }
pub proof fn lemma_count<M: Cod>(acc: Seq<M>, items: Seq<M>, t: Seq<u8>)
    requires all_ok(items)
    ensures p_count(acc, encs(items, items.len() as int) + t, items.len() as int) == Some((acc + items, t)) //@C02
    decreases items.len()
{
    broadcast use seq_facts;
    let e = encs(items, items.len() as int);
    if items.len() == 0 {
        assert(e + t =~= t); assert(acc + items =~= acc);
    } else {
        lemma_encs_shift(items, items.len() as int);
        let r = items.drop_first();
        let er = encs(r, r.len() as int);
        assert(all_ok(r)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok() by { assert(r[i] == items[i + 1]); } }
        items[0].rt(er + t);
        assert(e + t =~= items[0].e() + (er + t));
        lemma_count(acc.push(items[0]), r, t);
        assert(acc.push(items[0]) + r =~= acc + items);
    }
}
pub struct ElfM { pub size: usize, pub id: u32, pub count: u32, pub secs: Seq<SecM> }
impl ElfM {
    pub open spec fn e(self) -> Seq<u8> { le8(self.size as u64) + (le4(self.id) + (le4(self.count) + encs(self.secs, self.secs.len() as int))) }
    pub open spec fn ok(self) -> bool {
        all_ok(self.secs) && self.id == 0x4c45_534bu32 && self.count == self.secs.len() && self.size == 8 + sec_bytes(self.secs, self.secs.len() as int)
    }
}
// ---------- entries of the block
pub struct RawM { pub size: usize, pub id: u32, pub data: Seq<u8> }
impl RawM {
    pub open spec fn e(self) -> Seq<u8> { le8(self.size as u64) + (le4(self.id) + self.data) }
    pub open spec fn ok(self) -> bool {
        self.size == 4 + self.data.len() && self.id != 0x7109871au32 && self.id != 0x6dff_800du32 && self.id != 0x4c45_534bu32
    }
}
pub enum ValM { Base(RawM), V2(V2M), Stamp(StampM), Elf(ElfM) }
pub spec const MAX_PAIR: int = 16384;
impl ValM {
    pub open spec fn sz(self) -> nat {
        (match self { ValM::Base(x) => x.size, ValM::V2(x) => x.size, ValM::Stamp(x) => x.size, ValM::Elf(x) => x.size }) as nat
    }
    pub open spec fn id(self) -> u32 {
        match self { ValM::Base(x) => x.id, ValM::V2(x) => x.id, ValM::Stamp(x) => x.id, ValM::Elf(x) => x.id }
    }
    /// value of an entry with a given size, id and bytes
    pub open spec fn p_val(size: usize, id: u32, b: Seq<u8>) -> Option<ValM> {
        if id == 0x7109871au32 {
            match ListM::<SignerM>::p_in(b) { Some((signers, _)) => Some(ValM::V2(V2M { size, id, signers })), None => None }
        } else if id == 0x6dff_800du32 {
            match StBlockM::p(b) { Some((block, _)) => Some(ValM::Stamp(StampM { size, id, block })), None => None }
        } else if id == 0x4c45_534bu32 {
            if b.len() < 4 { None } else {
                match p_count(Seq::<SecM>::empty(), b.skip(4), un4(b.take(4)) as int) {
                    Some((secs, _)) => Some(ValM::Elf(ElfM { size, id, count: un4(b.take(4)), secs })),
                    None => None,
                }
            }
        } else { Some(ValM::Base(RawM { size, id, data: b })) }
    }
}
impl ValM {
    pub open spec fn bytes(self) -> Seq<u8> {
        match self {
            ValM::Base(x) => x.data, ValM::V2(x) => x.signers.e(), ValM::Stamp(x) => x.block.e(),
            ValM::Elf(x) => le4(x.count) + encs(x.secs, x.secs.len() as int),
        }
    }
}
pub proof fn lemma_frame12(s: Seq<u8>, n: u64, id: u32, b: Seq<u8>, t: Seq<u8>)
    requires s == (le8(n) + (le4(id) + b)) + t, b.len() == n - 4
    ensures s.len() >= 12, un8(s.take(8)) == n, un4(s.skip(8).take(4)) == id, s.skip(8).skip(4).len() >= n - 4,
        s.skip(8).skip(4).take(n - 4) == b, s.skip(8).skip(4).skip(n - 4) == t
{
    lemma_le4(id); lemma_le8(n);
    assert(s.take(8) =~= le8(n));
    assert(s.skip(8) =~= le4(id) + (b + t));
    assert(s.skip(8).take(4) =~= le4(id));
    assert(s.skip(8).skip(4) =~= b + t);
    assert((b + t).take(n - 4) =~= b); assert((b + t).skip(n - 4) =~= t);
}
pub proof fn lemma_val_bytes(v: ValM)
    requires v.ok()
    ensures ValM::p_val(v.sz() as usize, v.id(), v.bytes()) == Some(v), v.bytes().len() == v.sz() - 4,
        v.e() == le8(v.sz() as u64) + (le4(v.id()) + v.bytes())
{
    let z = Seq::<u8>::empty();
    let b = v.bytes();
    lemma_empty_r(b);
    match v {
        ValM::Base(x) => { }
        ValM::V2(x) => { x.signers.rt(z); lemma_le4(x.id); lemma_padz(le4(x.id) + b, x.size); }
        ValM::Stamp(x) => { x.block.rt(z); lemma_stblock_len(x.block); }
        ValM::Elf(x) => {
            let es = encs(x.secs, x.secs.len() as int);
            lemma_count(Seq::<SecM>::empty(), x.secs, z);
            lemma_empty_l(x.secs);
            lemma_empty_r(es);
            lemma_le4(x.count);
            lemma_take_prefix(le4(x.count), es, 4);
            lemma_skip_prefix(le4(x.count), es, 4);
            lemma_sec_enc(x.secs, x.secs.len() as int);
        }
    }
}
#[verifier::opaque]
pub open spec fn p_valm(s: Seq<u8>) -> Option<(ValM, Seq<u8>)> {
        if s.len() < 12 { None } else {
            let size = un8(s.take(8)) as int;
            let id = un4(s.skip(8).take(4));
            let b = s.skip(8).skip(4);
            if size > MAX_PAIR || size < 4 || size - 4 > b.len() { None } else {
                match ValM::p_val(size as usize, id, b.take(size - 4)) { Some(v) => Some((v, b.skip(size - 4))), None => None }
            }
        }
    }
impl Cod for ValM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> { p_valm(s) }
    open spec fn e(self) -> Seq<u8> { match self { ValM::Base(x) => x.e(), ValM::V2(x) => x.e(), ValM::Stamp(x) => x.e(), ValM::Elf(x) => x.e() } }
    open spec fn ok(self) -> bool {
        &&& self.sz() <= MAX_PAIR
        &&& match self { ValM::Base(x) => x.ok(), ValM::V2(x) => x.ok(), ValM::Stamp(x) => x.ok(), ValM::Elf(x) => x.ok() }
    }
    proof fn rt(self, t: Seq<u8>) {
        reveal(p_valm);
        let b = self.bytes();
        lemma_val_bytes(self);
        lemma_frame12(self.e() + t, self.sz() as u64, self.id(), b, t);
    }
}
pub proof fn lemma_stblock_len(x: StBlockM) requires x.ok() ensures x.e().len() == 4 + x.size
{ lemma_sdst_len(x.sd); x.sigs.rt(Seq::empty()); lemma_blob_len(x.key); lemma_le4(x.size as u32); }
/// declared sizes of the first n entries, with their 8-byte size fields
pub open spec fn vsizes(s: Seq<ValM>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { vsizes(s, n - 1) + s[n - 1].sz() + 8 } }
pub proof fn lemma_vsizes_mono(s: Seq<ValM>, n: int)
    requires 0 <= n
    ensures forall|i: int| 0 <= i <= n ==> #[trigger] vsizes(s, i) <= vsizes(s, n), 0 <= vsizes(s, n)
    decreases n
{ if n > 0 { lemma_vsizes_mono(s, n - 1); } }
/// an entry serialises to exactly its declared size
pub proof fn lemma_val_len(x: ValM) requires x.ok() ensures x.e().len() == x.sz() + 8
{
    broadcast use {seq_facts, lemma_padz};
    match x {
        ValM::Base(x) => { }
        ValM::V2(x) => { x.signers.rt(Seq::empty()); }
        ValM::Stamp(x) => { lemma_stblock_len(x.block); }
        ValM::Elf(x) => { lemma_sec_enc(x.secs, x.secs.len() as int); }
    }
}
pub proof fn lemma_vals_len(s: Seq<ValM>, n: int)
    requires all_ok(s), n <= s.len()
    ensures encs(s, n).len() == vsizes(s, n)
    decreases n
{ if n > 0 { lemma_vals_len(s, n - 1); lemma_val_len(s[n - 1]); } }
pub open spec fn magic_seq() -> Seq<u8> { seq![75u8, 83, 85, 32, 83, 105, 103, 32, 66, 108, 111, 99, 107, 32, 52, 50] }

pub open spec fn pad_entry(k: int) -> ValM { ValM::Base(RawM { size: (4 + k) as usize, id: 0x4272_6577u32, data: zeros(k) }) }
/// these entries, then at most one padding entry
pub open spec fn padded(c: Seq<ValM>, m: Seq<ValM>) -> bool { c == m || exists|k: int| 0 <= k < 4096 && c == m.push(#[trigger] pad_entry(k)) }
/// well formed but for the size limit, which the block as a whole implies
pub open spec fn okx(x: ValM) -> bool { match x { ValM::Base(x) => x.ok(), ValM::V2(x) => x.ok(), ValM::Stamp(x) => x.ok(), ValM::Elf(x) => x.ok() } }
pub open spec fn all_okx(s: Seq<ValM>) -> bool { forall|i: int| 0 <= i < s.len() ==> okx(#[trigger] s[i]) }
pub broadcast proof fn lemma_padded_ok(c: Seq<ValM>, m: Seq<ValM>) requires #[trigger] padded(c, m), all_okx(m) ensures all_okx(c)
{
    if c != m {
        let k = choose|k: int| 0 <= k < 4096 && c == m.push(#[trigger] pad_entry(k));
        assert(okx(pad_entry(k))) by { broadcast use seq_facts; }
    }
}
pub broadcast proof fn lemma_small_ok(s: Seq<ValM>) requires all_okx(s), vsizes(s, s.len() as int) <= 16384 ensures #[trigger] all_ok(s)
{
    lemma_vsizes_mono(s, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).ok() by {
        assert(vsizes(s, i + 1) <= vsizes(s, s.len() as int));
        lemma_vsizes_mono(s, i);
    }
}
/// framing of a serialised block: equal size fields that match the data, magic at the end, within the limit
pub open spec fn blk_frame(d: Seq<u8>) -> bool {
    d.len() >= 32 && d.len() <= 16392
    && un8(d.subrange(0, 8)) == d.len() - 8 && un8(d.subrange(d.len() - 24, d.len() - 16)) == d.len() - 8
    && d.subrange(d.len() - 16, d.len() as int) == magic_seq()
}
/// strict reader of a serialised block
pub open spec fn p_blk(d: Seq<u8>) -> Option<Seq<ValM>> {
    if !blk_frame(d) { None } else {
        match p_list(Seq::<ValM>::empty(), d.subrange(8, d.len() - 24), d.len() - 32) { Some((m, _)) => Some(m), None => None }
    }
}
pub proof fn lemma_vsizes_same(a: Seq<ValM>, b: Seq<ValM>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures vsizes(a, n) == vsizes(b, n)
    decreases n
{ if n > 0 { lemma_vsizes_same(a, b, n - 1); } }
pub proof fn lemma_pad_content<T: HasM<M = ValM>>(a: Seq<T>, b: Seq<T>)
    ensures
        b == a ==> vsizes(ms(b), b.len() as int) == vsizes(ms(a), a.len() as int),
        b == a.push(b.last()) ==> vsizes(ms(b), b.len() as int) == vsizes(ms(a), a.len() as int) + 8 + b.last().m().sz(),
{
    if b == a.push(b.last()) {
        assert(ms(b) == ms(a).push(b.last().m())) by { lemma_ms_push(a, b.last()); }
        lemma_vsizes_same(ms(a), ms(b), a.len() as int);
    }
}
pub broadcast proof fn lemma_sub_full<T>(s: Seq<T>, a: int, b: int)
    requires a == 0, b == s.len()
    ensures #[trigger] s.subrange(a, b) == s
{ assert(s.subrange(a, b) =~= s); }
pub open spec fn blk_magic(d: Seq<u8>) -> bool { d.len() >= 16 && d.subrange(d.len() - 16, d.len() as int) == magic_seq() }
/// the magic sits right before position end, with room for a size field
pub open spec fn magic_ends(c: Seq<u8>, end: int) -> bool { 24 <= end <= c.len() && c.subrange(end - 16, end) == magic_seq() }
/// the well-formed block that ends right at position end
pub open spec fn blk_at_end(c: Seq<u8>, end: int) -> Option<Seq<ValM>> {
    if !magic_ends(c, end) { None } else {
        let n = un8(c.subrange(end - 24, end - 16)) as int;
        if n + 8 > end { None } else { p_blk(c.subrange(end - n - 8, end)) }
    }
}
