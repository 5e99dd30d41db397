use crate::signing_block::algorithms::Algorithms;

// ---------- little endian prefix facts
pub broadcast proof fn lemma_take_prefix<T>(a: Seq<T>, b: Seq<T>, n: int)
    requires n == a.len()
    ensures #[trigger] (a + b).take(n) == a
{ assert((a + b).take(n) =~= a); }
pub broadcast proof fn lemma_skip_prefix<T>(a: Seq<T>, b: Seq<T>, n: int)
    requires n == a.len()
    ensures #[trigger] (a + b).skip(n) == b
{ assert((a + b).skip(n) =~= b); }
pub broadcast proof fn lemma_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_empty_l<T>(b: Seq<T>)
    ensures #[trigger] (Seq::<T>::empty() + b) == b
{ assert((Seq::<T>::empty() + b) =~= b); }
pub broadcast proof fn lemma_empty_r<T>(b: Seq<T>)
    ensures #[trigger] (b + Seq::<T>::empty()) == b
{ assert((b + Seq::<T>::empty()) =~= b); }
pub broadcast proof fn lemma_le4_b(x: u32) ensures un4(#[trigger] le4(x)) == x, le4(x).len() == 4 { lemma_le4(x) }
pub broadcast proof fn lemma_le8_b(x: u64) ensures un8(#[trigger] le8(x)) == x, le8(x).len() == 8 { lemma_le8(x) }
pub broadcast proof fn lemma_le2_b(x: u16) ensures un2(#[trigger] le2(x)) == x, le2(x).len() == 2 { lemma_le2(x) }
pub broadcast group seq_facts { lemma_take_prefix, lemma_skip_prefix, lemma_empty_l, lemma_empty_r, lemma_le4_b, lemma_le8_b, lemma_le2_b }

pub open spec fn zeros(n: int) -> Seq<u8> { fill(0u8, n) }
/// content, zero-filled up to size
pub open spec fn padz(c: Seq<u8>, size: usize) -> Seq<u8> {
    if size >= c.len() { c + zeros(size - c.len()) } else { c }
}
pub broadcast proof fn lemma_padz(c: Seq<u8>, size: usize)
    requires size == c.len()
    ensures #[trigger] padz(c, size) == c
{ assert(padz(c, size) =~= c); }

// ---------- algorithms (C04)
pub open spec fn id_of(a: Algorithms) -> u32 {
    match a { Algorithms::ECDSA_SHA2_256 => 0x0201u32, Algorithms::ECDSA_SHA2_512 => 0x0202u32, Algorithms::Unknown(u) => u }
}
pub open spec fn alg_of(u: u32) -> Algorithms {
    if u == 0x0201u32 { Algorithms::ECDSA_SHA2_256 } else if u == 0x0202u32 { Algorithms::ECDSA_SHA2_512 } else { Algorithms::Unknown(u) }
}
pub open spec fn canon(a: Algorithms) -> bool { alg_of(id_of(a)) == a }
pub proof fn lemma_alg(u: u32) ensures id_of(alg_of(u)) == u, canon(alg_of(u)) {}

// ---------- models: what each structure means, its serialised form, and the strict reader of that form
pub trait HasM { type M; spec fn m(&self) -> Self::M; }
pub open spec fn ms<T: HasM>(v: Seq<T>) -> Seq<T::M> { Seq::new(v.len(), |i: int| v[i].m()) }
pub broadcast proof fn lemma_ms_push<T: HasM>(v: Seq<T>, x: T)
    ensures #[trigger] ms(v.push(x)) == ms(v).push(x.m())
{ assert(ms(v.push(x)) =~= ms(v).push(x.m())); }
pub broadcast proof fn lemma_ms_empty<T: HasM>(v: Seq<T>)
    requires v.len() == 0
    ensures #[trigger] ms(v) == Seq::<T::M>::empty()
{ assert(ms(v) =~= Seq::<T::M>::empty()); }
pub broadcast group model_facts { lemma_ms_push, lemma_ms_empty }
pub proof fn lemma_ms_cat<T: HasM>(v: Seq<T>, w: Seq<T>) ensures ms(v + w) == ms(v) + ms(w)
{ assert(ms(v + w) =~= ms(v) + ms(w)); }

pub trait Cod: Sized {
    /// strict reader: value and what is left
    spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
    /// serialised form
    spec fn e(self) -> Seq<u8>;
    /// as the library's constructors build it, sizes within the format's integer widths
    spec fn ok(self) -> bool;
    /// reading back the serialised form gives the value and leaves what follows
    proof fn rt(self, t: Seq<u8>) requires self.ok() ensures Self::p(self.e() + t) == Some((self, t)), self.e().len() > 0; //@C02
}
/// serialised forms of the first n items
pub open spec fn encs<M: Cod>(s: Seq<M>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { Seq::empty() } else { encs(s, n - 1) + s[n - 1].e() } }
/// read items until exactly n bytes are consumed
pub open spec fn p_list<M: Cod>(acc: Seq<M>, s: Seq<u8>, n: int) -> Option<(Seq<M>, Seq<u8>)> decreases n
{
    if n == 0 { Some((acc, s)) } else if n < 0 { None } else {
        match M::p(s) {
            Some((m, t)) => if t.len() < s.len() && s.len() - t.len() <= n { p_list(acc.push(m), t, n - (s.len() - t.len())) } else { None },
            None => None,
        }
    }
}
pub open spec fn all_ok<M: Cod>(s: Seq<M>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ok() }
pub proof fn lemma_encs_shift<M: Cod>(s: Seq<M>, n: int)
    requires 0 < n <= s.len()
    ensures encs(s, n) == s[0].e() + encs(s.drop_first(), n - 1)
    decreases n
{
    broadcast use seq_facts;
    if n > 1 {
        lemma_encs_shift(s, n - 1);
        assert(s.drop_first()[n - 2] == s[n - 1]);
    } else {
        assert(encs(s, 0) =~= Seq::empty());
    }
}
pub proof fn lemma_encs_same<M: Cod>(a: Seq<M>, b: Seq<M>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures encs(a, n) == encs(b, n)
    decreases n
{ if n > 0 { lemma_encs_same(a, b, n - 1); } }
pub proof fn lemma_list<M: Cod>(acc: Seq<M>, items: Seq<M>, t: Seq<u8>)
    requires all_ok(items)
    ensures p_list(acc, encs(items, items.len() as int) + t, encs(items, items.len() as int).len() as int) == Some((acc + items, t)) //@C02
    decreases items.len()
{
    broadcast use seq_facts;
    let e = encs(items, items.len() as int);
    if items.len() == 0 {
        assert(e + t =~= t); assert(acc + items =~= acc);
    } else {
        lemma_encs_shift(items, items.len() as int);
        let r = items.drop_first();
        let er = encs(r, r.len() as int);
        assert(all_ok(r)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok() by { assert(r[i] == items[i + 1]); } }
        items[0].rt(er + t);
        assert(e + t =~= items[0].e() + (er + t));
        lemma_list(acc.push(items[0]), r, t);
        assert(acc.push(items[0]) + r =~= acc + items);
        let s = e + t;
        assert(s.len() - (er + t).len() == items[0].e().len());
    }
}

// length-prefixed list of items
pub struct ListM<M> { pub size: usize, pub items: Seq<M> }
impl<M: Cod> ListM<M> {
    pub open spec fn e(self) -> Seq<u8> { le4(self.size as u32) + padz(encs(self.items, self.items.len() as int), self.size) }
    pub open spec fn ok(self) -> bool {
        all_ok(self.items) && self.size == encs(self.items, self.items.len() as int).len() && self.size <= 0xffff_ffff
    }
    /// reader that cuts the list out first
    pub open spec fn p_in(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 { None } else {
            let n = un4(s.take(4)) as int;
            if n > s.skip(4).len() { None } else {
                match p_list(Seq::<M>::empty(), s.skip(4).take(n), n) {
                    Some((items, _)) => Some((ListM { size: n as usize, items }, s.skip(4).skip(n))),
                    None => None,
                }
            }
        }
    }
    /// reader that reads items in place until the list's size is used up
    pub open spec fn p_un(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 { None } else {
            let n = un4(s.take(4)) as int;
            match p_list(Seq::<M>::empty(), s.skip(4), n) {
                Some((items, t)) => Some((ListM { size: n as usize, items }, t)),
                None => None,
            }
        }
    }
    pub proof fn rt(self, t: Seq<u8>)
        requires self.ok()
        ensures Self::p_in(self.e() + t) == Some((self, t)), Self::p_un(self.e() + t) == Some((self, t)), self.e().len() == 4 + self.size //@C02
    {
        broadcast use {seq_facts, lemma_padz};
        let c = encs(self.items, self.items.len() as int);
        lemma_list(Seq::<M>::empty(), self.items, t);
        lemma_list(Seq::<M>::empty(), self.items, Seq::<u8>::empty());
        assert(Seq::<M>::empty() + self.items =~= self.items);
        assert(self.e() + t =~= le4(self.size as u32) + (c + t));
        assert((self.e() + t).skip(4).take(self.size as int) == c);
        assert(c + Seq::<u8>::empty() =~= c);
    }
}

// algorithm id and bytes: a digest or a signature
pub struct AlgDataM { pub size: usize, pub alg: Algorithms, pub data: Seq<u8> }
impl Cod for AlgDataM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 12 { None } else {
            let size = un4(s.take(4)); let alg = un4(s.skip(4).take(4)); let n = un4(s.skip(4).skip(4).take(4)) as int;
            let b = s.skip(4).skip(4).skip(4);
            if size as int > s.len() - 4 || n > b.len() { None } else { Some((AlgDataM { size: size as usize, alg: alg_of(alg), data: b.take(n) }, b.skip(n))) }
        }
    }
    open spec fn e(self) -> Seq<u8> {
        le4(self.size as u32) + padz(le4(id_of(self.alg)) + (le4(self.data.len() as u32) + self.data), self.size)
    }
    open spec fn ok(self) -> bool { self.size == 8 + self.data.len() && self.size <= 0xffff_ffff && canon(self.alg) }
    proof fn rt(self, t: Seq<u8>) {
        broadcast use {seq_facts, lemma_padz};
        let c = le4(id_of(self.alg)) + (le4(self.data.len() as u32) + self.data);
        assert(c.len() == self.size);
        assert(self.e() + t =~= le4(self.size as u32) + (le4(id_of(self.alg)) + (le4(self.data.len() as u32) + (self.data + t))));
    }
}
// bytes: a certificate or a public key
pub struct BlobM { pub size: usize, pub data: Seq<u8> }
impl Cod for BlobM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 4 { None } else {
            let n = un4(s.take(4)) as int;
            if n > s.skip(4).len() { None } else { Some((BlobM { size: n as usize, data: s.skip(4).take(n) }, s.skip(4).skip(n))) }
        }
    }
    open spec fn e(self) -> Seq<u8> { le4(self.size as u32) + padz(self.data, self.size) }
    open spec fn ok(self) -> bool { self.size == self.data.len() && self.size <= 0xffff_ffff }
    proof fn rt(self, t: Seq<u8>) {
        broadcast use {seq_facts, lemma_padz};
        assert(self.e() + t =~= le4(self.size as u32) + (self.data + t));
    }
}
pub struct AttrM { pub size: usize, pub id: u32, pub data: Seq<u8> }
impl Cod for AttrM {
    open spec fn p(s: Seq<u8>) -> Option<(Self, Seq<u8>)> {
        if s.len() < 8 { None } else {
            let size = un4(s.take(4)) as int; let id = un4(s.skip(4).take(4));
            let b = s.skip(4).skip(4);
            if size < 4 || size - 4 > b.len() { None } else { Some((AttrM { size: size as usize, id, data: b.take(size - 4) }, b.skip(size - 4))) }
        }
    }
    open spec fn e(self) -> Seq<u8> { le4(self.size as u32) + padz(le4(self.id) + self.data, self.size) }
    open spec fn ok(self) -> bool { self.size == 4 + self.data.len() && self.size <= 0xffff_ffff }
    proof fn rt(self, t: Seq<u8>) {
        broadcast use {seq_facts, lemma_padz};
        assert((le4(self.id) + self.data).len() == self.size);
        assert(self.e() + t =~= le4(self.size as u32) + (le4(self.id) + (self.data + t)));
    }
}
/// declared sizes, prefixes included, of the first n items
pub trait Sized4: Sized { spec fn sz(self) -> nat; }
impl Sized4 for AlgDataM { open spec fn sz(self) -> nat { self.size as nat } }
impl Sized4 for BlobM { open spec fn sz(self) -> nat { self.size as nat } }
impl Sized4 for AttrM { open spec fn sz(self) -> nat { self.size as nat } }
pub open spec fn sizes<M: Sized4>(s: Seq<M>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { sizes(s, n - 1) + s[n - 1].sz() + 4 } }
pub proof fn lemma_sizes_mono<M: Sized4>(s: Seq<M>, n: int)
    requires 0 <= n
    ensures forall|i: int| 0 <= i <= n ==> #[trigger] sizes(s, i) <= sizes(s, n), 0 <= sizes(s, n)
    decreases n
{ if n > 0 { lemma_sizes_mono(s, n - 1); } }
