#!/usr/bin/env python3
# Writes 12_common.vc: the contracts of the ten structures of src/common.rs share their text.
def parse(keys, p):
    return f'''%%fn {keys}
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        {p}(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
'''
LOOP='''%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == __dd, //@C01
        __s matches Some(_) ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == __s, //@C02
        __eq
    decreases $i.rem().len()
'''
o='''%%file src/common.rs common
%%skipfn Certificate::sha256_cert;Certificate::md5_cert;Certificate::sha1_cert
'''
o+=parse('Digest::parse;Signature::parse','AlgDataM::p')
o+=parse('Certificate::parse;PubKey::parse','BlobM::p')
o+=parse('AdditionalAttribute::parse','AttrM::p')
o+='''%%fn Digest::to_u8;Certificate::to_u8;Signature::to_u8;AdditionalAttribute::to_u8;PubKey::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn Digest::new
    ensures r.m() == (AlgDataM { size: (8 + digest@.len()) as usize, alg: signature_algorithm_id, data: digest@ }) //@C02 C03 C13
%%fn Signature::new
    ensures r.m() == (AlgDataM { size: (8 + signature@.len()) as usize, alg: signature_algorithm_id, data: signature@ }) //@C02 C03 C13
%%fn Certificate::new
    ensures r.m() == (BlobM { size: certificate@.len() as usize, data: certificate@ }) //@C02 C03 C13
%%fn PubKey::new
    ensures r.m() == (BlobM { size: data@.len() as usize, data: data@ }) //@C02 C03 C13
'''
L=[('Digests','digests_data','AlgDataM','in'),('Certificates','certificates_data','BlobM','un'),('Signatures','signatures_data','AlgDataM','un'),('AdditionalAttributes','additional_attributes_data','AttrM','un')]
for n,f,m,k in L:
    o+=parse(f'{n}::parse',f'ListM::<{m}>::p_{k}')
    o+=f'''%%hint beforeloop 0
let ghost vx_d0 = $i.data@; let ghost vx_t0 = $s - $i.pos;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), vx_t0);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
'''
    o+=f'''%%fn {n}::new
    requires sizes(ms({f}@), {f}@.len() as int) <= usize::MAX
    ensures r.m() == (ListM {{ size: sizes(ms({f}@), {f}@.len() as int) as usize, items: ms({f}@) }}) //@C02 C03 C13
%%hint start
proof {{ lemma_sizes_mono(ms({f}@), {f}@.len() as int); }}
%%loop 0
    invariant $i <= {f}@.len(), $acc == sizes(ms({f}@), $i as int), sizes(ms({f}@), {f}@.len() as int) <= usize::MAX
    decreases {f}@.len() - $i
%%hint loopstart 0
assert(sizes(ms({f}@), $i + 1) <= sizes(ms({f}@), {f}@.len() as int));
%%fn {n}::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%loop 0
    invariant $i <= self.{f}@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.{f}@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
'''
o+='''%%spec
impl HasM for Digest { type M = AlgDataM; open spec fn m(&self) -> AlgDataM { AlgDataM { size: self.size, alg: self.signature_algorithm_id, data: self.digest@ } } }
impl HasM for Signature { type M = AlgDataM; open spec fn m(&self) -> AlgDataM { AlgDataM { size: self.size, alg: self.signature_algorithm_id, data: self.signature@ } } }
impl HasM for Certificate { type M = BlobM; open spec fn m(&self) -> BlobM { BlobM { size: self.size, data: self.certificate@ } } }
impl HasM for PubKey { type M = BlobM; open spec fn m(&self) -> BlobM { BlobM { size: self.size, data: self.data@ } } }
impl HasM for AdditionalAttribute { type M = AttrM; open spec fn m(&self) -> AttrM { AttrM { size: self.size, id: self.id, data: self.data@ } } }
'''
for n,f,m,k in L:
    o+=f'impl HasM for {n} {{ type M = ListM<{m}>; open spec fn m(&self) -> ListM<{m}> {{ ListM {{ size: self.size, items: ms(self.{f}@) }} }} }}\n'
open('12_common.vc','w').write(o)
