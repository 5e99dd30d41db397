%%file src/common.rs common
%%skipfn Certificate::sha256_cert;Certificate::md5_cert;Certificate::sha1_cert
%%fn Digest::parse;Signature::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        AlgDataM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn Certificate::parse;PubKey::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        BlobM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn AdditionalAttribute::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        AttrM::p(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%fn Digest::to_u8;Certificate::to_u8;Signature::to_u8;AdditionalAttribute::to_u8;PubKey::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn Digest::new
    ensures r.m() == (AlgDataM { size: (8 + digest@.len()) as usize, alg: signature_algorithm_id, data: digest@ }) //@C02 C03 C13
%%fn Signature::new
    ensures r.m() == (AlgDataM { size: (8 + signature@.len()) as usize, alg: signature_algorithm_id, data: signature@ }) //@C02 C03 C13
%%fn Certificate::new
    ensures r.m() == (BlobM { size: certificate@.len() as usize, data: certificate@ }) //@C02 C03 C13
%%fn PubKey::new
    ensures r.m() == (BlobM { size: data@.len() as usize, data: data@ }) //@C02 C03 C13
%%fn Digests::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        ListM::<AlgDataM>::p_in(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint beforeloop 0
let ghost vx_d0 = $i.data@; let ghost vx_t0 = $s - $i.pos;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), vx_t0);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn Digests::new
    requires sizes(ms(digests_data@), digests_data@.len() as int) <= usize::MAX
    ensures r.m() == (ListM { size: sizes(ms(digests_data@), digests_data@.len() as int) as usize, items: ms(digests_data@) }) //@C02 C03 C13
%%hint start
proof { lemma_sizes_mono(ms(digests_data@), digests_data@.len() as int); }
%%loop 0
    invariant $i <= digests_data@.len(), $acc == sizes(ms(digests_data@), $i as int), sizes(ms(digests_data@), digests_data@.len() as int) <= usize::MAX
    decreases digests_data@.len() - $i
%%hint loopstart 0
assert(sizes(ms(digests_data@), $i + 1) <= sizes(ms(digests_data@), digests_data@.len() as int));
%%fn Digests::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%loop 0
    invariant $i <= self.digests_data@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.digests_data@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn Certificates::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        ListM::<BlobM>::p_un(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint beforeloop 0
let ghost vx_d0 = $i.data@; let ghost vx_t0 = $s - $i.pos;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), vx_t0);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn Certificates::new
    requires sizes(ms(certificates_data@), certificates_data@.len() as int) <= usize::MAX
    ensures r.m() == (ListM { size: sizes(ms(certificates_data@), certificates_data@.len() as int) as usize, items: ms(certificates_data@) }) //@C02 C03 C13
%%hint start
proof { lemma_sizes_mono(ms(certificates_data@), certificates_data@.len() as int); }
%%loop 0
    invariant $i <= certificates_data@.len(), $acc == sizes(ms(certificates_data@), $i as int), sizes(ms(certificates_data@), certificates_data@.len() as int) <= usize::MAX
    decreases certificates_data@.len() - $i
%%hint loopstart 0
assert(sizes(ms(certificates_data@), $i + 1) <= sizes(ms(certificates_data@), certificates_data@.len() as int));
%%fn Certificates::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%loop 0
    invariant $i <= self.certificates_data@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.certificates_data@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn Signatures::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        ListM::<AlgDataM>::p_un(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint beforeloop 0
let ghost vx_d0 = $i.data@; let ghost vx_t0 = $s - $i.pos;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), vx_t0);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn Signatures::new
    requires sizes(ms(signatures_data@), signatures_data@.len() as int) <= usize::MAX
    ensures r.m() == (ListM { size: sizes(ms(signatures_data@), signatures_data@.len() as int) as usize, items: ms(signatures_data@) }) //@C02 C03 C13
%%hint start
proof { lemma_sizes_mono(ms(signatures_data@), signatures_data@.len() as int); }
%%loop 0
    invariant $i <= signatures_data@.len(), $acc == sizes(ms(signatures_data@), $i as int), sizes(ms(signatures_data@), signatures_data@.len() as int) <= usize::MAX
    decreases signatures_data@.len() - $i
%%hint loopstart 0
assert(sizes(ms(signatures_data@), $i + 1) <= sizes(ms(signatures_data@), signatures_data@.len() as int));
%%fn Signatures::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%loop 0
    invariant $i <= self.signatures_data@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.signatures_data@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%fn AdditionalAttributes::parse
    requires old(data).wf() //@C01
    ensures
        final(data).wf(), //@C01
        final(data).data@ == old(data).data@, //@C01
        r is Ok ==> final(data).rem().len() < old(data).rem().len(), //@C01
        ListM::<AttrM>::p_un(old(data).rem()) matches Some((m, t)) ==> r matches Ok(v) && v.m() == m && final(data).rem() == t, //@C02
        r matches Ok(v) ==> v.size <= old(data).rem().len(), //@C01
        r matches Err(e) ==> !has0(e) && !has1(e), //@C16
%%hint beforeloop 0
let ghost vx_d0 = $i.data@; let ghost vx_t0 = $s - $i.pos;
let ghost vx_p0 = p_list(ms($acc@), $i.rem(), vx_t0);
%%loop 0
    invariant
        $i.wf(), //@C01
        $i.data@ == vx_d0, //@C01
        vx_p0 is Some ==> p_list(ms($acc@), $i.rem(), $s - $i.pos) == vx_p0, //@C02
    decreases $i.rem().len()
%%fn AdditionalAttributes::new
    requires sizes(ms(additional_attributes_data@), additional_attributes_data@.len() as int) <= usize::MAX
    ensures r.m() == (ListM { size: sizes(ms(additional_attributes_data@), additional_attributes_data@.len() as int) as usize, items: ms(additional_attributes_data@) }) //@C02 C03 C13
%%hint start
proof { lemma_sizes_mono(ms(additional_attributes_data@), additional_attributes_data@.len() as int); }
%%loop 0
    invariant $i <= additional_attributes_data@.len(), $acc == sizes(ms(additional_attributes_data@), $i as int), sizes(ms(additional_attributes_data@), additional_attributes_data@.len() as int) <= usize::MAX
    decreases additional_attributes_data@.len() - $i
%%hint loopstart 0
assert(sizes(ms(additional_attributes_data@), $i + 1) <= sizes(ms(additional_attributes_data@), additional_attributes_data@.len() as int));
%%fn AdditionalAttributes::to_u8
    ensures r@ == self.m().e() //@C02 C13
%%loop 0
    invariant $i <= self.additional_attributes_data@.len(), $acc@ == encs(self.m().items, $i as int) //@C02
    decreases self.additional_attributes_data@.len() - $i
%%hint tail
assert(vx_ret@ =~= self.m().e());
%%spec
impl HasM for Digest { type M = AlgDataM; open spec fn m(&self) -> AlgDataM { AlgDataM { size: self.size, alg: self.signature_algorithm_id, data: self.digest@ } } }
impl HasM for Signature { type M = AlgDataM; open spec fn m(&self) -> AlgDataM { AlgDataM { size: self.size, alg: self.signature_algorithm_id, data: self.signature@ } } }
impl HasM for Certificate { type M = BlobM; open spec fn m(&self) -> BlobM { BlobM { size: self.size, data: self.certificate@ } } }
impl HasM for PubKey { type M = BlobM; open spec fn m(&self) -> BlobM { BlobM { size: self.size, data: self.data@ } } }
impl HasM for AdditionalAttribute { type M = AttrM; open spec fn m(&self) -> AttrM { AttrM { size: self.size, id: self.id, data: self.data@ } } }
impl HasM for Digests { type M = ListM<AlgDataM>; open spec fn m(&self) -> ListM<AlgDataM> { ListM { size: self.size, items: ms(self.digests_data@) } } }
impl HasM for Certificates { type M = ListM<BlobM>; open spec fn m(&self) -> ListM<BlobM> { ListM { size: self.size, items: ms(self.certificates_data@) } } }
impl HasM for Signatures { type M = ListM<AlgDataM>; open spec fn m(&self) -> ListM<AlgDataM> { ListM { size: self.size, items: ms(self.signatures_data@) } } }
impl HasM for AdditionalAttributes { type M = ListM<AttrM>; open spec fn m(&self) -> ListM<AttrM> { ListM { size: self.size, items: ms(self.additional_attributes_data@) } } }
