%%crate
%%file src/signing_block/algorithms.rs signing_block::algorithms
%%trait From PartialEq
%%fn <Algorithms as From<u32>>::from
    ensures r == alg_of(sig) //@C04
%%fn <u32 as From<&Algorithms>>::from
    ensures r == id_of(*sig) //@C04
%%fn <u32 as PartialEq<Algorithms>>::eq
    ensures r == (*self == id_of(*sig)) //@C04
%%fn Algorithms::to_u32
    ensures r == id_of(*self) //@C04
%%fn sha256
    ensures r@ == sha256s(data@) //@C04
%%hint start
broadcast use lemma_empty_l;
%%fn sha512
    ensures r@ == sha512s(data@) //@C04
%%hint start
broadcast use lemma_empty_l;
%%fn Algorithms::hash
    ensures r@ == alg_hash(*self, data@) //@C04
%%fn Algorithms::verify
    ensures r is Ok <==> alg_verifies(*self, pubkey@, raw_data@, signature@) //@C04 C11 C12
%%fn Algorithms::sign
    ensures
        r matches Ok(s) ==> alg_verifies(*self, private_key.pubder(), raw_data@, s@), //@C04 C13
        r is Ok <==> key_fits(*self, *private_key), //@C04 C13
        r matches Ok(s) ==> s@.len() <= 256, //@C13
%%fn PrivateKey::public_key_der
    ensures r matches Ok(v) ==> v@ == self.pubder() && v@.len() <= 256 //@C13
%%spec
impl PrivateKey {
    pub open spec fn pubder(&self) -> Seq<u8> { match self { PrivateKey::EcdsaP256(k) => k.pubder(), PrivateKey::EcdsaP384(k) => k.pubder() } }
}
pub open spec fn key_fits(a: Algorithms, k: PrivateKey) -> bool {
    (a is ECDSA_SHA2_256 && k is EcdsaP256) || (a is ECDSA_SHA2_512 && k is EcdsaP384)
}
/// an unknown algorithm hashes to nothing
pub open spec fn alg_hash(a: Algorithms, d: Seq<u8>) -> Seq<u8> {
    match a { Algorithms::ECDSA_SHA2_256 => sha256s(d), Algorithms::ECDSA_SHA2_512 => sha512s(d), Algorithms::Unknown(_) => Seq::empty() }
}
/// an unknown algorithm verifies nothing
pub open spec fn alg_verifies(a: Algorithms, key: Seq<u8>, data: Seq<u8>, sig: Seq<u8>) -> bool {
    match a {
        Algorithms::ECDSA_SHA2_256 => der_key_ok(256, key) && der_sig_ok(256, sig) && ec_ok(256, key, sha256s(data), sig),
        Algorithms::ECDSA_SHA2_512 => der_key_ok(384, key) && der_sig_ok(384, sig) && ec_ok(384, key, sha512s(data), sig),
        Algorithms::Unknown(_) => false,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<u32> for Algorithms {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> Self { alg_of(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<&Algorithms> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &Algorithms) -> Self { id_of(*v) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Algorithms { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Algorithms) -> bool { *self == *o } }
impl PartialEq for Algorithms { #[verifier::external_body] fn eq(&self, o: &Algorithms) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<Algorithms> for u32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Algorithms) -> bool { *self == id_of(*o) } }
