// ---------- hashes
pub uninterp spec fn sha256s(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha512s(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn sha1s(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_sha256_len(s: Seq<u8>) ensures #[trigger] sha256s(s).len() == 32;
pub broadcast axiom fn axiom_sha512_len(s: Seq<u8>) ensures #[trigger] sha512s(s).len() == 64;
#[verifier::external_body] pub struct HashOut { _p: u8 }
impl HashOut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl VxSeq<u8> for HashOut { open spec fn sq(&self) -> Seq<u8> { self@ } }
pub mod sha2 { use vstd::prelude::*; use super::*;
pub trait Digest {}
#[verifier::external_body] pub struct Sha256 { _p: u8 }
impl Sha256 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<S: VxSeq<u8>>(&mut self, s: S) ensures final(self).fed() == old(self).fed() + s.sq() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: HashOut) ensures r@ == sha256s(self.fed()) { unimplemented!() }
    #[verifier::external_body] pub fn digest<S: VxSeq<u8>>(s: S) -> (r: HashOut) ensures r@ == sha256s(s.sq()) { unimplemented!() }
}
#[verifier::external_body] pub struct Sha512 { _p: u8 }
impl Sha512 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<S: VxSeq<u8>>(&mut self, s: S) ensures final(self).fed() == old(self).fed() + s.sq() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: HashOut) ensures r@ == sha512s(self.fed()) { unimplemented!() }
    #[verifier::external_body] pub fn digest<S: VxSeq<u8>>(s: S) -> (r: HashOut) ensures r@ == sha512s(s.sq()) { unimplemented!() }
}
}
pub mod sha1 { use vstd::prelude::*; use super::*;
pub trait Digest {}
#[verifier::external_body] pub struct Sha1 { _p: u8 }
impl Sha1 {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<S: VxSeq<u8>>(&mut self, s: S) ensures final(self).fed() == old(self).fed() + s.sq() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: HashOut) ensures r@ == sha1s(self.fed()) { unimplemented!() }
    #[verifier::external_body] pub fn digest<S: VxSeq<u8>>(s: S) -> (r: HashOut) ensures r@ == sha1s(s.sq()) { unimplemented!() }
}
}
// ---------- elliptic curves: keys and signatures are known by their DER form
/// the forms a private key comes in
pub enum KeyForm { Pkcs8Pem, Sec1Pem, Pkcs8Der, Sec1Der }
/// the public key (DER) of the private key of this curve that the bytes hold in this form
pub uninterp spec fn key_in(curve: int, f: KeyForm, b: Seq<u8>) -> Option<Seq<u8>>;
/// the same for an encrypted PKCS8 PEM and a password
pub uninterp spec fn enc_key_in(curve: int, b: Seq<u8>, pw: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn der_key_ok(curve: int, der: Seq<u8>) -> bool;
pub uninterp spec fn der_sig_ok(curve: int, der: Seq<u8>) -> bool;
/// the signature (DER) verifies for the key (DER) and message
pub uninterp spec fn ec_ok(curve: int, key: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
#[verifier::external_body] pub struct ExtError { _p: u8 }
impl ExtError { pub uninterp spec fn text(&self) -> VStr; }
impl VxToString for ExtError { open spec fn ts(&self) -> VStr { self.text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: VStr) { unimplemented!() } }
// ---------- TryFrom / TryInto
pub trait VxUnwrapOr<T>: Sized {
    spec fn uw(&self) -> Option<T>;
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.uw() { Some(x) => x, None => d });
}
impl<T> VxUnwrapOr<T> for Option<T> { open spec fn uw(&self) -> Option<T> { *self } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } } }
impl<T, E> VxUnwrapOr<T> for core::result::Result<T, E> { open spec fn uw(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } } }
pub trait VxTryTo<T> { spec fn tok(&self) -> bool; spec fn tis(&self, t: T) -> bool;
    fn vx_try_into(&self) -> (r: Result<T, ExtError>) ensures match r { Ok(t) => self.tok() && self.tis(t), Err(_) => !self.tok() }; }
impl<const N: usize> VxTryTo<[u8; N]> for [u8] { open spec fn tok(&self) -> bool { self@.len() == N } open spec fn tis(&self, t: [u8; N]) -> bool { t@ == self@ }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<[u8; N], ExtError>) { unimplemented!() } }
impl VxTryTo<u32> for usize { open spec fn tok(&self) -> bool { *self <= u32::MAX } open spec fn tis(&self, t: u32) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<u32, ExtError>) { unimplemented!() } }
impl VxTryTo<u32> for u64 { open spec fn tok(&self) -> bool { *self <= u32::MAX } open spec fn tis(&self, t: u32) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<u32, ExtError>) { unimplemented!() } }
impl VxTryTo<usize> for u64 { open spec fn tok(&self) -> bool { *self <= usize::MAX } open spec fn tis(&self, t: usize) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<usize, ExtError>) { unimplemented!() } }
impl VxTryTo<u16> for usize { open spec fn tok(&self) -> bool { *self <= u16::MAX } open spec fn tis(&self, t: u16) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<u16, ExtError>) { unimplemented!() } }
impl VxTryTo<u64> for usize { open spec fn tok(&self) -> bool { *self <= u64::MAX } open spec fn tis(&self, t: u64) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<u64, ExtError>) { unimplemented!() } }
impl VxTryTo<u16> for u64 { open spec fn tok(&self) -> bool { *self <= u16::MAX } open spec fn tis(&self, t: u16) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<u16, ExtError>) { unimplemented!() } }
impl VxTryTo<usize> for u32 { open spec fn tok(&self) -> bool { *self <= usize::MAX } open spec fn tis(&self, t: usize) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<usize, ExtError>) { unimplemented!() } }
impl VxTryTo<u16> for u32 { open spec fn tok(&self) -> bool { *self <= u16::MAX } open spec fn tis(&self, t: u16) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<u16, ExtError>) { unimplemented!() } }
impl VxTryTo<usize> for u16 { open spec fn tok(&self) -> bool { *self <= usize::MAX } open spec fn tis(&self, t: usize) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<usize, ExtError>) { unimplemented!() } }
impl VxTryTo<i64> for u64 { open spec fn tok(&self) -> bool { *self <= i64::MAX } open spec fn tis(&self, t: i64) -> bool { t == *self }
    #[verifier::external_body] fn vx_try_into(&self) -> (r: Result<i64, ExtError>) { unimplemented!() } }
pub mod p256 { use vstd::prelude::*; use super::*;
pub mod pkcs8 { pub trait DecodePublicKey {} pub trait EncodePublicKey {} pub trait DecodePrivateKey {} }
pub mod ecdsa { use vstd::prelude::*; use super::super::*;
pub mod signature { pub trait Verifier {} pub trait Signer {} }
#[verifier::external_body] pub struct VerifyingKey { _p: u8 }
#[verifier::external_body] pub struct SigningKey { _p: u8 }
#[verifier::external_body] pub struct Signature { _p: u8 }
#[verifier::external_body] pub struct DerSig { _p: u8 }
#[verifier::external_body] pub struct DerDoc { _p: u8 }
#[verifier::external_body] pub struct FieldBytes { _p: u8 }
impl FieldBytes { pub uninterp spec fn pk(&self) -> Seq<u8>; }
impl VerifyingKey {
    pub uninterp spec fn der(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from_public_key_der(b: &[u8]) -> (r: Result<Self, ExtError>)
        ensures match r { Ok(k) => der_key_ok(256, b@) && k.der() == b@, Err(_) => !der_key_ok(256, b@) } { unimplemented!() }
    #[verifier::external_body] pub fn verify(&self, msg: &[u8], sig: &Signature) -> (r: Result<(), ExtError>)
        ensures r is Ok <==> ec_ok(256, self.der(), msg@, sig.der()) { unimplemented!() }
    #[verifier::external_body] pub fn to_public_key_der(&self) -> (r: Result<DerDoc, ExtError>)
        ensures r matches Ok(d) ==> d@ == self.der() && d@.len() <= 256 { unimplemented!() }
}
impl SigningKey {
    pub uninterp spec fn pubder(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn verifying_key(&self) -> (r: &VerifyingKey) ensures r.der() == self.pubder() { unimplemented!() }
    /// ECDSA correctness: what the key signs verifies under its public key
    #[verifier::external_body] pub fn sign(&self, msg: &[u8]) -> (r: Signature)
        ensures ec_ok(256, self.pubder(), msg@, r.der()), der_sig_ok(256, r.der()), der_key_ok(256, self.pubder()), r.der().len() <= 256 { unimplemented!() }
    #[verifier::external_body] pub fn from_pkcs8_pem(b: &VStr) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(256, KeyForm::Pkcs8Pem, b@) == Some(k.pubder()), Err(_) => key_in(256, KeyForm::Pkcs8Pem, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_sec1_pem(b: &VStr) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(256, KeyForm::Sec1Pem, b@) == Some(k.pubder()), Err(_) => key_in(256, KeyForm::Sec1Pem, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_pkcs8_der(b: &[u8]) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(256, KeyForm::Pkcs8Der, b@) == Some(k.pubder()), Err(_) => key_in(256, KeyForm::Pkcs8Der, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_sec1_der(b: &[u8]) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(256, KeyForm::Sec1Der, b@) == Some(k.pubder()), Err(_) => key_in(256, KeyForm::Sec1Der, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_pkcs8_encrypted_pem(b: &VStr, pw: &[u8]) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => enc_key_in(256, b@, pw@) == Some(k.pubder()), Err(_) => enc_key_in(256, b@, pw@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: FieldBytes) ensures r.pk() == self.pubder() { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(b: &FieldBytes) -> (r: Result<Self, ExtError>) ensures r matches Ok(k) ==> k.pubder() == b.pk() { unimplemented!() }
}
impl Signature {
    pub uninterp spec fn der(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from_der(b: &[u8]) -> (r: Result<Self, ExtError>)
        ensures match r { Ok(s) => der_sig_ok(256, b@) && s.der() == b@, Err(_) => !der_sig_ok(256, b@) } { unimplemented!() }
    #[verifier::external_body] pub fn to_der(&self) -> (r: DerSig) ensures r@ == self.der() { unimplemented!() }
}
impl DerSig {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl DerDoc {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
}
}
pub mod p384 { use vstd::prelude::*; use super::*;
pub mod pkcs8 { pub trait DecodePublicKey {} pub trait EncodePublicKey {} pub trait DecodePrivateKey {} }
pub mod ecdsa { use vstd::prelude::*; use super::super::*;
pub mod signature { pub trait Verifier {} pub trait Signer {} }
#[verifier::external_body] pub struct VerifyingKey { _p: u8 }
#[verifier::external_body] pub struct SigningKey { _p: u8 }
#[verifier::external_body] pub struct Signature { _p: u8 }
#[verifier::external_body] pub struct DerSig { _p: u8 }
#[verifier::external_body] pub struct DerDoc { _p: u8 }
#[verifier::external_body] pub struct FieldBytes { _p: u8 }
impl FieldBytes { pub uninterp spec fn pk(&self) -> Seq<u8>; }
impl VerifyingKey {
    pub uninterp spec fn der(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from_public_key_der(b: &[u8]) -> (r: Result<Self, ExtError>)
        ensures match r { Ok(k) => der_key_ok(384, b@) && k.der() == b@, Err(_) => !der_key_ok(384, b@) } { unimplemented!() }
    #[verifier::external_body] pub fn verify(&self, msg: &[u8], sig: &Signature) -> (r: Result<(), ExtError>)
        ensures r is Ok <==> ec_ok(384, self.der(), msg@, sig.der()) { unimplemented!() }
    #[verifier::external_body] pub fn to_public_key_der(&self) -> (r: Result<DerDoc, ExtError>)
        ensures r matches Ok(d) ==> d@ == self.der() && d@.len() <= 256 { unimplemented!() }
}
impl SigningKey {
    pub uninterp spec fn pubder(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn verifying_key(&self) -> (r: &VerifyingKey) ensures r.der() == self.pubder() { unimplemented!() }
    /// ECDSA correctness: what the key signs verifies under its public key
    #[verifier::external_body] pub fn sign(&self, msg: &[u8]) -> (r: Signature)
        ensures ec_ok(384, self.pubder(), msg@, r.der()), der_sig_ok(384, r.der()), der_key_ok(384, self.pubder()), r.der().len() <= 256 { unimplemented!() }
    #[verifier::external_body] pub fn from_pkcs8_pem(b: &VStr) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(384, KeyForm::Pkcs8Pem, b@) == Some(k.pubder()), Err(_) => key_in(384, KeyForm::Pkcs8Pem, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_sec1_pem(b: &VStr) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(384, KeyForm::Sec1Pem, b@) == Some(k.pubder()), Err(_) => key_in(384, KeyForm::Sec1Pem, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_pkcs8_der(b: &[u8]) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(384, KeyForm::Pkcs8Der, b@) == Some(k.pubder()), Err(_) => key_in(384, KeyForm::Pkcs8Der, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_sec1_der(b: &[u8]) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => key_in(384, KeyForm::Sec1Der, b@) == Some(k.pubder()), Err(_) => key_in(384, KeyForm::Sec1Der, b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn from_pkcs8_encrypted_pem(b: &VStr, pw: &[u8]) -> (r: Result<Self, ExtError>) ensures match r { Ok(k) => enc_key_in(384, b@, pw@) == Some(k.pubder()), Err(_) => enc_key_in(384, b@, pw@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes(&self) -> (r: FieldBytes) ensures r.pk() == self.pubder() { unimplemented!() }
    #[verifier::external_body] pub fn from_bytes(b: &FieldBytes) -> (r: Result<Self, ExtError>) ensures r matches Ok(k) ==> k.pubder() == b.pk() { unimplemented!() }
}
impl Signature {
    pub uninterp spec fn der(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from_der(b: &[u8]) -> (r: Result<Self, ExtError>)
        ensures match r { Ok(s) => der_sig_ok(384, b@) && s.der() == b@, Err(_) => !der_sig_ok(384, b@) } { unimplemented!() }
    #[verifier::external_body] pub fn to_der(&self) -> (r: DerSig) ensures r@ == self.der() { unimplemented!() }
}
impl DerSig {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl DerDoc {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
}
}

pub mod time { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct SystemTime { _p: u8 }
#[verifier::external_body] pub struct Duration { _p: u8 }
pub struct Epoch { pub p: u8 }
pub const UNIX_EPOCH: Epoch = Epoch { p: 0 };
impl SystemTime {
    #[verifier::external_body] pub fn now() -> (r: SystemTime) { unimplemented!() }
    /// a clock before 1970 reads as 0
    #[verifier::external_body] pub fn duration_since(&self, e: Epoch) -> (r: Result<Duration, ExtError>) ensures match r { Ok(d) => is_now(d.secs()), Err(_) => is_now(0) } { unimplemented!() }
}
/// a reading of the clock during the operation
pub uninterp spec fn is_now(t: u64) -> bool;
impl Duration {
    pub uninterp spec fn secs(&self) -> u64;
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r == self.secs() { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) ensures r.secs() == n { unimplemented!() }
}
}

pub mod pkcs8 { pub trait DecodePrivateKey {} }
pub mod sec1 { pub trait DecodeEcPrivateKey {} }
// ---------- pem, p12
pub struct PemM { pub tag: Seq<u8>, pub data: Seq<u8> }
/// the PEM blocks of a text, in order
pub uninterp spec fn pems_in(b: Seq<u8>) -> Option<Seq<PemM>>;
/// the one PEM block of a text
pub uninterp spec fn pem_in(b: Seq<u8>) -> Option<PemM>;
pub mod pem { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct Pem { _p: u8 }
impl Pem {
    pub uninterp spec fn pm(&self) -> PemM;
    #[verifier::external_body] pub fn tag(&self) -> (r: &VStr) ensures r@ == self.pm().tag { unimplemented!() }
    #[verifier::external_body] pub fn into_contents(self) -> (r: Vec<u8>) ensures r@ == self.pm().data { unimplemented!() }
    #[verifier::external_body] pub fn contents(&self) -> (r: &[u8]) ensures r@ == self.pm().data { unimplemented!() }
}
pub open spec fn pms(s: Seq<Pem>) -> Seq<PemM> { Seq::new(s.len(), |i: int| s[i].pm()) }
#[verifier::external_body] pub fn parse_many(b: &[u8]) -> (r: Result<Vec<Pem>, ExtError>)
    ensures match r { Ok(v) => pems_in(b@) == Some(pms(v@)), Err(_) => pems_in(b@) is None } { unimplemented!() }
#[verifier::external_body] pub fn parse(b: &[u8]) -> (r: Result<Pem, ExtError>)
    ensures match r { Ok(v) => pem_in(b@) == Some(v.pm()), Err(_) => pem_in(b@) is None } { unimplemented!() }
}
/// the key and certificate bags of a PKCS12 file
pub uninterp spec fn p12_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn p12_keys(b: Seq<u8>, pw: Seq<u8>) -> Option<Seq<Seq<u8>>>;
pub uninterp spec fn p12_certs(b: Seq<u8>, pw: Seq<u8>) -> Option<Seq<Seq<u8>>>;
pub mod p12 { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct PFX { _p: u8 }
impl PFX {
    pub uninterp spec fn of(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn parse(b: &[u8]) -> (r: Result<PFX, ExtError>) ensures match r { Ok(p) => p12_ok(b@) && p.of() == b@, Err(_) => !p12_ok(b@) } { unimplemented!() }
    #[verifier::external_body] pub fn key_bags(&self, pw: &VStr) -> (r: Result<Vec<Vec<u8>>, ExtError>) ensures match r { Ok(v) => p12_keys(self.of(), pw@) == Some(vv(v@)), Err(_) => p12_keys(self.of(), pw@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn cert_x509_bags(&self, pw: &VStr) -> (r: Result<Vec<Vec<u8>>, ExtError>) ensures match r { Ok(v) => p12_certs(self.of(), pw@) == Some(vv(v@)), Err(_) => p12_certs(self.of(), pw@) is None } { unimplemented!() }
}
}
pub mod vstr { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub fn from_utf8(v: &[u8]) -> (r: Result<&VStr, ExtError>)
    ensures match r { Ok(s) => s@ == v@, Err(_) => !utf8_ok(v@) } { unimplemented!() }
}
