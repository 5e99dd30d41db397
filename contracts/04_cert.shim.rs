// ---------- std::collections::HashMap
pub mod coll { use vstd::prelude::*; use super::*;
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
}
}
// ---------- x509-cert
/// the public key (SubjectPublicKeyInfo, DER) of a certificate, if it is one
pub uninterp spec fn spki_of(der: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn cert_ok(der: Seq<u8>) -> bool;
/// the name a certificate was issued by, and the name it is for
pub uninterp spec fn issuer_of(der: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn subject_of(der: Seq<u8>) -> Seq<u8>;
pub mod x509_cert { use vstd::prelude::*; use super::*;
pub mod der { pub trait Decode {} pub trait Encode {} }
#[verifier::external_body] pub struct Name { _p: u8 }
impl Name { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Name { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Name) -> bool { self@ == o@ } }
impl PartialEq for Name { #[verifier::external_body] fn eq(&self, o: &Name) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct Spki { _p: u8 }
impl Spki {
    pub uninterp spec fn of(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn to_der(&self) -> (r: core::result::Result<Vec<u8>, ExtError>) ensures match r { Ok(v) => spki_of(self.of()) == Some(v@), Err(_) => spki_of(self.of()) is None } { unimplemented!() }
}
pub struct TbsCertificate { pub issuer: Name, pub subject: Name, pub subject_public_key_info: Spki }
pub struct Certificate { pub tbs_certificate: TbsCertificate }
impl Certificate {
    #[verifier::external_body] pub fn from_der(b: &[u8]) -> (r: core::result::Result<Certificate, ExtError>)
        ensures match r {
            Ok(c) => cert_ok(b@) && c.tbs_certificate.subject_public_key_info.of() == b@ && c.tbs_certificate.issuer@ == issuer_of(b@) && c.tbs_certificate.subject@ == subject_of(b@),
            Err(_) => !cert_ok(b@) && spki_of(b@) is None,
        } { unimplemented!() }
}
}
// ---------- rustls-pki-types, rustls-webpki
pub mod pki { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct CertificateDer { _p: u8 }
impl CertificateDer {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn from<S: VxSeq<u8>>(b: S) -> (r: CertificateDer) ensures r@ == b.sq() { unimplemented!() }
}
#[verifier::external_body] pub struct TrustAnchor<'a> { _p: &'a u8 }
#[verifier::external_body] pub struct UnixTime { _p: u8 }
impl UnixTime {
    pub uninterp spec fn secs(&self) -> u64;
    #[verifier::external_body] pub fn since_unix_epoch(d: super::time::Duration) -> (r: UnixTime) ensures r.secs() == d.secs() { unimplemented!() }
}
}
/// the anchor a root certificate makes, if it makes one
pub uninterp spec fn anchor_of(der: Seq<u8>) -> Option<pki::TrustAnchor<'static>>;
/// webpki builds a path from the certificate over the intermediates to an anchor, valid at t, fit for the usage
pub uninterp spec fn path_ok(ee: Seq<u8>, inter: Seq<Seq<u8>>, anchors: Seq<pki::TrustAnchor<'static>>, t: u64, u: webpki::Usage) -> bool;
pub open spec fn ders(s: Seq<pki::CertificateDer>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
pub mod webpki { use vstd::prelude::*; use super::*;
pub enum Usage { Code, Other(int) }
pub struct Algs { pub p: u8 }
pub exec const ALL_VERIFICATION_ALGS: &'static Algs ensures true { &Algs { p: 0 } }
#[verifier::external_body] pub struct ExtendedKeyUsage { _p: u8 }
pub type KeyUsage = ExtendedKeyUsage;
impl ExtendedKeyUsage {
    pub uninterp spec fn us(&self) -> Usage;
    #[verifier::external_body] pub fn code_signing() -> (r: ExtendedKeyUsage) ensures r.us() == Usage::Code { unimplemented!() }
    #[verifier::external_body] pub fn client_auth() -> (r: ExtendedKeyUsage) ensures r.us() == Usage::Other(1) { unimplemented!() }
    #[verifier::external_body] pub fn server_auth() -> (r: ExtendedKeyUsage) ensures r.us() == Usage::Other(2) { unimplemented!() }
}
pub enum Error { CertExpired { time: u64, not_after: u64 }, CertNotValidYet { time: u64, not_before: u64 }, UnknownIssuer, RequiredEkuNotFound(u64), BadDer, Other(u64) }
#[verifier::external_body] pub struct VerifiedPath { _p: u8 }
#[verifier::external_body] pub struct Revocation { _p: u8 }
#[verifier::external_body] pub struct EndEntityCert { _p: u8 }
impl EndEntityCert {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn try_from(d: &pki::CertificateDer) -> (r: core::result::Result<EndEntityCert, Error>)
        ensures match r { Ok(c) => c@ == d@, Err(_) => forall|i: Seq<Seq<u8>>, a: Seq<pki::TrustAnchor<'static>>, t: u64, u: Usage| !#[trigger] path_ok(d@, i, a, t, u) } { unimplemented!() }
    #[verifier::external_body] pub fn verify_for_usage(&self, g: &Algs, anchors: &[pki::TrustAnchor<'static>], inter: &[pki::CertificateDer], now: pki::UnixTime, u: &ExtendedKeyUsage, crl: Option<Revocation>, cb: Option<Revocation>) -> (r: core::result::Result<VerifiedPath, Error>)
        ensures r is Ok <==> path_ok(self@, ders(inter@), anchors@, now.secs(), u.us()) { unimplemented!() }
}
#[verifier::external_body] pub fn anchor_from_trusted_cert<'a>(d: &'a pki::CertificateDer) -> (r: core::result::Result<pki::TrustAnchor<'static>, Error>)
    ensures match r { Ok(a) => anchor_of(d@) == Some(a), Err(_) => anchor_of(d@) is None } { unimplemented!() }
}
