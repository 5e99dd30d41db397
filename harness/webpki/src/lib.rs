//! A small stand-in for the KernelSU fork of rustls-webpki: the calls verifier.rs makes, with real path
//! building over ECDSA certificates (validity, CA flag, issuer/subject, signatures, codeSigning usage).
#![allow(clippy::all)]
use rustls_pki_types::{CertificateDer, Der, TrustAnchor, UnixTime};
use x509_cert::der::{oid::ObjectIdentifier, Decode, Encode};
use x509_cert::Certificate;

#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    BadDer,
    CertExpired { time: u64, not_after: u64 },
    CertNotValidYet { time: u64, not_before: u64 },
    UnknownIssuer,
    RequiredEkuNotFound(String),
    InvalidSignatureForPublicKey,
}

#[derive(Debug)]
pub struct Alg;
pub static ALL_VERIFICATION_ALGS: &[&Alg] = &[&Alg];

#[derive(Debug, Clone)]
pub struct ExtendedKeyUsage(ObjectIdentifier);
impl ExtendedKeyUsage {
    pub fn code_signing() -> Self {
        Self(ObjectIdentifier::new_unwrap("1.3.6.1.5.5.7.3.3"))
    }
    pub fn server_auth() -> Self {
        Self(ObjectIdentifier::new_unwrap("1.3.6.1.5.5.7.3.1"))
    }
    pub fn client_auth() -> Self {
        Self(ObjectIdentifier::new_unwrap("1.3.6.1.5.5.7.3.2"))
    }
}
pub type KeyUsage = ExtendedKeyUsage;

#[derive(Debug)]
pub struct VerifiedPath;
#[derive(Debug)]
pub struct RevocationOptions;
pub type PathCallback<'a> = &'a dyn Fn(&VerifiedPath) -> Result<(), Error>;

fn spki_of(c: &Certificate) -> Vec<u8> {
    c.tbs_certificate.subject_public_key_info.to_der().unwrap_or_default()
}

pub fn anchor_from_trusted_cert<'a>(cert: &'a CertificateDer<'a>) -> Result<TrustAnchor<'a>, Error> {
    let c = Certificate::from_der(cert.as_ref()).map_err(|_| Error::BadDer)?;
    Ok(TrustAnchor {
        subject: Der::from(c.tbs_certificate.subject.to_der().map_err(|_| Error::BadDer)?).into_owned2(),
        subject_public_key_info: Der::from(spki_of(&c)).into_owned2(),
        name_constraints: None,
    })
}

trait IntoOwned2 {
    fn into_owned2(self) -> Der<'static>;
}
impl IntoOwned2 for Der<'_> {
    fn into_owned2(self) -> Der<'static> {
        Der::from(self.as_ref().to_vec())
    }
}

fn sig_ok(spki: &[u8], c: &Certificate) -> bool {
    let Ok(tbs) = c.tbs_certificate.to_der() else { return false };
    let Some(sig) = c.signature.as_bytes() else { return false };
    match c.signature_algorithm.oid.to_string().as_str() {
        "1.2.840.10045.4.3.2" => {
            use p256::ecdsa::{signature::Verifier, Signature, VerifyingKey};
            use p256::pkcs8::DecodePublicKey;
            let (Ok(k), Ok(s)) = (VerifyingKey::from_public_key_der(spki), Signature::from_der(sig)) else {
                return false;
            };
            k.verify(&tbs, &s).is_ok()
        }
        "1.2.840.10045.4.3.3" => {
            use p384::ecdsa::{signature::Verifier, Signature, VerifyingKey};
            use p384::pkcs8::DecodePublicKey;
            let (Ok(k), Ok(s)) = (VerifyingKey::from_public_key_der(spki), Signature::from_der(sig)) else {
                return false;
            };
            k.verify(&tbs, &s).is_ok()
        }
        _ => false,
    }
}

fn valid_at(c: &Certificate, now: u64) -> Result<(), Error> {
    let v = &c.tbs_certificate.validity;
    let (b, a) = (v.not_before.to_unix_duration().as_secs(), v.not_after.to_unix_duration().as_secs());
    if now < b {
        return Err(Error::CertNotValidYet { time: now, not_before: b });
    }
    if now > a {
        return Err(Error::CertExpired { time: now, not_after: a });
    }
    Ok(())
}

fn is_ca(c: &Certificate) -> bool {
    let oid = ObjectIdentifier::new_unwrap("2.5.29.19");
    c.tbs_certificate.extensions.iter().flatten().any(|e| {
        e.extn_id == oid && e.extn_value.as_bytes().windows(3).any(|w| w == [0x01, 0x01, 0xff])
    })
}

fn has_eku(c: &Certificate, want: &ObjectIdentifier) -> bool {
    let oid = ObjectIdentifier::new_unwrap("2.5.29.37");
    let w = want.to_der().unwrap_or_default();
    c.tbs_certificate
        .extensions
        .iter()
        .flatten()
        .any(|e| e.extn_id == oid && e.extn_value.as_bytes().windows(w.len()).any(|x| x == w))
}

pub struct EndEntityCert<'a> {
    cert: Certificate,
    _p: std::marker::PhantomData<&'a ()>,
}

impl<'a> TryFrom<&'a CertificateDer<'a>> for EndEntityCert<'a> {
    type Error = Error;
    fn try_from(d: &'a CertificateDer<'a>) -> Result<Self, Error> {
        Ok(Self { cert: Certificate::from_der(d.as_ref()).map_err(|_| Error::BadDer)?, _p: std::marker::PhantomData })
    }
}

impl<'a> EndEntityCert<'a> {
    pub fn verify_for_usage(
        &self,
        _algs: &[&Alg],
        anchors: &[TrustAnchor<'_>],
        intermediates: &[CertificateDer<'_>],
        time: UnixTime,
        usage: &ExtendedKeyUsage,
        _revocation: Option<RevocationOptions>,
        _verify_path: Option<PathCallback<'_>>,
    ) -> Result<VerifiedPath, Error> {
        let now = time.as_secs();
        valid_at(&self.cert, now)?;
        if !has_eku(&self.cert, &usage.0) {
            return Err(Error::RequiredEkuNotFound(usage.0.to_string()));
        }
        let inter: Vec<Certificate> =
            intermediates.iter().filter_map(|c| Certificate::from_der(c.as_ref()).ok()).collect();
        build(&self.cert, anchors, &inter, now, 0)
    }
}

fn build(c: &Certificate, anchors: &[TrustAnchor<'_>], inter: &[Certificate], now: u64, depth: usize) -> Result<VerifiedPath, Error> {
    if depth > 6 {
        return Err(Error::UnknownIssuer);
    }
    let issuer = c.tbs_certificate.issuer.to_der().map_err(|_| Error::BadDer)?;
    let mut err = Error::UnknownIssuer;
    for a in anchors {
        if a.subject.as_ref() == issuer.as_slice() {
            if sig_ok(a.subject_public_key_info.as_ref(), c) {
                return Ok(VerifiedPath);
            }
            err = Error::InvalidSignatureForPublicKey;
        }
    }
    for i in inter {
        if i.tbs_certificate.subject.to_der().ok().as_deref() == Some(&issuer) && is_ca(i) && sig_ok(&spki_of(i), c) {
            valid_at(i, now)?;
            match build(i, anchors, inter, now, depth + 1) {
                Ok(p) => return Ok(p),
                Err(e) => err = e,
            }
        }
    }
    Err(err)
}
