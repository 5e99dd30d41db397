//! Keys, certificates (own DER writer) and independent ECDSA verification.
use crate::blocks::{sha256, sha512};
use crate::ctx::Ctx;
use ksusig::PrivateKey;

#[derive(Clone)]
pub struct Key {
    pub name: String,
    pub k: K,
}
#[derive(Clone)]
pub enum K {
    A(p256::SecretKey),
    B(p384::SecretKey),
}
impl Key {
    pub fn p256(name: &str, seed: u64) -> Self {
        let mut r = crate::ctx::Rng(seed);
        loop {
            if let Ok(k) = p256::SecretKey::from_slice(&r.bytes(32)) {
                return Key { name: name.into(), k: K::A(k) };
            }
        }
    }
    pub fn p384(name: &str, seed: u64) -> Self {
        let mut r = crate::ctx::Rng(seed);
        loop {
            if let Ok(k) = p384::SecretKey::from_slice(&r.bytes(48)) {
                return Key { name: name.into(), k: K::B(k) };
            }
        }
    }
    pub fn is256(&self) -> bool {
        matches!(self.k, K::A(_))
    }
    pub fn alg(&self) -> u32 {
        if self.is256() { 0x0201 } else { 0x0202 }
    }
    pub fn private(&self) -> PrivateKey {
        match &self.k {
            K::A(k) => PrivateKey::EcdsaP256(k.into()),
            K::B(k) => PrivateKey::EcdsaP384(k.into()),
        }
    }
    pub fn point(&self) -> Vec<u8> {
        match &self.k {
            K::A(k) => p256::EncodedPoint::from(k.public_key()).as_bytes().to_vec(),
            K::B(k) => {
                use p384::elliptic_curve::sec1::ToEncodedPoint;
                k.public_key().to_encoded_point(false).as_bytes().to_vec()
            }
        }
    }
    pub fn spki(&self) -> Vec<u8> {
        let curve: &[u8] = if self.is256() { &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7] } else { &[0x2b, 0x81, 4, 0, 0x22] };
        let alg = seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), oid(curve)]);
        seq(&[alg, bits(&self.point())])
    }
    /// ECDSA over the usual hash of the curve (for certificates)
    pub fn ecdsa(&self, m: &[u8]) -> Vec<u8> {
        match &self.k {
            K::A(k) => {
                use p256::ecdsa::signature::Signer;
                let s: p256::ecdsa::Signature = p256::ecdsa::SigningKey::from(k).sign(m);
                s.to_der().as_bytes().to_vec()
            }
            K::B(k) => {
                use p384::ecdsa::signature::Signer;
                let s: p384::ecdsa::Signature = p384::ecdsa::SigningKey::from(k).sign(m);
                s.to_der().as_bytes().to_vec()
            }
        }
    }
    /// a signature as the signing block wants it
    pub fn sign_block(&self, m: &[u8]) -> Vec<u8> {
        if self.is256() { self.ecdsa(&sha256(m)) } else { self.ecdsa(&sha512(m)) }
    }
}

/// Does `sig` verify as algorithm `a` (0x0201 / 0x0202) over `m` with the key `spki`?
pub fn verify(a: u32, spki: &[u8], m: &[u8], sig: &[u8]) -> bool {
    match a {
        0x0201 => {
            use p256::ecdsa::signature::Verifier;
            use p256::pkcs8::DecodePublicKey;
            let (Ok(k), Ok(s)) = (p256::ecdsa::VerifyingKey::from_public_key_der(spki), p256::ecdsa::Signature::from_der(sig)) else { return false };
            k.verify(&sha256(m), &s).is_ok()
        }
        0x0202 => {
            use p384::ecdsa::signature::Verifier;
            use p384::pkcs8::DecodePublicKey;
            let (Ok(k), Ok(s)) = (p384::ecdsa::VerifyingKey::from_public_key_der(spki), p384::ecdsa::Signature::from_der(sig)) else { return false };
            k.verify(&sha512(m), &s).is_ok()
        }
        _ => false,
    }
}

// ---- DER ----
pub fn tlv(t: u8, v: &[u8]) -> Vec<u8> {
    let mut o = vec![t];
    match v.len() {
        n if n < 128 => o.push(n as u8),
        n if n < 256 => o.extend([0x81, n as u8]),
        n => o.extend([0x82, (n >> 8) as u8, n as u8]),
    }
    o.extend(v);
    o
}
pub fn seq(v: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &v.concat())
}
pub fn oid(b: &[u8]) -> Vec<u8> {
    tlv(6, b)
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0u8][..], b].concat())
}
pub fn name_der(cn: &str) -> Vec<u8> {
    let atv = seq(&[oid(&[0x55, 4, 3]), tlv(0x0c, cn.as_bytes())]);
    seq(&[tlv(0x31, &atv)])
}
pub struct CertOpt<'a> {
    pub subject: &'a str,
    pub issuer: &'a str,
    pub key: &'a Key,
    pub signer: &'a Key,
    pub ca: bool,
    pub eku: bool,
    pub from: &'a str,
    pub to: &'a str,
    pub serial: u8,
}
pub fn cert(o: &CertOpt<'_>) -> Vec<u8> {
    let sigalg = seq(&[oid(if o.signer.is256() { &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2] } else { &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3] })]);
    let mut exts = vec![];
    if o.ca {
        exts.push(seq(&[oid(&[0x55, 0x1d, 0x13]), tlv(1, &[0xff]), tlv(4, &seq(&[tlv(1, &[0xff])]))]));
    }
    if o.eku {
        exts.push(seq(&[oid(&[0x55, 0x1d, 0x25]), tlv(4, &seq(&[oid(&[0x2b, 6, 1, 5, 5, 7, 3, 3])]))]));
    }
    let mut parts = vec![
        tlv(0xa0, &tlv(2, &[2])),
        tlv(2, &[o.serial.max(1) & 0x7f]),
        sigalg.clone(),
        name_der(o.issuer),
        seq(&[tlv(0x18, o.from.as_bytes()), tlv(0x18, o.to.as_bytes())]),
        name_der(o.subject),
        o.key.spki(),
    ];
    if !exts.is_empty() {
        parts.push(tlv(0xa3, &seq(&exts)));
    }
    let tbs = seq(&parts);
    let sig = o.signer.ecdsa(&tbs);
    seq(&[tbs, sigalg, bits(&sig)])
}

#[allow(clippy::too_many_arguments)]
fn base(subject: &str, issuer: &str, key: &Key, signer: &Key, ca: bool, eku: bool, from: &str, to: &str, serial: u8) -> Vec<u8> {
    cert(&CertOpt { subject, issuer, key, signer, ca, eku, from, to, serial })
}

pub struct Keys {
    pub all: Vec<Key>,
}
impl Keys {
    pub fn new(c: &mut Ctx) -> Self {
        let s = c.rng.next();
        Keys { all: vec![Key::p256("first P-256", s ^ 1), Key::p384("first P-384", s ^ 2), Key::p256("second P-256", s ^ 3), Key::p384("second P-384", s ^ 4)] }
    }
}

/// A small public key infrastructure.
pub struct Pki {
    pub root_key: Key,
    pub root: Vec<u8>,
    pub mid_key: Key,
    pub mid: Vec<u8>,
    pub ids: Vec<Id>,
}
#[derive(Clone)]
pub struct Id {
    pub what: &'static str,
    pub key: Key,
    pub cert: Vec<u8>,
    pub chain: Vec<Vec<u8>>,
    /// path to the root exists, dates and usage are right
    pub trusted_v2: bool,
    pub trusted_stamp: bool,
}
impl Pki {
    pub fn new(c: &mut Ctx) -> Self {
        let s = c.rng.next() | 1;
        let root_key = Key::p384("root", s.wrapping_mul(3));
        let mid_key = Key::p256("intermediate", s.wrapping_mul(5));
        let other_root = Key::p256("other root", s.wrapping_mul(7));
        let (f, t) = ("20200101000000Z", "20491231235959Z");
        
        let root = base("Root", "Root", &root_key, &root_key, true, false, f, t, 1);
        let mid = base("Mid", "Root", &mid_key, &root_key, true, false, f, t, 2);
        let mut ids = vec![];
        let mut n = 0u64;
        let mut k = |p256: bool| {
            n += 1;
            if p256 { Key::p256("signer", s.wrapping_mul(1000 + n)) } else { Key::p384("signer", s.wrapping_mul(1000 + n)) }
        };
        for p256 in [true, false] {
            let key = k(p256);
            ids.push(Id { what: "signed by the root", cert: base("Leaf1", "Root", &key, &root_key, false, true, f, t, 3), key, chain: vec![], trusted_v2: true, trusted_stamp: true });
            let key = k(p256);
            ids.push(Id { what: "signed by the intermediate", cert: base("Leaf2", "Mid", &key, &mid_key, false, true, f, t, 4), key, chain: vec![mid.clone()], trusted_v2: true, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "signed by the intermediate, chain with the root", cert: base("Leaf3", "Mid", &key, &mid_key, false, true, f, t, 5), key, chain: vec![mid.clone(), root.clone()], trusted_v2: true, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "expired", cert: base("Leaf4", "Root", &key, &root_key, false, true, f, "20210101000000Z", 6), key, chain: vec![], trusted_v2: false, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "not yet valid", cert: base("Leaf5", "Root", &key, &root_key, false, true, "20480101000000Z", t, 7), key, chain: vec![], trusted_v2: false, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "without the codeSigning usage", cert: base("Leaf6", "Root", &key, &root_key, false, false, f, t, 8), key, chain: vec![], trusted_v2: false, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "self-signed, unknown", cert: base("Self", "Self", &key, &key, false, true, f, t, 9), key, chain: vec![], trusted_v2: false, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "unknown root", cert: base("Leaf7", "Other", &key, &other_root, false, true, f, t, 10), key, chain: vec![base("Other", "Other", &other_root, &other_root, true, false, f, t, 11)], trusted_v2: false, trusted_stamp: false });
            let key = k(p256);
            ids.push(Id { what: "forged issuer name", cert: base("Leaf8", "Root", &key, &other_root, false, true, f, t, 12), key, chain: vec![], trusted_v2: false, trusted_stamp: false });
        }
        ids.push(Id { what: "the root itself", key: root_key.clone(), cert: root.clone(), chain: vec![], trusted_v2: true, trusted_stamp: true });
        Pki { root_key, root, mid_key, mid, ids }
    }
}
