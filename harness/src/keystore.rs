//! C15
use crate::ctx::{die, Ctx};
use crate::gen;
use crate::keys::{bits, oid, seq, tlv, Key, K};
use crate::model::alg_id;
use ksusig::keystore::{load_certificate_der, load_private_key_der};
use ksusig::{load_p12, load_p12_from_bytes, load_pem, load_pem_from_bytes, KeystoreError, SignerCredentials};

pub fn scalar(k: &Key) -> Vec<u8> {
    match &k.k {
        K::A(k) => k.to_bytes().to_vec(),
        K::B(k) => k.to_bytes().to_vec(),
    }
}
fn curve(k: &Key) -> Vec<u8> {
    oid(if k.is256() { &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7] } else { &[0x2b, 0x81, 4, 0, 0x22] })
}
pub fn sec1(k: &Key, params: bool, public: bool) -> Vec<u8> {
    let mut p = vec![tlv(2, &[1]), tlv(4, &scalar(k))];
    if params {
        p.push(tlv(0xa0, &curve(k)));
    }
    if public {
        p.push(tlv(0xa1, &bits(&k.point())));
    }
    seq(&p)
}
pub fn pkcs8(k: &Key) -> Vec<u8> {
    let alg = seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), curve(k)]);
    seq(&[tlv(2, &[0]), alg, tlv(4, &sec1(k, false, true))])
}
pub fn encrypted(c: &mut Ctx, k: &Key, pw: &str) -> Vec<u8> {
    let salt = c.rng.bytes(8);
    let iv: [u8; 16] = c.rng.bytes(16).try_into().unwrap();
    let p = pkcs8::pkcs5::pbes2::Parameters::pbkdf2_sha256_aes256cbc(64, &salt, &iv).unwrap();
    let d = pkcs8(k);
    let info = pkcs8::PrivateKeyInfo::try_from(&d[..]).unwrap();
    info.encrypt_with_params(p, pw.as_bytes()).unwrap().as_bytes().to_vec()
}
pub fn pem(tag: &str, der: &[u8]) -> String {
    use base64::Engine;
    let b = base64::engine::general_purpose::STANDARD.encode(der);
    let mut o = format!("-----BEGIN {tag}-----\n");
    for l in b.as_bytes().chunks(64) {
        o += std::str::from_utf8(l).unwrap();
        o.push('\n');
    }
    o + &format!("-----END {tag}-----\n")
}
fn same_key(s: &SignerCredentials, k: &Key) -> bool {
    alg_id(&s.algorithm) == k.alg() && s.private_key.public_key_der().is_ok_and(|p| p == k.spki()) && matches!((&s.private_key, k.is256()), (ksusig::PrivateKey::EcdsaP256(_), true) | (ksusig::PrivateKey::EcdsaP384(_), false))
}
fn forms(c: &mut Ctx, k: &Key, pw: &str) -> Vec<(String, bool, &'static str)> {
    let enc = encrypted(c, k, pw);
    vec![
        (pem("PRIVATE KEY", &pkcs8(k)), false, "PKCS8"),
        (pem("EC PRIVATE KEY", &sec1(k, true, true)), false, "SEC1"),
        (pem("EC PRIVATE KEY", &sec1(k, true, false)), false, "SEC1 without public key"),
        (pem("EC PRIVATE KEY", &sec1(k, false, false)), false, "SEC1 without parameters"),
        (pem("ENCRYPTED PRIVATE KEY", &enc), true, "encrypted PKCS8"),
    ]
}

pub fn c15(c: &mut Ctx) {
    let keys = crate::keys::Keys::new(c);
    c.group("key encodings and passwords");
    let cert0 = b"certificate".to_vec();
    let cert_pem = pem("CERTIFICATE", &cert0);
    let pws = ["secret", "", "a", "\u{4e2d}\u{6587}", "pass word", "0123456789012345678901234567890123456789"];
    for round in 0..c.n(2) {
        for k in &keys.all {
            for pw in pws {
                for (p, enc, what) in forms(c, k, pw) {
                    for given in [None, Some(pw), Some("wrong"), Some("")] {
                        c.case(format!("{what} key, {}, password {pw:?}, given {given:?} ({round})", k.name), &[("key", p.as_bytes())]);
                        let r = c.run("load_pem_from_bytes", || load_pem_from_bytes(p.as_bytes(), cert_pem.as_bytes(), given));
                        let ok = !enc || given == Some(pw);
                        match r {
                            Ok(s) => {
                                c.check(ok, || "an encrypted key loads without its password".into());
                                c.check(same_key(&s, k), || format!("another key or algorithm is loaded (algorithm {:#x})", alg_id(&s.algorithm)));
                                c.check(s.certificate == cert0 && s.cert_chain.is_empty(), || "another certificate is loaded".into());
                            }
                            Err(e) => {
                                c.check(!ok || what.contains("without"), || format!("a supported key does not load: {e}"));
                            }
                        }
                        if !enc {
                            break;
                        }
                    }
                }
            }
            for (d, what) in [(pkcs8(k), "PKCS8"), (sec1(k, true, true), "SEC1"), (sec1(k, false, false), "SEC1 without parameters")] {
                c.case(format!("{what} DER, {}", k.name), &[("key", &d)]);
                match c.run("load_private_key_der", || load_private_key_der(&d)) {
                    Ok((p, a)) => c.check(same_key(&SignerCredentials::new(p, vec![], a, vec![]), k), || "another key or algorithm is loaded".into()),
                    Err(e) => c.check(what.contains("without"), || format!("a supported key does not load: {e}")),
                }
                for _ in 0..30 {
                    let m = gen::mutate(c, &d);
                    if m == d {
                        continue;
                    }
                    c.case(format!("damaged {what} DER, {}", k.name), &[("key", &m)]);
                    if let Ok((p, a)) = c.run("load_private_key_der", || load_private_key_der(&m)) {
                        let cr = SignerCredentials::new(p, vec![], a, vec![]);
                        c.check(matches!((&cr.private_key, alg_id(&cr.algorithm)), (ksusig::PrivateKey::EcdsaP256(_), 0x0201) | (ksusig::PrivateKey::EcdsaP384(_), 0x0202)), || "a key comes with the algorithm of another curve".into());
                    }
                }
            }
        }
    }
    c.group("unsupported keys");
    let rsa = seq(&[tlv(2, &[0]), seq(&[oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), tlv(5, &[])]), tlv(4, &seq(&[tlv(2, &[0]), tlv(2, &[3])]))]);
    let ed = seq(&[tlv(2, &[0]), seq(&[oid(&[0x2b, 0x65, 0x70])]), tlv(4, &tlv(4, &[7; 32]))]);
    let p521 = seq(&[tlv(2, &[0]), seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), oid(&[0x2b, 0x81, 4, 0, 0x23])]), tlv(4, &seq(&[tlv(2, &[1]), tlv(4, &[3; 66])]))]);
    let k1 = seq(&[tlv(2, &[0]), seq(&[oid(&[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), oid(&[0x2b, 0x81, 4, 0, 0x0a])]), tlv(4, &seq(&[tlv(2, &[1]), tlv(4, &[3; 32])]))]);
    let zero = Key::p256("zero", 1);
    let mut zero_der = pkcs8(&zero);
    let s = scalar(&zero);
    if let Some(at) = zero_der.windows(32).position(|w| w == &s[..]) {
        zero_der[at..at + 32].fill(0);
    }
    for (d, what) in [(rsa, "RSA"), (ed, "Ed25519"), (p521, "P-521"), (k1, "secp256k1"), (zero_der, "zero scalar"), (vec![], "empty"), (vec![0x30, 0], "empty sequence")] {
        c.case(format!("{what} key"), &[("key", &d)]);
        c.check(c.run("load_private_key_der", || load_private_key_der(&d)).is_err(), || format!("a {what} key loads"));
        for t in ["PRIVATE KEY", "EC PRIVATE KEY", "ENCRYPTED PRIVATE KEY", "RSA PRIVATE KEY"] {
            for pw in [None, Some("x")] {
                let p = pem(t, &d);
                c.check(c.run("load_pem_from_bytes", || load_pem_from_bytes(p.as_bytes(), cert_pem.as_bytes(), pw)).is_err(), || format!("a {what} key loads"));
            }
        }
    }
    c.case("encrypted key without password", &[]);
    let e = pem("ENCRYPTED PRIVATE KEY", &encrypted(c, &keys.all[0], "p"));
    c.check(matches!(load_pem_from_bytes(e.as_bytes(), cert_pem.as_bytes(), None), Err(KeystoreError::PasswordRequired)), || "a missing password is not reported".into());
    c.check(load_certificate_der(&[]).is_err() && load_certificate_der(&[1, 2]).is_ok_and(|v| v == [1, 2]), || "load_certificate_der".into());

    c.group("certificate files");
    let key_pem = pem("PRIVATE KEY", &pkcs8(&keys.all[1]));
    let mut tags = vec!["CERTIFICATE".to_string(), "CERTIFICATE".into(), "CERTIFICATE".into(), "PRIVATE KEY".into(), "X509 CRL".into(), "TRUSTED CERTIFICATE".into(), "CERTIFICATE REQUEST".into(), "certificate".into(), "PUBLIC KEY".into(), "X509 CERTIFICATE".into()];
    for s in c.mined.new_strs.clone() {
        if let Ok(t) = String::from_utf8(s) {
            if !t.is_empty() && t.len() < 40 && t.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') {
                tags.push(t);
            }
        }
    }
    let dup = c.rng.bytes(30);
    for i in 0..c.n(1500) {
        if i % 64 == 0 && !c.time_left() {
            break;
        }
        let n = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => 10 + c.rng.us(30),
            _ => c.rng.us(6),
        };
        let mut text = String::new();
        let mut want: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            let tag = c.rng.pick(&tags).clone();
            let d = match c.rng.below(6) {
                0 => dup.clone(),
                1 => want.last().cloned().unwrap_or_default(),
                2 => want.first().cloned().unwrap_or_else(|| vec![1]),
                _ => {
                    let k = 1 + c.rng.us(300);
                    c.rng.bytes(k)
                }
            };
            let d = if d.is_empty() { vec![9] } else { d };
            match c.rng.below(6) {
                0 => text += "\n\n",
                1 => text += "subject=/CN=some text\nissuer=/CN=other\n",
                2 => text += "# comment\r\n",
                _ => {}
            }
            let p = pem(&tag, &d);
            text += &if c.rng.chance(1, 5) { p.replace('\n', "\r\n") } else { p };
            if tag == "CERTIFICATE" {
                want.push(d);
            }
        }
        c.case(format!("certificate file with {n} blocks, {} certificates", want.len()), &[("certs", text.as_bytes())]);
        match c.run("load_pem_from_bytes", || load_pem_from_bytes(key_pem.as_bytes(), text.as_bytes(), None)) {
            Ok(s) => {
                c.check(!want.is_empty(), || "a certificate is loaded from a file without any".into());
                c.check(s.certificate == want[0], || "the first certificate does not become the signing certificate".into());
                c.check(s.cert_chain == want[1..], || format!("the chain has {} certificates instead of the {} others in order", s.cert_chain.len(), want.len() - 1));
                c.check(same_key(&s, &keys.all[1]), || "another key".into());
                let cfg = ksusig::ModuleSignerConfig::from_credentials(s);
                c.check(cfg.certificate == want[0] && cfg.cert_chain == want[1..] && alg_id(&cfg.algorithm) == 0x0202, || "from_credentials mixes them up".into());
            }
            Err(e) => c.check(want.is_empty(), || format!("certificates do not load: {e}")),
        }
    }
    c.group("files");
    for k in &keys.all {
        let (kp, cp) = (c.scratch.join("k.pem"), c.scratch.join("c.pem"));
        let chain = format!("{}{}", pem("CERTIFICATE", b"one"), pem("CERTIFICATE", b"two"));
        std::fs::write(&kp, pem("PRIVATE KEY", &pkcs8(k))).unwrap();
        std::fs::write(&cp, chain).unwrap();
        c.case(format!("load_pem, {}", k.name), &[]);
        match c.run("load_pem", || load_pem(kp.to_str().unwrap(), cp.to_str().unwrap(), None)) {
            Ok(s) => c.check(same_key(&s, k) && s.certificate == b"one" && s.cert_chain == [b"two".to_vec()], || "load_pem mixes credentials up".into()),
            Err(e) => die(&format!("load_pem: {e}")),
        }
        c.check(load_pem(cp.to_str().unwrap(), kp.to_str().unwrap(), None).is_err(), || "key and certificate swapped".into());
    }
    c.group("PKCS12");
    for i in 0..c.n(60) {
        if !c.time_left() {
            break;
        }
        let k = &keys.all[i % 4];
        let n = c.rng.us(6);
        let mut cas: Vec<Vec<u8>> = (0..n).map(|_| { let k = 1 + c.rng.us(60); seq(&[tlv(4, &c.rng.bytes(k))]) }).collect();
        let cert = seq(&[tlv(4, &c.rng.bytes(40))]);
        if n > 2 && c.rng.chance(1, 2) {
            cas[1] = cert.clone();
            cas[2] = cas[0].clone();
        }
        let pw = *c.rng.pick(&["secret", "", "\u{4e2d}", "x y"]);
        let refs: Vec<&[u8]> = cas.iter().map(|v| &v[..]).collect();
        let Some(pfx) = p12::PFX::new_with_cas(&cert, &pkcs8(k), &refs, pw, "n") else { continue };
        let d = pfx.to_der();
        c.case(format!("PKCS12 with {} certificates, {}, password {pw:?}", n + 1, k.name), &[("p12", &d)]);
        match c.run("load_p12_from_bytes", || load_p12_from_bytes(&d, pw)) {
            Ok(s) => {
                c.check(same_key(&s, k), || "another key or algorithm is loaded".into());
                c.check(s.certificate == cert && s.cert_chain == cas, || "certificates are mixed up".into());
            }
            Err(e) => die(&format!("a PKCS12 store does not load: {e}")),
        }
        for w in ["wrong", "", "secret ", "Secret"] {
            if w != pw {
                c.check(c.run("load_p12_from_bytes", || load_p12_from_bytes(&d, w)).is_err(), || format!("a PKCS12 store loads with the password {w:?}"));
            }
        }
        if i < 4 {
            let p = c.scratch.join("s.p12");
            std::fs::write(&p, &d).unwrap();
            c.check(load_p12(p.to_str().unwrap(), pw).is_ok_and(|s| same_key(&s, k) && s.certificate == cert), || "load_p12".into());
        }
    }
    // an RSA key inside
    if let Some(p) = p12::PFX::new_with_cas(b"\x30\x00", &seq(&[tlv(2, &[0]), seq(&[oid(&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), tlv(5, &[])]), tlv(4, &[0x30, 0])]), &[], "p", "n") {
        c.case("PKCS12 with an unsupported key", &[]);
        c.check(load_p12_from_bytes(&p.to_der(), "p").is_err(), || "an unsupported key loads".into());
    }
    c.group("end");
}
