//! C11, C12: verification against an independent reference verifier.
use crate::ctx::{die, Ctx};
use crate::gen;
use crate::keys::{self, Id, Key, Pki};
use crate::model::*;
use ksusig::verifier::{CertChainVerifier, DigestContext, SignatureVerifier, TrustedRoots, VerifyAllResult, VerifyError, VerifyResult};
use ksusig::{Module, SigningBlock};

/// A signer as an honest signing tool makes it.
pub fn signed(id: &Id, digests: &[(u32, Vec<u8>)], v2: bool) -> Sgn {
    let mut certs = vec![id.cert.clone()];
    if v2 {
        certs.extend(id.chain.clone());
    }
    let sd = SD { digests: digests.to_vec(), certs, attrs: vec![] };
    resign(Sgn { sd, sigs: vec![], pk: id.key.spki() }, &id.key, &[id.key.alg()], v2)
}
fn resign(mut s: Sgn, key: &Key, algs: &[u32], v2: bool) -> Sgn {
    let m = if v2 { v2_signed(&s.sd) } else { stamp_signed(&s.sd) };
    s.sigs = algs.iter().map(|a| (*a, key.sign_block(&m))).collect();
    s
}

type Dctx = Option<Vec<(u32, Vec<u8>)>>;
fn dctx(d: &Dctx) -> Option<DigestContext> {
    d.as_ref().map(|v| {
        let mut x = DigestContext::new();
        for (a, b) in v {
            x.add_digest(*a, b.clone());
        }
        x
    })
}
fn supplied(d: &Dctx, a: u32) -> Option<&Vec<u8>> {
    d.as_ref().and_then(|v| v.iter().rev().find(|x| x.0 == a)).map(|x| &x.1)
}
fn spki_of(cert: &[u8]) -> Option<Vec<u8>> {
    use x509_cert::der::{Decode, Encode};
    let c = x509_cert::Certificate::from_der(cert).ok()?;
    c.tbs_certificate.subject_public_key_info.to_der().ok()
}

#[derive(Default, Debug, Clone, PartialEq)]
struct Verdict {
    err: bool,
    sig: bool,
    dig: bool,
    chain: bool,
    trust: bool,
}
/// what the property says about one signer
fn judge(s: &Sgn, d: &Dctx, v: &CertChainVerifier, v2: bool) -> Verdict {
    let mut r = Verdict { sig: !s.sigs.is_empty(), ..Default::default() };
    let m = if v2 { v2_signed(&s.sd) } else { stamp_signed(&s.sd) };
    for (a, sig) in &s.sigs {
        let dg = s.sd.digests.iter().find(|x| x.0 == *a);
        if v2 && dg.is_none() {
            r.sig = false;
            r.dig = false;
            break;
        }
        if !keys::verify(*a, &s.pk, &m, sig) {
            r.sig = false;
            r.err = true;
            break;
        }
        if let (Some(dg), true) = (dg, d.is_some()) {
            if supplied(d, *a) == Some(&dg.1) {
                r.dig = true;
            } else {
                r.err = true;
            }
        }
    }
    match s.sd.certs.first() {
        Some(c) if spki_of(c).as_ref() == Some(&s.pk) => {
            let chain: &[Vec<u8>] = if v2 { &s.sd.certs[1..] } else { &[] };
            let (a, b, _) = v.verify_chain(c, chain);
            r.chain = a;
            r.trust = b;
        }
        _ => r.err = true,
    }
    r
}
fn judge_all(v: &[Verdict]) -> Option<Verdict> {
    if v.is_empty() {
        return None;
    }
    Some(Verdict { err: v.iter().any(|x| x.err), sig: v.iter().all(|x| x.sig), dig: v.iter().all(|x| x.dig), chain: v.iter().all(|x| x.chain), trust: v.iter().all(|x| x.trust) })
}
fn compare(c: &Ctx, got: &Result<VerifyResult, VerifyError>, want: &Option<Verdict>, what: &str) {
    match (got, want) {
        (Err(VerifyError::NoSignature), None) => {}
        (_, None) => die(&format!("{what}: nothing to verify, but the result is {got:?}")),
        (Err(VerifyError::NoSignature), Some(_)) => die(&format!("{what}: a signature is present, but the result is NoSignature")),
        (Err(e), Some(w)) => c.check(w.err, || format!("{what}: every check passes, but the result is the error {e}")),
        (Ok(r), Some(w)) => {
            c.check(!w.err, || format!("{what}: a check fails ({w:?}), but verification succeeds: signature {} digest {} chain {} trusted {}", r.signature_valid, r.digest_valid, r.cert_chain_valid, r.is_trusted));
            c.check(r.signature_valid == w.sig, || format!("{what}: signature_valid is {}", r.signature_valid));
            c.check(r.digest_valid == w.dig, || format!("{what}: digest_valid is {}", r.digest_valid));
            c.check(r.cert_chain_valid == w.chain, || format!("{what}: cert_chain_valid is {}", r.cert_chain_valid));
            c.check(r.is_trusted == w.trust, || format!("{what}: is_trusted is {}", r.is_trusted));
        }
    }
}
fn roots(v: &[Vec<u8>]) -> TrustedRoots {
    let mut r = TrustedRoots::new();
    for x in v {
        r.add_root(x.clone());
    }
    r
}
fn one(c: &mut Ctx, content: &[Ent], d: &Dctx, root: &[Vec<u8>], desc: &str) {
    // as built, and as read back from its bytes
    let Ok(sb) = SigningBlock::new(lib_content(content)) else { return };
    let bytes = enc_block(content);
    let back = SigningBlock::from_u8(&bytes).ok();
    c.case(format!("{desc}; digests supplied: {}", match d { None => "none".into(), Some(v) => format!("{:x?}", v.iter().map(|x| x.0).collect::<Vec<_>>()) }), &[("block", &bytes)]);
    let cv = CertChainVerifier::new(roots(root));
    let v2: Vec<Verdict> = content.iter().flat_map(|e| if let Ent::V2(s) = e { s.clone() } else { vec![] }).map(|s| judge(&s, d, &cv, true)).collect();
    let st: Vec<Verdict> = content.iter().filter_map(|e| if let Ent::Stamp(s) = e { Some(s) } else { None }).take(1).map(|s| judge(s, d, &cv, false)).collect();
    let (w2, ws) = (judge_all(&v2), judge_all(&st));
    let x = dctx(d);
    let ver = SignatureVerifier::with_trusted_roots(roots(root));
    for (b, how) in [(Some(sb), "as built"), (back, "as read back")] {
        let Some(b) = b else { continue };
        let r2 = c.run("verify_v2_with_digest", || ver.verify_v2_with_digest(&b, x.as_ref()));
        compare(c, &r2, &w2, &format!("v2, {how}"));
        if let Ok(r) = &r2 {
            c.check(r.signers.len() == v2.len(), || format!("{} signers, {} results", v2.len(), r.signers.len()));
            for (i, (s, v)) in r.signers.iter().zip(&v2).enumerate() {
                c.check(s.signature_valid == v.sig && s.digest_valid == v.dig && s.cert_chain_valid == v.chain && s.is_trusted == v.trust, || format!("the result of signer {i} is {s:?}"));
            }
        }
        let rs = c.run("verify_source_stamp_with_digest", || ver.verify_source_stamp_with_digest(&b, x.as_ref()));
        compare(c, &rs, &ws, &format!("stamp, {how}"));
        if d.is_none() {
            let r = c.run("verify_source_stamp", || ver.verify_source_stamp(&b));
            compare(c, &r, &ws, "verify_source_stamp");
        } else if let Some(x) = &x {
            let r = c.run("verify_with_roots_and_digest", || ksusig::verifier::verify_with_roots_and_digest(&b, roots(root), x));
            compare(c, &r, &w2, "verify_with_roots_and_digest");
            if let Ok(r) = c.run("verify_with_digest", || ksusig::verifier::verify_with_digest(&b, x)) {
                c.check(!r.is_trusted, || "a certificate of ours is trusted by the built-in root".into());
            }
        }
        let all = c.run("verify_all_with_digest", || ver.verify_all_with_digest(&b, x.as_ref()));
        let full = |w: &Option<Verdict>| w.as_ref().map(|w| !w.err && w.sig && w.dig && w.chain && w.trust);
        let want = match (full(&w2), full(&ws)) {
            (None, None) => false,
            (a, b) => a.unwrap_or(true) && b.unwrap_or(true),
        };
        c.check(all.is_valid() == want, || format!("the overall verdict is {}; v2 {w2:?}, stamp {ws:?}", all.is_valid()));
        c.check(all.has_v2() == w2.is_some() && all.has_source_stamp() == ws.is_some(), || "has_v2 / has_source_stamp".into());
        compare(c, &all.v2, &w2, "verify_all: v2");
        compare(c, &all.source_stamp, &ws, "verify_all: stamp");
    }
}

pub const DEFECTS: [&str; 24] = [
    "none", "signature flipped", "signature of other data", "foreign key, own signature", "foreign key and signature, certificate kept", "certificate of someone else", "no certificate", "certificate list reversed", "no signature", "digest missing",
    "digest wrong", "second signature bad", "first of two signatures bad", "attribute added after signing", "attribute signed", "digest changed after signing", "garbage key", "garbage certificate", "signature truncated", "algorithm of the other curve",
    "second digest of the same algorithm, wrong", "second digest of the same algorithm, the first wrong", "good signature twice", "certificate added after signing",
];
fn defect(c: &mut Ctx, pki: &Pki, id: &Id, good: &[(u32, Vec<u8>)], k: usize, v2: bool) -> Sgn {
    let a = id.key.alg();
    let mut s = signed(id, good, v2);
    let other = pki.ids.iter().find(|x| x.key.spki() != id.key.spki() && x.key.is256() == id.key.is256()).unwrap().clone();
    let wrong = |c: &mut Ctx, d: &mut Vec<(u32, Vec<u8>)>| {
        for x in d.iter_mut().filter(|x| x.0 == a) {
            if x.1.is_empty() || c.rng.chance(1, 8) {
                x.1.push(7);
            } else if c.rng.chance(1, 8) {
                x.1.pop();
            } else if c.rng.chance(1, 8) {
                x.1.clear();
            } else {
                let i = c.rng.us(x.1.len());
                x.1[i] ^= 1 << c.rng.below(8);
            }
        }
    };
    match k {
        1 => {
            let i = c.rng.us(s.sigs[0].1.len());
            s.sigs[0].1[i] ^= 1 << c.rng.below(8);
        }
        2 => {
            let m = c.rng.bytes(40);
            s.sigs[0].1 = id.key.sign_block(&m);
        }
        3 => s.pk = other.key.spki(),
        4 => {
            s.pk = other.key.spki();
            s = resign(s, &other.key, &[a], v2);
        }
        5 => {
            s.sd.certs[0] = other.cert.clone();
            s = resign(s, &id.key, &[a], v2);
        }
        6 => {
            s.sd.certs.clear();
            s = resign(s, &id.key, &[a], v2);
        }
        7 => {
            s.sd.certs.push(pki.mid.clone());
            s.sd.certs.reverse();
            s = resign(s, &id.key, &[a], v2);
        }
        8 => s.sigs.clear(),
        9 => {
            s.sd.digests.retain(|x| x.0 != a);
            s = resign(s, &id.key, &[a], v2);
        }
        10 => {
            wrong(c, &mut s.sd.digests);
            s = resign(s, &id.key, &[a], v2);
        }
        11 => {
            let n = s.sigs[0].1.len();
            let x = c.rng.bytes(n);
            s.sigs.push((a, x));
        }
        12 => {
            let n = s.sigs[0].1.len();
            let x = c.rng.bytes(n);
            s.sigs.insert(0, (a, x));
        }
        13 => s.sd.attrs.push((1, vec![1, 2, 3])),
        14 => {
            s.sd.attrs.push((0x1234, vec![1, 2, 3]));
            s = resign(s, &id.key, &[a], v2);
        }
        15 => wrong(c, &mut s.sd.digests),
        16 => {
            let n = s.pk.len();
            s.pk = if c.rng.chance(1, 3) { vec![] } else { c.rng.bytes(n) };
        }
        17 => {
            s.sd.certs[0] = c.rng.bytes(100);
            s = resign(s, &id.key, &[a], v2);
        }
        18 => {
            let n = c.rng.us(s.sigs[0].1.len());
            s.sigs[0].1.truncate(n);
        }
        19 => s.sigs[0].0 = 0x0201 + 0x0202 - a,
        20 => {
            let mut x: Vec<_> = s.sd.digests.iter().filter(|x| x.0 == a).cloned().collect();
            wrong(c, &mut x);
            s.sd.digests.extend(x);
            s = resign(s, &id.key, &[a], v2);
        }
        21 => {
            let mut x: Vec<_> = s.sd.digests.iter().filter(|x| x.0 == a).cloned().collect();
            wrong(c, &mut x);
            x.extend(s.sd.digests);
            s.sd.digests = x;
            s = resign(s, &id.key, &[a], v2);
        }
        22 => s = resign(s, &id.key, &[a, a], v2),
        23 => s.sd.certs.push(pki.root.clone()),
        _ => {}
    }
    s
}
fn good_digests(c: &mut Ctx) -> Vec<(u32, Vec<u8>)> {
    let mut v = vec![(0x0201, c.rng.bytes(32)), (0x0202, c.rng.bytes(64))];
    if c.rng.chance(1, 3) {
        v.reverse();
    }
    if c.rng.chance(1, 3) {
        let x = (*c.rng.pick(&[0x0101u32, 0x0103, 0x0421, 0x0301, 77]), c.rng.bytes(32));
        let i = c.rng.us(3);
        v.insert(i, x);
    }
    v
}
fn contexts(c: &mut Ctx, good: &[(u32, Vec<u8>)]) -> Vec<Dctx> {
    let mut v: Vec<Dctx> = vec![Some(good.to_vec()), None, Some(vec![])];
    for a in [0x0201u32, 0x0202] {
        v.push(Some(good.iter().filter(|x| x.0 == a).cloned().collect()));
        let mut w = good.to_vec();
        for x in w.iter_mut().filter(|x| x.0 == a) {
            let i = c.rng.us(x.1.len());
            x.1[i] ^= 0x80 >> c.rng.below(8);
        }
        v.push(Some(w));
        let mut w = good.to_vec();
        for x in w.iter_mut().filter(|x| x.0 == a) {
            x.1.truncate(if c.rng.chance(1, 2) { 0 } else { x.1.len() - 1 });
        }
        v.push(Some(w));
    }
    // the digest of one algorithm under the id of the other
    let (x, y) = (good.iter().find(|x| x.0 == 0x0201).unwrap().1.clone(), good.iter().find(|x| x.0 == 0x0202).unwrap().1.clone());
    v.push(Some(vec![(0x0201, y.clone()), (0x0202, x.clone())]));
    v.push(Some(vec![(0x0201, x), (0x0202, vec![0; 64])]));
    v
}
fn some_ctx(c: &mut Ctx, good: &[(u32, Vec<u8>)]) -> Dctx {
    if c.rng.chance(2, 3) {
        return Some(good.to_vec());
    }
    let v = contexts(c, good);
    c.rng.pick(&v).clone()
}
fn truth(c: &mut Ctx, pki: &Pki) {
    c.group("certificate chains");
    let other = keys::Key::p256("unrelated", 4711);
    let unrelated = keys::cert(&keys::CertOpt { subject: "Un", issuer: "Un", key: &other, signer: &other, ca: true, eku: false, from: "20200101000000Z", to: "20491231235959Z", serial: 1 });
    for id in &pki.ids {
        let sets: Vec<(Vec<Vec<u8>>, Option<bool>, Option<bool>)> = vec![
            (vec![pki.root.clone()], Some(id.trusted_v2), Some(id.trusted_stamp)),
            (vec![], Some(false), Some(false)),
            (vec![unrelated.clone()], Some(false), Some(false)),
            (vec![unrelated.clone(), pki.root.clone()], Some(id.trusted_v2), Some(id.trusted_stamp)),
            (vec![pki.root.clone(), unrelated.clone()], Some(id.trusted_v2), Some(id.trusted_stamp)),
            (vec![id.cert.clone()], Some(true), Some(true)),
            (vec![id.cert[..id.cert.len() - 1].to_vec()], Some(false), Some(false)),
            (vec![id.cert[1..].to_vec(), pki.root.clone()], Some(id.trusted_v2), Some(id.trusted_stamp)),
            (vec![vec![]], Some(false), Some(false)),
        ];
        for (set, v2, st) in sets {
            let cv = CertChainVerifier::new(roots(&set));
            c.case(format!("certificate {}, {} roots", id.what, set.len()), &[("certificate", &id.cert), ("roots", &set.concat())]);
            let r = c.run("verify_chain", || cv.verify_chain(&id.cert, &id.chain));
            c.check(Some(r.1) == v2, || format!("with its chain, trusted is {} ({:?})", r.1, r.2));
            c.check(r.0 || !r.1, || "trusted, with an invalid chain".into());
            let r = c.run("verify_chain", || cv.verify_chain(&id.cert, &[]));
            c.check(Some(r.1) == st || (set.contains(&id.cert) && r.1), || format!("alone, trusted is {} ({:?})", r.1, r.2));
            c.check(r.0 || !r.1, || "trusted, with an invalid chain".into());
        }
    }
    // a chain which does not link up is not valid
    for id in pki.ids.iter().filter(|i| !i.chain.is_empty()) {
        let mut ch = id.chain.clone();
        ch[0] = unrelated.clone();
        for set in [vec![], vec![unrelated.clone()]] {
            let cv = CertChainVerifier::new(roots(&set));
            c.case("a chain of unrelated certificates", &[("certificate", &id.cert)]);
            let r = c.run("verify_chain", || cv.verify_chain(&id.cert, &ch));
            c.check(!r.0 && !r.1, || format!("a chain that does not link up is reported as valid {:?}", r));
        }
        let cv = CertChainVerifier::new(roots(&[]));
        let r = c.run("verify_chain", || cv.verify_chain(&id.cert, &[vec![1, 2, 3]]));
        c.check(!r.0 && !r.1, || "a garbage chain is reported as valid".into());
    }
    c.group("root store");
    let p = crate::keystore::pem("CERTIFICATE", &pki.root);
    let mut r = TrustedRoots::new();
    c.case("root store", &[("root", &pki.root)]);
    c.check(r.is_empty() && !r.is_direct_root(&pki.root) && !r.is_direct_root(&[]), || "an empty store trusts something".into());
    c.check(c.run("add_root_pem", || r.add_root_pem(p.as_bytes())).is_ok(), || "add_root_pem".into());
    c.check(!r.is_empty() && r.is_direct_root(&pki.root) && r.roots() == [pki.root.clone()], || "the root is not kept".into());
    for id in &pki.ids {
        c.check(r.is_direct_root(&id.cert) == (id.cert == pki.root), || format!("is_direct_root of {}", id.what));
    }
    for t in ["PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE REQUEST"] {
        let p = crate::keystore::pem(t, &pki.root);
        let mut r = TrustedRoots::new();
        c.check(c.run("add_root_pem", || r.add_root_pem(p.as_bytes())).is_err() && r.is_empty(), || format!("a {t} is taken as a root"));
    }
    let b = c.run("with_builtin", TrustedRoots::with_builtin);
    for id in &pki.ids {
        c.check(!b.is_direct_root(&id.cert), || "the built-in roots contain one of our certificates".into());
    }
    c.check(b.roots().len() == 1, || "the built-in root is not loaded".into());
}
fn digest_ctx(c: &mut Ctx) {
    c.group("digest context");
    for _ in 0..c.n(200) {
        let mut x = DigestContext::new();
        let mut m = std::collections::BTreeMap::new();
        for _ in 0..c.rng.us(5) {
            let a = gen::alg_v(c);
            let n = c.rng.us(4) * 16;
            let d = c.rng.bytes(n);
            x.add_digest(a, d.clone());
            m.insert(a, d);
        }
        c.case(format!("context {m:?}"), &[]);
        for _ in 0..6 {
            let a = if c.rng.chance(1, 2) && !m.is_empty() { *m.keys().nth(c.rng.us(m.len())).unwrap() } else { gen::alg_v(c) };
            let mut probes = vec![vec![], c.rng.bytes(32)];
            if let Some(d) = m.get(&a) {
                probes.push(d.clone());
                probes.push([&d[..], &[0]].concat());
                if !d.is_empty() {
                    probes.push(d[..d.len() - 1].to_vec());
                    probes.push(d[1..].to_vec());
                    for i in 0..d.len() {
                        let mut e = d.clone();
                        e[i] ^= 1 << c.rng.below(8);
                        probes.push(e);
                    }
                }
            }
            probes.extend(m.values().cloned());
            for p in probes {
                let want = m.get(&a) == Some(&p);
                let got = c.run("verify_digest", || x.verify_digest(a, &p));
                c.check(got == want, || format!("verify_digest({a:#x}, {p:x?}) is {got}"));
            }
            c.check(x.get_digest(a) == m.get(&a), || "get_digest".into());
        }
    }
}
fn contents(c: &mut Ctx, pki: &Pki, good: &[(u32, Vec<u8>)], stamps: bool) -> (Vec<Ent>, String) {
    let mut v = vec![];
    let mut desc = String::new();
    let n2 = *c.rng.pick(&[0usize, 1, 1, 1, 2, 3]);
    let bad_rate = c.rng.below(4);
    for _ in 0..n2 {
        let n = *c.rng.pick(&[0usize, 1, 1, 2, 3, 4]);
        let mut s = vec![];
        for _ in 0..n {
            let id = pki.ids[if c.rng.chance(2, 3) { c.rng.us(3) } else { c.rng.us(pki.ids.len()) }].clone();
            let k = if c.rng.chance(bad_rate, 4) { c.rng.us(DEFECTS.len()) } else { 0 };
            desc += &format!("[v2 signer {}: {}]", id.what, DEFECTS[k]);
            s.push(defect(c, pki, &id, good, k, true));
        }
        v.push(Ent::V2(s));
    }
    let ns = if stamps { *c.rng.pick(&[0usize, 1, 1, 1, 2]) } else { *c.rng.pick(&[0usize, 0, 1]) };
    for _ in 0..ns {
        let id = pki.ids[if c.rng.chance(2, 3) { 0 } else { c.rng.us(pki.ids.len()) }].clone();
        let k = if c.rng.chance(bad_rate, 4) { c.rng.us(DEFECTS.len()) } else { 0 };
        desc += &format!("[stamp {}: {}]", id.what, DEFECTS[k]);
        v.push(Ent::Stamp(defect(c, pki, &id, good, k, false)));
    }
    for _ in 0..c.rng.us(3) {
        let e = match gen::ent(c, 60) {
            Ent::Raw(i, d) => Ent::Raw(i, d),
            Ent::Elf(e) => Ent::Elf(e),
            _ => Ent::Raw(0x1111, vec![1]),
        };
        v.push(e);
    }
    for i in (1..v.len()).rev() {
        let j = c.rng.us(i + 1);
        v.swap(i, j);
    }
    (v, desc)
}

pub fn c11(c: &mut Ctx) {
    let pki = Pki::new(c);
    let root = vec![pki.root.clone()];
    truth(c, &pki);
    digest_ctx(c);
    c.group("one signer, every identity and digest context");
    for id in pki.ids.clone() {
        let good = good_digests(c);
        let s = signed(&id, &good, true);
        for d in contexts(c, &good) {
            one(c, &[Ent::V2(vec![s.clone()])], &d, &root, id.what);
        }
        one(c, &[Ent::V2(vec![s.clone()])], &Some(good.clone()), &[], &format!("{}, no roots", id.what));
    }
    c.group("every defect at every position");
    for n in 1..=4usize {
        for pos in 0..n {
            for k in 0..DEFECTS.len() {
                let good = good_digests(c);
                let mut v: Vec<Sgn> = vec![];
                for i in 0..n {
                    let id = pki.ids[*c.rng.pick(&[0usize, 1, 2, 9, 10, 11])].clone();
                    v.push(defect(c, &pki, &id, &good, if i == pos { k } else { 0 }, true));
                }
                let split = c.rng.us(n + 1);
                let e = if c.rng.chance(1, 2) { vec![Ent::V2(v.clone())] } else { vec![Ent::V2(v[..split].to_vec()), Ent::V2(v[split..].to_vec())] };
                let d = if c.rng.chance(3, 4) { Some(good.clone()) } else { some_ctx(c, &good) };
                one(c, &e, &d, &root, &format!("{n} signers, signer {pos}: {}", DEFECTS[k]));
            }
        }
    }
    c.group("signatures in all orders");
    for _ in 0..c.n(60) {
        // several signatures, good and bad, digests missing for some
        let id = pki.ids[*c.rng.pick(&[0usize, 1, 9, 10])].clone();
        let a = id.key.alg();
        let good = good_digests(c);
        let mut s = signed(&id, &good, true);
        let ok = s.sigs[0].1.clone();
        let n = 1 + c.rng.us(4);
        s.sigs = (0..n)
            .map(|_| match c.rng.below(8) {
                0 => (a, c.rng.bytes(70)),
                1 => (0x0403 - a, ok.clone()),
                2 => (*c.rng.pick(&[0x0101u32, 0x0103, 0x0301, 0x0421, 5, 0]), ok.clone()),
                _ => (a, ok.clone()),
            })
            .collect();
        let d = some_ctx(c, &good);
        one(c, &[Ent::V2(vec![s])], &d, &root, "several signatures");
    }
    c.group("random blocks");
    for i in 0..c.n(250) {
        if i % 8 == 0 && !c.time_left() {
            break;
        }
        let good = good_digests(c);
        let (v, desc) = contents(c, &pki, &good, false);
        let d = some_ctx(c, &good);
        let r = if c.rng.chance(1, 8) { vec![] } else { root.clone() };
        one(c, &v, &d, &r, &desc);
    }
    c.group("modules");
    module_verify(c, &pki, false);
    c.group("verify command");
    crate::cliw::verify_cmd(c, &pki, false);
    c.group("end");
}

fn module_verify(c: &mut Ctx, pki: &Pki, stamps: bool) {
    use crate::modules::*;
    for i in 0..c.n(12) {
        let z = crate::modules::gen_module(c, 3000);
        let id = pki.ids[*c.rng.pick(&[0usize, 1, 2, 9])].clone();
        let sid = pki.ids[*c.rng.pick(&[0usize, 9])].clone();
        let uns = z.bytes();
        let end = z.entries.len() + z.cd.len();
        if uns.len() > 200_000 || ref_eocd(&uns) != Some(end) {
            continue;
        }
        let d: Vec<(u32, Vec<u8>)> = [0x0201u32, 0x0202].iter().map(|a| (*a, ref_digest(&z.entries, &z.cd, &uns[end..], *a))).collect();
        let mut e = vec![Ent::V2(vec![signed(&id, &d, true)])];
        if stamps || c.rng.chance(1, 3) {
            e.push(Ent::Stamp(signed(&sid, &d, false)));
        }
        if stamps && c.rng.chance(1, 4) {
            e.remove(0);
        }
        let b = enc_block(&e);
        let f = signed_bytes(&z, &b);
        if ref_eocd(&f) != Some(end + b.len()) {
            continue;
        }
        let p = c.scratch.join("v.zip");
        let ver = |c: &Ctx, f: &[u8]| -> VerifyAllResult {
            std::fs::write(&p, f).unwrap();
            c.run("Module::verify_with_roots", || Module::new(p.clone()).unwrap().verify_with_roots(roots(&[pki.root.clone()])))
        };
        c.case("a signed module", &[("file", &f)]);
        let r = ver(c, &f);
        c.check(r.is_valid(), || format!("a properly signed module does not verify: {r:?}"));
        let r = c.run("Module::verify_full", || Module::new(p.clone()).unwrap().verify_full());
        c.check(!r.is_valid(), || "our root is not built in, but the module verifies with the built-in roots".into());
        c.check(r.v2.as_ref().is_ok_and(|r| !r.is_trusted) || r.source_stamp.as_ref().is_ok_and(|r| !r.is_trusted), || format!("verify_full: {r:?}"));
        for _ in 0..c.n(if i < 4 { 60 } else { 10 }) {
            let mut g = f.clone();
            let x = c.rng.us(g.len());
            let at = if c.rng.chance(1, 3) { z.entries.len() + b.len() + c.rng.us(g.len() - z.entries.len() - b.len()) } else { x };
            let in_block = at >= z.entries.len() && at < z.entries.len() + b.len();
            if in_block {
                continue; // raw padding etc. is judged elsewhere
            }
            g[at] ^= 1 << c.rng.below(8);
            c.case(format!("a signed module with byte {at} changed"), &[("file", &g)]);
            let r = ver(c, &g);
            c.check(!r.is_valid(), || format!("the module still verifies after byte {at} changed"));
        }
        // swapped content with an untouched block
        let mut z2 = z.clone();
        z2.cd.push(1);
        let g = signed_bytes(&z2, &b);
        c.case("a signed module with a longer directory", &[("file", &g)]);
        let r = ver(c, &g);
        c.check(!r.is_valid(), || "the module still verifies after its directory grew".into());
        // unsigned
        c.case("an unsigned module", &[("file", &uns)]);
        if ref_eocd(&uns).is_some() {
            let r = ver(c, &uns);
            c.check(!r.is_valid(), || "an unsigned module verifies".into());
        }
    }
}

fn verdict_table(c: &mut Ctx) {
    c.group("verdict table");
    let errs: Vec<fn() -> VerifyError> = vec![
        || VerifyError::NoSignature,
        || VerifyError::InvalidSignature("x".into()),
        || VerifyError::CertificateError("x".into()),
        || VerifyError::CertChainError("x".into()),
        || VerifyError::UntrustedCertificate,
        || VerifyError::DigestMismatch,
        || VerifyError::CertificateExpired,
        || VerifyError::CertificateNotYetValid,
        || VerifyError::ChainSignatureInvalid("x".into()),
        || VerifyError::MultiSignerFailure(vec!["x".into()]),
        || VerifyError::MultiSignerFailure(vec![]),
        || VerifyError::PublicKeyMismatch,
    ];
    let mk = |i: usize| -> Result<VerifyResult, VerifyError> {
        if i < 16 {
            Ok(VerifyResult { signature_valid: i & 1 != 0, digest_valid: i & 2 != 0, cert_chain_valid: i & 4 != 0, is_trusted: i & 8 != 0, ..Default::default() })
        } else {
            Err(errs[i - 16]())
        }
    };
    for i in 0..16 + errs.len() {
        for j in 0..16 + errs.len() {
            let r = VerifyAllResult { v2: mk(i), source_stamp: mk(j) };
            let ok = |k: usize| k == 15 || k == 16;
            let want = ok(i) && ok(j) && !(i == 16 && j == 16);
            c.case(format!("v2 {:?}, stamp {:?}", r.v2, r.source_stamp), &[]);
            let got = c.run("is_valid", || r.is_valid());
            c.check(got == want, || format!("the overall verdict is {got}"));
            c.check(r.has_v2() == (i != 16) && r.has_source_stamp() == (j != 16), || "has_v2 / has_source_stamp".into());
            c.check(r.v2_error().is_some() == (i >= 16) && r.source_stamp_error().is_some() == (j >= 16), || "v2_error / source_stamp_error".into());
        }
    }
}

pub fn c12(c: &mut Ctx) {
    let pki = Pki::new(c);
    let root = vec![pki.root.clone()];
    verdict_table(c);
    truth(c, &pki);
    c.group("every identity and digest context");
    for id in pki.ids.clone() {
        let good = good_digests(c);
        let s = signed(&id, &good, false);
        for d in contexts(c, &good) {
            one(c, &[Ent::Stamp(s.clone())], &d, &root, id.what);
        }
        one(c, &[Ent::Stamp(s.clone())], &Some(good.clone()), &[], &format!("{}, no roots", id.what));
    }
    c.group("every defect");
    for k in 0..DEFECTS.len() {
        for with_v2 in [0, 1, 2] {
            let good = good_digests(c);
            let id = pki.ids[*c.rng.pick(&[0usize, 9])].clone();
            let s = Ent::Stamp(defect(c, &pki, &id, &good, k, false));
            let v = Ent::V2(vec![signed(&pki.ids[1], &good, true)]);
            let e = match with_v2 {
                0 => vec![s],
                1 => vec![v, s],
                _ => vec![s, v],
            };
            for d in contexts(c, &good) {
                one(c, &e, &d, &root, &format!("stamp: {}", DEFECTS[k]));
            }
            // and the other way round
            let s = Ent::Stamp(signed(&id, &good, false));
            let v = Ent::V2(vec![defect(c, &pki, &pki.ids[1], &good, k, true)]);
            one(c, &[v, s], &Some(good.clone()), &root, &format!("good stamp, v2: {}", DEFECTS[k]));
        }
    }
    c.group("signatures in all orders");
    for _ in 0..c.n(80) {
        let id = pki.ids[*c.rng.pick(&[0usize, 9])].clone();
        let a = id.key.alg();
        let good = good_digests(c);
        let mut s = signed(&id, &good, false);
        let ok = s.sigs[0].1.clone();
        let n = 1 + c.rng.us(4);
        s.sigs = (0..n)
            .map(|_| match c.rng.below(8) {
                0 => (a, c.rng.bytes(70)),
                1 => (0x0403 - a, ok.clone()),
                2 => (*c.rng.pick(&[0x0101u32, 0x0103, 0x0301, 0x0421, 5, 0]), ok.clone()),
                _ => (a, ok.clone()),
            })
            .collect();
        let d = some_ctx(c, &good);
        one(c, &[Ent::Stamp(s)], &d, &root, "several signatures");
    }
    c.group("random blocks");
    for i in 0..c.n(250) {
        if i % 8 == 0 && !c.time_left() {
            break;
        }
        let good = good_digests(c);
        let (v, desc) = contents(c, &pki, &good, true);
        let d = some_ctx(c, &good);
        one(c, &v, &d, &root, &desc);
    }
    c.group("modules");
    module_verify(c, &pki, true);
    c.group("verify command");
    crate::cliw::verify_cmd(c, &pki, true);
    c.group("end");
}
