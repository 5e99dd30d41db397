//! C13, C14
use crate::ctx::{die, Ctx};
use crate::gen;
use crate::keys::{Key, Keys};
use crate::model::*;
use ksusig::{ModuleSigner, ModuleSignerConfig, NewSourceStampSigner, SigningBlock, SourceStampSignerBuilder, SourceStampSignerConfig, V2Signer};

const TIME_ID: u32 = 0xe43c_5946;

struct Conf {
    key: Key,
    alg: u32,
    cert: Vec<u8>,
    chain: Vec<Vec<u8>>,
}
impl Conf {
    fn config(&self) -> ModuleSignerConfig {
        if self.chain.is_empty() {
            ModuleSignerConfig::new(self.key.private(), self.cert.clone(), alg(self.alg))
        } else {
            ModuleSignerConfig::with_cert_chain(self.key.private(), self.cert.clone(), alg(self.alg), self.chain.clone())
        }
    }
    fn fits(&self) -> bool {
        self.alg == self.key.alg()
    }
}
fn conf(c: &mut Ctx, keys: &Keys, wrong: bool) -> Conf {
    let key = c.rng.pick(&keys.all).clone();
    let alg = if wrong { *c.rng.pick(&[0x0201u32, 0x0202, 0x0203, 0]) } else { key.alg() };
    let n = match c.rng.below(5) {
        0 | 1 => 0,
        2 => 1,
        _ => c.rng.us(6),
    };
    let cert = gen::data(c, 300);
    let mut chain: Vec<Vec<u8>> = (0..n).map(|_| gen::data(c, 200)).collect();
    if n > 1 && c.rng.chance(1, 4) {
        chain[0] = cert.clone();
    }
    if n > 2 && c.rng.chance(1, 4) {
        chain[2] = chain[1].clone();
    }
    Conf { key, alg, cert, chain }
}
fn digests(c: &mut Ctx) -> Vec<(u32, Vec<u8>)> {
    let n = match c.rng.below(5) {
        0 => 0,
        1 | 2 => 1,
        _ => c.rng.us(5),
    };
    (0..n)
        .map(|_| {
            let a = *c.rng.pick(&[0x0201u32, 0x0202, 0x0201, 0x0103, 7]);
            let n = *c.rng.pick(&[32usize, 64, 0, 5]);
            (a, c.rng.bytes(n))
        })
        .collect()
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

fn check_sgn(c: &Ctx, s: &Sgn, cf: &Conf, dg: &[(u32, Vec<u8>)], v2: bool, time: Option<(u64, u64)>, what: &str) {
    c.check(s.sd.digests == dg, || format!("{what} carries other digests"));
    let mut certs = vec![cf.cert.clone()];
    if v2 {
        certs.extend(cf.chain.clone());
    }
    c.check(s.sd.certs == certs, || format!("{what} carries other certificates"));
    match time {
        None => c.check(s.sd.attrs.is_empty(), || format!("{what} carries attributes nobody asked for")),
        Some((a, b)) => {
            c.check(s.sd.attrs.len() == 1 && s.sd.attrs[0].0 == TIME_ID && s.sd.attrs[0].1.len() == 8, || format!("{what} carries no timestamp"));
            let t = u64::from_le_bytes(s.sd.attrs[0].1.clone().try_into().unwrap());
            c.check(t >= a && t <= b, || format!("{what} carries another time"));
        }
    }
    c.check(s.pk == cf.key.spki(), || format!("{what} carries another public key"));
    c.check(s.sigs.len() == 1 && s.sigs[0].0 == cf.alg, || format!("{what} carries {} signatures", s.sigs.len()));
    let signed = if v2 { v2_signed(&s.sd) } else { stamp_signed(&s.sd) };
    c.check(crate::keys::verify(cf.alg, &cf.key.spki(), &signed, &s.sigs[0].1), || format!("the signature of {what} is not over its serialised signed data"));
    c.check(alg(cf.alg).verify(&s.pk, &signed, &s.sigs[0].1).is_ok(), || format!("{what} is not accepted by the library's own verification"));
}

pub fn c13(c: &mut Ctx) {
    let keys = Keys::new(c);
    c.group("single signers");
    for i in 0..c.n(300) {
        if i % 16 == 0 && !c.time_left() {
            break;
        }
        let cf = conf(c, &keys, i % 8 == 7);
        let mut dg = digests(c);
        if i == 0 {
            dg = vec![];
        }
        let time = c.rng.chance(1, 2);
        c.case(format!("signing {} digests with a {} key, algorithm {:#x}, chain of {}", dg.len(), cf.key.name, cf.alg, cf.chain.len()), &[("cert", &cf.cert)]);
        let a = now();
        let pairs = || dg.iter().map(|(a, d)| (alg(*a), d.clone())).collect::<Vec<_>>();
        let v2 = V2Signer::new(cf.config());
        let r = c.run("V2Signer::sign", || v2.sign(lib_digests(&dg)));
        let r2 = c.run("V2Signer::sign_with_digests", || v2.sign_with_digests(pairs()));
        for r in [r, r2] {
            match r {
                Ok(s) => {
                    c.check(cf.fits(), || "a key signs under another algorithm".into());
                    c.check(s.signers.signers_data.len() == 1, || "more or less than one signer".into());
                    check_sgn(c, &of_signer(&s.signers.signers_data[0]), &cf, &dg, true, None, "the v2 signer");
                    c.check(s.to_u8() == enc_ent(&Ent::V2(vec![of_signer(&s.signers.signers_data[0])])), || "the v2 block's serialised form".into());
                }
                Err(e) => c.check(!cf.fits(), || format!("signing fails: {e}")),
            }
        }
        let st = if time && c.rng.chance(1, 2) { NewSourceStampSigner::new(cf.config()) } else { NewSourceStampSigner::with_timestamp(cf.config(), time) };
        let r = c.run("SourceStampSigner::sign", || st.sign(lib_digests(&dg)));
        let r2 = c.run("SourceStampSigner::sign_with_digests", || st.sign_with_digests(pairs()));
        let cfg = SourceStampSignerConfig::new(cf.key.private(), cf.cert.clone(), alg(cf.alg), time);
        let r3 = c.run("source_stamp::SourceStampSigner::sign", || ksusig::SourceStampSigner::new(cfg).sign(lib_digests(&dg)));
        let b = SourceStampSignerBuilder::new(cf.key.private(), cf.cert.clone(), alg(cf.alg));
        let b = if time { b } else { b.timestamp_enabled(false) };
        let r4 = c.run("SourceStampSignerBuilder", || b.build().sign_with_digests(pairs()));
        let z = now();
        for r in [r, r2, r3, r4] {
            match r {
                Ok(s) => {
                    c.check(cf.fits(), || "a key signs under another algorithm".into());
                    check_sgn(c, &of_stamp(&s.stamp_block), &cf, &dg, false, if time { Some((a, z)) } else { None }, "the stamp");
                    c.check(s.to_u8() == enc_ent(&Ent::Stamp(of_stamp(&s.stamp_block))), || "the stamp's serialised form".into());
                }
                Err(e) => c.check(!cf.fits(), || format!("stamping fails: {e}")),
            }
        }
    }
    c.group("combined signer");
    for i in 0..c.n(250) {
        if i % 16 == 0 && !c.time_left() {
            break;
        }
        let _ = combined(c, &keys);
    }
    c.group("end");
}

/// sign with a random combined signer, check everything that comes out
fn combined(c: &mut Ctx, keys: &Keys) -> Option<Vec<Ent>> {
    let which = c.rng.below(3);
    let (cv, cs) = (conf(c, keys, false), conf(c, keys, false));
    let (time, pad) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
    let dg = digests(c);
    c.case(format!("ModuleSigner kind {which}, timestamp {time}, padding {pad}, {} digests; v2 {}, stamp {}", dg.len(), cv.key.name, cs.key.name), &[]);
    let s = match which {
        0 => ModuleSigner::v2_only(cv.config()),
        1 => ModuleSigner::with_source_stamp(cv.config(), cs.config()),
        _ => ModuleSigner::stamp_only(cs.config()),
    };
    let s = if time { s } else { s.timestamp_enabled(false) };
    let s = if pad { s } else { s.padding_enabled(false) };
    let mut want_algs = vec![];
    if which != 2 {
        want_algs.push(cv.alg);
    }
    if which != 0 && !want_algs.contains(&cs.alg) {
        want_algs.push(cs.alg);
    }
    let got: Vec<u32> = s.required_algorithms().iter().map(alg_id).collect();
    c.check(got == want_algs, || format!("required algorithms {got:x?} instead of {want_algs:x?}"));
    let a = now();
    let r = c.run("ModuleSigner::sign", || s.sign(lib_digests(&dg)));
    let z = now();
    match r {
        Ok(b) => {
            let ents = of_block(&b);
            let n_v2 = ents.iter().filter(|e| matches!(e, Ent::V2(_))).count();
            let n_st = ents.iter().filter(|e| matches!(e, Ent::Stamp(_))).count();
            c.check(n_v2 == usize::from(which != 2) && n_st == usize::from(which != 0), || format!("{n_v2} v2 entries and {n_st} stamps"));
            c.check(ents.len() <= n_v2 + n_st + usize::from(pad), || "unexpected entries".into());
            for e in &ents {
                match e {
                    Ent::V2(v) => {
                        c.check(v.len() == 1, || "not one signer".into());
                        check_sgn(c, &v[0], &cv, &dg, true, None, "the combined v2 signer");
                    }
                    Ent::Stamp(s) => check_sgn(c, s, &cs, &dg, false, if time { Some((a, z)) } else { None }, "the combined stamp"),
                    Ent::Raw(id, d) => c.check(*id == PAD_ID && d.iter().all(|x| *x == 0), || "an entry that is not padding".into()),
                    Ent::Elf(_) => die("an ELF entry"),
                }
            }
            let bytes = b.to_u8();
            c.check(bytes == enc_block(&ents), || "the serialised block is not its entries".into());
            c.check(!pad || bytes.len() % 4096 == 0, || "padding is missing".into());
            c.check(SigningBlock::from_u8(&bytes).is_ok_and(|x| x == b), || "the block does not decode".into());
            Some(ents)
        }
        Err(e) => {
            // only an oversized block or an awkward padding gap may be refused
            let approx: usize = [(which != 2, &cv), (which != 0, &cs)].iter().filter(|x| x.0).map(|x| x.1.cert.len() + x.1.chain.iter().map(|c| c.len() + 4).sum::<usize>() + 600).sum();
            c.check(approx + dg.len() * 160 > 3000 || pad, || format!("signing fails: {e}"));
            None
        }
    }
}

fn is_pad(e: &Ent) -> bool {
    enc_value(e).0 == PAD_ID
}

pub fn c14(c: &mut Ctx) {
    let keys = Keys::new(c);
    c.group("restamping");
    for i in 0..c.n(500) {
        if i % 16 == 0 && !c.time_left() {
            break;
        }
        let mut cur = loop {
            let mut v = gen::block(c);
            // more interesting: old stamps, padding and repeated entries all over the place
            for _ in 0..c.rng.us(4) {
                let e = match c.rng.below(7) {
                    0 => Ent::Raw(PAD_ID, vec![0; c.rng.us(50)]),
                    1 => Ent::Stamp(gen::sgn(c, 40)),
                    2 => Ent::Raw(PAD_ID ^ (1 << c.rng.below(32)), vec![0; c.rng.us(50)]),
                    3 => Ent::Raw(STAMP_ID ^ (1 << c.rng.below(32)), vec![4; c.rng.us(50)]),
                    4 if !v.is_empty() => c.rng.pick(&v).clone(),
                    5 if !c.mined.new_ints.is_empty() => Ent::Raw(*c.rng.pick(&c.mined.new_ints) as u32, vec![5; 10]),
                    _ => Ent::V2(vec![gen::sgn(c, 30)]),
                };
                if let Ent::Raw(id, _) = &e {
                    if [V2_ID, STAMP_ID, ELF_ID].contains(id) {
                        continue;
                    }
                }
                let at = c.rng.us(v.len() + 1);
                v.insert(at, e);
            }
            if enc_content(&v).len() + 24 <= gen::LIMIT {
                break v;
            }
        };
        for round in 0..1 + i % 3 {
            let cf = conf(c, &keys, false);
            let (time, pad) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
            let dg = digests(c);
            let b = SigningBlock::new(lib_content(&cur)).unwrap();
            c.case(format!("add_source_stamp round {round}, padding {pad}, {} entries", cur.len()), &[("block", &b.to_u8())]);
            let s = if c.rng.chance(1, 2) { ModuleSigner::stamp_only(cf.config()) } else { ModuleSigner::with_source_stamp(conf(c, &keys, false).config(), cf.config()) };
            let s = s.timestamp_enabled(time).padding_enabled(pad);
            let a = now();
            let r = c.run("ModuleSigner::add_source_stamp", || s.add_source_stamp(b, lib_digests(&dg)));
            let z = now();
            let keep: Vec<Ent> = cur.iter().filter(|e| !matches!(e, Ent::Stamp(_)) && !is_pad(e)).cloned().collect();
            match r {
                Ok(n) => {
                    let got = of_block(&n);
                    c.check(got.len() > keep.len() && got[..keep.len()] == keep[..], || "an entry that is neither stamp nor padding is lost, changed or moved".into());
                    let Ent::Stamp(st) = &got[keep.len()] else { die("no stamp follows the kept entries") };
                    check_sgn(c, st, &cf, &dg, false, if time { Some((a, z)) } else { None }, "the new stamp");
                    c.check(got.iter().filter(|e| matches!(e, Ent::Stamp(_))).count() == 1, || "more than one stamp".into());
                    let rest = &got[keep.len() + 1..];
                    c.check(rest.len() <= usize::from(pad) && rest.iter().all(is_pad), || "unexpected entries after the stamp".into());
                    let bytes = n.to_u8();
                    c.check(!pad || bytes.len() % 4096 == 0, || "padding is missing".into());
                    c.check(bytes == enc_block(&got), || "the serialised block is not its entries".into());
                    cur = got;
                }
                Err(e) => {
                    let size = enc_content(&keep).len() + 24 + cf.cert.len() + dg.len() * 90 + 700;
                    let lim = if pad { 12000 } else { gen::LIMIT };
                    c.check(size > lim || pad, || format!("stamping fails: {e}"));
                    break;
                }
            }
        }
    }
    c.group("without a stamp configuration");
    for _ in 0..c.n(10) {
        let cf = conf(c, &keys, false);
        let blk = gen::block(c);
        let b = SigningBlock::new(lib_content(&blk)).unwrap();
        c.case("add_source_stamp with a v2-only signer", &[]);
        let dg = digests(c);
        c.check(c.run("add_source_stamp", || ModuleSigner::v2_only(cf.config()).add_source_stamp(b, lib_digests(&dg))).is_err(), || "a stamp is added without a stamp configuration".into());
    }
    c.group("combined signer");
    for i in 0..c.n(200) {
        if i % 16 == 0 && !c.time_left() {
            break;
        }
        let _ = combined(c, &keys);
    }
    c.group("end");
}
