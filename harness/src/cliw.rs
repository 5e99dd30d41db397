//! The command line tool, run as a child process (this program in `cli` mode, the tool's own sources).
use crate::ctx::Ctx;
use crate::elves;
use crate::gen;
use crate::keys::Pki;
use crate::keystore::{encrypted, pem, pkcs8, sec1};
use crate::model::*;
use crate::modules::*;
use crate::verify::signed;
use std::path::PathBuf;
use std::process::Command;

struct Out {
    ok: bool,
    stdout: String,
    stderr: String,
}
fn run(c: &Ctx, a: &[&str]) -> Out {
    let o = c.run("the command line tool", || Command::new(std::env::current_exe().unwrap()).arg("cli").args(a).output().expect("spawn"));
    let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
    c.check(!stderr.contains("panicked at"), || format!("the tool panics: {stderr}"));
    c.check(o.status.code().is_some(), || "the tool dies".into());
    Out { ok: o.status.success(), stdout: String::from_utf8_lossy(&o.stdout).into_owned(), stderr }
}
fn put(c: &Ctx, n: &str, b: &[u8]) -> String {
    let p: PathBuf = c.scratch.join(n);
    std::fs::write(&p, b).unwrap();
    p.to_str().unwrap().to_string()
}
fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn b64(b: &[u8]) -> String {
    base64::Engine::encode(&base64::engine::general_purpose::STANDARD, b)
}

/// C03: the size limit also covers the section info of the sign command.
pub fn elf_block_limit(c: &mut Ctx) {
    c.group("sign command, size limit");
    let pki = Pki::new(c);
    let id = pki.ids[0].clone();
    let k = put(c, "k.pem", pem("PRIVATE KEY", &pkcs8(&id.key)).as_bytes());
    let ce = put(c, "c.pem", pem("CERTIFICATE", &id.cert).as_bytes());
    for n in [1usize, 40, 130, 180] {
        let mut w = vec![];
        let mut names = vec![];
        for i in 0..n {
            let nm = format!(".{}{i}", "n".repeat(if n == 1 { 4 } else { 80 }));
            w.push(elves::Want { name: nm.clone(), typ: 1, data: vec![i as u8; 4], nobits_size: 0 });
            names.push(nm);
        }
        let e = elves::build(c, true, true, &w, true);
        let f = put(c, "e.elf", &e.bytes);
        let o = c.scratch.join("e.out");
        let _ = std::fs::remove_file(&o);
        c.case(format!("sign command with {n} ELF sections"), &[("file", &e.bytes)]);
        let mut a = vec!["sign", &f, o.to_str().unwrap(), "--key", &k, "--cert", &ce];
        let joined = names.join(",");
        a.extend(["--elf-section", &joined]);
        let r = run(c, &a);
        if r.ok {
            let out = std::fs::read(&o).unwrap_or_default();
            let Some(g) = elves::read(&out) else { crate::ctx::die("the output is not an ELF file") };
            let Some(s) = g.secs.iter().find(|s| s.name == elves::SIGN.as_bytes()) else { crate::ctx::die("no signature section in the output") };
            c.check(s.size <= 16 * 1024, || format!("the stored block takes {} bytes", s.size));
            let b = &out[s.off as usize..(s.off + s.size) as usize];
            let back = c.run("from_u8", || ksusig::SigningBlock::from_u8(b));
            c.check(back.is_ok(), || "the stored block does not parse".into());
        } else {
            c.check(n >= 130, || format!("signing fails: {}", r.stderr));
        }
    }
}

/// C06
pub fn digest_cmd(c: &mut Ctx) {
    for i in 0..c.n(8) {
        let z = gen_module(c, 3000);
        let uns = z.bytes();
        let end = z.entries.len() + z.cd.len();
        if ref_eocd(&uns) != Some(end) {
            continue;
        }
        let signed = i % 2 == 1;
        let b = if signed { enc_block(&gen::block(c)) } else { vec![] };
        let f = signed_bytes(&z, &b);
        let e = end + b.len();
        if ref_eocd(&f) != Some(e) || ksusig::Module::new(put(c, "probe.zip", &f).into()).is_ok_and(|m| m.get_signing_block().is_ok() != signed) {
            continue;
        }
        let p = put(c, "d.zip", &f);
        let d = |a| ref_digest(&z.entries, &z.cd, &f[e..], a);
        let dump = c.scratch.join("dump");
        for (args, want) in [
            (vec![], hexs(&d(0x0201))),
            (vec!["--sha256"], hexs(&d(0x0201))),
            (vec!["--sha512"], hexs(&d(0x0202))),
            (vec!["--sha256", "--format", "base64"], b64(&d(0x0201))),
            (vec!["--sha512", "--format", "base64"], b64(&d(0x0202))),
        ] {
            c.case(format!("digest command {args:?}"), &[("file", &f)]);
            let a = [vec!["digest", &p], args].concat();
            let o = run(c, &a);
            c.check(o.ok && o.stdout.trim() == want, || format!("digest command: {} {} instead of {want}", o.stdout, o.stderr));
        }
        c.case("digest --dump", &[("file", &f)]);
        let o = run(c, &["digest", &p, "--dump", dump.to_str().unwrap()]);
        let got = std::fs::read(&dump).unwrap_or_default();
        let want = [&z.entries[..], &z.cd, &f[e..]].concat();
        // the dump holds the parts of the file as they are
        c.check(o.ok && got == want, || format!("digest --dump writes {} bytes, not the {} bytes of the parts; {}", got.len(), want.len(), o.stderr));
    }
}

/// C10
pub fn digest_elf_cmd(c: &mut Ctx) {
    for i in 0..c.n(8) {
        let w = vec![
            elves::Want { name: ".text".into(), typ: 1, data: c.rng.bytes(100), nobits_size: 0 },
            elves::Want { name: ".data".into(), typ: 1, data: c.rng.bytes(70), nobits_size: 0 },
            elves::Want { name: ".rodata".into(), typ: 1, data: c.rng.bytes(50), nobits_size: 0 },
        ];
        let e = elves::build(c, i % 2 == 0, i % 4 < 2, &w, true);
        let p = put(c, "d.elf", &e.bytes);
        for req in [vec![], vec![".data"], vec![".rodata", ".text"], vec![".text", ".data", ".rodata"], vec![".data", ".data"]] {
            let names: Vec<String> = if req.is_empty() { vec![".text".into(), ".rodata".into()] } else { req.iter().map(|s| s.to_string()).collect() };
            let Some(secs) = elves::ref_request(&names).and_then(|r| elves::ref_select(&e, &r)) else { continue };
            let joined = req.join(",");
            for (sw, a) in [("--sha256", 0x0201u32), ("--sha512", 0x0202)] {
                let mut args = vec!["digest", &p, sw];
                if !req.is_empty() {
                    args.extend(["--elf-section", &joined]);
                }
                c.case(format!("digest command {args:?}"), &[("file", &e.bytes)]);
                let o = run(c, &args);
                let want = hexs(&elves::ref_elf_digest(&e.bytes, &secs, a));
                c.check(o.ok && o.stdout.trim() == want, || format!("digest command: {} {} instead of {want}", o.stdout, o.stderr));
            }
            let dump = c.scratch.join("dump");
            let mut args = vec!["digest", &p, "--dump", dump.to_str().unwrap()];
            if !req.is_empty() {
                args.extend(["--elf-section", &joined]);
            }
            let o = run(c, &args);
            let want: Vec<u8> = secs.iter().flat_map(|(_, o, n)| e.bytes[*o as usize..(*o + *n) as usize].to_vec()).collect();
            c.check(o.ok && std::fs::read(&dump).unwrap_or_default() == want, || "digest --dump does not write the sections".into());
        }
        let o = run(c, &["digest", &p, "--elf-section", ".nope"]);
        c.check(!o.ok && o.stdout.trim().is_empty(), || "a digest of a section that does not exist".into());
    }
}

/// C07
pub fn sign_module_cmd(c: &mut Ctx) {
    let pki = Pki::new(c);
    let root = put(c, "root.pem", pem("CERTIFICATE", &pki.root).as_bytes());
    for i in 0..c.n(10) {
        let z = gen_module(c, 2000);
        let uns = z.bytes();
        let end = z.entries.len() + z.cd.len();
        if ref_eocd(&uns) != Some(end) {
            continue;
        }
        let id = pki.ids[[0usize, 9, 1, 10, 2][i % 5]].clone();
        let st = pki.ids[[9usize, 0][i % 2]].clone();
        let resign = i % 3 == 2;
        let old = if resign { enc_block(&[Ent::V2(vec![gen::sgn(c, 50)])]) } else { vec![] };
        let inp = signed_bytes(&z, &old);
        if ref_eocd(&inp) != Some(end + old.len()) || ksusig::Module::new(put(c, "probe.zip", &inp).into()).is_ok_and(|m| m.get_signing_block().is_ok() != resign) {
            continue;
        }
        let f = put(c, "m.zip", &inp);
        let same = i % 4 == 3;
        let outp = if same { f.clone() } else { c.scratch.join("m.out").to_str().unwrap().to_string() };
        if !same {
            let _ = std::fs::remove_file(&outp);
        }
        let pw = "pass";
        let mut a: Vec<String> = vec!["sign".into(), f.clone(), outp.clone()];
        let certs: String = std::iter::once(&id.cert).chain(&id.chain).map(|x| pem("CERTIFICATE", x)).collect();
        let refs: Vec<&[u8]> = id.chain.iter().map(|x| &x[..]).collect();
        match i % 3 {
            0 => a.extend(["--key".into(), put(c, "k.pem", pem("PRIVATE KEY", &pkcs8(&id.key)).as_bytes()), "--cert".into(), put(c, "c.pem", certs.as_bytes())]),
            1 => {
                let Some(p) = p12::PFX::new_with_cas(&id.cert, &pkcs8(&id.key), &refs, pw, "n") else { continue };
                a.extend(["--p12".into(), put(c, "k.p12", &p.to_der()), "--password".into(), pw.into()]);
            }
            _ => {
                let e = encrypted(c, &id.key, pw);
                a.extend(["--key".into(), put(c, "k.pem", pem("ENCRYPTED PRIVATE KEY", &e).as_bytes()), "--cert".into(), put(c, "c.pem", certs.as_bytes()), "--password".into(), pw.into()]);
            }
        }
        let stamp = i % 2 == 1;
        if stamp {
            a.extend(["--stamp-key".into(), put(c, "sk.pem", pem("EC PRIVATE KEY", &sec1(&st.key, true, true)).as_bytes()), "--stamp-cert".into(), put(c, "sc.pem", pem("CERTIFICATE", &st.cert).as_bytes())]);
        }
        let ar: Vec<&str> = a.iter().map(|x| &x[..]).collect();
        c.case(format!("command {}", a.join(" ")), &[("file", &inp)]);
        let o = run(c, &ar);
        c.check(o.ok, || format!("signing fails: {}", o.stderr));
        let got = std::fs::read(&outp).unwrap_or_default();
        let at = z.entries.len();
        c.check(got.len() > uns.len() && got.starts_with(&z.entries), || "the entries are not kept".into());
        let b = got[at..got.len() - (uns.len() - at)].to_vec();
        c.check(got == signed_bytes(&z, &b), || "the output is not the unsigned module with a block in front of its directory".into());
        let sb = c.run("from_u8", || ksusig::SigningBlock::from_u8(&b));
        c.check(sb.is_ok(), || "the inserted bytes are not a block".into());
        let ents = of_block(&sb.unwrap());
        let d: Vec<(u32, Vec<u8>)> = [0x0201u32, 0x0202].iter().map(|a| (*a, ref_digest(&z.entries, &z.cd, &uns[end..], *a))).collect();
        let n2 = ents.iter().filter(|e| matches!(e, Ent::V2(_))).count();
        let ns = ents.iter().filter(|e| matches!(e, Ent::Stamp(_))).count();
        c.check(n2 == 1 && ns == stamp as usize, || "the block does not hold one v2 signature and the stamp asked for".into());
        for e in &ents {
            if let Ent::V2(s) = e {
                c.check(s.len() == 1 && s[0].sd.digests.iter().all(|x| d.contains(x)), || "the signed digest is not the digest of the module".into());
            }
            if let Ent::Stamp(s) = e {
                c.check(s.sd.digests.iter().all(|x| d.contains(x)), || "the stamped digest is not the digest of the module".into());
            }
        }
        if !same {
            c.check(std::fs::read(&f).unwrap_or_default() == inp, || "the input file changed".into());
        }
        let o = run(c, &["verify", &outp, "--root", &root]);
        c.check(o.ok, || format!("what the tool signs does not verify: {} {}", o.stdout, o.stderr));
    }
    // a failing command leaves nothing half done
    let z = Z { entries: vec![1; 50], cd: vec![2; 20], ..Default::default() };
    let f = put(c, "m.zip", &z.bytes());
    c.case("sign without credentials", &[]);
    let o = run(c, &["sign", &f, &f]);
    c.check(!o.ok && std::fs::read(&f).unwrap() == z.bytes(), || "signing without credentials succeeds or changes the file".into());
}

/// C11, C12
pub fn verify_cmd(c: &mut Ctx, pki: &Pki, stamps: bool) {
    let root = put(c, "root.pem", pem("CERTIFICATE", &pki.root).as_bytes());
    for i in 0..c.n(16) {
        let z = gen_module(c, 500);
        let uns = z.bytes();
        let end = z.entries.len() + z.cd.len();
        if ref_eocd(&uns) != Some(end) {
            continue;
        }
        let mut d: Vec<(u32, Vec<u8>)> = [0x0201u32, 0x0202].iter().map(|a| (*a, ref_digest(&z.entries, &z.cd, &uns[end..], *a))).collect();
        let id = pki.ids[if i % 2 == 0 { [0usize, 1, 2, 9][i / 2 % 4] } else { c.rng.us(pki.ids.len()) }].clone();
        let bad = i % 4 == 2;
        if bad {
            for x in &mut d {
                x.1[3] ^= 4;
            }
        }
        let second = c.rng.chance(1, 4);
        let mut sg = vec![signed(&id, &d, true)];
        if second {
            let mut s = signed(&pki.ids[0], &d, true);
            s.sigs[0].1[20] ^= 1;
            sg.push(s);
        }
        let mut e = vec![Ent::V2(sg)];
        let mut stamp_ok = true;
        if stamps {
            let sid = pki.ids[if i % 3 == 0 { 0 } else { c.rng.us(pki.ids.len()) }].clone();
            let k = if i % 3 == 1 { 1 } else { 0 };
            let mut s = signed(&sid, &d, false);
            if k == 1 {
                s.sigs[0].1[20] ^= 1;
            }
            stamp_ok = k == 0 && sid.trusted_stamp;
            e.push(Ent::Stamp(s));
        }
        let only_stamp = stamps && i % 7 == 6;
        if only_stamp {
            e.remove(0);
        }
        let b = enc_block(&e);
        let f = signed_bytes(&z, &b);
        if ref_eocd(&f) != Some(end + b.len()) {
            continue;
        }
        let p = put(c, "v.zip", &f);
        let want = !bad && !second && id.trusted_v2 && stamp_ok && !only_stamp;
        c.case(format!("verify command, signer {}, wrong digest {bad}, bad second signer {second}, stamp fine {stamp_ok}, only a stamp {only_stamp}", id.what), &[("file", &f)]);
        let o = run(c, &["verify", &p, "--root", &root]);
        c.check(o.ok == want, || format!("verify exits with success {} instead of {want}: {}", o.ok, o.stderr));
        let o = run(c, &["verify", &p, "-v"]);
        c.check(!o.ok, || "verify succeeds without our root".into());
        let u = put(c, "u.zip", &uns);
        let o = run(c, &["verify", &u, "--root", &root]);
        c.check(!o.ok, || "verify succeeds on an unsigned module".into());
    }
}
