//! C05, C06, C07, C16
use crate::blocks::{sha256, sha512};
use crate::ctx::{die, Ctx};
use crate::gen::{self, Choppy};
use crate::model::*;
use ksusig::file_formats::module::digest::digest_module;
use ksusig::file_formats::module::zip::find_eocd;
use ksusig::signable::Signable;
use ksusig::signing_block::algorithms::Algorithms;
use ksusig::{Module, SignableFile, SigningBlock};

#[derive(Clone, Debug, Default)]
pub struct Z {
    pub entries: Vec<u8>,
    pub cd: Vec<u8>,
    pub disk: u16,
    pub disk_cd: u16,
    pub n1: u16,
    pub n2: u16,
    pub cd_size: u32,
    pub comment: Vec<u8>,
    pub trailing: Vec<u8>,
}
impl Z {
    pub fn eocd(&self, cd_offset: u32) -> Vec<u8> {
        let mut o = vec![0x50, 0x4b, 5, 6];
        for x in [self.disk, self.disk_cd, self.n1, self.n2] {
            o.extend(x.to_le_bytes());
        }
        o.extend(self.cd_size.to_le_bytes());
        o.extend(cd_offset.to_le_bytes());
        o.extend((self.comment.len() as u16).to_le_bytes());
        o.extend(&self.comment);
        o
    }
    pub fn bytes(&self) -> Vec<u8> {
        signed_bytes(self, &[])
    }
}
pub fn signed_bytes(z: &Z, block: &[u8]) -> Vec<u8> {
    [&z.entries[..], block, &z.cd, &z.eocd((z.entries.len() + block.len()) as u32), &z.trailing].concat()
}

/// Reference: the record nearest to the end among the last 65557 bytes.
pub fn ref_eocd(f: &[u8]) -> Option<usize> {
    if f.len() < 22 {
        return None;
    }
    let lo = f.len().saturating_sub(65557);
    (lo..=f.len() - 22).rev().find(|&i| f[i..i + 4] == [0x50, 0x4b, 5, 6] && i + 22 + u16::from_le_bytes([f[i + 20], f[i + 21]]) as usize <= f.len())
}
fn cd_off(f: &[u8], e: usize) -> usize {
    u32::from_le_bytes(f[e + 16..e + 20].try_into().unwrap()) as usize
}

pub fn ref_chunks(out: &mut Vec<Vec<u8>>, region: &[u8], a: u32) {
    for ch in region.chunks(1 << 20) {
        let m = [&[0xa5u8][..], &(ch.len() as u32).to_le_bytes(), ch].concat();
        out.push(if a == 0x0201 { sha256(&m) } else { sha512(&m) });
    }
}
pub fn ref_final(ch: &[Vec<u8>], a: u32) -> Vec<u8> {
    let m = [&[0x5au8][..], &(ch.len() as u32).to_le_bytes(), &ch.concat()].concat();
    if a == 0x0201 { sha256(&m) } else { sha512(&m) }
}
/// Reference digest from the parts.
pub fn ref_digest(entries: &[u8], cd: &[u8], end: &[u8], a: u32) -> Vec<u8> {
    let mut e = end.to_vec();
    e[16..20].copy_from_slice(&(entries.len() as u32).to_le_bytes());
    let mut ch = vec![];
    ref_chunks(&mut ch, entries, a);
    ref_chunks(&mut ch, cd, a);
    ref_chunks(&mut ch, &e, a);
    ref_final(&ch, a)
}

fn no_sig(mut v: Vec<u8>) -> Vec<u8> {
    // keep record signatures out of filler
    for i in 0..v.len().saturating_sub(3) {
        if v[i..i + 4] == [0x50, 0x4b, 5, 6] {
            v[i] = 0x51;
        }
    }
    v
}

pub fn gen_module(c: &mut Ctx, max: usize) -> Z {
    loop {
        let n = gen::len(c, max);
        let mut entries = gen::blob(c, n);
        if c.rng.chance(1, 2) {
            entries = [&b"PK\x03\x04"[..], &entries].concat();
        }
        if c.rng.chance(1, 6) {
            let v = gen::block(c);
            entries.extend(enc_block(&v));
            let n = 1 + c.rng.us(20);
            entries.extend(c.rng.bytes(n));
        }
        let n = gen::len(c, max / 4);
        let mut cd = gen::blob(c, n);
        if c.rng.chance(1, 2) {
            cd = [&b"PK\x01\x02"[..], &cd].concat();
        }
        let comment = if c.rng.chance(1, 2) { vec![] } else { no_sig(gen::data(c, max / 8)) };
        let trailing = if c.rng.chance(3, 4) { vec![] } else { no_sig(gen::data(c, 60)) };
        let z = Z {
            disk: gen::u32v(c) as u16,
            disk_cd: gen::u32v(c) as u16,
            n1: gen::u32v(c) as u16,
            n2: gen::u32v(c) as u16,
            cd_size: if c.rng.chance(1, 2) { cd.len() as u32 } else { gen::u32v(c) },
            entries,
            cd,
            comment,
            trailing,
        };
        let f = z.bytes();
        let at = z.entries.len() + z.cd.len();
        let magic_before = z.entries.len() >= 16 && &z.entries[z.entries.len() - 16..] == MAGIC;
        if ref_eocd(&f) == Some(at) && !magic_before {
            return z;
        }
    }
}

fn one_eocd(c: &mut Ctx, f: &[u8]) {
    c.case("find_eocd", &[("file", f)]);
    let want = ref_eocd(f);
    let mut r = Choppy::new(c, f);
    let got = c.run("find_eocd", || find_eocd(&mut r, f.len()));
    match (want, got) {
        (None, Err(_)) => {}
        (Some(_), Err(e)) => die(&format!("a record in the last 65557 bytes is not found: {e}")),
        (w, Ok(g)) => {
            c.check(w == Some(g.file_offset), || format!("record reported at {}, the nearest to the end is at {w:?}", g.file_offset));
            let i = g.file_offset;
            let b = g.to_u8();
            c.check(i + b.len() <= f.len() && f[i..i + b.len()] == b[..], || "serialising the record does not give its bytes back".into());
            let h = |o: usize| u16::from_le_bytes([f[i + o], f[i + o + 1]]);
            let w = |o: usize| u32::from_le_bytes(f[i + o..i + o + 4].try_into().unwrap());
            c.check(
                g.signature == f[i..i + 4] && g.disk_number == h(4) && g.disk_with_cd == h(6) && g.num_entries == h(8) && g.total_entries == h(10) && g.cd_size == w(12) && g.cd_offset == w(16) && g.comment_len == h(20) && g.comment[..] == f[i + 22..i + 22 + h(20) as usize],
                || "a field differs from the bytes of the record".into(),
            );
        }
    }
}

pub fn c05(c: &mut Ctx) {
    c.group("small files");
    for n in 0..60usize {
        one_eocd(c, &vec![0; n]);
        let mut f = c.rng.bytes(n);
        one_eocd(c, &f);
        for at in 0..n.saturating_sub(3) {
            let mut g = f.clone();
            g[at..at + 4].copy_from_slice(&[0x50, 0x4b, 5, 6]);
            for cl in [0u16, 1, 2, 5, n as u16, (n as u16).wrapping_sub(22), (n - at) as u16, ((n - at) as u16).wrapping_sub(22), ((n - at) as u16).wrapping_sub(21), 0xffff] {
                if at + 22 <= n {
                    g[at + 20..at + 22].copy_from_slice(&cl.to_le_bytes());
                }
                one_eocd(c, &g);
            }
        }
        f.clear();
    }
    c.group("comment lengths");
    let lens: Vec<usize> = (0..70).chain([255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65000, 65530, 65531, 65532, 65533, 65534, 65535]).chain(c.mined.new_ints.iter().flat_map(|x| [x.wrapping_sub(1), *x, x + 1]).filter(|x| *x < 65536).map(|x| x as usize)).collect();
    for n in &lens {
        for pre in [0usize, 1, 21, 22, 1000, 70000] {
            for tr in [0usize, 1, 5, 30] {
                let z = Z { entries: no_sig(c.rng.bytes(pre)), comment: no_sig(c.rng.bytes(*n)), trailing: no_sig(c.rng.bytes(tr)), ..Default::default() };
                one_eocd(c, &z.bytes());
            }
        }
    }
    c.group("distance from the end");
    for d in (22..80usize).chain(65500..65600) {
        for cl in [0u16, 1, 40, 65535, (d - 22) as u16, (d as u16).wrapping_sub(21)] {
            let mut f = no_sig(c.rng.bytes(66000));
            let at = f.len() - d;
            f[at..at + 4].copy_from_slice(&[0x50, 0x4b, 5, 6]);
            f[at + 20..at + 22].copy_from_slice(&cl.to_le_bytes());
            one_eocd(c, &f);
            one_eocd(c, &f[at..]);
            one_eocd(c, &f[at.saturating_sub(7)..]);
        }
    }
    c.group("several candidates");
    for i in 0..c.n(3000) {
        if i % 256 == 0 && !c.time_left() {
            break;
        }
        let n = 30 + { let m = *c.rng.pick(&[60usize, 300, 3000]); c.rng.us(m) };
        let mut f = c.rng.bytes(n);
        for _ in 0..1 + c.rng.us(5) {
            let at = c.rng.us(n - 3);
            f[at..at + 4].copy_from_slice(&[0x50, 0x4b, 5, 6]);
            if at + 22 <= n {
                let room = n - at - 22;
                let cl = match c.rng.below(6) {
                    0 => 0,
                    1 => room,
                    2 => room + 1,
                    3 => room.saturating_sub(1),
                    4 => c.rng.us(room + 1),
                    _ => c.rng.us(65536),
                } as u16;
                f[at + 20..at + 22].copy_from_slice(&cl.to_le_bytes());
            }
        }
        one_eocd(c, &f);
        // overlapping signatures
        if i % 5 == 0 {
            let mut g = vec![0x50, 0x4b, 5, 6].repeat(8);
            let n = c.rng.us(20);
            g.extend(vec![0; n]);
            one_eocd(c, &g);
        }
        // through the module
        if i % 7 == 0 {
            let p = c.scratch.join("e.zip");
            std::fs::write(&p, &f).unwrap();
            c.case("Module::find_eocd", &[("file", &f)]);
            let g = c.run("Module::find_eocd", || Module::new(p.clone()).and_then(|m| m.find_eocd()));
            c.check(g.ok().map(|x| x.file_offset) == ref_eocd(&f), || "Module::find_eocd reports another record".into());
        }
    }
    for _ in 0..c.n(300) {
        let z = gen_module(c, 3000);
        one_eocd(c, &z.bytes());
    }
    c.group("end");
}

fn store(c: &Ctx, f: &[u8]) -> std::path::PathBuf {
    let p = c.scratch.join("m.zip");
    std::fs::write(&p, f).unwrap();
    p
}

fn digest_case(c: &mut Ctx, z: &Z, block: Option<&[u8]>, desc: &str) {
    let f = signed_bytes(z, block.unwrap_or(&[]));
    let at = f.len() - z.trailing.len() - 22 - z.comment.len();
    if ref_eocd(&f) != Some(at) {
        return;
    }
    let p = store(c, &f);
    for a in [0x0201u32, 0x0202] {
        c.case(format!("{desc}: digest with {a:#x}"), &[("file", &f)]);
        let want = ref_digest(&z.entries, &z.cd, &f[at..], a);
        let m = match c.run("Module::new", || Module::new(p.clone())) {
            Ok(m) => m,
            Err(e) => die(&format!("{e}")),
        };
        match c.run("Module::digest", || m.digest(&alg(a))) {
            Ok(d) => c.check(d == want, || "the digest is not the specified one".into()),
            Err(e) => die(&format!("no digest: {e}")),
        }
        let off = match m.get_offsets() {
            Ok(o) => o,
            Err(e) => die(&format!("no offsets: {e}")),
        };
        let mut r = Choppy::new(c, &f);
        match c.run("digest_module", || digest_module(&mut r, &off, &alg(a))) {
            Ok(d) => c.check(d == want, || "the digest depends on how reads are split".into()),
            Err(e) => die(&format!("digest_module fails on a reader that splits its reads: {e}")),
        }
        match c.run("SignableFile::digest", || SignableFile::open(&p).and_then(|s| s.digest(&alg(a)))) {
            Ok(d) => c.check(d == want, || "SignableFile::digest is not the specified one".into()),
            // unknown magic at the start of the file: not a module for SignableFile
            Err(e) => c.check(!f.starts_with(b"PK"), || format!("SignableFile: {e}")),
        }
    }
    let regions = c.run("digest_regions", || Module::new(p.clone()).ok().map(|m| <Module as Signable>::digest_regions(&m)));
    if let Some(Ok(r)) = regions {
        let b = block.map_or(0, |b| b.len()) as u64;
        let e = z.entries.len() as u64;
        let got: Vec<(u64, u64)> = r.iter().map(|r| (r.offset, r.size)).collect();
        c.check(got == vec![(0, e), (e + b, z.cd.len() as u64), (at as u64, (f.len() - at) as u64)], || format!("digest regions {got:?}"));
    } else {
        die("no digest regions");
    }
}

pub fn c06(c: &mut Ctx) {
    c.group("small modules, unsigned and signed");
    for i in 0..c.n(400) {
        if i % 32 == 0 && !c.time_left() {
            break;
        }
        let z = gen_module(c, 3000);
        digest_case(c, &z, None, "unsigned");
        let b = enc_block(&gen::block(c));
        digest_case(c, &z, Some(&b), "signed");
        if i % 4 == 0 {
            let b = enc_block(&gen::block(c));
            digest_case(c, &z, Some(&b), "signed with another block");
        }
    }
    c.group("every byte enters");
    for _ in 0..c.n(3) {
        let z = gen_module(c, 80);
        let b = enc_block(&[Ent::Raw(7, vec![1, 2, 3])]);
        let f = signed_bytes(&z, &b);
        let p = store(c, &f);
        let d0 = Module::new(p.clone()).and_then(|m| m.digest(&Algorithms::ECDSA_SHA2_256)).unwrap_or_default();
        let e = ref_eocd(&f).unwrap();
        for i in 0..f.len() {
            let in_block = i >= z.entries.len() && i < z.entries.len() + b.len();
            if in_block || (i >= e && i < e + 4) || (i >= e + 16 && i < e + 22) {
                continue;
            }
            let mut g = f.clone();
            g[i] ^= 1;
            if ref_eocd(&g) != Some(e) {
                continue;
            }
            let p = store(c, &g);
            c.case(format!("byte {i} flipped"), &[("file", &g)]);
            let d = c.run("digest", || Module::new(p.clone()).and_then(|m| m.digest(&Algorithms::ECDSA_SHA2_256))).unwrap_or_default();
            c.check(d != d0 && !d.is_empty(), || format!("byte {i} does not enter the digest"));
        }
    }
    c.group("chunk boundaries");
    let mib = 1usize << 20;
    let mut sizes = vec![mib - 1, mib, mib + 1, 2 * mib - 1, 2 * mib, 2 * mib + 5, 3 * mib];
    sizes.extend(c.mined.new_ints.iter().filter(|x| **x > 3000 && **x < 40 << 20).flat_map(|x| [*x as usize - 1, *x as usize, *x as usize + 1]).take(24));
    for s in [4096usize, 8192, 65536, 1 << 19, (1 << 16) + 1] {
        sizes.push(s);
    }
    for n in sizes {
        let z = Z { entries: no_sig(c.rng.bytes(n)), cd: no_sig(c.rng.bytes(100)), ..Default::default() };
        digest_case(c, &z, None, "entries near a chunk boundary");
        let b = enc_block(&[Ent::Raw(7, vec![1; 500])]);
        digest_case(c, &z, Some(&b), "signed, entries near a chunk boundary");
        let z = Z { entries: no_sig(c.rng.bytes(50)), cd: no_sig(c.rng.bytes(n)), ..Default::default() };
        digest_case(c, &z, Some(&b), "directory near a chunk boundary");
    }
    let z = Z { entries: vec![0; 9 * mib + 17], cd: vec![0; 3 * mib + 1], comment: vec![0; 65535], ..Default::default() };
    digest_case(c, &z, None, "large");
    // bytes after the record reach beyond one chunk only up to 65557 from the end: keep below
    let z = Z { entries: vec![1; 10], cd: vec![2; 10], comment: vec![3; 100], trailing: vec![4; 65000], ..Default::default() };
    digest_case(c, &z, None, "long tail");
    c.group("corner shapes");
    for (e, d) in [(0usize, 0usize), (0, 5), (5, 0), (1, 1), (16, 16), (24, 3), (32, 0)] {
        let z = Z { entries: vec![9; e], cd: vec![8; d], ..Default::default() };
        digest_case(c, &z, None, "tiny");
        digest_case(c, &z, Some(&enc_block(&[])), "tiny, signed with an empty block");
    }
    c.group("digest after signing in memory");
    let keys = crate::keys::Keys::new(c);
    for k in &keys.all {
        let z = gen_module(c, 500);
        let p = store(c, &z.bytes());
        c.case("sign_v2, then digest", &[("file", &z.bytes())]);
        if let Ok(mut m) = Module::new(p) {
            let a = alg(k.alg());
            let d0 = m.digest(&a).ok();
            c.check(c.run("sign_v2", || m.sign_v2(&a, b"cert", &k.private())).is_ok(), || "sign_v2 fails".into());
            c.check(m.digest(&a).ok() == d0 && d0.is_some(), || "the digest changes when the module is signed in memory".into());
        }
    }
    c.group("digest command");
    crate::cliw::digest_cmd(c);
    c.group("end");
}

fn write_case(c: &mut Ctx, z: &Z, old: Option<&[u8]>, new: &[Ent]) {
    let f = signed_bytes(z, old.unwrap_or(&[]));
    let at = f.len() - z.trailing.len() - 22 - z.comment.len();
    let unsigned = z.bytes();
    let nb = enc_block(new);
    let want = signed_bytes(z, &nb);
    let uat = unsigned.len() - (f.len() - at);
    let wat = want.len() - (f.len() - at);
    if ref_eocd(&f) != Some(at) || ref_eocd(&unsigned) != Some(uat) || ref_eocd(&want) != Some(wat) {
        return;
    }
    let p = store(c, &f);
    let Ok(lib) = SigningBlock::new(lib_content(new)) else { return };
    c.case(format!("write_with_signature over {} module", if old.is_some() { "a signed" } else { "an unsigned" }), &[("file", &f), ("block", &nb)]);
    let m = match c.run("Module::new", || Module::new(p.clone())) {
        Ok(m) => m,
        Err(e) => die(&format!("{e}")),
    };
    let mut out = vec![];
    match c.run("Signable::write_with_signature", || <Module as Signable>::write_with_signature(&m, &mut out, &lib)) {
        Ok(()) => c.check(out == want, || format!("the signed module is not the unsigned one with the block inserted (first difference at {:?})", out.iter().zip(&want).position(|(a, b)| a != b))),
        Err(e) => die(&format!("signing is refused: {e}")),
    }
    // the result, read again
    let p2 = c.scratch.join("m2.zip");
    std::fs::write(&p2, &want).unwrap();
    match c.run("get_raw_module", || Module::new(p2.clone()).and_then(|m| m.get_raw_module())) {
        Ok(r) => c.check(r == unsigned, || format!("stripping does not give the unsigned module back (first difference at {:?})", r.iter().zip(&unsigned).position(|(a, b)| a != b))),
        Err(e) => die(&format!("stripping fails: {e}")),
    }
    match c.run("get_signing_block", || Module::new(p2.clone()).and_then(|m| m.get_signing_block())) {
        Ok(b) => c.check(of_block(&b) == new && b.file_offset_start == z.entries.len() && b.file_offset_end == z.entries.len() + nb.len(), || "the block read back differs".into()),
        Err(e) => die(&format!("the block cannot be read back: {e}")),
    }
    // writing the stored signature again changes nothing
    if old.is_some() {
        let mut o = vec![];
        match c.run("Module::write_with_signature", || m.write_with_signature(&mut o)) {
            Ok(()) => c.check(o == f, || "rewriting a signed module changes it".into()),
            Err(e) => die(&format!("rewriting a signed module fails: {e}")),
        }
    } else {
        let mut o = vec![];
        c.check(c.run("Module::write_with_signature", || m.write_with_signature(&mut o)).is_err(), || "an unsigned module is written as signed".into());
        c.check(c.run("get_raw_module", || m.get_raw_module()).is_err(), || "an unsigned module has something to strip".into());
        let raw = c.run("new_raw", || Module::new_raw(p.clone()).and_then(|m| m.get_raw_module()));
        c.check(raw.is_ok_and(|r| r == f), || "a raw module is not returned as it is".into());
    }
    // a signature held in memory
    let mut m3 = Module::new(p.clone()).unwrap();
    m3.sig = Some(lib.clone());
    let mut o = vec![];
    match c.run("Module::write_with_signature", || m3.write_with_signature(&mut o)) {
        Ok(()) => c.check(o == want, || format!("writing the signature held in memory: first difference at {:?}", o.iter().zip(&want).position(|(a, b)| a != b))),
        Err(e) => die(&format!("writing the signature held in memory fails: {e}")),
    }
    let mut o = vec![];
    match c.run("Signable::write_with_signature", || <Module as Signable>::write_with_signature(&m3, &mut o, &lib)) {
        Ok(()) => c.check(o == want, || "Signable::write_with_signature with a signature in memory".into()),
        Err(e) => die(&format!("{e}")),
    }
    if old.is_some() {
        c.check(c.run("get_raw_module", || m3.get_raw_module()).is_ok_and(|r| r == unsigned), || "stripping a module with a signature in memory".into());
    }
}

pub fn c07(c: &mut Ctx) {
    c.group("insert, replace, strip");
    for i in 0..c.n(500) {
        if i % 32 == 0 && !c.time_left() {
            break;
        }
        let z = gen_module(c, 3000);
        let new = gen::block(c);
        write_case(c, &z, None, &new);
        let old = enc_block(&gen::block(c));
        write_case(c, &z, Some(&old), &new);
    }
    c.group("corner shapes");
    for (e, d, cm, tr) in [(0usize, 0usize, 0usize, 0usize), (0, 5, 0, 0), (5, 0, 0, 0), (16, 16, 1, 0), (24, 3, 0, 1), (32, 0, 65535, 0), (100, 100, 65535, 3), (70000, 5, 7, 22), (1 << 20, 1 << 16, 5, 0), ((1 << 20) + 1, 70000, 0, 70)] {
        let z = Z { entries: no_sig(c.rng.bytes(e)), cd: no_sig(c.rng.bytes(d)), comment: no_sig(c.rng.bytes(cm)), trailing: no_sig(c.rng.bytes(tr)), n1: 3, n2: 3, cd_size: d as u32, ..Default::default() };
        for blk in [vec![], vec![Ent::Raw(1, vec![2; 3000])], vec![Ent::Raw(1, vec![2; 16340 - 4 - 8 + 12 - 12])]] {
            write_case(c, &z, None, &blk);
            let old = enc_block(&[Ent::Raw(9, vec![1; 4064 - 12])]);
            write_case(c, &z, Some(&old), &blk);
            write_case(c, &z, Some(&enc_block(&[])), &blk);
        }
    }
    // sizes found in the source
    for n in c.mined.new_ints.clone().into_iter().filter(|x| *x < 20 << 20).take(20) {
        for d in [-1i64, 0, 1] {
            let n = (n as i64 + d).max(0) as usize;
            let z = Z { entries: no_sig(c.rng.bytes(n)), cd: vec![1; 30], comment: vec![b'c'; n.min(65535)], ..Default::default() };
            write_case(c, &z, None, &[Ent::Raw(1, vec![2; 30])]);
            write_case(c, &z, Some(&enc_block(&[Ent::Raw(1, vec![2; n.min(16000)])])), &[Ent::Raw(1, vec![2; 30])]);
        }
    }
    for s in c.mined.new_strs.clone() {
        let z = Z { entries: s.clone(), cd: s.clone(), comment: no_sig(s.clone()), ..Default::default() };
        write_case(c, &z, None, &[Ent::Raw(1, s.clone())]);
        write_case(c, &z, Some(&enc_block(&[Ent::Raw(1, s.clone())])), &[Ent::Raw(1, s.clone())]);
    }
    c.group("refusals");
    for i in 0..c.n(300) {
        let z = gen_module(c, 400);
        let blk = gen::block(c);
        let mut b = enc_block(&blk);
        let n = b.len();
        // corrupt in a way the decoder must notice
        match i % 4 {
            0 => b[0] ^= 1 << c.rng.below(8),
            1 => {
                let x = (n as u64 + 1 + c.rng.below(1000)).to_le_bytes();
                b[n - 24..n - 16].copy_from_slice(&x);
            }
            2 => {
                let x = (17000 + c.rng.next() % (1 << 50)).to_le_bytes();
                b[n - 24..n - 16].copy_from_slice(&x);
                b[..8].copy_from_slice(&x);
            }
            _ => {
                if n < 45 {
                    continue;
                }
                let x = (1u64 << 40).to_le_bytes();
                b[8..16].copy_from_slice(&x);
            }
        }
        let f = signed_bytes(&z, &b);
        let at = f.len() - z.trailing.len() - 22 - z.comment.len();
        if ref_eocd(&f) != Some(at) {
            continue;
        }
        // stray honest start at another size is possible when the last size field was changed
        let p = store(c, &f);
        c.case("a module with a corrupt signing block", &[("file", &f)]);
        let m = Module::new(p.clone()).unwrap();
        let new = SigningBlock::new(lib_content(&[Ent::Raw(1, vec![1])])).unwrap();
        let mut o = vec![];
        c.check(c.run("write_with_signature", || <Module as Signable>::write_with_signature(&m, &mut o, &new)).is_err(), || "a module with a corrupt signing block is signed".into());
        c.check(o.is_empty() || o != f, || "output".into());
        c.check(c.run("get_offsets", || m.get_offsets()).is_err(), || "offsets of a module with a corrupt block".into());
        c.check(c.run("digest", || m.digest(&Algorithms::ECDSA_SHA2_256)).is_err(), || "a module with a corrupt block has a digest".into());
        c.check(c.run("get_raw_module", || m.get_raw_module()).is_err(), || "a corrupt block is stripped".into());
        let mut m3 = Module::new(p.clone()).unwrap();
        m3.sig = Some(new.clone());
        let mut o = vec![];
        c.check(c.run("write_with_signature", || m3.write_with_signature(&mut o)).is_err(), || "a module with a corrupt block is written".into());
    }
    for x in [0u32, 1, 100, u32::MAX, u32::MAX - 1, 1 << 31] {
        // directory position beyond its end record
        let z = Z { entries: vec![1; 50], cd: vec![2; 20], ..Default::default() };
        let mut f = z.bytes();
        f[70 + 16..70 + 20].copy_from_slice(&(x.max(71)).to_le_bytes());
        let p = store(c, &f);
        c.case("directory after its end record", &[("file", &f)]);
        let m = Module::new(p).unwrap();
        let new = SigningBlock::new(lib_content(&[Ent::Raw(1, vec![1])])).unwrap();
        let mut o = vec![];
        c.check(c.run("write_with_signature", || <Module as Signable>::write_with_signature(&m, &mut o, &new)).is_err(), || "a module whose directory starts after its end record is signed".into());
        c.check(c.run("digest", || m.digest(&Algorithms::ECDSA_SHA2_256)).is_err(), || "a module whose directory starts after its end record has a digest".into());
    }
    c.group("sign_v2");
    let keys = crate::keys::Keys::new(c);
    for i in 0..c.n(24) {
        let k = &keys.all[i % 4];
        let z = gen_module(c, 600);
        let old = enc_block(&gen::block(c));
        let f = if i % 3 == 0 { z.bytes() } else { signed_bytes(&z, &old) };
        let p = store(c, &f);
        c.case("sign_v2, then write", &[("file", &f)]);
        let mut m = Module::new(p).unwrap();
        let cert_n = c.rng.us(900);
        let cert = c.rng.bytes(cert_n);
        for round in 0..2 {
            c.check(c.run("sign_v2", || m.sign_v2(&alg(k.alg()), &cert, &k.private())).is_ok(), || "sign_v2 fails".into());
            let sig = m.sig.clone().unwrap();
            let sb = sig.to_u8();
            let want = signed_bytes(&z, &sb);
            if ref_eocd(&want) != Some(z.entries.len() + sb.len() + z.cd.len()) {
                continue;
            }
            c.check(sb.len() % 4096 == 0, || "sign_v2 makes a block that is not padded".into());
            let mut o = vec![];
            c.check(c.run("write_with_signature", || m.write_with_signature(&mut o)).is_ok() && o == want, || format!("round {round}: the signed module is not the unsigned one with the block inserted"));
            // what was signed
            let Some(Ent::V2(s)) = of_block(&sig).first().cloned() else { die("no v2 signer") };
            let at = want.len() - z.trailing.len() - 22 - z.comment.len();
            let d = ref_digest(&z.entries, &z.cd, &want[at..], k.alg());
            c.check(s.len() == 1 && s[0].sd.digests == vec![(k.alg(), d)] && s[0].sd.certs == vec![cert.clone()] && s[0].pk == k.spki(), || "sign_v2 signs something else".into());
            c.check(s[0].sigs.len() == 1 && crate::keys::verify(k.alg(), &k.spki(), &v2_signed(&s[0].sd), &s[0].sigs[0].1), || "sign_v2's signature does not verify".into());
        }
    }
    c.group("sign command");
    crate::cliw::sign_module_cmd(c);
    c.group("end");
}

/// the block, if any, that makes a module signed: decoded entries
enum State {
    Unsigned,
    Signed,
    Corrupt,
}

fn state_case(c: &mut Ctx, f: &[u8], want: State, blk: &[Ent], desc: &str) {
    let p = store(c, f);
    c.case(desc.to_string(), &[("file", f)]);
    let m = match c.run("Module::new", || Module::new(p.clone())) {
        Ok(m) => m,
        Err(e) => die(&format!("{e}")),
    };
    let s = c.run("Signable::get_signing_block", || <Module as Signable>::get_signing_block(&m));
    let is = c.run("Signable::is_signed", || <Module as Signable>::is_signed(&m));
    let g = c.run("Module::get_signing_block", || m.get_signing_block());
    let o = c.run("Module::get_offsets", || m.get_offsets());
    let e = ref_eocd(f).unwrap();
    match want {
        State::Unsigned => {
            c.check(matches!(s, Ok(None)), || format!("an unsigned module is reported as {}", if s.is_ok() { "signed" } else { "corrupt" }));
            c.check(!is && g.is_err(), || "an unsigned module is taken as signed".into());
            match o {
                Ok(o) => c.check(o.stop_content == cd_off(f, e) && o.start_cd == cd_off(f, e) && o.stop_cd == e, || "offsets of an unsigned module leave bytes out".into()),
                Err(x) => c.check(cd_off(f, e) > e, || format!("no offsets for an unsigned module: {x}")),
            }
        }
        State::Signed => {
            match s {
                Ok(Some(b)) => c.check(of_block(&b) == blk && b.file_offset_end == cd_off(f, e), || "another block is reported".into()),
                Ok(None) => die("a signed module is reported as unsigned"),
                Err(e) => die(&format!("a signed module is reported as corrupt: {e}")),
            }
            c.check(is && g.is_ok() && o.is_ok(), || "a signed module is not taken as signed".into());
        }
        State::Corrupt => {
            match s {
                Err(_) => {}
                Ok(None) => die("a corrupt signing block is reported as a missing signature"),
                Ok(Some(_)) => die("a corrupt signing block is accepted"),
            }
            c.check(!is && g.is_err() && o.is_err(), || "a corrupt signing block is not reported".into());
        }
    }
}

pub fn c16(c: &mut Ctx) {
    c.group("signed and unsigned");
    for i in 0..c.n(300) {
        if i % 32 == 0 && !c.time_left() {
            break;
        }
        let z = gen_module(c, 1500);
        let blk = gen::block(c);
        let b = enc_block(&blk);
        let f = signed_bytes(&z, &b);
        if ref_eocd(&f) == Some(z.entries.len() + b.len() + z.cd.len()) {
            state_case(c, &f, State::Signed, &blk, "signed");
        }
        state_case(c, &z.bytes(), State::Unsigned, &[], "unsigned");
    }
    c.group("block-like bytes elsewhere");
    for i in 0..c.n(400) {
        if i % 32 == 0 && !c.time_left() {
            break;
        }
        let blk = gen::block(c);
        let mut b = enc_block(&blk);
        if i % 3 == 0 {
            b = gen::mutate(c, &b);
        }
        let m = if c.rng.chance(1, 2) { 20 } else { 400 };
        let n = 1 + c.rng.us(m);
        let mut gap = no_sig(c.rng.bytes(n));
        if gap.ends_with(MAGIC) {
            gap.push(1);
        }
        let z0 = gen_module(c, 200);
        let mut z = z0.clone();
        match i % 6 {
            0 => z.entries = [&z0.entries[..], &b, &gap].concat(),
            1 => z.comment = [&gap[..], &b].concat(),
            2 => z.cd = [&b[..], &gap].concat(),
            3 => z.trailing = [&b[..], &gap].concat(),
            4 => {
                // a signed module nested in an entry
                z.entries = [&z0.entries[..], &signed_bytes(&z0, &b), &gap].concat();
            }
            _ => {
                z.entries = [&b[..], &gap].concat();
                z.cd = [&gap[..], &b].concat();
            }
        }
        if z.comment.len() > 65535 {
            continue;
        }
        let f = z.bytes();
        let e = z.entries.len() + z.cd.len();
        if ref_eocd(&f) != Some(e) || z.entries.ends_with(MAGIC) {
            continue;
        }
        state_case(c, &f, State::Unsigned, &[], "block-like bytes away from the directory");
        // and together with a real block
        let real = gen::block(c);
        let rb = enc_block(&real);
        let f = signed_bytes(&z, &rb);
        if ref_eocd(&f) == Some(e + rb.len()) {
            state_case(c, &f, State::Signed, &real, "signed, with block-like bytes elsewhere");
        }
    }
    c.group("a malformed block in that place");
    for i in 0..c.n(600) {
        if i % 32 == 0 && !c.time_left() {
            break;
        }
        let z = gen_module(c, 300);
        let blk = gen::block(c);
        let mut b = enc_block(&blk);
        let n = b.len();
        match i % 8 {
            0 => b[0] ^= 1 << c.rng.below(8),
            1 => b[7] ^= 1 << c.rng.below(8),
            2 => {
                let x = (n as u64 - 8 + 1 + c.rng.below(60)).to_le_bytes();
                b[n - 24..n - 16].copy_from_slice(&x);
            }
            3 => b[n - 17] = 1,
            4 => {
                // an entry that runs out of the block
                if n < 45 {
                    continue;
                }
                b[8..16].copy_from_slice(&((n as u64) + c.rng.below(100)).to_le_bytes());
            }
            5 => {
                if n < 45 {
                    continue;
                }
                b[8..16].copy_from_slice(&c.rng.below(4).to_le_bytes());
            }
            6 => {
                // nothing but a magic (and maybe half a size)
                let k = 16 + c.rng.us(8);
                b = b[n - k..].to_vec();
                if z.entries.len() > 8 {
                    // whatever stands before is read as the size
                    let f = signed_bytes(&z, &b);
                    let cd = z.entries.len() + b.len();
                    let sz = u64::from_le_bytes(f[cd - 24..cd - 16].try_into().unwrap());
                    if sz <= 16384 {
                        continue;
                    }
                }
            }
            _ => {
                // a block over the size limit
                b = enc_block(&[Ent::Raw(1, vec![0; 16384 - 24 - 12 + 1 + c.rng.us(5000)])]);
            }
        }
        let f = signed_bytes(&z, &b);
        if ref_eocd(&f) != Some(z.entries.len() + b.len() + z.cd.len()) {
            continue;
        }
        state_case(c, &f, State::Corrupt, &[], "a malformed block right before the directory");
    }
    for k in 0..16usize {
        let z = Z { entries: vec![], cd: vec![1; 10], ..Default::default() };
        let f = signed_bytes(&z, &enc_block(&[])[16 - k..]);
        state_case(c, &f, State::Corrupt, &[], "a file that starts with half a block");
    }
    c.group("changed directory offset of a signed module");
    let pki = crate::keys::Pki::new(c);
    for i in 0..c.n(3) {
        let id = pki.ids[i % 3].clone();
        let z = Z { entries: no_sig(c.rng.bytes(300)), cd: no_sig(c.rng.bytes(60)), n1: 1, n2: 1, cd_size: 60, ..Default::default() };
        let uns = z.bytes();
        let d = ref_digest(&z.entries, &z.cd, &uns[360..], id.key.alg());
        let s = crate::verify::signed(&id, &[(id.key.alg(), d)], true);
        let b = enc_block(&[Ent::V2(vec![s])]);
        let f = signed_bytes(&z, &b);
        let p = store(c, &f);
        c.case("signed module", &[("file", &f)]);
        let mut roots = ksusig::TrustedRoots::new();
        roots.add_root(pki.root.clone());
        let r = c.run("verify_with_roots", || Module::new(p.clone()).unwrap().verify_with_roots(roots));
        c.check(r.is_valid(), || format!("a properly signed module does not verify: {r:?}"));
        let e = ref_eocd(&f).unwrap();
        let orig = cd_off(&f, e) as u32;
        let mut offs: Vec<u32> = (0..f.len() as u32 + 40).step_by(3).collect();
        offs.extend(orig - 40..orig + 40);
        offs.extend([u32::MAX, 300, 299, 301, 1 << 31]);
        for x in offs {
            if x == orig {
                continue;
            }
            let mut g = f.clone();
            g[e + 16..e + 20].copy_from_slice(&x.to_le_bytes());
            std::fs::write(&p, &g).unwrap();
            c.case(format!("directory offset {orig} changed to {x}"), &[("file", &g)]);
            let mut roots = ksusig::TrustedRoots::new();
            roots.add_root(pki.root.clone());
            let r = c.run("verify_with_roots", || Module::new(p.clone()).unwrap().verify_with_roots(roots));
            c.check(!r.is_valid(), || format!("the module still verifies with its directory offset changed from {orig} to {x}"));
        }
    }
    c.group("end");
}
