//! C01 - C05, C16 (block part)
use crate::ctx::Ctx;
use crate::gen::{self, Choppy, LIMIT};
use crate::model::*;
use ksusig::common::*;
use ksusig::signing_block::algorithms::Algorithms;
use ksusig::signing_block::elf_section_info::{ElfSectionInfo, SectionEntry};
use ksusig::signing_block::{scheme_v2, source_stamp};
use ksusig::{MyReader, PrivateKey, SigningBlock, ValueSigningBlock};
use std::io::Cursor;

type Dec = (&'static str, fn(&[u8]));
const DECODERS: &[Dec] = &[
    ("Digest::parse", |b| drop(Digest::parse(&mut MyReader::new(b)))),
    ("Digests::parse", |b| drop(Digests::parse(&mut MyReader::new(b)))),
    ("Certificate::parse", |b| drop(Certificate::parse(&mut MyReader::new(b)))),
    ("Certificates::parse", |b| drop(Certificates::parse(&mut MyReader::new(b)))),
    ("Signature::parse", |b| drop(Signature::parse(&mut MyReader::new(b)))),
    ("Signatures::parse", |b| drop(Signatures::parse(&mut MyReader::new(b)))),
    ("AdditionalAttribute::parse", |b| drop(AdditionalAttribute::parse(&mut MyReader::new(b)))),
    ("AdditionalAttributes::parse", |b| drop(AdditionalAttributes::parse(&mut MyReader::new(b)))),
    ("PubKey::parse", |b| drop(PubKey::parse(&mut MyReader::new(b)))),
    ("scheme_v2::Signers::parse", |b| drop(scheme_v2::Signers::parse(&mut MyReader::new(b)))),
    ("scheme_v2::Signer::parse", |b| drop(scheme_v2::Signer::parse(&mut MyReader::new(b)))),
    ("scheme_v2::SignedData::parse", |b| drop(scheme_v2::SignedData::parse(&mut MyReader::new(b)))),
    ("SignatureSchemeV2::parse", |b| drop(scheme_v2::SignatureSchemeV2::parse(b.len() + 4, V2_ID, &mut MyReader::new(b)))),
    ("source_stamp::StampBlock::parse", |b| drop(source_stamp::StampBlock::parse(&mut MyReader::new(b)))),
    ("source_stamp::SignedData::parse", |b| drop(source_stamp::SignedData::parse(&mut MyReader::new(b)))),
    ("SourceStamp::parse", |b| drop(source_stamp::SourceStamp::parse(b.len() + 4, STAMP_ID, &mut MyReader::new(b)))),
    ("SectionEntry::parse", |b| drop(SectionEntry::parse(&mut MyReader::new(b)))),
    ("ElfSectionInfo::parse", |b| drop(ElfSectionInfo::parse(b.len() + 4, ELF_ID, &mut MyReader::new(b)))),
    ("ValueSigningBlock::parse", |b| drop(ValueSigningBlock::parse(&mut MyReader::new(b)))),
    ("SigningBlock::from_u8", |b| drop(SigningBlock::from_u8(b))),
];

fn decode_all(c: &mut Ctx, b: &[u8]) {
    for (n, f) in DECODERS {
        c.case(*n, &[("data", b)]);
        c.run_limited(n, b.len() * 256 + (1 << 16), || f(b));
    }
}

fn from_reader_any(c: &mut Ctx, file: &[u8], end_offset: usize) {
    c.case(format!("SigningBlock::from_reader(file_len={}, end_offset={end_offset})", file.len()), &[("file", file)]);
    let r = c.run_limited("SigningBlock::from_reader", file.len() * 256 + (1 << 16), || {
        SigningBlock::from_reader(Cursor::new(file), file.len(), end_offset)
    });
    if let Ok(s) = r {
        c.check(s.file_offset_start <= s.file_offset_end && s.file_offset_end <= file.len(), || {
            format!("a block outside the file is reported: {}..{}", s.file_offset_start, s.file_offset_end)
        });
    }
}

fn module_any(c: &mut Ctx, file: &[u8]) {
    let p = c.scratch.join("any.zip");
    std::fs::write(&p, file).unwrap();
    c.case("Module: find_eocd, get_offsets, get_signing_block, digest, get_raw_module", &[("file", file)]);
    let lim = file.len() * 256 + (4 << 20);
    if let Ok(m) = c.run_limited("Module::new", lim, || ksusig::Module::new(p.clone())) {
        let _ = c.run_limited("Module::find_eocd", lim, || m.find_eocd());
        let _ = c.run_limited("Module::get_offsets", lim, || m.get_offsets());
        let _ = c.run_limited("Module::get_signing_block", lim, || m.get_signing_block());
        let _ = c.run_limited("Module::get_raw_module", lim, || m.get_raw_module());
        let _ = c.run_limited("Module::digest", lim, || m.digest(&Algorithms::ECDSA_SHA2_256));
        let mut o = vec![];
        let _ = c.run_limited("Module::write_with_signature", lim, || m.write_with_signature(&mut o));
        let _ = c.run_limited("SignableFile", lim, || ksusig::SignableFile::open(&p).and_then(|s| s.signing_block()));
    }
}

pub fn c01(c: &mut Ctx) {
    c.group("short inputs");
    for n in 0..40usize {
        for fill in [0u8, 1, 4, 0xff] {
            decode_all(c, &vec![fill; n]);
        }
    }
    // two-byte / four-byte / eight-byte leading sizes with every small body
    for sz in [0u64, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 20, 24, 0x7f, 0xff, 0xffff, 0xff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 40, u64::MAX, u64::MAX - 3, u64::MAX - 4, u64::MAX - 7, u64::MAX - 8, u64::MAX - 24] {
        for n in [0usize, 1, 3, 4, 8, 12, 16, 24, 40, 64] {
            for w in [2usize, 4, 8] {
                let b = [&sz.to_le_bytes()[..w], &vec![0u8; n]].concat();
                decode_all(c, &b);
                let b = [&vec![0u8; n][..], &sz.to_le_bytes()[..w], &vec![0u8; 12]].concat();
                decode_all(c, &b);
            }
        }
    }
    // size field x magic position
    for before in 0..40usize {
        for sz in [0u64, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 16383, 16384, 16385, u64::MAX, u64::MAX - 8, u64::MAX - 16] {
            let mut b = vec![0u8; before];
            let s = sz.to_le_bytes();
            for i in 0..8.min(before) {
                b[before - 1 - i] = s[7 - i];
            }
            b.extend_from_slice(MAGIC);
            for tail in [0usize, 1, 16, 30] {
                let mut d = b.clone();
                d.extend(vec![0u8; tail]);
                c.case("SigningBlock::from_u8 of a size field and a magic", &[("data", &d)]);
                c.run_limited("SigningBlock::from_u8", d.len() * 256 + (1 << 16), || drop(SigningBlock::from_u8(&d)));
                for eo in [0usize, tail, tail + 1, d.len(), d.len() + 1, usize::MAX] {
                    from_reader_any(c, &d, eo);
                }
            }
        }
    }
    c.group("well-formed prefixes");
    for _ in 0..c.n(40) {
        let v = gen::block(c);
        let b = enc_block(&v);
        let b = if b.len() > 700 { b[..700].to_vec() } else { b };
        let step = 1 + b.len() / 60;
        for n in (0..b.len()).step_by(step) {
            let d = [&b[..n], &(n as u64).to_le_bytes()[..], MAGIC].concat();
            c.case("cut block", &[("data", &d)]);
            c.run_limited("SigningBlock::from_u8", d.len() * 256 + (1 << 16), || drop(SigningBlock::from_u8(&d)));
        }
        for e in &v {
            let (_, val) = enc_value(e);
            for n in (0..val.len()).step_by(1 + val.len() / 40) {
                decode_all(c, &val[..n]);
            }
        }
    }
    c.group("mutated content inside an honest frame");
    for i in 0..c.n(4000) {
        if i % 256 == 0 && !c.time_left() {
            break;
        }
        let v = gen::block(c);
        let content = enc_content(&v);
        let m = gen::mutate(c, &content);
        let b = frame(&m);
        c.case("SigningBlock::from_u8", &[("data", &b)]);
        c.run_limited("SigningBlock::from_u8", b.len() * 256 + (1 << 16), || drop(SigningBlock::from_u8(&b)));
        if i % 4 == 0 {
            if let Some(e) = v.first() {
                let (_, val) = enc_value(e);
                let m = gen::mutate(c, &val);
                decode_all(c, &m);
                // deeper: inner parts
                if val.len() > 8 {
                    let m = gen::mutate(c, &val[4..]);
                    decode_all(c, &m);
                    if val.len() > 16 {
                        let m = gen::mutate(c, &val[8..]);
                        decode_all(c, &m);
                    }
                }
            }
        }
        if i % 4 == 1 {
            let whole = gen::mutate(c, &b);
            decode_all(c, &whole);
            let eo = match c.rng.below(6) {
                0 => 0,
                1 => c.rng.us(whole.len() + 2),
                2 => whole.len(),
                3 => usize::MAX - c.rng.us(20),
                _ => c.rng.us(30),
            };
            let n = c.rng.us(30);
            let pre = c.rng.bytes(n);
            from_reader_any(c, &[&pre[..], &whole].concat(), eo);
        }
    }
    c.group("module files");
    for i in 0..c.n(600) {
        let z = crate::modules::gen_module(c, 3000);
        let v = gen::block(c);
        let mut f = crate::modules::signed_bytes(&z, &enc_block(&v));
        if i % 3 != 0 {
            f = gen::mutate(c, &f);
        }
        if i % 5 == 0 {
            // any claimed directory position
            if let Some(at) = f.windows(4).rposition(|w| w == [0x50, 0x4b, 5, 6]) {
                if at + 20 <= f.len() {
                    let x = match c.rng.below(4) {
                        0 => gen::u32v(c),
                        1 => c.rng.below(f.len() as u64 + 30) as u32,
                        2 => c.rng.below(40) as u32,
                        _ => u32::MAX - c.rng.below(40) as u32,
                    };
                    f[at + 16..at + 20].copy_from_slice(&x.to_le_bytes());
                }
            }
        }
        module_any(c, &f);
    }
    c.group("ELF files");
    for i in 0..c.n(300) {
        let e = crate::elves::gen_elf(c);
        let mut f = e.bytes;
        if i % 3 != 0 {
            f = gen::mutate(c, &f);
        }
        let p = c.scratch.join("any.elf");
        std::fs::write(&p, &f).unwrap();
        c.case("ElfFile: open and get_signing_block", &[("file", &f)]);
        let opened = std::panic::catch_unwind(|| ksusig::file_formats::elf::ElfFile::new(p.clone()));
        // a panic inside the ELF parser library is not the property's
        if let Ok(Ok(e)) = opened {
            let _ = c.run("ElfFile::get_signing_block", || e.get_signing_block());
        }
    }
    c.group("end");
}

fn eq_block(c: &Ctx, v: &[Ent], got: &SigningBlock, built: &SigningBlock, bytes: &[u8], how: &str) {
    c.check(of_block(got) == v, || format!("{how}: decoded entries differ from the ones put in"));
    c.check(got.content == built.content, || format!("{how}: decoded content is not equal to the original (size fields)"));
    c.check(got.to_u8() == bytes, || format!("{how}: serialising the decoded block gives other bytes"));
    c.check(
        got.size_of_block_start == built.size_of_block_start && got.size_of_block_end == built.size_of_block_end && got.content_size == built.content_size && got.magic == built.magic,
        || format!("{how}: frame fields differ"),
    );
}

fn round_trip(c: &mut Ctx, v: &[Ent]) {
    let want = enc_block(v);
    c.case(format!("round trip of {} entries", v.len()), &[("expected", &want)]);
    let built = match c.run("SigningBlock::new", || SigningBlock::new(lib_content(v))) {
        Ok(b) => b,
        Err(e) => crate::ctx::die(&format!("SigningBlock::new refuses content within the limit ({} bytes): {e}", want.len())),
    };
    let bytes = c.run("SigningBlock::to_u8", || built.to_u8());
    c.check(bytes == want, || "the serialised form is not the documented one".into());
    c.check(built.get_full_size() == bytes.len(), || "get_full_size is not the serialised length".into());
    match c.run("SigningBlock::from_u8", || SigningBlock::from_u8(&bytes)) {
        Ok(b) => {
            eq_block(c, v, &b, &built, &bytes, "from_u8");
            c.check(b == built, || "from_u8: decoded block differs from the one built".into());
        }
        Err(e) => crate::ctx::die(&format!("from_u8 does not decode a block the library built: {e}")),
    }
    let n = c.rng.us(200);
    let pre = c.rng.bytes(n);
    let n = c.rng.us(200);
    let post = c.rng.bytes(n);
    let file = [&pre[..], &bytes, &post].concat();
    let r = Choppy::new(c, &file);
    match c.run("SigningBlock::from_reader", || SigningBlock::from_reader(r, file.len(), post.len())) {
        Ok(b) => {
            eq_block(c, v, &b, &built, &bytes, "from_reader");
            c.check(b.file_offset_start == pre.len() && b.file_offset_end == pre.len() + bytes.len(), || "from_reader: wrong position of the block".into());
        }
        Err(e) => crate::ctx::die(&format!("from_reader does not decode a block the library built: {e}")),
    }
    // entry by entry
    for e in v {
        let x = lib_ent(e);
        let b = c.run("ValueSigningBlock::to_u8", || x.to_u8());
        c.check(b == enc_ent(e), || "an entry's serialised form is not the documented one".into());
        c.check(x.size() == b.len() && x.inner_size() + 8 == b.len() && x.id() == enc_value(e).0, || "an entry's size or id is wrong".into());
        match c.run("ValueSigningBlock::parse", || ValueSigningBlock::parse(&mut MyReader::new(&b))) {
            Ok(y) => c.check(x == y, || "an entry decodes to a different one".into()),
            Err(e) => crate::ctx::die(&format!("an entry does not decode: {e}")),
        }
    }
}

fn parts(c: &mut Ctx, s: &Sgn) {
    macro_rules! rt {
        ($t:ty, $x:expr) => {{
            let x = $x;
            let b = c.run(concat!(stringify!($t), "::to_u8"), || x.to_u8());
            // followed by other data (itself again), as inside a larger structure
            let mut r = MyReader::new(&[&b[..], &b[..], &[0x5a; 9]].concat());
            for _ in 0..2 {
                match c.run(concat!(stringify!($t), "::parse"), || <$t>::parse(&mut r)) {
                    Ok(y) => c.check(x == y, || concat!(stringify!($t), " decodes to a different value").into()),
                    Err(e) => crate::ctx::die(&format!("{} does not decode: {e}", stringify!($t))),
                }
            }
        }};
    }
    c.case(format!("parts of {s:?}"), &[]);
    rt!(Digests, lib_digests(&s.sd.digests));
    rt!(Certificates, lib_certs(&s.sd.certs));
    rt!(AdditionalAttributes, lib_attrs(&s.sd.attrs));
    rt!(Signatures, lib_sigs(&s.sigs));
    rt!(PubKey, PubKey::new(s.pk.clone()));
    rt!(scheme_v2::SignedData, lib_v2_sd(&s.sd));
    rt!(source_stamp::SignedData, lib_stamp_sd(&s.sd));
    rt!(scheme_v2::Signer, lib_signer(s));
    rt!(source_stamp::StampBlock, lib_stamp(s));
    for d in &s.sd.digests {
        rt!(Digest, Digest::new(alg(d.0), d.1.clone()));
        rt!(Signature, Signature::new(alg(d.0), d.1.clone()));
    }
    for d in &s.sd.certs {
        rt!(Certificate, Certificate::new(d.clone()));
    }
}

pub fn c02(c: &mut Ctx) {
    c.group("every part alone");
    for _ in 0..c.n(1500) {
        let s = gen::sgn(c, 400);
        parts(c, &s);
    }
    c.group("every length of a field");
    for n in 0..600usize {
        let d = c.rng.bytes(n);
        let z = vec![0u8; n];
        for d in [d, z] {
            let s = Sgn { sd: SD { digests: vec![(0x0201, d.clone())], certs: vec![d.clone()], attrs: vec![(7, d.clone())] }, sigs: vec![(0x0202, d.clone())], pk: d.clone() };
            parts(c, &s);
            round_trip(c, &[Ent::V2(vec![s.clone()]), Ent::Raw(9, d.clone()), Ent::Stamp(s)]);
        }
    }
    for n in (600..16340usize).step_by(37).chain(16330..16341) {
        let d = c.rng.bytes(n);
        round_trip(c, &[Ent::Raw(1, d)]);
    }
    c.group("every count");
    for n in 0..130usize {
        let e = Ent::Raw(n as u32, vec![n as u8; n % 5]);
        round_trip(c, &vec![e; n]);
        let s = Sgn { sd: SD { digests: vec![(0x0201, vec![1, 2]); n], certs: vec![vec![3]; n], attrs: vec![(4, vec![5]); n] }, sigs: vec![(6, vec![7]); n], pk: vec![8] };
        round_trip(c, &[Ent::V2(vec![s.clone()]), Ent::Stamp(s)]);
        if n < 60 {
            round_trip(c, &[Ent::V2(vec![Sgn::default(); n])]);
            round_trip(c, &[Ent::Elf((0..n).map(|i| (format!(".s{i}"), i as u64, u64::MAX - i as u64)).collect())]);
        }
    }
    for n in (0..600usize).chain([1000, 4000, 16000]) {
        round_trip(c, &[Ent::Elf(vec![("n".repeat(n), 1, 2), ("x".into(), 3, 4)])]);
    }
    c.group("ids and orders");
    for id in [0u32, 1, PAD_ID, V2_ID + 1, V2_ID - 1, STAMP_ID + 1, ELF_ID ^ 1, u32::MAX].into_iter().chain(c.mined.new_ints.clone().into_iter().map(|x| x as u32)) {
        if [V2_ID, STAMP_ID, ELF_ID].contains(&id) {
            continue;
        }
        for d in [vec![], vec![1], c.rng.bytes(32), c.rng.bytes(300)] {
            round_trip(c, &[Ent::Raw(id, d.clone()), Ent::V2(vec![]), Ent::Raw(id, d)]);
        }
        let s = Sgn { sd: SD { digests: vec![(id, vec![1; 32])], certs: vec![], attrs: vec![(id, vec![1, 2, 3])] }, sigs: vec![(id, vec![9; 70])], pk: vec![] };
        if id != 0x201 && id != 0x202 {
            round_trip(c, &[Ent::Stamp(s.clone()), Ent::V2(vec![s.clone(), s])]);
        }
    }
    for s in c.mined.new_strs.clone() {
        round_trip(c, &[Ent::Raw(5, s.clone())]);
        if let Ok(t) = String::from_utf8(s.clone()) {
            round_trip(c, &[Ent::Elf(vec![(t, 1, 2)])]);
        }
        let g = Sgn { sd: SD { digests: vec![(0x0201, s.clone())], certs: vec![s.clone()], attrs: vec![(1, s.clone())] }, sigs: vec![(0x0201, s.clone())], pk: s };
        round_trip(c, &[Ent::V2(vec![g])]);
    }
    c.group("random blocks");
    for i in 0..c.n(6000) {
        if i % 256 == 0 && !c.time_left() {
            break;
        }
        let v = gen::block(c);
        round_trip(c, &v);
    }
    c.group("end");
}

fn sizes_ok(c: &Ctx, b: &SigningBlock, bytes: &[u8], how: &str) {
    let n = bytes.len() as u64;
    let a = u64::from_le_bytes(bytes[..8].try_into().unwrap());
    let z = u64::from_le_bytes(bytes[bytes.len() - 24..bytes.len() - 16].try_into().unwrap());
    c.check(a == z && a + 8 == n, || format!("{how}: size fields {a} and {z} in a serialised form of {n} bytes"));
    c.check(b.size_of_block_start as u64 == a && b.size_of_block_end as u64 == z && b.content_size as u64 + 24 == a, || format!("{how}: fields of the block disagree with its bytes"));
    c.check(a <= LIMIT as u64, || format!("{how}: a block of size {a} exceeds the limit"));
    c.check(b.file_offset_end - b.file_offset_start == bytes.len(), || format!("{how}: offsets do not span the block"));
    c.check(&bytes[bytes.len() - 16..] == MAGIC, || format!("{how}: no magic at the end"));
    c.check(b.get_full_size() == bytes.len(), || format!("{how}: get_full_size"));
}

fn one_size(c: &mut Ctx, v: &[Ent], offsets: bool) {
    let content = enc_content(v);
    let full = content.len() + 32;
    c.case(format!("SigningBlock::new of {} content bytes", content.len()), &[]);
    match c.run("SigningBlock::new", || SigningBlock::new(lib_content(v))) {
        Ok(mut b) => {
            c.check(full - 8 <= LIMIT, || format!("SigningBlock::new accepts a block of size {}", full - 8));
            let bytes = b.to_u8();
            c.check(bytes == frame(&content), || "SigningBlock::new: other bytes than the entries framed".into());
            sizes_ok(c, &b, &bytes, "new");
            if offsets {
                b.offset_by(1234);
                c.check(b.file_offset_start == 1234 && b.file_offset_end == 1234 + bytes.len(), || "offset_by".into());
                b.recalculate_size();
                sizes_ok(c, &b, &b.to_u8(), "recalculate_size");
                b.content.push(lib_ent(&Ent::Raw(77, vec![1, 2, 3])));
                b.recalculate_size();
                if b.get_full_size() - 8 <= LIMIT {
                    sizes_ok(c, &b, &b.to_u8(), "recalculate_size after adding an entry");
                }
            }
        }
        Err(_) => c.check(full - 8 > LIMIT, || format!("SigningBlock::new refuses a block of size {}", full - 8)),
    }
    let has_pad = v.iter().any(|e| enc_value(e).0 == PAD_ID);
    c.case(format!("SigningBlock::new_with_padding of {} content bytes", content.len()), &[]);
    match c.run("SigningBlock::new_with_padding", || SigningBlock::new_with_padding(lib_content(v))) {
        Ok(b) => {
            let bytes = b.to_u8();
            sizes_ok(c, &b, &bytes, "new_with_padding");
            c.check(bytes.len() % 4096 == 0, || format!("padded block has {} bytes", bytes.len()));
            let got = of_block(&b);
            c.check(got.len() >= v.len() && got[..v.len()] == *v, || "padding changes the entries given".into());
            c.check(got.len() <= v.len() + 1, || "more than one padding entry".into());
            if let Some(Ent::Raw(id, d)) = got.get(v.len()) {
                c.check(*id == PAD_ID && d.iter().all(|x| *x == 0), || "padding entry is not zero-filled".into());
                c.check(!has_pad, || "a second padding entry is added".into());
            } else {
                c.check(got.len() == v.len(), || "something other than padding was added".into());
            }
            // no more padding than needed
            c.check(bytes.len() < full + 4096 + 12, || "more padding than needed".into());
            c.check(SigningBlock::from_u8(&bytes).is_ok_and(|x| x == b), || "padded block does not decode".into());
        }
        Err(_) => {
            let rem = full % 4096;
            let padded = if rem == 0 { full } else { full - rem + 4096 };
            let too_small = rem != 0 && 4096 - rem < 12;
            c.check(has_pad || too_small || padded - 8 > LIMIT, || format!("padding {} content bytes is refused", content.len()));
        }
    }
}

fn refused(c: &mut Ctx, b: &[u8], why: &str) {
    c.case(why.to_string(), &[("data", b)]);
    if let Ok(s) = c.run("SigningBlock::from_u8", || SigningBlock::from_u8(b)) {
        crate::ctx::die(&format!("from_u8 accepts a block although {why} (reported size {})", s.size_of_block_end));
    }
    if let Ok(s) = c.run("SigningBlock::from_reader", || SigningBlock::from_reader(Cursor::new(b), b.len(), 0)) {
        crate::ctx::die(&format!("from_reader accepts a block although {why} (reported size {})", s.size_of_block_end));
    }
    for n in [1usize, 8, 40] {
        let f = [&vec![0u8; n][..], b].concat();
        if let Ok(s) = c.run("SigningBlock::from_reader", || SigningBlock::from_reader(Cursor::new(&f), f.len(), 0)) {
            crate::ctx::die(&format!("from_reader accepts a block although {why} (reported size {}, {n} bytes before it)", s.size_of_block_end));
        }
    }
}

pub fn c03(c: &mut Ctx) {
    c.group("every content size");
    for n in 0..16800usize {
        let z = n % 3 == 0;
        let v = [Ent::Raw(0x1111_0000 + (n as u32 & 7), if z { vec![0; n] } else { vec![n as u8; n] })];
        one_size(c, &v, n % 16 == 0);
    }
    for n in [20000usize, 24576, 28000, 32768, 65536, 70000, 100_000, 1 << 20] {
        for d in [0usize, 1, 12, 44, 45] {
            one_size(c, &[Ent::Raw(3, vec![1; n - d])], false);
        }
    }
    c.group("mixed entries");
    for _ in 0..c.n(1500) {
        let mut v = gen::block(c);
        if c.rng.chance(1, 3) {
            v.push(Ent::Raw(gen::raw_id(c), vec![7; c.rng.us(17000)]));
        }
        one_size(c, &v, true);
    }
    one_size(c, &[], true);
    for n in 0..20 {
        one_size(c, &[Ent::Raw(PAD_ID, vec![0; n])], true);
        one_size(c, &[Ent::Raw(1, vec![2]), Ent::Raw(PAD_ID, vec![0; n]), Ent::Raw(3, vec![])], true);
    }
    c.group("dishonest sizes");
    for _ in 0..c.n(300) {
        let v = gen::block(c);
        let b = enc_block(&v);
        let n = b.len();
        let honest = (n - 8) as u64;
        let deltas: Vec<u64> = [1u64, 2, 4, 7, 8, 9, 12, 16, 23, 24, 25, 32].iter().flat_map(|d| [honest.wrapping_add(*d), honest.wrapping_sub(*d)]).chain([0, 1, 8, 16, 23, 24, 25, LIMIT as u64 + 1, u64::MAX, u64::MAX - 7, honest ^ (1 << 32), honest ^ (1 << 40), honest | (1 << 63), honest ^ (1 << 16)]).collect();
        for x in deltas {
            if x == honest {
                continue;
            }
            let mut d = b.clone();
            d[..8].copy_from_slice(&x.to_le_bytes());
            refused(c, &d, "its two size fields differ (first one changed)");
            // both fields changed: the block must still match the data
            let mut d = b.clone();
            d[..8].copy_from_slice(&x.to_le_bytes());
            d[n - 24..n - 16].copy_from_slice(&x.to_le_bytes());
            if x > honest {
                refused(c, &d, "its size fields do not match the data");
            }
            let mut d = b.clone();
            d[n - 24..n - 16].copy_from_slice(&x.to_le_bytes());
            // an honest smaller block may begin inside: only if the 8 bytes there repeat x
            let inner = (n as u64).checked_sub(x.wrapping_add(8)).map(|s| s as usize);
            let repeats = inner.is_some_and(|s| s + 8 <= n && d[s..s + 8] == x.to_le_bytes());
            if !repeats {
                refused(c, &d, "its two size fields differ (second one changed)");
            }
        }
    }
    c.group("oversized blocks");
    for n in [16349usize, 16350, 16351, 16352, 16360, 17000, 20000, 40000] {
        for split in [1usize, 2, 5] {
            let v: Vec<Ent> = (0..split).map(|i| Ent::Raw(50 + i as u32, vec![3; n / split])).collect();
            let b = enc_block(&v);
            if b.len() - 8 > LIMIT {
                refused(c, &b, &format!("its size {} exceeds the limit", b.len() - 8));
            }
        }
    }
    c.group("ELF section info via the command line");
    crate::cliw::elf_block_limit(c);
    c.group("end");
}

pub fn c04(c: &mut Ctx) {
    c.group("all 2^32 identifiers");
    let bad = std::sync::Mutex::new(None::<(u32, String)>);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let bad = &bad;
            s.spawn(move || {
                for x in (t << 29)..((t + 1) << 29) {
                    let x = x as u32;
                    let a = Algorithms::from(x);
                    let ok = match (&a, x) {
                        (Algorithms::ECDSA_SHA2_256, 0x0201) | (Algorithms::ECDSA_SHA2_512, 0x0202) => true,
                        (Algorithms::Unknown(y), _) => *y == x && x != 0x0201 && x != 0x0202,
                        _ => false,
                    };
                    if !ok || u32::from(&a) != x || a.to_u32() != x {
                        *bad.lock().unwrap() = Some((x, format!("{a:?} -> {:#x}", a.to_u32())));
                        return;
                    }
                }
            });
        }
    });
    c.cases += 1 << 32;
    if let Some((x, s)) = bad.into_inner().unwrap() {
        c.case(format!("identifier {x:#x}"), &[("id", &x.to_le_bytes())]);
        crate::ctx::die(&format!("identifier {x:#x} does not keep its meaning: {s}"));
    }
    c.group("hashes");
    for n in (0..300usize).chain([4096, 65536, 1 << 20]) {
        let d = c.rng.bytes(n);
        c.case("hash", &[("data", &d)]);
        c.check(Algorithms::ECDSA_SHA2_256.hash(&d) == sha256(&d), || "0x0201 is not SHA-256".into());
        c.check(Algorithms::ECDSA_SHA2_512.hash(&d) == sha512(&d), || "0x0202 is not SHA-512".into());
    }
    c.group("signatures");
    let keys = crate::keys::Keys::new(c);
    for i in 0..c.n(40) {
        let n = gen::len(c, 400);
        let d = c.rng.bytes(n);
        for k in &keys.all {
            let pk = k.spki();
            for a in [0x0201u32, 0x0202] {
                c.case(format!("sign and verify with {a:#x}, {} key", k.name), &[("data", &d)]);
                let r = c.run("Algorithms::sign", || alg(a).sign(&k.private(), &d));
                if (a == 0x0201) != k.is256() {
                    c.check(r.is_err(), || "a key of the wrong curve signs".into());
                    continue;
                }
                let Ok(sig) = r else { crate::ctx::die("signing fails") };
                c.check(crate::keys::verify(a, &pk, &d, &sig), || "the signature is not one of the configured algorithm".into());
                c.check(alg(a).verify(&pk, &d, &sig).is_ok(), || "own signature does not verify".into());
                let mut d2 = d.clone();
                d2.push(0);
                c.check(alg(a).verify(&pk, &d2, &sig).is_err(), || "a signature verifies over other data".into());
                for other in &keys.all {
                    if other.spki() != pk {
                        c.check(alg(a).verify(&other.spki(), &d, &sig).is_err(), || "a signature verifies with another key".into());
                    }
                }
                let o = if a == 0x0201 { 0x0202 } else { 0x0201 };
                c.check(alg(o).verify(&pk, &d, &sig).is_err(), || "a signature verifies under the other algorithm".into());
                // corrupted signatures
                for _ in 0..6 {
                    let m = gen::mutate(c, &sig);
                    c.case(format!("verify mutated signature with {a:#x}"), &[("data", &d), ("sig", &m), ("pk", &pk)]);
                    let r = c.run("Algorithms::verify", || alg(a).verify(&pk, &d, &m).is_ok());
                    c.check(r == crate::keys::verify(a, &pk, &d, &m), || "verification of a corrupted signature differs from ECDSA".into());
                }
                for b in [vec![], vec![0], pk.clone(), vec![0x30, 0x06, 2, 1, 0, 2, 1, 0], sig[..sig.len() - 1].to_vec()] {
                    c.check(alg(a).verify(&pk, &d, &b).is_err(), || "a non-signature verifies".into());
                }
                for b in [vec![], vec![0x04], pk[..pk.len() - 1].to_vec()] {
                    c.check(alg(a).verify(&b, &d, &sig).is_err(), || "a non-key verifies".into());
                }
            }
            // unknown identifiers
            let mut ids = vec![0u32, 0x0101, 0x0103, 0x0200, 0x0203, 0x0301, u32::MAX, gen::u32v(c), c.rng.next() as u32];
            if i == 0 {
                ids.extend(c.mined.new_ints.iter().map(|x| *x as u32));
                ids.extend(c.mined.ints.iter().map(|x| *x as u32));
                ids.extend((0..0x900).collect::<Vec<u32>>());
            }
            for id in ids {
                if id == 0x0201 || id == 0x0202 {
                    continue;
                }
                let a = Algorithms::from(id);
                c.case(format!("unknown identifier {id:#x}"), &[("data", &d)]);
                c.check(c.run("hash", || a.hash(&d)).is_empty(), || format!("unknown identifier {id:#x} is hashed"));
                c.check(c.run("sign", || a.sign(&k.private(), &d)).is_err(), || format!("unknown identifier {id:#x} signs"));
                for real in [0x0201u32, 0x0202] {
                    if let Ok(sig) = alg(real).sign(&k.private(), &d) {
                        c.check(a.verify(&pk, &d, &sig).is_err(), || format!("unknown identifier {id:#x} verifies"));
                    }
                }
                c.check(a.verify(&pk, &d, &[]).is_err() && a.verify(&[], &[], &[]).is_err(), || format!("unknown identifier {id:#x} verifies"));
            }
            c.check(k.private().public_key_der().is_ok_and(|x| x == pk), || "public_key_der is not the key's own public key".into());
            let _: PrivateKey = k.private();
        }
    }
    c.group("end");
}

pub fn sha256(d: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(d).to_vec()
}
pub fn sha512(d: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha512::digest(d).to_vec()
}
