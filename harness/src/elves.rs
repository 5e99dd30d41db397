//! C08, C09, C10: ELF generator and reader of our own.
use crate::ctx::{die, Ctx};
use crate::gen::{self, Choppy};
use crate::model::*;
use crate::modules::{ref_chunks, ref_final};
use ksusig::file_formats::elf::digest::digest_elf_sections;
use ksusig::file_formats::elf::ElfFile;
use ksusig::{SignableFile, SigningBlock};

pub const SIGN: &str = ".ksu_sign";

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sec {
    pub name: Vec<u8>,
    pub name_off: u32,
    pub typ: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}
#[derive(Clone, Debug, Default)]
pub struct E {
    pub bytes: Vec<u8>,
    pub c64: bool,
    pub le: bool,
    pub secs: Vec<Sec>,
    pub shstrndx: usize,
}

struct Wr {
    o: Vec<u8>,
    le: bool,
    c64: bool,
}
impl Wr {
    fn n(&mut self, v: u64, w: usize) {
        let b = v.to_le_bytes();
        if self.le {
            self.o.extend(&b[..w]);
        } else {
            self.o.extend(b[..w].iter().rev());
        }
    }
    fn word(&mut self, v: u64) {
        let w = if self.c64 { 8 } else { 4 };
        self.n(v, w);
    }
}
struct Rd<'a> {
    b: &'a [u8],
    at: usize,
    le: bool,
    c64: bool,
}
impl Rd<'_> {
    fn n(&mut self, w: usize) -> Option<u64> {
        let s = self.b.get(self.at..self.at + w)?;
        self.at += w;
        let mut v = 0u64;
        for i in 0..w {
            v |= (s[if self.le { i } else { w - 1 - i }] as u64) << (8 * i);
        }
        Some(v)
    }
    fn word(&mut self) -> Option<u64> {
        let w = if self.c64 { 8 } else { 4 };
        self.n(w)
    }
}
/// our own reader of the section table
pub fn read(b: &[u8]) -> Option<E> {
    if b.get(..4)? != [0x7f, b'E', b'L', b'F'] {
        return None;
    }
    let (c64, le) = (b[4] == 2, b[5] == 1);
    let mut r = Rd { b, at: if c64 { 40 } else { 32 }, le, c64 };
    let shoff = r.word()? as usize;
    r.at = if c64 { 58 } else { 46 };
    let (ent, num, ndx) = (r.n(2)? as usize, r.n(2)? as usize, r.n(2)? as usize);
    if ent != if c64 { 64 } else { 40 } {
        return None;
    }
    let mut secs = vec![];
    for i in 0..num {
        r.at = shoff + i * ent;
        let mut s = Sec { name_off: r.n(4)? as u32, typ: r.n(4)? as u32, ..Default::default() };
        s.flags = r.word()?;
        s.addr = r.word()?;
        s.off = r.word()?;
        s.size = r.word()?;
        s.link = r.n(4)? as u32;
        s.info = r.n(4)? as u32;
        s.align = r.word()?;
        s.entsize = r.word()?;
        secs.push(s);
    }
    if num > 0 {
        let st = secs.get(ndx)?.clone();
        let tab = b.get(st.off as usize..(st.off + st.size) as usize)?;
        for s in &mut secs {
            let t = tab.get(s.name_off as usize..)?;
            s.name = t.iter().take_while(|c| **c != 0).cloned().collect();
        }
    }
    Some(E { bytes: b.to_vec(), c64, le, secs, shstrndx: ndx })
}

#[derive(Clone)]
pub struct Want {
    pub name: String,
    pub typ: u32,
    pub data: Vec<u8>,
    pub nobits_size: u64,
}

/// lay a file out; `shuffle` decides about order and gaps
pub fn build(c: &mut Ctx, c64: bool, le: bool, want: &[Want], nul_end: bool) -> E {
    let hsize = if c64 { 64 } else { 52 };
    let mut bytes = vec![0u8; hsize];
    let mut secs: Vec<Sec> = vec![Sec::default()];
    // names: sometimes shared suffixes
    let mut tab: Vec<u8> = vec![0];
    let mut offs = vec![];
    let str_at = c.rng.us(want.len() + 1);
    let mut names: Vec<String> = want.iter().map(|w| w.name.clone()).collect();
    names.insert(str_at, ".shstrtab".into());
    for n in &names {
        let needle = [n.as_bytes(), &[0]].concat();
        let found = tab.windows(needle.len()).position(|w| w == &needle[..]);
        if let (Some(p), true) = (found, c.rng.chance(2, 3)) {
            offs.push(p as u32);
        } else {
            offs.push(tab.len() as u32);
            tab.extend(needle);
        }
    }
    if c.rng.chance(1, 5) {
        tab.extend(b".unused\0");
    }
    if !nul_end {
        tab.pop();
    }
    for (i, n) in names.iter().enumerate() {
        let is_str = i == str_at;
        let w = if is_str { None } else { Some(&want[if i > str_at { i - 1 } else { i }]) };
        let m = |c: &mut Ctx| if c64 { gen::u64v(c) } else { gen::u32v(c) as u64 };
        secs.push(Sec {
            name: n.as_bytes().to_vec(),
            name_off: offs[i],
            typ: w.map_or(3, |w| w.typ),
            flags: m(c),
            addr: m(c) >> 2,
            off: 0,
            size: w.map_or(tab.len() as u64, |w| if w.typ == 8 { w.nobits_size } else { w.data.len() as u64 }),
            link: if is_str { 0 } else { c.rng.below(5) as u32 },
            info: gen::u32v(c),
            align: *c.rng.pick(&[0u64, 1, 2, 4, 8, 16, 64, 4096]),
            entsize: c.rng.below(30),
        });
    }
    let mut order: Vec<usize> = (1..secs.len()).collect();
    for i in (1..order.len()).rev() {
        if c.rng.chance(1, 2) {
            let j = c.rng.us(i + 1);
            order.swap(i, j);
        }
    }
    let table_after = c.rng.us(order.len() + 1);
    let mut shoff = 0;
    let put_table = |bytes: &mut Vec<u8>, n: usize| {
        while bytes.len() % 8 != 0 {
            bytes.push(0);
        }
        let at = bytes.len();
        bytes.extend(vec![0; n * if c64 { 64 } else { 40 }]);
        at
    };
    for (k, i) in order.iter().enumerate() {
        if k == table_after {
            shoff = put_table(&mut bytes, secs.len());
        }
        let g = c.rng.us(9);
        let filler = c.rng.bytes(g);
        bytes.extend(filler);
        let is_str = *i == str_at + 1;
        let data: Vec<u8> = if is_str {
            tab.clone()
        } else {
            let w = i - 1 - usize::from(*i > str_at + 1);
            if want[w].typ == 8 { vec![] } else { want[w].data.clone() }
        };
        secs[*i].off = bytes.len() as u64;
        bytes.extend(data);
    }
    if shoff == 0 {
        shoff = put_table(&mut bytes, secs.len());
    }
    let g = c.rng.us(12);
    let filler = c.rng.bytes(g);
    bytes.extend(filler);
    // header
    let mut w = Wr { o: vec![0x7f, b'E', b'L', b'F', if c64 { 2 } else { 1 }, if le { 1 } else { 2 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], le, c64 };
    w.n(*c.rng.pick(&[1u64, 2, 3]), 2);
    w.n(*c.rng.pick(&[62u64, 183, 40, 3, 8]), 2);
    w.n(1, 4);
    let entry = c.rng.below(1 << 30);
    w.word(entry);
    w.word(0);
    w.word(shoff as u64);
    let fl = gen::u32v(c) as u64;
    w.n(fl, 4);
    w.n(hsize as u64, 2);
    w.n(if c64 { 56 } else { 32 }, 2);
    w.n(0, 2);
    w.n(if c64 { 64 } else { 40 }, 2);
    w.n(secs.len() as u64, 2);
    w.n(str_at as u64 + 1, 2);
    bytes[..hsize].copy_from_slice(&w.o);
    w.o.clear();
    for s in &secs {
        w.n(s.name_off as u64, 4);
        w.n(s.typ as u64, 4);
        for x in [s.flags, s.addr, s.off, s.size] {
            w.word(x);
        }
        w.n(s.link as u64, 4);
        w.n(s.info as u64, 4);
        w.word(s.align);
        w.word(s.entsize);
    }
    bytes[shoff..shoff + w.o.len()].copy_from_slice(&w.o);
    E { bytes, c64, le, secs, shstrndx: str_at + 1 }
}

const NAMES: &[&str] = &[".text", ".rodata", ".data", ".text.foo", ".init", "x", ".bss", ".comment", ".TEXT", ".ksu_sig", "ksu_sign", "a.ksu_sign", ".ksu_signature", ".note", ".KSU_SIGN", ".Ksu_sign", ".ksu_sign ", ".t"];

pub fn gen_wants(c: &mut Ctx, max: usize) -> Vec<Want> {
    let n = c.rng.us(6);
    let mut v = vec![];
    for base in [".text", ".rodata"] {
        if c.rng.chance(5, 6) {
            v.push(base.to_string());
        }
    }
    for _ in 0..n {
        v.push(c.rng.pick(NAMES).to_string());
    }
    for s in c.mined.new_strs.clone() {
        if c.rng.chance(1, 3) && !s.contains(&0) && !s.is_empty() {
            if let Ok(t) = String::from_utf8(s) {
                v.push(t);
            }
        }
    }
    for i in (1..v.len()).rev() {
        let j = c.rng.us(i + 1);
        v.swap(i, j);
    }
    v.into_iter()
        .map(|name| {
            let core = name == ".text" || name == ".rodata";
            let typ = if c.rng.chance(1, if core { 12 } else { 6 }) { 8 } else { *c.rng.pick(&[1u32, 1, 1, 1, 14, 0x6000_0001]) };
            let data = if c.rng.chance(1, 10) { vec![] } else { gen::data(c, max) };
            Want { name, typ, data, nobits_size: c.rng.below(5000) }
        })
        .collect()
}
pub fn gen_elf(c: &mut Ctx) -> E {
    let (c64, le) = (c.rng.chance(1, 2), c.rng.chance(2, 3));
    let mut w = gen_wants(c, 300);
    if c.rng.chance(1, 3) {
        let data = if c.rng.chance(2, 3) { enc_block(&gen::block(c)) } else { gen::data(c, 100) };
        let at = c.rng.us(w.len() + 1);
        w.insert(at, Want { name: SIGN.into(), typ: *c.rng.pick(&[1u32, 1, 8, 7 + 0x6000_0000]), data, nobits_size: 0 });
    }
    build(c, c64, le, &w, true)
}
fn store(c: &Ctx, b: &[u8]) -> std::path::PathBuf {
    let p = c.scratch.join("e.elf");
    std::fs::write(&p, b).unwrap();
    p
}
fn open(c: &mut Ctx, e: &E, desc: &str) -> ElfFile {
    let p = store(c, &e.bytes);
    c.case(desc.to_string(), &[("file", &e.bytes)]);
    match c.run("ElfFile::new", || ElfFile::new(p.clone())) {
        Ok(x) => x,
        Err(x) => die(&format!("harness: a generated ELF file does not open: {x}")),
    }
}

// ------------------------------------------------------------------ C08
fn check_signed(c: &Ctx, before: &E, out: &[u8], block: &[u8]) -> E {
    let hs = if before.c64 { 64 } else { 52 };
    c.check(out.len() >= before.bytes.len(), || "the signed file is shorter".into());
    // fields of the header that locate the section table
    let keep: Vec<std::ops::Range<usize>> = if before.c64 { vec![0..40, 48..58] } else { vec![0..32, 36..46] };
    for k in keep {
        c.check(out[k.clone()] == before.bytes[k.clone()], || format!("header bytes {k:?} are changed"));
    }
    if let Some(i) = (hs..before.bytes.len()).find(|i| out[*i] != before.bytes[*i]) {
        die(&format!("byte {i} of the original file is changed"));
    }
    let Some(after) = read(out) else { die("the signed file's section table cannot be read") };
    c.check(after.c64 == before.c64 && after.le == before.le, || "class or byte order changed".into());
    let is_sign = |s: &Sec| s.name == SIGN.as_bytes();
    let had: Option<usize> = before.secs.iter().position(is_sign);
    let n = before.secs.len();
    let want_n = n + usize::from(had.is_none());
    c.check(after.secs.len() == want_n, || format!("{} sections instead of {want_n}", after.secs.len()));
    c.check(after.shstrndx == before.shstrndx, || "another section is taken for the name table".into());
    for (i, b) in before.secs.iter().enumerate() {
        let a = &after.secs[i];
        if Some(i) == had {
            continue;
        }
        if i == before.shstrndx {
            c.check(a.name == b.name && a.typ == b.typ && a.flags == b.flags && a.addr == b.addr && a.link == b.link && a.info == b.info && a.align == b.align && a.entsize == b.entsize, || "the name table's own entry is changed".into());
            let (x, y) = (&before.bytes[b.off as usize..(b.off + b.size) as usize], &out[a.off as usize..(a.off + a.size) as usize]);
            c.check(y.starts_with(x), || "the section names are not kept".into());
            c.check(b.align < 2 || a.off == b.off || a.off % b.align == 0, || "the name table is not aligned".into());
            continue;
        }
        c.check(a == b, || format!("section {i} ({}) is changed: {b:?} -> {a:?}", String::from_utf8_lossy(&b.name)));
    }
    let i = had.unwrap_or(n);
    let s = &after.secs[i];
    c.check(is_sign(s), || "the signature section has another name".into());
    c.check(after.secs.iter().position(is_sign) == Some(i), || "another section is called .ksu_sign".into());
    if had.is_none() {
        c.check(after.secs.iter().filter(|s| is_sign(s)).count() == 1, || "more than one signature section".into());
    }
    let al = if before.c64 { 8 } else { 4 };
    c.check(s.off % al == 0 && s.off >= before.bytes.len() as u64, || format!("the signature section is at offset {}", s.off));
    c.check(s.size as usize == block.len() && out[s.off as usize..s.off as usize + block.len()] == *block, || "the signature section does not hold the serialised block".into());
    c.check(s.typ == 1, || "the signature section has no file contents".into());
    after
}

fn sign_case(c: &mut Ctx, e: &E, rounds: usize, desc: &str) {
    let mut cur = e.clone();
    for r in 0..rounds {
        let blk = gen::block(c);
        let b = SigningBlock::new(lib_content(&blk)).unwrap();
        let bytes = b.to_u8();
        let f = open(c, &cur, &format!("{desc}: signing, round {r}"));
        let mut out = vec![];
        if let Err(x) = c.run("ElfFile::write_with_signature", || f.write_with_signature(&mut out, &b)) {
            die(&format!("an ELF file is not signed: {x}"));
        }
        let before = cur.clone();
        cur = check_signed(c, &before, &out, &bytes);
        let p = store(c, &cur.bytes);
        let g = match c.run("ElfFile::new", || ElfFile::new(p.clone())) {
            Ok(g) => g,
            Err(x) => die(&format!("the signed file does not open: {x}")),
        };
        match c.run("ElfFile::get_signing_block", || g.get_signing_block()) {
            Ok(Some(x)) => {
                c.check(of_block(&x) == blk && x.to_u8() == bytes, || "another block is read back".into());
            }
            Ok(None) => die("no block is read back"),
            Err(x) => die(&format!("the block is not read back: {x}")),
        }
        // the same through the common interface
        let mut o2 = vec![];
        let p2 = c.scratch.join("e2.elf");
        std::fs::write(&p2, &before.bytes).unwrap();
        let r = c.run("SignableFile::write_with_signature", || SignableFile::open(&p2).and_then(|s| s.write_with_signature(&mut o2, &b)));
        c.check(r.is_ok() && o2 == out, || "SignableFile writes something else".into());
        c.check(matches!(SignableFile::open(&p).and_then(|s| s.signing_block()), Ok(Some(x)) if of_block(&x) == blk), || "SignableFile reads another block back".into());
    }
}

pub fn c08(c: &mut Ctx) {
    c.group("random ELF files");
    for i in 0..c.n(400) {
        if i % 16 == 0 && !c.time_left() {
            break;
        }
        let e = gen_elf(c);
        let ro = read(&e.bytes);
        c.check(ro.as_ref().is_some_and(|r| r.secs == e.secs), || "harness: own reader disagrees with own writer".into());
        let rounds = if i % 4 == 0 { 3 } else { 1 + i % 2 };
        sign_case(c, &e, rounds, "random file");
    }
    c.group("every residue");
    for c64 in [false, true] {
        for le in [false, true] {
            for n in 0..72usize {
                let w = vec![Want { name: ".text".into(), typ: 1, data: vec![7; n + 1], nobits_size: 0 }];
                let e = build(c, c64, le, &w, true);
                sign_case(c, &e, 2, "residue");
            }
        }
    }
    c.group("name table without a closing NUL");
    for _ in 0..c.n(24) {
        let (c64, le) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
        let w = gen_wants(c, 40);
        let e = build(c, c64, le, &w, false);
        let p = store(c, &e.bytes);
        if ElfFile::new(p).is_ok() {
            sign_case(c, &e, 2, "name table without a closing NUL");
        }
    }
    c.group("many sections");
    for n in [30usize, 254, 255, 256, 300, 1000] {
        let w: Vec<Want> = (0..n).map(|i| Want { name: format!(".s{i}"), typ: 1, data: vec![i as u8; 3], nobits_size: 0 }).collect();
        for (c64, le) in [(true, true), (false, false)] {
            let e = build(c, c64, le, &w, true);
            sign_case(c, &e, 2, "many sections");
        }
    }
    c.group("two signature sections");
    for _ in 0..c.n(10) {
        let mut w = gen_wants(c, 40);
        for _ in 0..2 {
            let at = c.rng.us(w.len() + 1);
            w.insert(at, Want { name: SIGN.into(), typ: 1, data: enc_block(&gen::block(c)), nobits_size: 0 });
        }
        let e = build(c, true, true, &w, true);
        sign_case(c, &e, 2, "two signature sections");
    }
    c.group("end");
}

// ------------------------------------------------------------------ C09
/// reference selection
pub fn ref_select(e: &E, req: &[String]) -> Option<Vec<(String, u64, u64)>> {
    let mut v = vec![];
    for n in req {
        let s = e.secs.iter().find(|s| s.name == n.as_bytes())?;
        if s.typ == 8 || s.size == 0 {
            return None;
        }
        v.push((n.clone(), s.off, s.size));
    }
    v.sort_by_key(|x| x.1);
    Some(v)
}
/// None: refused
pub fn ref_request(req: &[String]) -> Option<Vec<String>> {
    let v: Vec<String> = req.iter().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    if v.is_empty() || v.iter().any(|s| s.to_ascii_lowercase() == SIGN) {
        return None;
    }
    Some(v)
}
fn check_selection(c: &Ctx, f: &ElfFile, e: &E, sel: &[String]) {
    let want = ref_select(e, sel);
    let got = c.run("ElfFile::resolved_sections", || f.resolved_sections());
    match (&want, &got) {
        (Some(w), Ok(g)) => c.check(w == g, || format!("selected {g:?}, requested {w:?}")),
        (None, Err(_)) => {}
        (Some(w), Err(x)) => die(&format!("a valid request is refused: {x}; {w:?}")),
        (None, Ok(g)) => die(&format!("an invalid request is accepted: {sel:?} gives {g:?}")),
    }
    let reg = c.run("ElfFile::digest_regions", || f.digest_regions());
    match (want, reg) {
        (Some(w), Ok(g)) => {
            let g: Vec<(String, u64, u64)> = g.into_iter().map(|r| (r.name, r.offset, r.size)).collect();
            c.check(w == g, || format!("digest regions {g:?}, requested {w:?}"));
        }
        (None, Err(_)) => {
            c.check(f.digest(&alg(0x0201)).is_err(), || "an invalid selection has a digest".into());
        }
        _ => die("digest regions disagree with the selection"),
    }
}
fn dress(c: &mut Ctx, n: &str) -> String {
    match c.rng.below(8) {
        0 => format!(" {n}"),
        1 => format!("{n}\t"),
        2 => format!("\n{n} \r"),
        3 => format!("\u{a0}{n}\u{3000}"),
        _ => n.to_string(),
    }
}
fn sign_case_variant(c: &mut Ctx) -> String {
    SIGN.chars().map(|x| if c.rng.chance(1, 2) { x.to_ascii_uppercase() } else { x }).collect()
}

pub fn c09(c: &mut Ctx) {
    c.group("random requests");
    for i in 0..c.n(1500) {
        if i % 64 == 0 && !c.time_left() {
            break;
        }
        let e = gen_elf(c);
        let mut f = open(c, &e, "selection");
        let mut sel: Vec<String> = vec![".text".into(), ".rodata".into()];
        check_selection(c, &f, &e, &sel);
        for _ in 0..1 + c.rng.us(5) {
            let mut req = vec![];
            let n = match c.rng.below(6) {
                0 => 0,
                1 => 1,
                _ => 1 + c.rng.us(5),
            };
            let good: Vec<String> = e.secs.iter().filter(|s| s.typ != 8 && s.size > 0).map(|s| String::from_utf8_lossy(&s.name).into_owned()).filter(|s| s.to_ascii_lowercase() != SIGN).collect();
            let mostly_good = c.rng.chance(2, 3);
            for _ in 0..n {
                let nm = match c.rng.below(12) {
                    x if x < 9 && mostly_good && !good.is_empty() => c.rng.pick(&good).clone(),
                    0 => String::new(),
                    1 => " \t ".to_string(),
                    2 => sign_case_variant(c),
                    3 => ".missing".to_string(),
                    4 if !c.mined.new_strs.is_empty() => String::from_utf8_lossy(c.rng.pick(&c.mined.new_strs)).into_owned(),
                    _ => {
                        if e.secs.len() > 1 && c.rng.chance(2, 3) {
                            let k = 1 + c.rng.us(e.secs.len() - 1);
                            String::from_utf8_lossy(&e.secs[k].name).into_owned()
                        } else {
                            c.rng.pick(NAMES).to_string()
                        }
                    }
                };
                req.push(dress(c, &nm));
            }
            c.case(format!("request {req:?}, earlier selection {sel:?}"), &[("file", &e.bytes)]);
            let r = c.run("ElfFile::set_signed_sections", || f.set_signed_sections(req.clone()));
            match (ref_request(&req), r) {
                (Some(s), Ok(())) => sel = s,
                (None, Err(_)) => {}
                (Some(_), Err(x)) => die(&format!("the request {req:?} is refused: {x}")),
                (None, Ok(())) => die(&format!("the request {req:?} is accepted")),
            }
            check_selection(c, &f, &e, &sel);
        }
        // the same through the common interface
        if i % 5 == 0 {
            let p = store(c, &e.bytes);
            if let Ok(mut s) = SignableFile::open(&p) {
                let mut sel: Vec<String> = vec![".text".into(), ".rodata".into()];
                for _ in 0..3 {
                    let req: Vec<String> = (0..c.rng.us(3)).map(|_| match c.rng.below(4) { 0 => sign_case_variant(c), 1 => " ".to_string(), _ => c.rng.pick(NAMES).to_string() }).collect();
                    c.case(format!("SignableFile::set_elf_sections {req:?}"), &[("file", &e.bytes)]);
                    let r = c.run("set_elf_sections", || s.set_elf_sections(req.clone()));
                    c.check(r.is_ok() == ref_request(&req).is_some(), || format!("request {req:?}: {r:?}"));
                    if let Some(x) = ref_request(&req) {
                        sel = x;
                    }
                    let g = s.digest_regions().ok().map(|v| v.into_iter().map(|r| (r.name, r.offset, r.size)).collect::<Vec<_>>());
                    c.check(g == ref_select(&e, &sel), || "regions are not the requested sections".into());
                }
            }
        }
    }
    c.group("all letter cases of the signature section");
    let w = vec![Want { name: ".text".into(), typ: 1, data: vec![1; 8], nobits_size: 0 }, Want { name: ".KSU_SIGN".into(), typ: 1, data: vec![2; 8], nobits_size: 0 }];
    let e = build(c, true, true, &w, true);
    let mut f = open(c, &e, "letter cases");
    c.check(f.set_signed_sections(vec![".text".into()]).is_ok(), || "a plain request is refused".into());
    for m in 0..512u32 {
        let s: String = SIGN.chars().enumerate().map(|(i, x)| if m >> i & 1 == 1 { x.to_ascii_uppercase() } else { x }).collect();
        for req in [vec![s.clone()], vec![".text".into(), s.clone()], vec![s.clone(), ".text".into()], vec![format!(" {s}\t")], vec![" ".into(), ".text".into(), ".text".into(), s.clone()]] {
            c.case(format!("request {req:?}"), &[]);
            c.check(f.set_signed_sections(req.clone()).is_err(), || format!("the request {req:?} is accepted"));
            check_selection(c, &f, &e, &[".text".to_string()]);
        }
    }
    c.group("sections in every order");
    for n in 2..7usize {
        for _ in 0..c.n(20) {
            let w: Vec<Want> = (0..n).map(|i| Want { name: format!(".s{i}"), typ: 1, data: vec![i as u8 + 1; 1 + i], nobits_size: 0 }).collect();
            let e = build(c, true, true, &w, true);
            let mut f = open(c, &e, "order");
            let mut req: Vec<String> = w.iter().map(|w| w.name.clone()).collect();
            for i in (1..req.len()).rev() {
                let j = c.rng.us(i + 1);
                req.swap(i, j);
            }
            c.case(format!("request {req:?}"), &[("file", &e.bytes)]);
            c.check(f.set_signed_sections(req.clone()).is_ok(), || "refused".into());
            check_selection(c, &f, &e, &req);
        }
    }
    c.group("end");
}

// ------------------------------------------------------------------ C10
pub fn ref_elf_digest(b: &[u8], secs: &[(String, u64, u64)], a: u32) -> Vec<u8> {
    let mut ch = vec![];
    for (_, o, n) in secs {
        let s = (*o).min(b.len() as u64) as usize;
        let e = o.saturating_add(*n).min(b.len() as u64) as usize;
        ref_chunks(&mut ch, &b[s..e.max(s)], a);
    }
    ref_final(&ch, a)
}
fn digest_case(c: &mut Ctx, e: &E, req: &[String], desc: &str) {
    let mut f = open(c, e, desc);
    c.case(format!("{desc}: request {req:?}"), &[("file", &e.bytes)]);
    if f.set_signed_sections(req.to_vec()).is_err() {
        return;
    }
    let Some(secs) = ref_request(req).and_then(|r| ref_select(e, &r)) else { return };
    for a in [0x0201u32, 0x0202] {
        let want = ref_elf_digest(&e.bytes, &secs, a);
        match c.run("ElfFile::digest", || f.digest(&alg(a))) {
            Ok(d) => c.check(d == want, || format!("{a:#x}: the digest is not the specified one")),
            Err(x) => die(&format!("no digest: {x}")),
        }
        let mut r = Choppy::new(c, &e.bytes);
        match c.run("digest_elf_sections", || digest_elf_sections(&mut r, &secs, &alg(a))) {
            Ok(d) => c.check(d == want, || format!("{a:#x}: the digest depends on how reads are split")),
            Err(x) => die(&format!("digest_elf_sections fails on a reader that splits its reads: {x}")),
        }
        // through the common interface
        let p = store(c, &e.bytes);
        let d = c.run("SignableFile::digest", || {
            SignableFile::open(&p).and_then(|mut s| {
                s.set_elf_sections(req.to_vec())?;
                s.digest(&alg(a))
            })
        });
        c.check(d.is_ok_and(|d| d == want), || "SignableFile::digest is not the specified one".into());
    }
}

pub fn c10(c: &mut Ctx) {
    c.group("random sections");
    for i in 0..c.n(500) {
        if i % 32 == 0 && !c.time_left() {
            break;
        }
        let e = gen_elf(c);
        let good: Vec<String> = e.secs.iter().filter(|s| s.typ != 8 && s.size > 0).map(|s| String::from_utf8_lossy(&s.name).into_owned()).collect();
        let n = 1 + c.rng.us(4);
        let req: Vec<String> = (0..n).map(|_| c.rng.pick(&good).clone()).collect();
        digest_case(c, &e, &req, "random sections");
        // signing, and signing again, keep it
        let Some(secs) = ref_request(&req).and_then(|r| ref_select(&e, &r)) else { continue };
        if secs.iter().any(|s| s.0 == ".shstrtab") {
            continue;
        }
        let want = ref_elf_digest(&e.bytes, &secs, 0x0201);
        let mut cur = e.clone();
        for round in 0..2 {
            let f = open(c, &cur, "sign, then digest");
            let b = SigningBlock::new(lib_content(&gen::block(c))).unwrap();
            let mut out = vec![];
            if c.run("write_with_signature", || f.write_with_signature(&mut out, &b)).is_err() {
                break;
            }
            let p = store(c, &out);
            let Ok(mut g) = ElfFile::new(p) else { break };
            c.case(format!("digest after signing, round {round}, request {req:?}"), &[("file", &out)]);
            let _ = g.set_signed_sections(req.clone());
            let d = c.run("digest", || g.digest(&alg(0x0201)));
            c.check(d.is_ok_and(|d| d == want), || "signing changes the digest".into());
            let Some(x) = read(&out) else { break };
            cur = x;
        }
    }
    c.group("every byte");
    for _ in 0..c.n(4) {
        let w = vec![
            Want { name: ".text".into(), typ: 1, data: c.rng.bytes(60), nobits_size: 0 },
            Want { name: ".data".into(), typ: 1, data: c.rng.bytes(30), nobits_size: 0 },
            Want { name: ".rodata".into(), typ: 1, data: c.rng.bytes(45), nobits_size: 0 },
        ];
        let (c64, le) = (c.rng.chance(1, 2), c.rng.chance(1, 2));
        let e = build(c, c64, le, &w, true);
        let p = store(c, &e.bytes);
        let d0 = ElfFile::new(p).ok().and_then(|f| f.digest(&alg(0x0201)).ok()).unwrap_or_default();
        for i in 0..e.bytes.len() {
            let mut b = e.bytes.clone();
            b[i] ^= 1;
            let inside = e.secs.iter().any(|s| (s.name == b".text" || s.name == b".rodata") && (i as u64) >= s.off && (i as u64) < s.off + s.size);
            let other = read(&b).is_some_and(|r| r.secs == e.secs && r.shstrndx == e.shstrndx);
            if !inside && !other {
                continue; // a change of the table itself
            }
            let p = store(c, &b);
            c.case(format!("byte {i} flipped, {} the sections", if inside { "inside" } else { "outside" }), &[("file", &b)]);
            let Ok(f) = ElfFile::new(p) else { continue };
            let d = c.run("digest", || f.digest(&alg(0x0201))).unwrap_or_default();
            c.check((d != d0) == inside && !d.is_empty(), || format!("byte {i}, {} the sections, {} the digest", if inside { "inside" } else { "outside" }, if inside { "does not enter" } else { "enters" }));
        }
    }
    c.group("chunk boundaries");
    let mib = 1usize << 20;
    let mut sizes = vec![1usize, 4096, 65536, mib - 1, mib, mib + 1, 2 * mib - 1, 2 * mib, 2 * mib + 7, 3 * mib + 1];
    sizes.extend(c.mined.new_ints.iter().filter(|x| **x > 1 && **x < 40 << 20).flat_map(|x| [*x as usize - 1, *x as usize, *x as usize + 1]).filter(|x| *x > 0).take(24));
    for n in sizes {
        let w = vec![
            Want { name: ".text".into(), typ: 1, data: c.rng.bytes(n), nobits_size: 0 },
            Want { name: ".rodata".into(), typ: 1, data: c.rng.bytes(1 + n % 77), nobits_size: 0 },
        ];
        let e = build(c, true, true, &w, true);
        digest_case(c, &e, &[".text".into(), ".rodata".into()], "near a chunk boundary");
        digest_case(c, &e, &[".rodata".into()], "near a chunk boundary");
        digest_case(c, &e, &[".text".into(), ".text".into()], "repeated section");
    }
    c.group("section lists");
    for _ in 0..c.n(400) {
        let n = gen::len(c, 3000);
        let b = c.rng.bytes(n);
        let k = c.rng.us(6);
        let mut secs = vec![];
        for i in 0..k {
            let o = c.rng.below(n as u64 + 10);
            let s = match c.rng.below(5) {
                0 => 0,
                1 => n as u64,
                2 => gen::u64v(c) >> 1,
                _ => c.rng.below(n as u64 + 1),
            };
            secs.push((format!("s{i}"), o, s));
        }
        for a in [0x0201u32, 0x0202] {
            c.case(format!("digest_elf_sections {secs:?} with {a:#x}"), &[("file", &b)]);
            let mut r = Choppy::new(c, &b);
            match c.run("digest_elf_sections", || digest_elf_sections(&mut r, &secs, &alg(a))) {
                Ok(d) => c.check(d == ref_elf_digest(&b, &secs, a), || "the digest is not the specified one".into()),
                Err(x) => die(&format!("no digest: {x}")),
            }
        }
    }
    c.group("digest command");
    crate::cliw::digest_elf_cmd(c);
    c.group("end");
}
