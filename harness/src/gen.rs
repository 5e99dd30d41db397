use crate::ctx::Ctx;
use crate::model::*;

pub fn len(c: &mut Ctx, max: usize) -> usize {
    let r = c.rng.below(20);
    let v = match r {
        0..=2 => 0,
        3..=5 => c.rng.us(5),
        6 => *c.rng.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 255, 256, 257]),
        7 if !c.mined.new_ints.is_empty() => (*c.rng.pick(&c.mined.new_ints.clone()) as usize).wrapping_add(c.rng.us(3)).wrapping_sub(1),
        8 if !c.mined.ints.is_empty() => (*c.rng.pick(&c.mined.ints.clone()) as usize).wrapping_add(c.rng.us(3)).wrapping_sub(1),
        9 => c.rng.us(max + 1),
        _ => c.rng.us(80),
    };
    if v > max { c.rng.us(max + 1) } else { v }
}
pub fn data(c: &mut Ctx, max: usize) -> Vec<u8> {
    let n = len(c, max);
    blob(c, n)
}
pub fn blob(c: &mut Ctx, n: usize) -> Vec<u8> {
    match c.rng.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 if n >= 16 => {
            let mut v = c.rng.bytes(n);
            let at = c.rng.us(n - 15);
            v[at..at + 16].copy_from_slice(MAGIC);
            v
        }
        3 if !c.mined.new_strs.is_empty() => {
            let s = c.rng.pick(&c.mined.new_strs.clone()).clone();
            let mut v = c.rng.bytes(n);
            if s.len() <= n {
                let at = c.rng.us(n - s.len() + 1);
                v[at..at + s.len()].copy_from_slice(&s);
            }
            v
        }
        _ => c.rng.bytes(n),
    }
}
pub fn u32v(c: &mut Ctx) -> u32 {
    match c.rng.below(8) {
        0 => *c.rng.pick(&[0u32, 1, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
        1 if !c.mined.new_ints.is_empty() => (*c.rng.pick(&c.mined.new_ints.clone()) as u32).wrapping_add(c.rng.us(3) as u32).wrapping_sub(1),
        2 if !c.mined.ints.is_empty() => *c.rng.pick(&c.mined.ints.clone()) as u32,
        3 => c.rng.below(1024) as u32,
        _ => c.rng.next() as u32,
    }
}
pub fn u64v(c: &mut Ctx) -> u64 {
    match c.rng.below(8) {
        0 => *c.rng.pick(&[0u64, 1, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, u64::MAX, u64::MAX - 7, u64::MAX - 8, i64::MAX as u64, 1 << 63]),
        1 if !c.mined.new_ints.is_empty() => c.rng.pick(&c.mined.new_ints.clone()).wrapping_add(c.rng.below(3)).wrapping_sub(1),
        2 => c.rng.below(70000),
        3 => 1u64 << c.rng.below(64),
        _ => c.rng.next(),
    }
}
pub fn alg_v(c: &mut Ctx) -> u32 {
    match c.rng.below(6) {
        0 | 1 => 0x0201,
        2 | 3 => 0x0202,
        4 => *c.rng.pick(&[0u32, 0x0101, 0x0103, 0x0104, 0x0200, 0x0203, 0x0301, 0x0421, 0x0102, 0x8000_0201, 0x0201_0000, 0x0102_0000]),
        _ => u32v(c),
    }
}
pub fn count(c: &mut Ctx) -> usize {
    *c.rng.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4])
}
fn pairs(c: &mut Ctx, max: usize) -> Vec<(u32, Vec<u8>)> {
    (0..count(c)).map(|_| (alg_v(c), data(c, max))).collect()
}
pub fn sd(c: &mut Ctx, max: usize) -> SD {
    SD {
        digests: pairs(c, max.min(64)),
        certs: (0..count(c)).map(|_| data(c, max)).collect(),
        attrs: (0..count(c)).map(|_| (if c.rng.chance(1, 3) { 0xe43c_5946 } else { u32v(c) }, data(c, max.min(64)))).collect(),
    }
}
pub fn sgn(c: &mut Ctx, max: usize) -> Sgn {
    Sgn { sd: sd(c, max), sigs: pairs(c, max.min(128)), pk: data(c, max.min(200)) }
}
pub fn name(c: &mut Ctx) -> String {
    if !c.mined.new_strs.is_empty() && c.rng.chance(1, 4) {
        if let Ok(s) = String::from_utf8(c.rng.pick(&c.mined.new_strs.clone()).clone()) {
            return s;
        }
    }
    let n = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => *c.rng.pick(&[127usize, 128, 255, 256, 257, 300]),
        _ => c.rng.us(20),
    };
    let alpha: Vec<char> = ".abcdefghijklmnopqrstuvwxyzABCDEFG0123456789_- \u{4e2d}\u{e9}\u{1f600}".chars().collect();
    (0..n).map(|_| *c.rng.pick(&alpha)).collect()
}
pub fn raw_id(c: &mut Ctx) -> u32 {
    loop {
        let v = match c.rng.below(6) {
            0 => PAD_ID,
            1 => *c.rng.pick(&[V2_ID ^ 1, STAMP_ID ^ 0x8000_0000, ELF_ID + 1, 0x2146_444e, 0xf053_68c0, 0x1b93_ad61, 0x504b_4453]),
            _ => u32v(c),
        };
        if v != V2_ID && v != STAMP_ID && v != ELF_ID {
            return v;
        }
    }
}
pub fn ent(c: &mut Ctx, max: usize) -> Ent {
    match c.rng.below(6) {
        0 | 1 => Ent::V2((0..count(c)).map(|_| sgn(c, max / 4)).collect()),
        2 => Ent::Stamp(sgn(c, max / 4)),
        3 => Ent::Elf((0..count(c)).map(|_| (name(c), u64v(c), u64v(c))).collect()),
        _ => Ent::Raw(raw_id(c), data(c, max)),
    }
}
pub const LIMIT: usize = 16 * 1024;
/// entries whose block keeps within the size limit
pub fn block(c: &mut Ctx) -> Vec<Ent> {
    loop {
        let n = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => 8 + c.rng.us(20),
            _ => 1 + c.rng.us(4),
        };
        let max = *c.rng.pick(&[16usize, 64, 600, 4000, 16000]);
        let v: Vec<Ent> = (0..n).map(|_| ent(c, max)).collect();
        if enc_content(&v).len() + 24 <= LIMIT {
            return v;
        }
    }
}
/// mutate encoded bytes: boundary values in length fields, truncation, splicing, bit flips
pub fn mutate(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + c.rng.us(3) {
        if v.is_empty() {
            return v;
        }
        let at = c.rng.us(v.len());
        match c.rng.below(8) {
            0 => v.truncate(at),
            1 => v[at] ^= 1 << c.rng.below(8),
            2 => {
                let x = u32v(c).to_le_bytes();
                for (i, y) in x.iter().enumerate() {
                    if at + i < v.len() {
                        v[at + i] = *y;
                    }
                }
            }
            3 => {
                // small change of a 32-bit field
                if at + 4 <= v.len() {
                    let x = u32::from_le_bytes([v[at], v[at + 1], v[at + 2], v[at + 3]]).wrapping_add(c.rng.us(17) as u32).wrapping_sub(8);
                    v[at..at + 4].copy_from_slice(&x.to_le_bytes());
                }
            }
            4 => {
                let x = u64v(c).to_le_bytes();
                for (i, y) in x.iter().enumerate() {
                    if at + i < v.len() {
                        v[at + i] = *y;
                    }
                }
            }
            5 => {
                v.drain(at..(at + c.rng.us(9)).min(v.len()));
            }
            6 => {
                let n = c.rng.us(9);
                let x = c.rng.bytes(n);
                v.splice(at..at, x);
            }
            _ => {
                let x = (v.len() as u64).wrapping_add(c.rng.below(33)).wrapping_sub(16).to_le_bytes();
                for (i, y) in x.iter().enumerate().take(if c.rng.chance(1, 2) { 4 } else { 8 }) {
                    if at + i < v.len() {
                        v[at + i] = *y;
                    }
                }
            }
        }
    }
    v
}
/// a reader that hands its data out in uneven pieces, is interrupted now and then
pub struct Choppy {
    pub data: Vec<u8>,
    pub pos: u64,
    pub rng: crate::ctx::Rng,
}
impl Choppy {
    pub fn new(c: &mut Ctx, data: &[u8]) -> Self {
        Self { data: data.to_vec(), pos: c.rng.below(50), rng: crate::ctx::Rng(c.rng.next()) }
    }
}
impl std::io::Read for Choppy {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.rng.chance(1, 9) {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let rest = self.data.get(self.pos as usize..).unwrap_or(&[]);
        let m = buf.len().min(rest.len());
        if m == 0 {
            return Ok(0);
        }
        let n = match self.rng.below(4) {
            0 => 1 + self.rng.us(m.min(7)),
            1 => m,
            _ => 1 + self.rng.us(m),
        }
        .min(m);
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Choppy {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            std::io::SeekFrom::Start(x) => x as i128,
            std::io::SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            std::io::SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if n < 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "negative"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
