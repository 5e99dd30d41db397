// ---------- ELF
/// chunk digests of the first n sections, each chunked on its own
pub open spec fn elf_cds(a: Algorithms, c: Seq<u8>, s: Seq<(String, u64, u64)>, n: int) -> Seq<Seq<u8>> decreases n
{ if n <= 0 { Seq::empty() } else { elf_cds(a, c, s, n - 1) + cds(a, stream_upto(c, s[n - 1].1 as int, s[n - 1].2 as int)) } }
pub open spec fn elf_digest(a: Algorithms, c: Seq<u8>, s: Seq<(String, u64, u64)>) -> Seq<u8> { top_digest(a, elf_cds(a, c, s, s.len() as int)) }
