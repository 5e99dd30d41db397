// ---------- std::io, std::fs, std::path
/// buffers that read_exact fills
pub trait VxBuf { spec fn bq(&self) -> Seq<u8>; }
impl VxBuf for Vec<u8> { open spec fn bq(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBuf for [u8; N] { open spec fn bq(&self) -> Seq<u8> { self@ } }
pub mod io { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct Error { _p: u8 }
pub enum ErrorKind { InvalidData, InvalidInput, NotFound, Other, UnexpectedEof, PermissionDenied, Unsupported }
/// what an error message is made from
pub trait IntoMsg { spec fn h0(&self) -> bool; spec fn h1(&self) -> bool; }
impl IntoMsg for VStr { open spec fn h0(&self) -> bool { has0(*self) } open spec fn h1(&self) -> bool { has1(*self) } }
impl Error {
    #[verifier::external_body] pub fn new<M: IntoMsg>(k: ErrorKind, m: M) -> (r: Error) ensures has0(r) == m.h0(), has1(r) == m.h1() { unimplemented!() }
    #[verifier::external_body] pub fn other<M: IntoMsg>(m: M) -> (r: Error) ensures has0(r) == m.h0(), has1(r) == m.h1() { unimplemented!() }
    pub uninterp spec fn text(&self) -> VStr;
}
impl VxToString for Error { open spec fn ts(&self) -> VStr { self.text() } #[verifier::external_body] fn vx_to_string(&self) -> (r: VStr) { unimplemented!() } }
/// the text of an error contains what the error was made from
pub broadcast axiom fn axiom_err_text(e: Error) ensures has0(#[trigger] e.text()) == has0(e), has1(e.text()) == has1(e);
pub type Result<T> = core::result::Result<T, Error>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// a readable, seekable byte stream: fixed content and a position; any operation may fail
pub trait Read: Sized {
    spec fn content(&self) -> Seq<u8>;
    spec fn at(&self) -> int;
    /// no operation within the content fails
    spec fn calm(&self) -> bool;
    fn read_exact<B: VxBuf>(&mut self, b: &mut B) -> (r: core::result::Result<(), Error>)
        ensures
            final(self).content() == old(self).content(), final(self).calm() == old(self).calm(),
            old(self).calm() && 0 <= old(self).at() && old(self).at() + old(b).bq().len() <= old(self).content().len() ==> r is Ok, final(b).bq().len() == old(b).bq().len(),
            r is Ok ==> old(self).at() + old(b).bq().len() <= old(self).content().len()
                && final(b).bq() == old(self).content().subrange(old(self).at(), old(self).at() + old(b).bq().len())
                && final(self).at() == old(self).at() + old(b).bq().len(),
            r matches Err(e) ==> !has0(e) && !has1(e);
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>)
        ensures
            final(self).content() == old(self).content(), final(self).calm() == old(self).calm(), old(self).calm() ==> r is Ok,
            r is Ok ==> final(b)@ == old(b)@ + stream_rest(old(self).content(), old(self).at()),
            r matches Err(e) ==> !has0(e) && !has1(e);
    /// by_ref().take(n).read_to_end(v)
    fn vx_read_upto(&mut self, n: u64, b: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>)
        ensures
            final(self).content() == old(self).content(), final(self).calm() == old(self).calm(), old(self).calm() ==> r is Ok,
            r is Ok ==> final(b)@ == old(b)@ + stream_upto(old(self).content(), old(self).at(), n as int) && final(self).at() == old(self).at() + stream_upto(old(self).content(), old(self).at(), n as int).len(),
            r matches Err(e) ==> !has0(e) && !has1(e);
    /// the next n bytes of the stream, as a stream of their own
    fn take(&mut self, n: u64) -> (r: Stream)
        ensures final(self).content() == old(self).content(), final(self).calm() == old(self).calm(), r.todo() == stream_upto(old(self).content(), old(self).at(), n as int);
}
pub open spec fn stream_rest(c: Seq<u8>, at: int) -> Seq<u8> { if 0 <= at <= c.len() { c.skip(at) } else { Seq::empty() } }
pub open spec fn stream_upto(c: Seq<u8>, at: int, n: int) -> Seq<u8> {
    let s = stream_rest(c, at);
    if n <= s.len() { s.take(n) } else { s }
}
pub trait Seek: Read {
    fn seek(&mut self, s: SeekFrom) -> (r: core::result::Result<u64, Error>)
        ensures
            final(self).content() == old(self).content(), final(self).calm() == old(self).calm(),
            old(self).calm() && s is Start ==> r is Ok,
            r is Ok ==> final(self).at() == (match s { SeekFrom::Start(p) => p as int, SeekFrom::End(d) => old(self).content().len() + d, SeekFrom::Current(d) => old(self).at() + d }),
            r matches Err(e) ==> !has0(e) && !has1(e);
}
/// what is still to come of a stream that is only read once
#[verifier::external_body] pub struct Stream { _p: u8 }
impl Stream { pub uninterp spec fn todo(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct BufReader { _p: u8 }
pub trait BufRead {}
pub trait IntoStream { spec fn all(&self) -> Seq<u8>; }
impl IntoStream for Stream { open spec fn all(&self) -> Seq<u8> { self.todo() } }
impl IntoStream for Cursor { open spec fn all(&self) -> Seq<u8> { stream_rest(self.content(), self.at()) } }
impl BufReader {
    pub uninterp spec fn todo(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn with_capacity<S: IntoStream>(n: usize, s: S) -> (r: Self) ensures r.todo() == s.all() { unimplemented!() }
    #[verifier::external_body] pub fn new<S: IntoStream>(s: S) -> (r: Self) ensures r.todo() == s.all() { unimplemented!() }
    /// by_ref().take(n).read_to_end(v)
    #[verifier::external_body] pub fn vx_read_upto(&mut self, n: u64, v: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>)
        ensures
            r is Ok ==> final(v)@ == old(v)@ + old(self).todo().take(upto(old(self).todo().len() as int, n as int)) && final(self).todo() == old(self).todo().skip(upto(old(self).todo().len() as int, n as int)),
            r matches Err(e) ==> !has0(e) && !has1(e),
    { unimplemented!() }
    /// one read of the underlying stream: any non-empty prefix, or nothing at its end
    #[verifier::external_body] pub fn fill_buf(&mut self) -> (r: core::result::Result<Vec<u8>, Error>)
        ensures final(self).todo() == old(self).todo(),
            r matches Ok(b) ==> b@.len() <= old(self).todo().len() && b@ == old(self).todo().take(b@.len() as int) && (b@.len() == 0 ==> old(self).todo().len() == 0),
            r matches Err(e) ==> !has0(e) && !has1(e),
    { unimplemented!() }
    #[verifier::external_body] pub fn consume(&mut self, n: usize)
        ensures final(self).todo() == (if n <= old(self).todo().len() { old(self).todo().skip(n as int) } else { Seq::empty() })
    { unimplemented!() }
}
pub open spec fn upto(len: int, n: int) -> int { if n <= len { n } else { len } }
#[verifier::external_body] pub struct Cursor { _p: u8 }
impl Read for Cursor {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    uninterp spec fn calm(&self) -> bool;
    #[verifier::external_body] fn read_exact<B: VxBuf>(&mut self, b: &mut B) -> (r: core::result::Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_read_upto(&mut self, n: u64, b: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    #[verifier::external_body] fn take(&mut self, n: u64) -> (r: Stream) { unimplemented!() }
}
impl Seek for Cursor { #[verifier::external_body] fn seek(&mut self, s: SeekFrom) -> (r: core::result::Result<u64, Error>) { unimplemented!() } }
impl Cursor { #[verifier::external_body] pub fn new<S: VxSeq<u8>>(s: S) -> (r: Cursor) ensures r.content() == s.sq(), r.at() == 0 { unimplemented!() } }
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    fn write_all<S: VxSeq<u8>>(&mut self, s: S) -> (r: core::result::Result<(), Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + s.sq(), r matches Err(e) ==> !has0(e) && !has1(e);
    fn flush(&mut self) -> (r: core::result::Result<(), Error>) ensures final(self).out() == old(self).out();
}
#[verifier::external_body] pub fn copy<S: IntoStream, W: Write>(s: &mut S, w: &mut W) -> (r: core::result::Result<u64, Error>)
    ensures r is Ok ==> final(w).out() == old(w).out() + old(s).all(), r matches Err(e) ==> !has0(e) && !has1(e) { unimplemented!() }
}
pub mod path { use vstd::prelude::*; use super::*;
#[verifier::external_body] pub struct PathBuf { _p: u8 }
pub type Path = PathBuf;
impl PathBuf {
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: PathBuf) { unimplemented!() }
}
pub trait AsPath { spec fn pth(&self) -> PathBuf; }
impl AsPath for PathBuf { open spec fn pth(&self) -> PathBuf { *self } }
/// the path a string names
pub uninterp spec fn path_named(s: Seq<u8>) -> PathBuf;
impl AsPath for VStr { open spec fn pth(&self) -> PathBuf { path_named(self@) } }
impl<P: AsPath> AsPath for &P { open spec fn pth(&self) -> PathBuf { (**self).pth() } }
}
pub mod fs { use vstd::prelude::*; use super::*; use super::path::*; use super::io::*;
/// the bytes of the file at a path, assumed not to change during an operation
pub uninterp spec fn bytes_at(p: PathBuf) -> Seq<u8>;
pub broadcast axiom fn axiom_file_len(p: PathBuf) ensures #[trigger] bytes_at(p).len() <= 0x7fff_ffff_ffff_ffff;
#[verifier::external_body] pub struct File { _p: u8 }
#[verifier::external_body] pub struct Metadata { _p: u8 }
impl Metadata { pub uninterp spec fn sz(&self) -> int; #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.sz() { unimplemented!() } }
impl Read for File {
    uninterp spec fn content(&self) -> Seq<u8>;
    uninterp spec fn at(&self) -> int;
    uninterp spec fn calm(&self) -> bool;
    #[verifier::external_body] fn read_exact<B: VxBuf>(&mut self, b: &mut B) -> (r: core::result::Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_read_upto(&mut self, n: u64, b: &mut Vec<u8>) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    #[verifier::external_body] fn take(&mut self, n: u64) -> (r: Stream) { unimplemented!() }
}
impl IntoStream for File { open spec fn all(&self) -> Seq<u8> { stream_rest(self.content(), self.at()) } }
impl Seek for File { #[verifier::external_body] fn seek(&mut self, s: SeekFrom) -> (r: core::result::Result<u64, Error>) { unimplemented!() } }
impl File {
    #[verifier::external_body] pub fn open<P: AsPath>(p: P) -> (r: core::result::Result<File, Error>)
        ensures r matches Ok(f) ==> f.content() == bytes_at(p.pth()) && f.at() == 0, r matches Err(e) ==> !has0(e) && !has1(e) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: core::result::Result<Metadata, Error>)
        ensures r matches Ok(m) ==> m.sz() == self.content().len(), r matches Err(e) ==> !has0(e) && !has1(e) { unimplemented!() }
}
/// fails unless the file is UTF-8
#[verifier::external_body] pub fn read_to_string<P: AsPath>(p: P) -> (r: core::result::Result<String, Error>)
    ensures r matches Ok(v) ==> v@ == bytes_at(p.pth()), r matches Err(e) ==> !has0(e) && !has1(e) { unimplemented!() }
#[verifier::external_body] pub fn read<P: AsPath>(p: P) -> (r: core::result::Result<Vec<u8>, Error>)
    ensures r matches Ok(v) ==> v@ == bytes_at(p.pth()), r matches Err(e) ==> !has0(e) && !has1(e) { unimplemented!() }
}
pub broadcast group io_facts { io::axiom_err_text, fs::axiom_file_len }
