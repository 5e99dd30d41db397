#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unused_must_use, unreachable_code, unused_labels)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

/// Everything below `shim` is assumed, not verified: the contracts of the standard library, of the
/// external crates and of the few functions the extraction substitutes. See DESIGN.md, trusted base.
pub mod shim {
use vstd::prelude::*;

// ---------- machine facts
pub broadcast axiom fn axiom_vec_u8_len(v: Vec<u8>)
    ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;
pub broadcast axiom fn axiom_slice_u8_len(v: &[u8])
    ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;

// ---------- little endian
pub open spec fn le2(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
pub open spec fn le4(x: u32) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
pub open spec fn le8(x: u64) -> Seq<u8> {
    seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8,
         ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8]
}
pub open spec fn un2(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8) }
pub open spec fn un4(s: Seq<u8>) -> u32 {
    (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24)
}
pub open spec fn un8(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24)
    | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
pub proof fn lemma_le2(x: u16) ensures un2(le2(x)) == x, le2(x).len() == 2
{
    assert(((((x & 0xff) as u8) as u16) | (((((x >> 8) & 0xff) as u8) as u16) << 8)) == x) by (bit_vector);
}
pub proof fn lemma_le4(x: u32) ensures un4(le4(x)) == x, le4(x).len() == 4
{
    assert(((((x & 0xff) as u8) as u32) | (((((x >> 8) & 0xff) as u8) as u32) << 8)
        | (((((x >> 16) & 0xff) as u8) as u32) << 16) | (((((x >> 24) & 0xff) as u8) as u32) << 24)) == x) by (bit_vector);
}
pub proof fn lemma_le8(x: u64) ensures un8(le8(x)) == x, le8(x).len() == 8
{
    assert(((((x & 0xff) as u8) as u64) | (((((x >> 8) & 0xff) as u8) as u64) << 8)
        | (((((x >> 16) & 0xff) as u8) as u64) << 16) | (((((x >> 24) & 0xff) as u8) as u64) << 24)
        | (((((x >> 32) & 0xff) as u8) as u64) << 32) | (((((x >> 40) & 0xff) as u8) as u64) << 40)
        | (((((x >> 48) & 0xff) as u8) as u64) << 48) | (((((x >> 56) & 0xff) as u8) as u64) << 56)) == x) by (bit_vector);
}
pub proof fn lemma_un4(s: Seq<u8>) requires s.len() == 4 ensures le4(un4(s)) == s
{
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    assert({ let x = (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
        (x & 0xff) as u8 == a && ((x >> 8) & 0xff) as u8 == b && ((x >> 16) & 0xff) as u8 == c && ((x >> 24) & 0xff) as u8 == d }) by (bit_vector);
    assert(le4(un4(s)) =~= s);
}
pub proof fn lemma_un2(s: Seq<u8>) requires s.len() == 2 ensures le2(un2(s)) == s
{
    let (a, b) = (s[0], s[1]);
    assert({ let x = (a as u16) | ((b as u16) << 8); (x & 0xff) as u8 == a && ((x >> 8) & 0xff) as u8 == b }) by (bit_vector);
    assert(le2(un2(s)) =~= s);
}

pub trait VxLe<const N: usize>: Sized {
    spec fn enc_le(&self) -> Seq<u8>;
    spec fn dec_le(s: Seq<u8>) -> Self;
    fn vx_le(&self) -> (r: [u8; N]) ensures r@ == self.enc_le();
    fn vx_from_le(b: [u8; N]) -> (r: Self) ensures r == Self::dec_le(b@);
}
impl VxLe<2> for u16 {
    open spec fn enc_le(&self) -> Seq<u8> { le2(*self) }
    open spec fn dec_le(s: Seq<u8>) -> u16 { un2(s) }
    #[verifier::external_body] fn vx_le(&self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le(b: [u8; 2]) -> (r: u16) { u16::from_le_bytes(b) }
}
impl VxLe<4> for u32 {
    open spec fn enc_le(&self) -> Seq<u8> { le4(*self) }
    open spec fn dec_le(s: Seq<u8>) -> u32 { un4(s) }
    #[verifier::external_body] fn vx_le(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le(b: [u8; 4]) -> (r: u32) { u32::from_le_bytes(b) }
}
impl VxLe<8> for u64 {
    open spec fn enc_le(&self) -> Seq<u8> { le8(*self) }
    open spec fn dec_le(s: Seq<u8>) -> u64 { un8(s) }
    #[verifier::external_body] fn vx_le(&self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le(b: [u8; 8]) -> (r: u64) { u64::from_le_bytes(b) }
}

// ---------- sequences
/// Anything the real code concatenates, iterates or compares as a sequence.
pub trait VxSeq<T> {
    spec fn sq(&self) -> Seq<T>;
}
impl<T> VxSeq<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T> VxSeq<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeq<T> for [T; N] { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T, S: VxSeq<T> + ?Sized> VxSeq<T> for &S { open spec fn sq(&self) -> Seq<T> { (**self).sq() } }

pub trait VxVec<T> {
    spec fn vq(&self) -> Seq<T>;
    /// Vec::extend / extend_from_slice / one step of [..].concat()
    fn vx_cat<S: VxSeq<T>>(&mut self, s: S) ensures final(self).vq() == old(self).vq() + s.sq();
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_cat<S: VxSeq<T>>(&mut self, s: S) { unimplemented!() }
}
pub trait VxSlice<T> {
    spec fn slq(&self) -> Seq<T>;
    fn vx_slice(&self) -> (r: &[T]) ensures r@ == self.slq();
}
impl<T> VxSlice<T> for Vec<T> {
    open spec fn slq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T> VxSlice<T> for [T] {
    open spec fn slq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_slice(&self) -> (r: &[T]) { self }
}
impl<T, const N: usize> VxSlice<T> for [T; N] {
    open spec fn slq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_slice(&self) -> (r: &[T]) { self.as_slice() }
}
pub fn vx_vec<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v, r@.len() <= usize::MAX { let n = v.len(); v }
#[verifier::external_body]
pub fn vx_eq<A: VxSeq<u8>, B: VxSeq<u8>>(a: A, b: B) -> (r: bool) ensures r == (a.sq() == b.sq()) { unimplemented!() }
pub open spec fn fill<T>(x: T, n: int) -> Seq<T> { Seq::new(n as nat, |i: int| x) }
#[verifier::external_body]
pub fn vx_fill<T>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == fill(x, n as int)
{ unimplemented!() }
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last() } }
/// the contents of a list of byte vectors
pub open spec fn vv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn lemma_vv_push(s: Seq<Vec<u8>>, x: Vec<u8>) ensures #[trigger] vv(s.push(x)) == vv(s).push(x@)
{ assert(vv(s.push(x)) =~= vv(s).push(x@)); }
pub broadcast proof fn lemma_vv_cat(s: Seq<Vec<u8>>, t: Seq<Vec<u8>>) ensures #[trigger] vv(s + t) == vv(s) + vv(t)
{ assert(vv(s + t) =~= vv(s) + vv(t)); }
#[verifier::external_body]
pub fn vx_flatten(v: &Vec<Vec<u8>>) -> (r: Vec<u8>) ensures r@ == flat(vv(v@)) { unimplemented!() }
/// Vec::with_capacity where the request must be in proportion to the input (C01)
pub fn vx_reserve<T>(input_len: usize, n: usize) -> (r: Vec<T>)
    requires n <= input_len, //@C01
    ensures r@ == Seq::<T>::empty()
{ Vec::new() }
pub assume_specification<T>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) where T: Clone
    ensures r@ == s@;
/// contains: == on the element type is equality (derived PartialEq)
#[verifier::external_body] pub fn vx_contains<T>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
/// unwrap_or_default
pub trait VxDefault: Sized { spec fn dv(x: Self) -> bool; fn vx_dflt() -> (r: Self) ensures Self::dv(r); }
impl<T> VxDefault for Vec<T> { open spec fn dv(x: Self) -> bool { x@ == Seq::<T>::empty() } fn vx_dflt() -> (r: Self) { Vec::new() } }
impl<'a, T> VxDefault for &'a [T] { open spec fn dv(x: Self) -> bool { x@ == Seq::<T>::empty() } #[verifier::external_body] fn vx_dflt() -> (r: Self) { unimplemented!() } }
impl VxDefault for usize { open spec fn dv(x: Self) -> bool { x == 0 } fn vx_dflt() -> (r: Self) { 0 } }
impl VxDefault for u64 { open spec fn dv(x: Self) -> bool { x == 0 } fn vx_dflt() -> (r: Self) { 0 } }
impl VxDefault for u32 { open spec fn dv(x: Self) -> bool { x == 0 } fn vx_dflt() -> (r: Self) { 0 } }
impl VxDefault for bool { open spec fn dv(x: Self) -> bool { x == false } fn vx_dflt() -> (r: Self) { false } }
pub fn vx_default<T: VxDefault>() -> (r: T) ensures T::dv(r) { T::vx_dflt() }
/// v.get_mut(a..b)
#[verifier::external_body]
pub fn vx_cut_mut<'a>(v: &'a mut Vec<u8>, a: usize, b: usize) -> (r: Option<&'a mut [u8]>)
    ensures match r {
        Some(s) => a <= b <= old(v)@.len() && s@ == old(v)@.subrange(a as int, b as int) && final(s)@.len() == b - a && final(v)@ == old(v)@.take(a as int) + final(s)@ + old(v)@.skip(b as int),
        None => !(a <= b <= old(v)@.len()) && final(v)@ == old(v)@,
    }
{ unimplemented!() }
/// starts_with
#[verifier::external_body]
pub fn vx_starts<A: VxSeq<u8>, B: VxSeq<u8>>(a: A, b: B) -> (r: bool)
    ensures r == (a.sq().len() >= b.sq().len() && a.sq().subrange(0, b.sq().len() as int) == b.sq())
{ unimplemented!() }
/// v.get_mut(i)
#[verifier::external_body]
pub fn vx_at_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: Option<&'a mut T>)
    ensures match r { Some(s) => i < old(v)@.len() && *s == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(s)), None => i >= old(v)@.len() && final(v)@ == old(v)@ }
{ unimplemented!() }
/// v is u in ascending order of the second field
pub open spec fn sort_of<A, C>(u: Seq<(A, u64, C)>, v: Seq<(A, u64, C)>) -> bool {
    v.to_multiset() == u.to_multiset() && v.len() == u.len() && forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).1 <= (#[trigger] v[j]).1
}
#[verifier::external_body] pub fn vx_sort_1<A, C>(v: &mut Vec<(A, u64, C)>) ensures sort_of(old(v)@, final(v)@) { unimplemented!() }
/// derive(Clone) and the clones of std types give an equal value
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn vx_satsub(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { (a - b) as usize } else { 0usize }) { if a >= b { a - b } else { 0 } }
/// debug_assert!: must hold for every input (it panics in debug builds)
pub fn vx_debug_assert(b: bool)
    requires b, //@C01
{ }

// ---------- strings (opaque byte strings)
#[verifier::external_body]
pub struct VStr { _p: u8 }
pub type String = VStr;
impl VStr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &VStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn trim(&self) -> (r: &VStr) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body] pub fn eq_ignore_ascii_case(&self, o: &VStr) -> (r: bool) ensures r == eq_ic(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_contains_lit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for VStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &VStr) -> bool { self@ == o@ } }
impl PartialEq for VStr { #[verifier::external_body] fn eq(&self, o: &VStr) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn trimmed(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn eq_ic(a: Seq<u8>, b: Seq<u8>) -> bool;
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
pub broadcast axiom fn axiom_str_utf8(s: VStr) ensures #[trigger] utf8_ok(s@), s@.len() <= 0x7fff_ffff_ffff_ffff;
/// names of equal bytes are equal strings
pub broadcast axiom fn axiom_str_ext(a: VStr, b: VStr) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<VStr, VStr>)
    ensures match r { Ok(s) => s@ == v@, Err(e) => !utf8_ok(v@) && !has0(e) && !has1(e) }
{ unimplemented!() }
pub trait VxToString { spec fn ts(&self) -> VStr; fn vx_to_string(&self) -> (r: VStr) ensures r == self.ts(); }
impl VxToString for VStr { open spec fn ts(&self) -> VStr { *self } #[verifier::external_body] fn vx_to_string(&self) -> (r: VStr) { unimplemented!() } }

// the two phrases by which the code tells "no signature" from "corrupt signature"
pub uninterp spec fn has0<T>(x: T) -> bool; // contains "Magic not found"
pub uninterp spec fn has1<T>(x: T) -> bool; // contains "Module is raw"
pub broadcast axiom fn axiom_has0_usize(x: usize) ensures !#[trigger] has0(x);
pub broadcast axiom fn axiom_has1_usize(x: usize) ensures !#[trigger] has1(x);
pub broadcast axiom fn axiom_has0_u64(x: u64) ensures !#[trigger] has0(x);
pub broadcast axiom fn axiom_has1_u64(x: u64) ensures !#[trigger] has1(x);
pub broadcast axiom fn axiom_has0_u32(x: u32) ensures !#[trigger] has0(x);
pub broadcast axiom fn axiom_has1_u32(x: u32) ensures !#[trigger] has1(x);
pub broadcast axiom fn axiom_has0_u16(x: u16) ensures !#[trigger] has0(x);
pub broadcast axiom fn axiom_has1_u16(x: u16) ensures !#[trigger] has1(x);
#[verifier::external_body] pub fn vx_has0<T>(x: &T) -> (r: bool) ensures r == has0(*x) { unimplemented!() }
#[verifier::external_body] pub fn vx_has1<T>(x: &T) -> (r: bool) ensures r == has1(*x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt(l0: bool, l1: bool, a0: bool, a1: bool) -> (r: VStr)
    ensures has0(r) == (l0 || a0), has1(r) == (l1 || a1)
{ unimplemented!() }
pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
/// comparing byte arrays
pub broadcast proof fn lemma_arr_eq<const N: usize>(a: [u8; N], b: [u8; N]) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) <==> a@ == b@
{ assert(vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) <==> a@ =~= b@); }
pub broadcast group vx_facts { lemma_arr_eq, axiom_vec_u8_len, axiom_slice_u8_len, axiom_str_utf8, axiom_str_ext, axiom_has0_usize, axiom_has1_usize, axiom_has0_u64, axiom_has1_u64, axiom_has0_u32, axiom_has1_u32, axiom_has0_u16, axiom_has1_u16 }
//SHIM-EXTRA
}

pub mod specs {
use vstd::prelude::*;
use crate::shim::*;
//SPECS-EXTRA
}
// src/lib.rs's re-exports
#[allow(unused_imports)] pub use crate::signing_block::{SigningBlock, ValueSigningBlock, RawData, MAGIC, MAGIC_LEN, scheme_v2, source_stamp};
#[allow(unused_imports)] pub use crate::signing_block::algorithms::{Algorithms, PrivateKey};
} // verus!
