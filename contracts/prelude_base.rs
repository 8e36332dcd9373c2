// Base of every verified file: the dependency types with their assumed
// contracts, and the few helpers that the extraction rewrites calls to.
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::ops::*;
use std::sync::Arc;

pub use crate::base::*;
pub use crate::types::*;
pub use crate::nibspec::*;

pub mod base {
use super::*;

// ---------------------------------------------------------------- panics

/// `panic!`, `unreachable!`, a failing `assert!`, `unwrap` of `None`.
#[verifier::external_body]
pub fn vpanic() -> !
    //PANICREQ
    ensures false,
{ panic!() }

pub trait VExpect<T>: Sized {
    spec fn ex_ok(self) -> bool;
    spec fn ex_val(self) -> T;
    fn vexpect(self) -> (r: T)
        //EXREQ
        ensures self.ex_ok(), r == self.ex_val();
}
impl<T> VExpect<T> for Option<T> {
    open spec fn ex_ok(self) -> bool { self is Some }
    open spec fn ex_val(self) -> T { self->Some_0 }
    fn vexpect(self) -> (r: T) { match self { Some(x) => x, None => vpanic() } }
}
impl<T, E> VExpect<T> for Result<T, E> {
    open spec fn ex_ok(self) -> bool { self is Ok }
    open spec fn ex_val(self) -> T { self->Ok_0 }
    fn vexpect(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vpanic() } }
}

// ------------------------------------------------- conversions and copies

/// `Into`.  The impls for the crate's own types call the extracted `From`.
pub trait VInto<T>: Sized {
    spec fn into_req(self) -> bool;
    spec fn into_rel(self, r: T) -> bool;
    fn vinto(self) -> (r: T) requires self.into_req() ensures self.into_rel(r);
}

/// `Clone`: a clone is equal to the original (as far as the crate can tell).
pub trait VClone: Sized {
    spec fn clone_req(self) -> bool;
    spec fn clone_rel(self, r: Self) -> bool;
    fn vclone(&self) -> (r: Self) requires self.clone_req() ensures self.clone_rel(r);
}
impl VClone for Vec<u8> {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
impl<T> VClone for Arc<T> {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    fn vclone(&self) -> (r: Self) { Arc::clone(self) }
}
impl<T> VClone for [Arc<T>; 16] {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
impl VClone for u8 {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    fn vclone(&self) -> (r: Self) { *self }
}
impl VClone for Nibbles {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    fn vclone(&self) -> (r: Self) { *self }
}

pub trait VMin: Sized {
    spec fn min_spec(self, o: Self) -> Self;
    spec fn max_spec(self, o: Self) -> Self;
    fn vmin(self, o: Self) -> (r: Self) ensures r == self.min_spec(o);
    fn vmax(self, o: Self) -> (r: Self) ensures r == self.max_spec(o);
    spec fn ssub_spec(self, o: Self) -> Self;
    fn vsaturating_sub(self, o: Self) -> (r: Self) ensures r == self.ssub_spec(o);
}
impl VMin for usize {
    open spec fn min_spec(self, o: usize) -> usize { if self <= o { self } else { o } }
    open spec fn max_spec(self, o: usize) -> usize { if self >= o { self } else { o } }
    open spec fn ssub_spec(self, o: usize) -> usize { if self >= o { (self - o) as usize } else { 0 } }
    fn vmin(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn vmax(self, o: usize) -> (r: usize) { if self >= o { self } else { o } }
    fn vsaturating_sub(self, o: usize) -> (r: usize) { if self >= o { self - o } else { 0 } }
}
impl VMin for u8 {
    open spec fn min_spec(self, o: u8) -> u8 { if self <= o { self } else { o } }
    open spec fn max_spec(self, o: u8) -> u8 { if self >= o { self } else { o } }
    open spec fn ssub_spec(self, o: u8) -> u8 { if self >= o { (self - o) as u8 } else { 0 } }
    fn vmin(self, o: u8) -> (r: u8) { if self <= o { self } else { o } }
    fn vmax(self, o: u8) -> (r: u8) { if self >= o { self } else { o } }
    fn vsaturating_sub(self, o: u8) -> (r: u8) { if self >= o { self - o } else { 0 } }
}
impl VMin for u16 {
    open spec fn min_spec(self, o: u16) -> u16 { if self <= o { self } else { o } }
    open spec fn max_spec(self, o: u16) -> u16 { if self >= o { self } else { o } }
    open spec fn ssub_spec(self, o: u16) -> u16 { if self >= o { (self - o) as u16 } else { 0 } }
    fn vmin(self, o: u16) -> (r: u16) { if self <= o { self } else { o } }
    fn vmax(self, o: u16) -> (r: u16) { if self >= o { self } else { o } }
    fn vsaturating_sub(self, o: u16) -> (r: u16) { if self >= o { self - o } else { 0 } }
}
impl VMin for u32 {
    open spec fn min_spec(self, o: u32) -> u32 { if self <= o { self } else { o } }
    open spec fn max_spec(self, o: u32) -> u32 { if self >= o { self } else { o } }
    open spec fn ssub_spec(self, o: u32) -> u32 { if self >= o { (self - o) as u32 } else { 0 } }
    fn vmin(self, o: u32) -> (r: u32) { if self <= o { self } else { o } }
    fn vmax(self, o: u32) -> (r: u32) { if self >= o { self } else { o } }
    fn vsaturating_sub(self, o: u32) -> (r: u32) { if self >= o { self - o } else { 0 } }
}
impl VMin for u64 {
    open spec fn min_spec(self, o: u64) -> u64 { if self <= o { self } else { o } }
    open spec fn max_spec(self, o: u64) -> u64 { if self >= o { self } else { o } }
    open spec fn ssub_spec(self, o: u64) -> u64 { if self >= o { (self - o) as u64 } else { 0 } }
    fn vmin(self, o: u64) -> (r: u64) { if self <= o { self } else { o } }
    fn vmax(self, o: u64) -> (r: u64) { if self >= o { self } else { o } }
    fn vsaturating_sub(self, o: u64) -> (r: u64) { if self >= o { self - o } else { 0 } }
}

// ------------------------------------------------------ slices and vectors

pub trait VSub {
    spec fn sv(&self) -> Seq<u8>;
    fn vsub(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.sv().len()
        ensures r@ == self.sv().subrange(a as int, b as int);
    fn vsub_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8])
        requires a <= b <= old(self).sv().len()
        ensures r@ == old(self).sv().subrange(a as int, b as int),
            final(r)@.len() == b - a,
            final(self).sv() == old(self).sv().subrange(0, a as int) + final(r)@ + old(self).sv().subrange(b as int, old(self).sv().len() as int);
}
impl<const N: usize> VSub for [u8; N] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vsub_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
}
impl VSub for Vec<u8> {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vsub_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
}
impl VSub for [u8] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vsub(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vsub_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
}

/// `x.iter()`: the elements of the collection, in order.
pub trait VSlice<T> {
    spec fn slv(&self) -> Seq<T>;
    fn vslice(&self) -> (r: &[T]) ensures r@ == self.slv();
}
impl<T, const N: usize> VSlice<T> for [T; N] {
    open spec fn slv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vslice(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn slv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vslice(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> VSlice<T> for [T] {
    open spec fn slv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vslice(&self) -> (r: &[T]) { unimplemented!() }
}
/// The i-th item that an owned collection yields.
#[verifier::external_body]
pub fn vmove<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len()
    ensures r == v@[i as int]
{ unimplemented!() }

pub trait VToVec {
    spec fn tvv(&self) -> Seq<u8>;
    fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tvv();
}
impl VToVec for [u8] {
    open spec fn tvv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VToVec for Vec<u8> {
    open spec fn tvv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vvec_repeat(x: u8, n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ unimplemented!() }
pub fn once(x: u8) -> (r: Vec<u8>) ensures r@ == seq![x]
{ let mut v = Vec::new(); v.push(x); v }

/// The text of a message (not looked at).
#[verifier::external_body]
pub fn vstring() -> String { unimplemented!() }
pub mod hex {
use super::*;
#[verifier::external_body]
pub fn encode(b: &[u8]) -> (r: String) ensures b@.len() <= 32 ==> is_hex_text(r@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn encode_upper(b: &[u8]) -> (r: String) ensures b@.len() <= 32 ==> is_hex_text(r@, b@) { unimplemented!() }
}
/// The value of a hexadecimal digit.
pub open spec fn hv(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 }
    else { -1 }
}
/// t has two digits for every byte of b.
#[verifier::opaque]
pub open spec fn is_hex_text(t: Seq<char>, b: Seq<u8>) -> bool {
    t.len() == 2 * b.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] hv(t[i]) == unpack(b)[i]
}

// ------------------------------------------------------------------- U512

/// `ethereum_types::U512` seen as its bits.  The contracts of its operations
/// are assumed here; Kani discharges them against the
/// real implementation (/verif/kani).
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U512 { x: [u64; 8] }

impl U512 {
    pub uninterp spec fn bit(self, i: int) -> bool;
}
pub open spec fn b2n(b: bool) -> u8 { if b { 1 } else { 0 } }
/// The j-th nibble, counted from the least significant one.
pub open spec fn nib(p: U512, j: int) -> u8 {
    (b2n(p.bit(4 * j)) + 2 * b2n(p.bit(4 * j + 1)) + 4 * b2n(p.bit(4 * j + 2)) + 8 * b2n(p.bit(4 * j + 3))) as u8
}
/// The t-th byte, counted from the least significant one.
pub open spec fn byt(p: U512, t: int) -> u8 { (nib(p, 2 * t) + 16 * nib(p, 2 * t + 1)) as u8 }
pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
/// b is the position above the highest bit that is set.
pub open spec fn has_bits(p: U512, b: int) -> bool { (forall|i: int| i >= b ==> !#[trigger] p.bit(i)) && (b > 0 ==> p.bit(b - 1)) }
/// The value of the lowest n bits.
pub open spec fn bval(p: U512, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { bval(p, (n - 1) as nat) + (if p.bit(n - 1) { pow2((n - 1) as nat) } else { 0 }) }
}

pub broadcast axiom fn ax_bit_range(p: U512, i: int)
    ensures (i < 0 || i >= 512) ==> !#[trigger] p.bit(i);
pub axiom fn ax_u512_ext(a: U512, b: U512)
    requires forall|i: int| 0 <= i < 512 ==> a.bit(i) == b.bit(i)
    ensures a == b;

impl U512 {
    #[verifier::external_body]
    pub fn one() -> (r: U512) ensures forall|i: int| #[trigger] r.bit(i) == (i == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: U512) ensures forall|i: int| !#[trigger] r.bit(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn byte(&self, i: usize) -> (r: u8) requires i < 64 ensures r == byt(*self, i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: usize)
        ensures r <= 512, has_bits(*self, r as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_big_endian<B: VSub + ?Sized>(&self, b: &mut B)
        requires old(b).sv().len() == 64
        ensures final(b).sv().len() == 64, forall|j: int| 0 <= j < 64 ==> #[trigger] final(b).sv()[j] == byt(*self, 63 - j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_big_endian(b: &[u8]) -> (r: U512)
        requires b@.len() <= 64
        ensures is_be(r, b@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_little_endian(b: &[u8]) -> (r: U512)
        requires b@.len() <= 64
        ensures is_be(r, b@.reverse())
    { unimplemented!() }
}

impl ShlSpecImpl<usize> for U512 {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, rhs: usize) -> bool { true }
    uninterp spec fn shl_spec(self, rhs: usize) -> U512;
}
impl Shl<usize> for U512 {
    type Output = U512;
    fn shl(self, s: usize) -> (r: U512)
        ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < 512 && self.bit(i - s)),
            s % 4 == 0 ==> forall|j: int| 0 <= j < 128 ==> #[trigger] nib(r, j) == nib(self, j - s / 4)
    {
        let r = u512_shl(self, s);
        proof {
            if s % 4 == 0 {
                let m = s as int / 4;
                assert forall|j: int| 0 <= j < 128 implies #[trigger] nib(r, j) == nib(self, j - m) by {
                    assert(4 * (j - m) == 4 * j - s);
                }
            }
        }
        r
    }
}
#[verifier::external_body]
pub fn u512_shl(a: U512, s: usize) -> (r: U512)
    ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < 512 && a.bit(i - s))
{ unimplemented!() }
impl ShrSpecImpl<usize> for U512 {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, rhs: usize) -> bool { true }
    uninterp spec fn shr_spec(self, rhs: usize) -> U512;
}
impl Shr<usize> for U512 {
    type Output = U512;
    fn shr(self, s: usize) -> (r: U512)
        ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < 512 && self.bit(i + s)),
            s % 4 == 0 ==> forall|j: int| 0 <= j < 128 ==> #[trigger] nib(r, j) == nib(self, j + s / 4)
    {
        let r = u512_shr(self, s);
        proof {
            if s % 4 == 0 {
                let m = s as int / 4;
                assert forall|j: int| 0 <= j < 128 implies #[trigger] nib(r, j) == nib(self, j + m) by {
                    assert(4 * (j + m) == 4 * j + s);
                }
            }
        }
        r
    }
}
#[verifier::external_body]
pub fn u512_shr(a: U512, s: usize) -> (r: U512)
    ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < 512 && a.bit(i + s))
{ unimplemented!() }
impl BitAndSpecImpl<U512> for U512 {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: U512) -> bool { true }
    uninterp spec fn bitand_spec(self, rhs: U512) -> U512;
}
impl BitAnd<U512> for U512 {
    type Output = U512;
    fn bitand(self, o: U512) -> (r: U512)
        ensures forall|i: int| #![trigger r.bit(i)] #![trigger self.bit(i)] r.bit(i) == (self.bit(i) && o.bit(i)),
            forall|j: int| (nib(o, j) == 15 ==> #[trigger] nib(r, j) == nib(self, j)) && (nib(o, j) == 0 ==> nib(r, j) == 0)
    { u512_bitand(self, o) }
}
#[verifier::external_body]
pub fn u512_bitand(a: U512, o: U512) -> (r: U512)
    ensures forall|i: int| #![trigger r.bit(i)] #![trigger a.bit(i)] r.bit(i) == (a.bit(i) && o.bit(i))
{ unimplemented!() }
impl BitOrSpecImpl<U512> for U512 {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: U512) -> bool { true }
    uninterp spec fn bitor_spec(self, rhs: U512) -> U512;
}
impl BitOr<U512> for U512 {
    type Output = U512;
    fn bitor(self, o: U512) -> (r: U512)
        ensures forall|i: int| #[trigger] r.bit(i) == (self.bit(i) || o.bit(i)),
            forall|j: int| (nib(o, j) == 0 ==> #[trigger] nib(r, j) == nib(self, j)) && (nib(self, j) == 0 ==> nib(r, j) == nib(o, j))
    { u512_bitor(self, o) }
}
#[verifier::external_body]
pub fn u512_bitor(a: U512, o: U512) -> (r: U512)
    ensures forall|i: int| #[trigger] r.bit(i) == (a.bit(i) || o.bit(i))
{ unimplemented!() }
impl BitXorSpecImpl<U512> for U512 {
    open spec fn obeys_bitxor_spec() -> bool { false }
    open spec fn bitxor_req(self, rhs: U512) -> bool { true }
    uninterp spec fn bitxor_spec(self, rhs: U512) -> U512;
}
impl BitXor<U512> for U512 {
    type Output = U512;
    #[verifier::external_body]
    fn bitxor(self, o: U512) -> (r: U512)
        ensures forall|i: int| #[trigger] r.bit(i) == (self.bit(i) != o.bit(i))
    { unimplemented!() }
}
impl NotSpecImpl for U512 {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { true }
    uninterp spec fn not_spec(self) -> U512;
}
impl Not for U512 {
    type Output = U512;
    #[verifier::external_body]
    fn not(self) -> (r: U512)
        ensures forall|i: int| #[trigger] r.bit(i) == (0 <= i < 512 && !self.bit(i))
    { unimplemented!() }
}
impl SubSpecImpl<i32> for U512 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: i32) -> bool { 0 <= rhs <= bval(self, 512) }
    uninterp spec fn sub_spec(self, rhs: i32) -> U512;
}
impl Sub<i32> for U512 {
    type Output = U512;
    #[verifier::external_body]
    fn sub(self, o: i32) -> (r: U512)
        ensures bval(r, 512) == bval(self, 512) - o
    { unimplemented!() }
}
/// equality of the bits
pub closed spec fn u512_eq(a: U512, b: U512) -> bool { a == b }
impl PartialEqSpecImpl for U512 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U512) -> bool { u512_eq(*self, *o) }
}
impl PartialEq for U512 {
    #[verifier::external_body]
    fn eq(&self, o: &U512) -> bool { unimplemented!() }
}
pub broadcast proof fn b_u512_eq(a: U512, b: U512)
    ensures #[trigger] u512_eq(a, b) == (forall|i: int| 0 <= i < 512 ==> a.bit(i) == b.bit(i)), u512_eq(a, b) == (a == b)
{ if forall|i: int| 0 <= i < 512 ==> a.bit(i) == b.bit(i) { ax_u512_ext(a, b); } }

/// U512 from an integer: the bits of the integer.
impl VInto<U512> for u8 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { byt(r, 0) == self && bval(r, 512) == self && forall|i: int| i >= 8 ==> !#[trigger] r.bit(i) }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VInto<u8> for bool {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: u8) -> bool { r == if self { 1u8 } else { 0u8 } }
    fn vinto(self) -> (r: u8) { if self { 1 } else { 0 } }
}
impl VInto<usize> for bool {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: usize) -> bool { r == if self { 1usize } else { 0usize } }
    fn vinto(self) -> (r: usize) { if self { 1 } else { 0 } }
}
impl VInto<U512> for i32 {
    open spec fn into_req(self) -> bool { 0 <= self < 256 }
    open spec fn into_rel(self, r: U512) -> bool { byt(r, 0) == self && forall|i: int| i >= 8 ==> !#[trigger] r.bit(i) }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VInto<U512> for U512 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { r == self }
    fn vinto(self) -> (r: U512) { self }
}

// ------------------------------------------------------------------- H256
#[derive(Clone, Copy)]
pub struct H256(pub [u8; 32]);
pub closed spec fn h256_eq(a: H256, b: H256) -> bool { a == b }
impl PartialEqSpecImpl for H256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &H256) -> bool { h256_eq(*self, *o) }
}
impl PartialEq for H256 {
    #[verifier::external_body]
    fn eq(&self, o: &H256) -> bool { unimplemented!() }
}
pub broadcast proof fn b_h256_eq(a: H256, b: H256)
    ensures #[trigger] h256_eq(a, b) == (a == b)
{}
impl H256 {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.0@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(b: &[u8; 32]) -> (r: H256) ensures r.0@ == b@, r == H256(*b) { unimplemented!() }
}

// ------------------------------------------------------------------ Bytes
#[verifier::external_body]
pub struct Bytes { v: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_static(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub struct BytesMut;
impl BytesMut {
    #[verifier::external_body]
    pub fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { unimplemented!() }
}

} // mod base

pub mod nibspec {
use super::*;

impl View for Nibbles {
    type V = Seq<u8>;
    /// The nibbles, first one first.
    open spec fn view(&self) -> Seq<u8> { nview(*self) }
}
#[verifier::opaque]
pub open spec fn nview(n: Nibbles) -> Seq<u8> { Seq::new(n.count as nat, |i: int| nib(n.packed, n.count - 1 - i)) }
/// What is known about a path without looking at its bits.
pub broadcast proof fn b_nview(n: Nibbles)
    ensures (#[trigger] nview(n)).len() == n.count, forall|i: int| 0 <= i < n.count ==> #[trigger] nview(n)[i] < 16
{ reveal(nview); }
pub broadcast proof fn b_nwf(n: Nibbles)
    requires #[trigger] n.wf()
    ensures n.count <= 127
{ reveal(Nibbles::wf); }
impl Nibbles {
    /// The unused bits are zero.
    #[verifier::opaque]
    pub open spec fn wf(self) -> bool {
        self.count <= 127 && forall|i: int| i >= 4 * self.count ==> !#[trigger] self.packed.bit(i)
    }
    pub fn default() -> (r: Nibbles) ensures r.wf(), r@.len() == 0, r.count == 0 {
        proof { reveal(Nibbles::wf); reveal(nview); }
        Nibbles { count: 0, packed: U512::zero() }
    }
}
pub open spec fn ones(r: U512, a: int) -> bool { forall|i: int| #[trigger] r.bit(i) == (0 <= i < a) }

pub closed spec fn nib_eq(a: Nibbles, b: Nibbles) -> bool { a.count == b.count && a.packed == b.packed }
impl PartialEqSpecImpl for Nibbles {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Nibbles) -> bool { nib_eq(*self, *o) }
}
// `#[derive(PartialEq)]`
impl PartialEq for Nibbles {
    fn eq(&self, o: &Nibbles) -> bool { broadcast use b_u512_eq; self.count == o.count && self.packed == o.packed }
}

pub proof fn lemma_nib_bits(p: U512, q: U512, j: int)
    requires nib(p, j) == nib(q, j)
    ensures p.bit(4 * j) == q.bit(4 * j), p.bit(4 * j + 1) == q.bit(4 * j + 1), p.bit(4 * j + 2) == q.bit(4 * j + 2), p.bit(4 * j + 3) == q.bit(4 * j + 3)
{}
pub proof fn lemma_view_inj(a: Nibbles, b: Nibbles)
    requires a.wf(), b.wf(), a@ == b@
    ensures a == b
{
    reveal(Nibbles::wf); reveal(nview);
    assert(a.count == a@.len() && b.count == b@.len());
    assert forall|i: int| 0 <= i < 512 implies a.packed.bit(i) == b.packed.bit(i) by {
        if i < 4 * a.count {
            let j = i / 4;
            assert(a@[a.count - 1 - j] == nib(a.packed, j));
            assert(b@[a.count - 1 - j] == nib(b.packed, j));
            lemma_nib_bits(a.packed, b.packed, j);
        }
    }
    ax_u512_ext(a.packed, b.packed);
}
pub broadcast proof fn b_nib_eq(a: Nibbles, b: Nibbles)
    requires a.wf(), b.wf()
    ensures #[trigger] nib_eq(a, b) == (a@ == b@)
{ if a@ == b@ { lemma_view_inj(a, b); } }

pub broadcast proof fn b_nib_range(p: U512, j: int)
    ensures #[trigger] nib(p, j) < 16
{}
pub broadcast proof fn b_nib_diff(p: U512, q: U512, j: int, i: int)
    requires #[trigger] p.bit(i) != #[trigger] q.bit(i), 4 * j <= i < 4 * j + 4
    ensures #[trigger] nib(p, j) != nib(q, j)
{ if nib(p, j) == nib(q, j) { lemma_nib_bits(p, q, j); } }
pub broadcast proof fn b_byte_hi(b: u8)
    ensures #[trigger] ((b & 0b11110000u8) >> 4) == b / 16
{ assert(((b & 0b11110000u8) >> 4) == b / 16) by (bit_vector); }
pub broadcast proof fn b_byte_lo(b: u8)
    ensures #[trigger] (b & 0b1111u8) == b % 16
{ assert((b & 0b1111u8) == b % 16) by (bit_vector); }
pub broadcast proof fn b_byte_shr(b: u8)
    ensures #[trigger] (b >> 4) == b / 16
{ assert((b >> 4) == b / 16) by (bit_vector); }
pub broadcast proof fn b_flag_odd(b: u8)
    ensures #[trigger] (b & 1u8) == b % 2
{ assert((b & 1u8) == b % 2) by (bit_vector); }
pub broadcast proof fn b_flag_leaf(b: u8)
    ensures #[trigger] (b & 2u8) == (b / 2 % 2) * 2
{ assert((b & 2u8) == (b / 2 % 2) * 2) by (bit_vector); }
pub broadcast proof fn b_flag_odd_hi(b: u8)
    ensures #[trigger] (b & 0x10u8) == (b / 16 % 2) * 16
{ assert((b & 0x10u8) == (b / 16 % 2) * 16) by (bit_vector); }
pub broadcast proof fn b_flag_leaf_hi(b: u8)
    ensures #[trigger] (b & 0x20u8) == (b / 32 % 2) * 32
{ assert((b & 0x20u8) == (b / 32 % 2) * 32) by (bit_vector); }
pub broadcast proof fn b_flags_hi(b: u8)
    ensures #[trigger] (b & 0xf0u8) == (b / 16) * 16
{ assert((b & 0xf0u8) == (b / 16) * 16) by (bit_vector); }
pub broadcast group g_flags { b_flag_odd, b_flag_leaf, b_flag_odd_hi, b_flag_leaf_hi, b_flags_hi }
pub broadcast proof fn b_even(n: usize)
    ensures #[trigger] (n & 1usize) == n % 2
{ assert((n & 1usize) == n % 2) by (bit_vector); }

pub proof fn lemma_bval_one(p: U512, a: int, n: nat)
    requires forall|i: int| #[trigger] p.bit(i) == (i == a), 0 <= a
    ensures bval(p, n) == (if a < n { pow2(a as nat) } else { 0 })
    decreases n
{ if n > 0 { lemma_bval_one(p, a, (n - 1) as nat); } }
pub proof fn lemma_bval_bound(p: U512, n: nat)
    ensures bval(p, n) < pow2(n)
    decreases n
{ if n > 0 { lemma_bval_bound(p, (n - 1) as nat); } }
pub proof fn lemma_bval_ones(p: U512, a: nat, n: nat)
    requires bval(p, n) == pow2(a) - 1, a <= n
    ensures forall|i: int| 0 <= i < n ==> #[trigger] p.bit(i) == (i < a)
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_bval_bound(p, m);
        if a == n {
            assert(pow2(n) == 2 * pow2(m));
            assert(p.bit(m as int));
            lemma_bval_ones(p, m, m);
        } else {
            lemma_pow2_mono(a, m);
            assert(!p.bit(m as int));
            lemma_bval_ones(p, a, m);
        }
    }
}
pub proof fn lemma_pow2_mono(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b), pow2(a) >= 1
    decreases b
{ if a < b { lemma_pow2_mono(a, (b - 1) as nat); } else if b > 0 { lemma_pow2_mono((a - 1) as nat, (b - 1) as nat); } }

/// What `(1 << amt) - 1` is.
pub broadcast proof fn b_mask(s: U512, r: U512, amt: nat)
    requires amt < 512, #[trigger] single(s, amt), #[trigger] bval(r, 512) == bval(s, 512) - 1
    ensures ones(r, amt as int)
{
    broadcast use ax_bit_range;
    lemma_bval_one(s, amt as int, 512);
    lemma_bval_ones(r, amt, 512);
}
pub open spec fn single(s: U512, a: nat) -> bool { forall|i: int| #[trigger] s.bit(i) == (i == a) }

pub broadcast proof fn b_sub_take(s: Seq<u8>, m: int, r: int)
    requires 0 <= r <= m <= s.len()
    ensures #[trigger] s.subrange(0, m).take(r) == s.take(r)
{ assert(s.subrange(0, m).take(r) =~= s.take(r)); }

/// for the code that uses paths
pub broadcast group g_path { b_nview, b_nwf, b_nib_eq }
/// for the code of the paths
pub broadcast group g_nib { b_sub_take, ax_bit_range, b_u512_eq, b_nib_eq, b_nib_range, b_byte_hi, b_byte_lo, b_byte_shr, b_even }

// ------------------------------------------------ hex-prefix ("compact")
/// The flag nibbles and the nibbles themselves.
pub open spec fn hp_nibs(s: Seq<u8>, leaf: bool) -> Seq<u8> {
    let f: u8 = if leaf { 2 } else { 0 };
    if s.len() % 2 == 1 { seq![(f + 1) as u8] + s } else { seq![f, 0u8] + s }
}
/// Two nibbles per byte.
pub open spec fn pack(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len() / 2, |i: int| (s[2 * i] * 16 + s[2 * i + 1]) as u8) }
/// Two nibbles per byte, the inverse of `pack`.
pub open spec fn unpack(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len() * 2, |i: int| if i % 2 == 0 { b[i / 2] / 16 } else { b[i / 2] % 16 }) }
/// The bytes of p are b, the most significant one first.
#[verifier::opaque]
pub open spec fn is_be(p: U512, b: Seq<u8>) -> bool {
    &&& forall|t: int| 0 <= t < b.len() ==> #[trigger] byt(p, t) == b[b.len() - 1 - t]
    &&& forall|i: int| i >= 8 * b.len() ==> !#[trigger] p.bit(i)
}
pub proof fn lemma_is_be(p: U512, b: Seq<u8>)
    requires is_be(p, b)
    ensures forall|j: int| 0 <= j < 2 * b.len() ==> #[trigger] nib(p, j) == if j % 2 == 0 { b[b.len() - 1 - j / 2] % 16 } else { b[b.len() - 1 - j / 2] / 16 }
{
    reveal(is_be);
    assert forall|j: int| 0 <= j < 2 * b.len() implies #[trigger] nib(p, j) == if j % 2 == 0 { b[b.len() - 1 - j / 2] % 16 } else { b[b.len() - 1 - j / 2] / 16 } by {
        let t = j / 2;
        assert(byt(p, t) == b[b.len() - 1 - t]);
        assert(nib(p, 2 * t) < 16 && nib(p, 2 * t + 1) < 16);
    }
}
pub broadcast proof fn b_is_be_wf(n: Nibbles, p: U512, b: Seq<u8>)
    requires #[trigger] is_be(p, b), n.packed == p, n.count == 2 * b.len() || (n.count == 2 * b.len() - 1 && b[0] < 16), n.count <= 127
    ensures #[trigger] n.wf()
{ b_is_be_view(n, p, b); }
pub broadcast group g_is_be { b_is_be_wf, b_is_be_view }
pub broadcast proof fn b_is_be_view(n: Nibbles, p: U512, b: Seq<u8>)
    requires #[trigger] is_be(p, b), n.packed == p, n.count == 2 * b.len() || (n.count == 2 * b.len() - 1 && b[0] < 16), n.count <= 127
    ensures n.wf(), #[trigger] nview(n) == unpack(b).skip(2 * b.len() - n.count), n.count == 2 * b.len() ==> nview(n) == unpack(b)
{
    reveal(Nibbles::wf); reveal(nview); reveal(is_be);
    lemma_is_be(n.packed, b);
    if n.count == 2 * b.len() - 1 {
        assert(nib(n.packed, n.count as int) == 0);
    }
    assert forall|i: int| i >= 4 * n.count implies !#[trigger] n.packed.bit(i) by {
        if i < 8 * b.len() { assert(nib(n.packed, n.count as int) == 0); }
    }
    assert(nview(n) =~= unpack(b).skip(2 * b.len() - n.count));
    if n.count == 2 * b.len() { assert(nview(n) =~= unpack(b)); }
}
/// Padded to whole bytes in front.
pub open spec fn even(s: Seq<u8>) -> Seq<u8> { if s.len() % 2 == 1 { seq![0u8] + s } else { s } }
/// What decoding gives: the path, followed by the byte 0x10 for a leaf.
#[verifier::opaque]
pub open spec fn unhp(b: Seq<u8>) -> Seq<u8> {
    let f = b[0] / 16;
    unpack(b).skip(if f % 2 == 1 { 1 } else { 2 }) + (if f >= 2 { seq![1u8, 0u8] } else { seq![] })
}
/// The same in bytes, with a nibble of its own if there is an odd number.
pub open spec fn unhp_bytes(b: Seq<u8>) -> Seq<u8> {
    let f = b[0] / 16;
    (if f % 2 == 1 { seq![(b[0] % 16) as u8] } else { seq![] }) + b.skip(1) + (if f >= 2 { seq![16u8] } else { seq![] })
}
pub broadcast proof fn b_unhp(p: U512, x: Seq<u8>, b: Seq<u8>)
    requires #[trigger] is_be(p, x), 1 <= b.len(), b[0] / 16 <= 3, x =~= unhp_bytes(b)
    ensures #[trigger] unhp(b) == unpack(x).skip(if (b[0] / 16) % 2 == 1 { 1 } else { 0 })
{
    reveal(unhp);
    assert(unhp(b) =~= unpack(x).skip(if (b[0] / 16) % 2 == 1 { 1 } else { 0 }));
}
pub open spec fn hp(s: Seq<u8>, leaf: bool) -> Seq<u8> { pack(hp_nibs(s, leaf)) }

} // mod nibspec
