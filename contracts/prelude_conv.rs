// Integers as nibbles, and facts about the conversions.
pub mod conv {
use super::*;

/// The number that a sequence of hexadecimal digits denotes.
pub open spec fn hexval(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as nat * pow2((4 * (s.len() - 1)) as nat) + hexval(s.skip(1)) }
}
/// n are the hexadecimal digits of v without leading zeros.
#[verifier::opaque]
pub open spec fn digits(n: Nibbles, v: nat) -> bool {
    n.wf() && hexval(n@) == v && (v == 0 ==> n@.len() == 0) && (v > 0 ==> n@.len() > 0 && n@[0] != 0)
}
/// The unsigned integers.
pub trait VNum: Sized {
    spec fn nbits() -> nat;
    spec fn val(self) -> nat;
    fn vleading_zeros(self) -> (r: u32)
        ensures r <= Self::nbits(), self.val() < pow2((Self::nbits() - r) as nat), r < Self::nbits() ==> self.val() >= pow2((Self::nbits() - r - 1) as nat);
}
pub trait VSize: Sized {
    spec fn size() -> nat;
    fn vsize() -> (r: usize) ensures r == Self::size();
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U128 { x: [u64; 2] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U256 { x: [u64; 4] }
impl U128 { pub uninterp spec fn v(self) -> nat; }
impl U256 { pub uninterp spec fn v(self) -> nat; }
impl VNum for u8 {
    open spec fn nbits() -> nat { 8 }
    open spec fn val(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for u8 {
    open spec fn size() -> nat { 1 }
    fn vsize() -> (r: usize) { 1 }
}
impl VNum for u16 {
    open spec fn nbits() -> nat { 16 }
    open spec fn val(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for u16 {
    open spec fn size() -> nat { 2 }
    fn vsize() -> (r: usize) { 2 }
}
impl VInto<U512> for u16 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { bval(r, 512) == self.val() }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VNum for u32 {
    open spec fn nbits() -> nat { 32 }
    open spec fn val(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for u32 {
    open spec fn size() -> nat { 4 }
    fn vsize() -> (r: usize) { 4 }
}
impl VInto<U512> for u32 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { bval(r, 512) == self.val() }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VNum for u64 {
    open spec fn nbits() -> nat { 64 }
    open spec fn val(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for u64 {
    open spec fn size() -> nat { 8 }
    fn vsize() -> (r: usize) { 8 }
}
impl VInto<U512> for u64 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { bval(r, 512) == self.val() }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VNum for U128 {
    open spec fn nbits() -> nat { 128 }
    open spec fn val(self) -> nat { self.v() }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for U128 {
    open spec fn size() -> nat { 16 }
    fn vsize() -> (r: usize) { 16 }
}
impl VInto<U512> for U128 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { bval(r, 512) == self.val() }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VNum for U256 {
    open spec fn nbits() -> nat { 256 }
    open spec fn val(self) -> nat { self.v() }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for U256 {
    open spec fn size() -> nat { 32 }
    fn vsize() -> (r: usize) { 32 }
}
impl VInto<U512> for U256 {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: U512) -> bool { bval(r, 512) == self.val() }
    #[verifier::external_body]
    fn vinto(self) -> (r: U512) { unimplemented!() }
}
impl VNum for U512 {
    open spec fn nbits() -> nat { 512 }
    open spec fn val(self) -> nat { bval(self, 512) }
    #[verifier::external_body]
    fn vleading_zeros(self) -> (r: u32) { unimplemented!() }
}
impl VSize for U512 {
    open spec fn size() -> nat { 64 }
    fn vsize() -> (r: usize) { 64 }
}

pub broadcast proof fn b_pow2_mono(a: nat, b: nat)
    ensures #![trigger pow2(a), pow2(b)] a <= b ==> pow2(a) <= pow2(b)
{ if a <= b { lemma_pow2_mono(a, b); } }
proof fn lemma_bval_ge(p: U512, i: int, n: nat)
    requires 0 <= i < n, p.bit(i)
    ensures bval(p, n) >= pow2(i as nat)
    decreases n
{ if i < n - 1 { lemma_bval_ge(p, i, (n - 1) as nat); } }
proof fn lemma_bval_cut(p: U512, m: nat, n: nat)
    requires m <= n, forall|i: int| m <= i < n ==> !#[trigger] p.bit(i)
    ensures bval(p, n) == bval(p, m)
    decreases n
{ if m < n { lemma_bval_cut(p, m, (n - 1) as nat); } }
proof fn lemma_nib_bval(p: U512, j: nat)
    ensures bval(p, 4 * (j + 1)) == bval(p, 4 * j) + nib(p, j as int) * pow2(4 * j)
{
    let b = 4 * j;
    assert(bval(p, b + 1) == bval(p, b) + (if p.bit(b as int) { pow2(b) } else { 0 }));
    assert(bval(p, b + 2) == bval(p, b + 1) + (if p.bit(b as int + 1) { pow2(b + 1) } else { 0 }));
    assert(bval(p, b + 3) == bval(p, b + 2) + (if p.bit(b as int + 2) { pow2(b + 2) } else { 0 }));
    assert(bval(p, b + 4) == bval(p, b + 3) + (if p.bit(b as int + 3) { pow2(b + 3) } else { 0 }));
    assert(pow2(b + 1) == 2 * pow2(b));
    assert(pow2(b + 2) == 2 * pow2(b + 1));
    assert(pow2(b + 3) == 2 * pow2(b + 2));
    let q = pow2(b);
    let (b0, b1, b2, b3) = (b2n(p.bit(4 * j as int)) as nat, b2n(p.bit(4 * j as int + 1)) as nat, b2n(p.bit(4 * j as int + 2)) as nat, b2n(p.bit(4 * j as int + 3)) as nat);
    assert(nib(p, j as int) == b0 + 2 * b1 + 4 * b2 + 8 * b3);
    assert((b0 + 2 * b1 + 4 * b2 + 8 * b3) * q == b0 * q + b1 * (2 * q) + b2 * (4 * q) + b3 * (8 * q)) by (nonlinear_arith);
    assert(b0 * q == (if p.bit(b as int) { q } else { 0 })) by (nonlinear_arith) requires b0 == (if p.bit(b as int) { 1nat } else { 0nat });
    assert(b1 * (2 * q) == (if p.bit(b as int + 1) { 2 * q } else { 0 })) by (nonlinear_arith) requires b1 == (if p.bit(b as int + 1) { 1nat } else { 0nat });
    assert(b2 * (4 * q) == (if p.bit(b as int + 2) { 4 * q } else { 0 })) by (nonlinear_arith) requires b2 == (if p.bit(b as int + 2) { 1nat } else { 0nat });
    assert(b3 * (8 * q) == (if p.bit(b as int + 3) { 8 * q } else { 0 })) by (nonlinear_arith) requires b3 == (if p.bit(b as int + 3) { 1nat } else { 0nat });
}
proof fn lemma_hexval(n: Nibbles, m: nat)
    requires m <= n.count
    ensures hexval(n@.skip(n.count - m)) == bval(n.packed, 4 * m)
    decreases m
{
    reveal(nview);
    let s = n@.skip(n.count - m);
    if m > 0 {
        lemma_hexval(n, (m - 1) as nat);
        lemma_nib_bval(n.packed, (m - 1) as nat);
        assert(s.skip(1) =~= n@.skip(n.count - m + 1));
        assert(s[0] == nib(n.packed, m - 1));
    }
}
/// An integer becomes its hexadecimal digits.
pub broadcast proof fn b_digits(n: Nibbles, v: nat)
    requires bval(n.packed, 512) == v, v < pow2((4 * n.count) as nat), v > 0 ==> n.count > 0 && v >= pow2((4 * (n.count - 1)) as nat), v == 0 ==> n.count == 0, n.count <= 127
    ensures #[trigger] digits(n, v)
{
    broadcast use ax_bit_range;
    reveal(digits); reveal(Nibbles::wf); reveal(nview);
    let c = n.count;
    assert forall|i: int| i >= 4 * c implies !#[trigger] n.packed.bit(i) by {
        if i < 512 && n.packed.bit(i) { lemma_bval_ge(n.packed, i, 512); lemma_pow2_mono((4 * c) as nat, i as nat); }
    }
    lemma_bval_cut(n.packed, (4 * c) as nat, 512);
    lemma_hexval(n, c as nat);
    assert(n@.skip(0) =~= n@);
    if v > 0 && nib(n.packed, c - 1) == 0 {
        lemma_nib_bval(n.packed, (c - 1) as nat);
        lemma_bval_bound(n.packed, (4 * (c - 1)) as nat);
        assert(nib(n.packed, c - 1) * pow2((4 * (c - 1)) as nat) == 0) by (nonlinear_arith) requires nib(n.packed, c - 1) == 0;
        assert(false);
    }
}
/// Any integer type (for the function that all of them share).
#[verifier::external_body]
pub struct VAnyNum { x: u8 }
impl VAnyNum {
    pub uninterp spec fn v(self) -> nat;
    #[verifier::external_body]
    pub fn to_nibbles(self) -> (r: Nibbles) ensures digits(r, self.v()), r.count <= 126 { unimplemented!() }
}
/// Padding with a zero bit pattern in front.
pub broadcast proof fn b_padded(n: Nibbles, m: Nibbles, v: nat)
    requires #[trigger] digits(n, v), m.packed == n.packed, m.count == n.count + n.count % 2, m.count <= 127
    ensures #[trigger] padded(m, v)
{
    reveal(digits); reveal(padded); reveal(Nibbles::wf); reveal(nview);
    assert(m@ =~= even(n@)) by {
        if n.count % 2 == 1 { assert(nib(n.packed, n.count as int) == 0); }
    }
    assert(m.wf());
    assert(digits(n, v));
}
/// m are the digits of v padded to whole bytes.
#[verifier::opaque]
pub open spec fn padded(m: Nibbles, v: nat) -> bool {
    m.wf() && exists|n: Nibbles| digits(n, v) && m@ == #[trigger] even(n@)
}
// ------------------------------------------------------- facts about the specification
pub proof fn pack_unpack(b: Seq<u8>) ensures pack(unpack(b)) == b
{ assert(pack(unpack(b)) =~= b); }
pub proof fn unpack_pack(s: Seq<u8>)
    requires s.len() % 2 == 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 16
    ensures unpack(pack(s)) == s
{
    assert forall|i: int| 0 <= i < s.len() implies unpack(pack(s))[i] == s[i] by {
        let j = i / 2;
        assert(s[2 * j] < 16 && s[2 * j + 1] < 16);
        assert(pack(s)[j] == s[2 * j] * 16 + s[2 * j + 1]);
    }
    assert(unpack(pack(s)) =~= s);
}
/// Decoding inverts encoding.
pub proof fn unhp_hp(s: Seq<u8>, leaf: bool)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 16
    ensures hp(s, leaf)[0] / 16 <= 3, hp(s, leaf).len() >= 1, unhp(hp(s, leaf)) == s + (if leaf { seq![1u8, 0u8] } else { seq![] })
{
    reveal(unhp);
    let h = hp_nibs(s, leaf);
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] < 16 by {
        if s.len() % 2 == 1 { if i >= 1 { assert(h[i] == s[i - 1]); } } else { if i >= 2 { assert(h[i] == s[i - 2]); } }
    }
    unpack_pack(h);
    assert(hp(s, leaf)[0] == h[0] * 16 + h[1]);
    assert(h[1] < 16);
    assert(h.skip(if s.len() % 2 == 1 { 1 } else { 2 }) =~= s);
}
pub proof fn hp_nibs_of(s: Seq<u8>, leaf: bool)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 16
    ensures unpack(hp(s, leaf)) == hp_nibs(s, leaf)
{
    let h = hp_nibs(s, leaf);
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] < 16 by {
        if s.len() % 2 == 1 { if i >= 1 { assert(h[i] == s[i - 1]); } } else { if i >= 2 { assert(h[i] == s[i - 2]); } }
    }
    unpack_pack(h);
}
pub proof fn hp_nibs_injective(s: Seq<u8>, a: bool, t: Seq<u8>, b: bool)
    requires hp_nibs(s, a) == hp_nibs(t, b)
    ensures s == t, a == b
{
    let x = hp_nibs(s, a); let y = hp_nibs(t, b);
    assert(x[0] == y[0]);
    assert(s =~= x.skip(if s.len() % 2 == 1 { 1 } else { 2 }));
    assert(t =~= y.skip(if t.len() % 2 == 1 { 1 } else { 2 }));
}
/// Different paths and kinds have different encodings.
pub proof fn hp_injective(s: Seq<u8>, a: bool, t: Seq<u8>, b: bool)
    requires hp(s, a) == hp(t, b), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 16, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < 16
    ensures s == t, a == b
{
    hp_nibs_of(s, a); hp_nibs_of(t, b);
    hp_nibs_injective(s, a, t, b);
}
} // mod conv
pub use crate::conv::*;
