// Integers as full-width big-endian bytes.
pub mod vals {
use super::*;
pub open spec fn bebytes(v: nat, w: nat) -> Seq<u8> decreases w { if w == 0 { seq![] } else { bebytes(v / 256, (w - 1) as nat).push((v % 256) as u8) } }
/// b are the w big-endian bytes of v.
pub open spec fn is_bew(b: Seq<u8>, v: nat, w: nat) -> bool { b == bebytes(v, w) }
/// `to_be_bytes()`, `to_le_bytes()`
pub trait VBytes: VNum + VSize {
    fn vto_be_bytes(self) -> (r: Vec<u8>) ensures is_bew(r@, self.val(), Self::size());
    fn vto_le_bytes(self) -> (r: Vec<u8>) ensures is_bew(r@.reverse(), self.val(), Self::size());
}
impl VBytes for u8 {
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vto_le_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VBytes for u16 {
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vto_le_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VBytes for u32 {
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vto_le_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VBytes for u64 {
    #[verifier::external_body]
    fn vto_be_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vto_le_bytes(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl U128 {
    #[verifier::external_body]
    pub fn to_big_endian(&self, b: &mut Vec<u8>) requires old(b)@.len() == 16 ensures is_bew(final(b)@, self.val(), 16) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_little_endian(&self, b: &mut Vec<u8>) requires old(b)@.len() == 16 ensures is_bew(final(b)@.reverse(), self.val(), 16) { unimplemented!() }
}
impl U256 {
    #[verifier::external_body]
    pub fn to_big_endian(&self, b: &mut Vec<u8>) requires old(b)@.len() == 32 ensures is_bew(final(b)@, self.val(), 32) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_little_endian(&self, b: &mut Vec<u8>) requires old(b)@.len() == 32 ensures is_bew(final(b)@.reverse(), self.val(), 32) { unimplemented!() }
}
impl VInto<Vec<u8>> for Vec<u8> {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: Vec<u8>) -> bool { r == self }
    fn vinto(self) -> (r: Vec<u8>) { self }
}
impl ValOrHash {
    pub fn into_val(self) -> (r: Result<Vec<u8>, ValOrHash>) ensures match self { ValOrHash::Val(v) => r == Ok::<Vec<u8>, ValOrHash>(v), _ => r is Err }
    { match self { ValOrHash::Val(v) => Ok(v), x => Err(x) } }
    pub fn into_hash(self) -> (r: Result<H256, ValOrHash>) ensures match self { ValOrHash::Hash(v) => r == Ok::<H256, ValOrHash>(v), _ => r is Err }
    { match self { ValOrHash::Hash(v) => Ok(v), x => Err(x) } }
}
/// The bytes determine the integer.
pub proof fn theorem_bew_injective(a: nat, b: nat, w: nat)
    requires bebytes(a, w) == bebytes(b, w), a < pow256(w), b < pow256(w)
    ensures a == b
    decreases w
{
    if w > 0 {
        let (x, y) = (bebytes(a / 256, (w - 1) as nat), bebytes(b / 256, (w - 1) as nat));
        assert(x.push((a % 256) as u8).drop_last() =~= x);
        assert(y.push((b % 256) as u8).drop_last() =~= y);
        assert(x.push((a % 256) as u8).last() == (a % 256) as u8);
        assert(y.push((b % 256) as u8).last() == (b % 256) as u8);
        assert(a / 256 < pow256((w - 1) as nat) && b / 256 < pow256((w - 1) as nat)) by (nonlinear_arith) requires a < 256 * pow256((w - 1) as nat), b < 256 * pow256((w - 1) as nat);
        theorem_bew_injective(a / 256, b / 256, (w - 1) as nat);
    }
}
pub open spec fn pow256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * pow256((w - 1) as nat) } }
} // mod vals
pub use crate::vals::*;
