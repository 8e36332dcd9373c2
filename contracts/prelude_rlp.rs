// The crates used for encoding and hashing, and facts about the encoding.
pub mod hashdeps {
use super::*;

/// `keccak_hash::keccak`
#[verifier::external_body]
pub fn keccak(b: &Bytes) -> (r: H256) ensures r == kec(b@) { unimplemented!() }
pub mod keccak_hash { pub use crate::base::H256; }
pub mod rlp {
use super::*;
pub exec const NULL_RLP: [u8; 1] ensures NULL_RLP@ == seq![0x80u8] { let a = [0x80u8]; proof { assert(a@ =~= seq![0x80u8]); } a }
}
/// What `RlpStream::append` can encode: byte strings.
pub trait VEncodable { spec fn eb(&self) -> Seq<u8>; }
impl VEncodable for Vec<u8> { open spec fn eb(&self) -> Seq<u8> { self@ } }
impl VEncodable for Bytes { open spec fn eb(&self) -> Seq<u8> { self@ } }
impl VEncodable for H256 { open spec fn eb(&self) -> Seq<u8> { self.0@ } }
impl<'a> VEncodable for &'a [u8] { open spec fn eb(&self) -> Seq<u8> { self@ } }
/// `[u8; 32]::as_ref()`
pub trait VAsBytes { spec fn ab(&self) -> Seq<u8>; fn v_as_ref(&self) -> (r: &[u8]) ensures r@ == self.ab(); }
impl VAsBytes for [u8; 32] {
    open spec fn ab(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}

/// `rlp::RlpStream` used for a single list.
#[verifier::external_body]
pub struct RlpStream { x: u8 }
impl RlpStream {
    /// the number of items announced, the number of items so far and their encodings
    pub uninterp spec fn n(self) -> nat;
    pub uninterp spec fn k(self) -> nat;
    pub uninterp spec fn p(self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_list(n: usize) -> (r: RlpStream) requires n > 0 ensures r.n() == n, r.k() == 0, r.p().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn append<T: VEncodable>(&mut self, t: &T)
        requires old(self).k() < old(self).n()
        ensures final(self).n() == old(self).n(), final(self).k() == old(self).k() + 1, final(self).p() == old(self).p() + rlp_bytes(t.eb())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append_empty_data(&mut self)
        requires old(self).k() < old(self).n()
        ensures final(self).n() == old(self).n(), final(self).k() == old(self).k() + 1, final(self).p() == old(self).p() + seq![0x80u8]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append_raw(&mut self, b: &Bytes, items: usize)
        requires old(self).k() + items <= old(self).n()
        ensures final(self).n() == old(self).n(), final(self).k() == old(self).k() + items, final(self).p() == old(self).p() + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn out(self) -> (r: Vec<u8>)
        requires self.k() == self.n()
        ensures r@ == rlp_list(self.p())
    { unimplemented!() }
}
impl VInto<Bytes> for Vec<u8> {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: Bytes) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: Bytes) { unimplemented!() }
}
impl<'a> VInto<H256> for &'a EncodedNode {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: H256) -> bool { r == enc_root(*self) }
    fn vinto(self) -> (r: H256) { v_h256_from_enc(self) }
}
} // mod hashdeps
pub use crate::hashdeps::*;
pub mod hashspec {
use super::*;
/// The encoded node is the one that stands for the tree.
#[verifier::opaque]
pub open spec fn encodes(e: EncodedNode, n: SNode) -> bool {
    match e {
        EncodedNode::Raw(b) => !(n is Hash) && b@ == enc(n) && b@.len() < 32,
        EncodedNode::Hashed(h) => href(n) == Some(H256(h)),
    }
}
pub open spec fn eref(e: EncodedNode) -> Seq<u8> { match e { EncodedNode::Raw(b) => b@, EncodedNode::Hashed(h) => rlp_bytes(h@) } }
pub open spec fn enc_root(e: EncodedNode) -> H256 { match e { EncodedNode::Raw(b) => kec(b@), EncodedNode::Hashed(h) => H256(h) } }
pub broadcast proof fn b_encodes_ref(e: EncodedNode, n: SNode)
    requires #[trigger] encodes(e, n)
    ensures eref(e) == cref(n)
{ reveal(encodes); }
pub broadcast proof fn b_encodes_root(e: EncodedNode, n: SNode)
    requires #[trigger] encodes(e, n)
    ensures enc_root(e) == root(n)
{ reveal(encodes); }
/// The reference to a cached hash.
pub broadcast proof fn b_encodes_href(e: EncodedNode, n: SNode)
    requires e is Hashed, href(n) == Some(H256(e->Hashed_0))
    ensures #[trigger] encodes(e, n)
{ reveal(encodes); }
pub broadcast proof fn b_encodes_hashed(e: EncodedNode, n: SNode)
    requires #[trigger] encodes(e, n), e is Hashed
    ensures href(n) == Some(H256(e->Hashed_0))
{ reveal(encodes); }
/// An encoding that is hashed if it is large enough.
pub open spec fn sized(e: EncodedNode, b: Seq<u8>) -> bool {
    match e { EncodedNode::Raw(x) => x@ == b && b.len() < 32, EncodedNode::Hashed(h) => b.len() >= 32 && H256(h) == kec(b) }
}
pub broadcast proof fn b_encodes_empty(e: EncodedNode, n: SNode)
    requires n is Empty, sized(e, seq![0x80u8])
    ensures #[trigger] encodes(e, n)
{ reveal(encodes); }
pub broadcast proof fn b_encodes_leaf(e: EncodedNode, n: SNode)
    requires n is Leaf, sized(e, rlp_list(rlp_bytes(hp(n->Leaf_nibs, true)) + rlp_bytes(n->Leaf_value)))
    ensures #[trigger] encodes(e, n)
{ reveal(encodes); }
pub broadcast proof fn b_encodes_ext(e: EncodedNode, n: SNode)
    requires n is Ext, sized(e, rlp_list(rlp_bytes(hp(n->Ext_nibs, false)) + cref(*n->child)))
    ensures #[trigger] encodes(e, n)
{ reveal(encodes); }
pub broadcast proof fn b_encodes_branch(e: EncodedNode, n: SNode)
    requires n is Branch, sized(e, rlp_list(refs(n, n->children.len() as nat) + rlp_bytes(n->Branch_value)))
    ensures #[trigger] encodes(e, n)
{ reveal(encodes); }
pub broadcast proof fn b_rlp_empty(b: Seq<u8>)
    ensures b.len() == 0 ==> #[trigger] rlp_bytes(b) == seq![0x80u8]
{ if b.len() == 0 { assert(rlp_bytes(b) =~= seq![0x80u8]); } }
pub broadcast proof fn b_refs(n: SNode, m: nat)
    requires n is Branch, m <= n->children.len()
    ensures #[trigger] refs(n, m) == if m == 0 { seq![] } else { refs(n, (m - 1) as nat) + cref(n->children[m - 1]) }
{}
pub broadcast proof fn b_empty_add(a: Seq<u8>, b: Seq<u8>)
    ensures a.len() == 0 ==> #[trigger] (a + b) == b
{ if a.len() == 0 { assert(a + b =~= b); } }
pub broadcast group g_enc { b_encodes_ref, b_encodes_root, b_encodes_href, b_encodes_hashed, b_encodes_empty, b_encodes_leaf, b_encodes_ext, b_encodes_branch, b_rlp_empty, b_empty_add }

/// All caches of the tree are settled (`cell_bound`).
pub open spec fn settled(n: Node) -> bool decreases n {
    match n {
        Node::Branch { children, value } => forall|i: int| #![trigger children[i]] #![trigger children@[i]] 0 <= i < 16 ==> settled(inner(**children[i])) && cell_bound(**children[i]),
        Node::Extension { nibbles, child } => settled(inner(**child)) && cell_bound(**child),
        _ => true,
    }
}
} // mod hashspec
pub use crate::hashspec::*;
