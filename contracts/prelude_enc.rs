// The encoding and hash of a node tree (Yellow Paper, appendices B, C and D)
// and the dependencies used to compute it.
pub mod encspec {
use super::*;

/// Keccak-256.
pub uninterp spec fn kec(s: Seq<u8>) -> H256;
/// Big-endian bytes without leading zeros.
pub open spec fn be(n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { be(n / 256).push((n % 256) as u8) } }
/// RLP of a byte string.
pub open spec fn rlp_bytes(b: Seq<u8>) -> Seq<u8> {
    if b.len() == 1 && b[0] < 0x80 { b }
    else if b.len() <= 55 { seq![(0x80 + b.len()) as u8] + b }
    else { seq![(0xb7 + be(b.len()).len()) as u8] + be(b.len()) + b }
}
/// RLP of a list whose items have been encoded already.
pub open spec fn rlp_list(p: Seq<u8>) -> Seq<u8> {
    if p.len() <= 55 { seq![(0xc0 + p.len()) as u8] + p }
    else { seq![(0xf7 + be(p.len()).len()) as u8] + be(p.len()) + p }
}
/// The encoding of a node (that is not a hash).
pub open spec fn enc(n: SNode) -> Seq<u8> decreases n, 1nat, 0nat {
    match n {
        SNode::Empty => seq![0x80u8],
        SNode::Hash(h) => seq![],
        SNode::Branch { children, value } => rlp_list(refs(n, children.len() as nat) + rlp_bytes(value)),
        SNode::Ext { nibs, child } => rlp_list(rlp_bytes(hp(nibs, false)) + (match *child {
            SNode::Hash(h) => rlp_bytes(h.0@),
            _ => if enc(*child).len() < 32 { enc(*child) } else { rlp_bytes(kec(enc(*child)).0@) },
        })),
        SNode::Leaf { nibs, value } => rlp_list(rlp_bytes(hp(nibs, true)) + rlp_bytes(value)),
    }
}
/// How a node refers to its child.
pub open spec fn cref(n: SNode) -> Seq<u8> {
    match n {
        SNode::Hash(h) => rlp_bytes(h.0@),
        _ => if enc(n).len() < 32 { enc(n) } else { rlp_bytes(kec(enc(n)).0@) },
    }
}
/// The references to the first m children of a branch.
pub open spec fn refs(n: SNode, m: nat) -> Seq<u8> decreases n, 0nat, m when n is Branch && m <= n->children.len() {
    if m == 0 { seq![] }
    else {
        refs(n, (m - 1) as nat) + (match n->children[m - 1] {
            SNode::Hash(h) => rlp_bytes(h.0@),
            _ => if enc(n->children[m - 1]).len() < 32 { enc(n->children[m - 1]) } else { rlp_bytes(kec(enc(n->children[m - 1])).0@) },
        })
    }
}
/// The hash that stands for a node, if it is not small enough to be inlined.
pub open spec fn href(n: SNode) -> Option<H256> {
    match n {
        SNode::Hash(h) => Some(h),
        _ => if enc(n).len() < 32 { None } else { Some(kec(enc(n))) },
    }
}
/// The root hash of a tree.
pub open spec fn root(n: SNode) -> H256 { match n { SNode::Hash(h) => h, _ => kec(enc(n)) } }
} // mod encspec
pub use crate::encspec::*;
