// Equality of tries.
pub mod eqspec {
use super::*;
pub trait VEq: Sized {
    spec fn veq_spec(&self, o: &Self) -> bool;
    fn veq(&self, o: &Self) -> (r: bool) ensures r == self.veq_spec(o);
}
impl VEq for H256 {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    fn veq(&self, o: &Self) -> (r: bool) { broadcast use b_h256_eq; *self == *o }
}
impl VEq for Vec<u8> {
    open spec fn veq_spec(&self, o: &Self) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl VEq for U512 {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    fn veq(&self, o: &Self) -> (r: bool) { broadcast use b_u512_eq; *self == *o }
}
impl VEq for usize {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    fn veq(&self, o: &Self) -> (r: bool) { *self == *o }
}
impl VEq for u8 {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    fn veq(&self, o: &Self) -> (r: bool) { *self == *o }
}
impl VEq for bool {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    fn veq(&self, o: &Self) -> (r: bool) { *self == *o }
}
impl VEq for Nibbles {
    open spec fn veq_spec(&self, o: &Self) -> bool { nib_eq(*self, *o) }
    fn veq(&self, o: &Self) -> (r: bool) { *self == *o }
}
/// The two nodes are equal node for node.
#[verifier::opaque]
pub open spec fn same(a: Node, b: Node) -> bool { view(a) == view(b) }
#[verifier::opaque]
pub open spec fn wsame(a: Inst, b: Inst) -> bool { view(inner(a)) == view(inner(b)) }
pub broadcast proof fn b_wsame(a: Inst, b: Inst)
    ensures #[trigger] wsame(a, b) == same(inner(a), inner(b))
{ reveal(same); reveal(wsame); }
pub broadcast proof fn b_same(a: Node, b: Node)
    ensures #[trigger] same(a, b) == match (a, b) {
        (Node::Empty, Node::Empty) => true,
        (Node::Hash(x), Node::Hash(y)) => x == y,
        (Node::Branch { children: c1, value: v1 }, Node::Branch { children: c2, value: v2 }) => v1@ == v2@ && forall|i: int| #![trigger c1[i]] 0 <= i < 16 ==> wsame(**c1[i], **c2[i]),
        (Node::Extension { nibbles: n1, child: c1 }, Node::Extension { nibbles: n2, child: c2 }) => n1@ == n2@ && wsame(**c1, **c2),
        (Node::Leaf { nibbles: n1, value: v1 }, Node::Leaf { nibbles: n2, value: v2 }) => n1@ == n2@ && v1@ == v2@,
        _ => false,
    }
{
    reveal(same); reveal(wsame);
    match (a, b) {
        (Node::Branch { children: c1, value: v1 }, Node::Branch { children: c2, value: v2 }) => {
            if v1@ == v2@ && forall|i: int| #![trigger c1[i]] 0 <= i < 16 ==> wsame(**c1[i], **c2[i]) {
                assert(view(a)->children =~= view(b)->children);
            }
            if view(a) == view(b) {
                assert forall|i: int| #![trigger c1[i]] 0 <= i < 16 implies wsame(**c1[i], **c2[i]) by { assert(view(a)->children[i] == view(b)->children[i]); }
            }
        }
        _ => {}
    }
}
pub broadcast group g_same { b_same, b_wsame }
} // mod eqspec
pub use crate::eqspec::*;
