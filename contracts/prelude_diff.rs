// The difference of two tries.
pub mod diffspec {
use super::*;
/// A trie that can be hashed, whose keys have at most m nibbles.
#[verifier::opaque]
pub open spec fn hok(u: Inst, m: nat) -> bool { ninv(inner(u)) && settled(inner(u)) && cell_bound(u) && wfd(view(inner(u)), m) && m <= 64 }
pub open spec fn sa(s: DepthDiffPerCallState) -> SNode { view(inner(*s.a)) }
pub open spec fn sb(s: DepthDiffPerCallState) -> SNode { view(inner(*s.b)) }
pub open spec fn dok(s: DepthDiffPerCallState) -> bool {
    s.curr_key.wf() && s.curr_key@.len() <= 64 && hok(*s.a, (64 - s.curr_key@.len()) as nat) && hok(*s.b, (64 - s.curr_key@.len()) as nat)
}
/// The node at the end of key k.
pub open spec fn at(n: SNode, k: Seq<u8>) -> Option<SNode> decreases n {
    if k.len() == 0 { Some(n) } else {
        match n {
            SNode::Branch { children, value } => if k[0] < children.len() { at(children[k[0] as int], k.skip(1)) } else { None },
            SNode::Ext { nibs, child } => if nibs.is_prefix_of(k) { at(*child, k.skip(nibs.len() as int)) } else { None },
            _ => None,
        }
    }
}
pub open spec fn skind(n: SNode) -> TrieNodeType {
    match n {
        SNode::Empty => TrieNodeType::Empty,
        SNode::Hash(h) => TrieNodeType::Hash,
        SNode::Branch { children, value } => TrieNodeType::Branch,
        SNode::Ext { nibs, child } => TrieNodeType::Extension,
        SNode::Leaf { nibs, value } => TrieNodeType::Leaf,
    }
}
/// The nibbles of a node of its own.
pub open spec fn own(n: SNode) -> Seq<u8> { match n { SNode::Ext { nibs, child } => nibs, SNode::Leaf { nibs, value } => nibs, _ => seq![] } }
pub open spec fn valof(n: SNode) -> Option<Seq<u8>> { match n { SNode::Branch { children, value } => Some(value), SNode::Leaf { nibs, value } => Some(value), _ => None } }
/// Equal digests stand for the same part, here and at all places the two tries have in common:
/// there is no Keccak collision, and no hashed-out part is small enough to have been included.
#[verifier::opaque]
pub open spec fn sane(a: SNode, b: SNode) -> bool decreases a {
    &&& root(a) == root(b) ==> cref(a) == cref(b)
    &&& match (a, b) {
        (SNode::Branch { children: c1, value: v1 }, SNode::Branch { children: c2, value: v2 }) => forall|i: int| #![trigger c1[i]] #![trigger c2[i]] 0 <= i < c1.len() && i < c2.len() ==> sane(c1[i], c2[i]),
        (SNode::Ext { nibs: n1, child: c1 }, SNode::Ext { nibs: n2, child: c2 }) => sane(*c1, *c2),
        _ => true,
    }
}
/// The description fits the node.
pub open spec fn fits(i: NodeInfo, n: SNode, k: Seq<u8>) -> bool {
    i.key.wf() && i.key@ == k + own(n) && i.node_type == skind(n) && i.hash == root(n)
    && match i.value { Some(v) => valof(n) == Some(v@), None => valof(n) is None }
}
#[verifier::opaque]
pub open spec fn differ(a: SNode, b: SNode) -> bool { skind(a) != skind(b) || root(a) != root(b) }
/// The point describes two nodes at the same position of a and b (which are at position k) that differ.
#[verifier::opaque]
pub open spec fn realpt(d: DiffPoint, k: Seq<u8>, a: SNode, b: SNode) -> bool {
    &&& d.key.wf() && k.is_prefix_of(d.key@)
    &&& at(a, d.key@.skip(k.len() as int)) is Some && at(b, d.key@.skip(k.len() as int)) is Some
    &&& fits(d.a_info, at(a, d.key@.skip(k.len() as int))->Some_0, d.key@)
    &&& fits(d.b_info, at(b, d.key@.skip(k.len() as int))->Some_0, d.key@)
    &&& differ(at(a, d.key@.skip(k.len() as int))->Some_0, at(b, d.key@.skip(k.len() as int))->Some_0)
}
#[verifier::opaque]
pub open spec fn step(o: Option<DiffPoint>, f: Option<DiffPoint>, k: Seq<u8>, a: SNode, b: SNode) -> bool { f == o || f is Some && realpt(f->Some_0, k, a, b) }
pub open spec fn steps(o: DepthNodeDiffState, f: DepthNodeDiffState, k: Seq<u8>, a: SNode, b: SNode) -> bool {
    step(o.longest_key_node_diff, f.longest_key_node_diff, k, a, b) && step(o.longest_key_hash_diff, f.longest_key_hash_diff, k, a, b)
}
pub open spec fn found(s: DepthNodeDiffState) -> bool { s.longest_key_node_diff is Some || s.longest_key_hash_diff is Some }
pub open spec fn rank(s: DiffDetectionState) -> int { match s { DiffDetectionState::NodeTypesDiffer => 0, DiffDetectionState::HashDiffDetected => 1, DiffDetectionState::NoDiffDetected => 2 } }

// `#[derive(Clone)]`, `#[derive(Default)]`, `Option::as_ref`
impl VClone for Vec<PathSegment> {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
impl VClone for NodePath {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r.0@ == self.0@ }
    fn vclone(&self) -> (r: Self) { NodePath(self.0.vclone()) }
}
impl NodePath {
    pub fn default() -> (r: NodePath) ensures r.0@.len() == 0 { NodePath(Vec::new()) }
}
impl DepthNodeDiffState {
    pub fn default() -> (r: DepthNodeDiffState) ensures r.longest_key_node_diff is None, r.longest_key_hash_diff is None { DepthNodeDiffState { longest_key_node_diff: None, longest_key_hash_diff: None } }
}
pub trait VOptRef<T> { spec fn opt(&self) -> Option<T>; fn v_as_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.opt() == Some(*x), None => self.opt() is None }; }
impl<T> VOptRef<T> for Option<T> {
    open spec fn opt(&self) -> Option<T> { *self }
    fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
pub broadcast proof fn b_hok(u: Inst, m: nat)
    requires #[trigger] hok(u, m)
    ensures ninv(inner(u)), settled(inner(u)), cell_bound(u), wfd(view(inner(u)), 64), hok(u, 64), m <= 64,
        inner(u) is Leaf ==> inner(u)->Leaf_nibbles@.len() <= m, inner(u) is Extension ==> 1 <= inner(u)->Extension_nibbles@.len() <= m, inner(u) is Branch ==> m >= 1
{ reveal(hok); lemma_wfd_mono(view(inner(u)), m, 64); }
pub broadcast proof fn b_hok_ext(u: Inst, m: nat, m2: nat)
    requires hok(u, m), inner(u) is Extension, m2 == m - inner(u)->Extension_nibbles@.len()
    ensures #![trigger hok(u, m), hok(**inner(u)->child, m2)] hok(**inner(u)->child, m2)
{ reveal(hok); }
pub broadcast proof fn b_hok_kid(u: Inst, m: nat, i: int, m2: nat)
    requires hok(u, m), inner(u) is Branch, 0 <= i < 16, m2 == m - 1
    ensures #![trigger hok(u, m), hok(**inner(u)->children[i], m2)] hok(**inner(u)->children[i], m2)
{ reveal(hok); let c = inner(u)->children[i]; assert(view(inner(u))->children[i] == wv(c)); }
pub broadcast proof fn b_sane_ext(a: SNode, b: SNode)
    requires sane(a, b), a is Ext, b is Ext
    ensures #![trigger sane(a, b), *a->child] sane(*a->child, *b->child), a->Ext_nibs == b->Ext_nibs && root(*a->child) == root(*b->child) ==> root(a) == root(b)
{ reveal_with_fuel(sane, 2); if a->Ext_nibs == b->Ext_nibs && root(*a->child) == root(*b->child) { assert(enc(a) == enc(b)); } }
pub broadcast proof fn b_sane_kid(a: SNode, b: SNode, i: int)
    requires sane(a, b), a is Branch, b is Branch, 0 <= i < a->children.len(), i < b->children.len()
    ensures #![trigger sane(a, b), a->children[i]] sane(a->children[i], b->children[i])
{ reveal_with_fuel(sane, 2); }
pub broadcast proof fn b_differ(a: SNode, b: SNode)
    ensures #[trigger] differ(a, b) == (skind(a) != skind(b) || root(a) != root(b))
{ reveal(differ); }
pub broadcast proof fn b_real(d: DiffPoint, k: Seq<u8>, a: SNode, b: SNode)
    requires d.key.wf(), d.key@ == k, fits(d.a_info, a, k), fits(d.b_info, b, k), differ(a, b)
    ensures #[trigger] realpt(d, k, a, b)
{ reveal(realpt); assert(d.key@.skip(k.len() as int) =~= seq![]); }
pub proof fn lemma_real_ext(d: DiffPoint, k: Seq<u8>, a: SNode, b: SNode)
    requires a is Ext, b is Ext, a->Ext_nibs == b->Ext_nibs, a->Ext_nibs.len() > 0, realpt(d, k + a->Ext_nibs, *a->child, *b->child)
    ensures realpt(d, k, a, b)
{
    reveal(realpt);
    let p = a->Ext_nibs; let x = d.key@; let y = x.skip(k.len() as int);
    assert((k + p).is_prefix_of(x));
    assert(k =~= x.take(k.len() as int)) by { assert forall|i: int| 0 <= i < k.len() implies k[i] == x[i] by { assert((k + p)[i] == x[i]); } }
    assert forall|i: int| 0 <= i < p.len() implies p[i] == y[i] by { assert((k + p)[k.len() + i] == x[k.len() + i]); }
    assert(p =~= y.take(p.len() as int));
    assert(y.skip(p.len() as int) =~= x.skip((k + p).len() as int));
}
pub proof fn lemma_real_kid(d: DiffPoint, k: Seq<u8>, a: SNode, b: SNode, i: int)
    requires a is Branch, b is Branch, 0 <= i < 16, a->children.len() == 16, b->children.len() == 16, realpt(d, k + seq![i as u8], a->children[i], b->children[i])
    ensures realpt(d, k, a, b)
{
    reveal(realpt);
    let p = seq![i as u8]; let x = d.key@; let y = x.skip(k.len() as int);
    assert((k + p).is_prefix_of(x));
    assert(k =~= x.take(k.len() as int)) by { assert forall|i: int| 0 <= i < k.len() implies k[i] == x[i] by { assert((k + p)[i] == x[i]); } }
    assert(y[0] == p[0]) by { assert((k + p)[k.len() as int] == x[k.len() as int]); }
    assert(y.skip(1) =~= x.skip((k + p).len() as int));
}
pub broadcast proof fn b_step(o: Option<DiffPoint>, d: DiffPoint, k: Seq<u8>, a: SNode, b: SNode)
    requires realpt(d, k, a, b)
    ensures #[trigger] step(o, Some(d), k, a, b)
{ reveal(step); }
pub broadcast proof fn b_step_refl(o: Option<DiffPoint>, k: Seq<u8>, a: SNode, b: SNode)
    ensures #[trigger] step(o, o, k, a, b)
{ reveal(step); }
pub broadcast proof fn b_step_some(o: Option<DiffPoint>, f: Option<DiffPoint>, k: Seq<u8>, a: SNode, b: SNode)
    requires #[trigger] step(o, f, k, a, b)
    ensures o is Some ==> f is Some, o is None && f is Some ==> realpt(f->Some_0, k, a, b)
{ reveal(step); }
pub broadcast proof fn b_step_trans(o: Option<DiffPoint>, m: Option<DiffPoint>, f: Option<DiffPoint>, k: Seq<u8>, a: SNode, b: SNode)
    requires #[trigger] step(o, m, k, a, b), #[trigger] step(m, f, k, a, b)
    ensures step(o, f, k, a, b)
{ reveal(step); }
pub broadcast proof fn b_step_ext(o: Option<DiffPoint>, f: Option<DiffPoint>, k: Seq<u8>, a: SNode, b: SNode, k2: Seq<u8>)
    requires step(o, f, k2, *a->child, *b->child), a is Ext, b is Ext, a->Ext_nibs == b->Ext_nibs, a->Ext_nibs.len() > 0, k2 == k + a->Ext_nibs
    ensures #![trigger step(o, f, k2, *a->child, *b->child), step(o, f, k, a, b)] step(o, f, k, a, b)
{ reveal(step); if f != o { lemma_real_ext(f->Some_0, k, a, b); } }
pub broadcast proof fn b_step_kid(o: Option<DiffPoint>, f: Option<DiffPoint>, k: Seq<u8>, a: SNode, b: SNode, i: int, p: Seq<u8>)
    requires step(o, f, k + p, a->children[i], b->children[i]), a is Branch, b is Branch, a->children.len() == 16, b->children.len() == 16, 0 <= i < 16, p == seq![i as u8]
    ensures #![trigger step(o, f, k + p, a->children[i], b->children[i])] step(o, f, k, a, b)
{ reveal(step); if f != o { lemma_real_kid(f->Some_0, k, a, b, i); } }
pub broadcast proof fn b_add_empty(k: Seq<u8>, p: Seq<u8>)
    requires p.len() == 0
    ensures #[trigger] (k + p) == k
{ assert(k + p =~= k); }
pub broadcast proof fn b_key_empty(d: DiffPoint, k: Seq<u8>, a: SNode, b: SNode)
    requires k.len() == 0, #[trigger] realpt(d, k, a, b)
    ensures k == Seq::<u8>::empty()
{ assert(k =~= Seq::<u8>::empty()); }
pub broadcast proof fn b_kid(n: Node, i: int)
    requires n is Branch, 0 <= i < 16
    ensures #![trigger view(n), n->children[i]] #![trigger view(n), n->children@[i]] view(n)->children[i] == wv(n->children[i]), decreases_to!(view(n) => wv(n->children[i]))
{ let v = view(n); assert(decreases_to!(v->children => v->children[i])); }
pub broadcast group g_diff { b_key_empty, b_kid, b_hok, b_hok_ext, b_hok_kid, b_sane_ext, b_sane_kid, b_differ, b_real, b_step, b_step_refl, b_step_some, b_step_trans, b_step_ext, b_step_kid, b_add_empty }
} // mod diffspec
pub use crate::diffspec::*;
