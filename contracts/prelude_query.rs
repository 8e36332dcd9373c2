// The path a key takes through a trie.
pub mod queryspec {
use super::*;
/// A node on the path with the nibbles it consumes.
pub enum Seg { Empty, Hash, Branch(u8), BranchEnd, Ext(Seq<u8>), Leaf(Seq<u8>) }
pub open spec fn sg(s: PathSegment) -> Seg {
    match s {
        PathSegment::Empty => Seg::Empty,
        PathSegment::Hash => Seg::Hash,
        PathSegment::Branch(n) => Seg::Branch(n),
        PathSegment::BranchEnd => Seg::BranchEnd,
        PathSegment::Extension(n) => Seg::Ext(n@),
        PathSegment::Leaf(n) => Seg::Leaf(n@),
    }
}
/// The nibbles a node stands for, of a branch the next nibble of the key.
pub open spec fn piece(n: SNode, k: Seq<u8>) -> Seq<u8> {
    match n {
        SNode::Branch { children, value } => if k.len() == 0 { seq![] } else { k.take(1) },
        SNode::Ext { nibs, child } => nibs,
        SNode::Leaf { nibs, value } => nibs,
        _ => seq![],
    }
}
pub open spec fn segof(n: SNode, p: Seq<u8>) -> Seg {
    match n {
        SNode::Empty => Seg::Empty,
        SNode::Hash(h) => Seg::Hash,
        SNode::Branch { children, value } => if p.len() == 0 { Seg::BranchEnd } else { Seg::Branch(p[0]) },
        SNode::Ext { nibs, child } => Seg::Ext(p),
        SNode::Leaf { nibs, value } => Seg::Leaf(p),
    }
}
/// The nodes met on the way from n along k, in order.
pub open spec fn qpath(n: SNode, k: Seq<u8>) -> Seq<Seg> decreases n {
    match n {
        SNode::Empty => seq![Seg::Empty],
        SNode::Hash(h) => seq![Seg::Hash],
        SNode::Branch { children, value } =>
            if k.len() == 0 { seq![Seg::BranchEnd] }
            else if k[0] < children.len() { seq![Seg::Branch(k[0])] + qpath(children[k[0] as int], k.skip(1)) } else { seq![Seg::Branch(k[0])] },
        SNode::Ext { nibs, child } => if nibs.is_prefix_of(k) { seq![Seg::Ext(nibs)] + qpath(*child, k.skip(nibs.len() as int)) } else { seq![Seg::Ext(nibs)] },
        SNode::Leaf { nibs, value } => seq![Seg::Leaf(nibs)],
    }
}
/// The whole key leads to a node that is not empty.
pub open spec fn qfound(n: SNode, k: Seq<u8>) -> bool decreases n {
    match n {
        SNode::Empty => false,
        SNode::Hash(h) => k.len() == 0,
        SNode::Branch { children, value } => k.len() == 0 || k[0] < children.len() && qfound(children[k[0] as int], k.skip(1)),
        SNode::Ext { nibs, child } => nibs.is_prefix_of(k) && qfound(*child, k.skip(nibs.len() as int)),
        SNode::Leaf { nibs, value } => k == nibs,
    }
}
pub open spec fn psegs(v: Seq<PathSegment>) -> Seq<Seg> { Seq::new(v.len(), |i: int| sg(v[i])) }
pub open spec fn qv(q: DebugQueryOutput) -> Seq<Seg> { psegs(q.node_path.0@) }
pub broadcast proof fn b_psegs_push(v: Seq<PathSegment>, s: PathSegment)
    ensures #[trigger] psegs(v.push(s)) == psegs(v).push(sg(s))
{ assert(psegs(v.push(s)) =~= psegs(v).push(sg(s))); }
pub broadcast proof fn b_push_add(a: Seq<Seg>, s: Seg, b: Seq<Seg>)
    ensures #[trigger] (a.push(s) + b) == a + (seq![s] + b)
{ assert(a.push(s) + b =~= a + (seq![s] + b)); }
pub broadcast proof fn b_push_one(a: Seq<Seg>, s: Seg)
    ensures #[trigger] a.push(s) == a + seq![s]
{ assert(a.push(s) =~= a + seq![s]); }
pub broadcast proof fn b_psegs_empty(v: Seq<PathSegment>, b: Seq<Seg>)
    requires v.len() == 0
    ensures #[trigger] (psegs(v) + b) == b
{ assert(psegs(v) + b =~= b); }
pub broadcast proof fn b_take_prefix(p: Seq<u8>, k: Seq<u8>, m: int)
    requires m == if p.len() <= k.len() { p.len() as int } else { k.len() as int }
    ensures #![trigger k.take(m), p.is_prefix_of(k)] k.take(m) == p <==> p.is_prefix_of(k)
{ if p.is_prefix_of(k) { assert(k.take(m) =~= p); } }
pub broadcast group g_query { b_psegs_push, b_push_add, b_push_one, b_psegs_empty, b_take_prefix }
// the reflexive `Into`
impl VInto<DebugQuery> for DebugQuery {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: DebugQuery) -> bool { r == self }
    fn vinto(self) -> (r: DebugQuery) { self }
}
// `#[derive(Default)]`
impl NodePath {
    pub fn default() -> (r: NodePath) ensures r.0@.len() == 0 { NodePath(Vec::new()) }
}
} // mod queryspec
pub use crate::queryspec::*;
