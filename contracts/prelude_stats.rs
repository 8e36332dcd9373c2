// What the statistics of a trie count.
pub mod statspec {
use super::*;
/// Numbers of nodes by kind, sums of the depths of leaves and hashed-out nodes, the depth of the deepest of them.
pub struct St { pub empty: nat, pub hash: nat, pub branch: nat, pub ext: nat, pub leaf: nat, pub lsum: nat, pub hsum: nat, pub low: nat }
pub open spec fn zero() -> St { St { empty: 0, hash: 0, branch: 0, ext: 0, leaf: 0, lsum: 0, hsum: 0, low: 0 } }
pub open spec fn stadd(a: St, b: St) -> St {
    St { empty: a.empty + b.empty, hash: a.hash + b.hash, branch: a.branch + b.branch, ext: a.ext + b.ext, leaf: a.leaf + b.leaf,
        lsum: a.lsum + b.lsum, hsum: a.hsum + b.hsum, low: if a.low < b.low { b.low } else { a.low } }
}
/// One branch more.
pub open spec fn addb(a: St) -> St { St { branch: a.branch + 1, ..a } }
/// The statistics of the subtree n that starts at depth d.
pub open spec fn tot(n: SNode, d: nat) -> St decreases n, 1nat, 0nat {
    match n {
        SNode::Empty => St { empty: 1, ..zero() },
        SNode::Hash(h) => St { hash: 1, hsum: d, low: d, ..zero() },
        SNode::Leaf { nibs, value } => St { leaf: 1, lsum: d, low: d, ..zero() },
        SNode::Ext { nibs, child } => { let s = tot(*child, d + 1); St { ext: s.ext + 1, ..s } }
        SNode::Branch { children, value } => addb(ctot(n, children.len() as nat, d + 1)),
    }
}
/// The sum over the first m children of a branch.
#[verifier::opaque]
pub open spec fn ctot(n: SNode, m: nat, d: nat) -> St decreases n, 0nat, m when n is Branch && m <= n->children.len() {
    if m == 0 { zero() } else { stadd(ctot(n, (m - 1) as nat, d), tot(n->children[m - 1], d)) }
}
pub open spec fn hgt(n: SNode) -> nat decreases n, 1nat, 0nat {
    match n {
        SNode::Ext { nibs, child } => hgt(*child) + 1,
        SNode::Branch { children, value } => chgt(n, children.len() as nat) + 1,
        _ => 0,
    }
}
#[verifier::opaque]
pub open spec fn chgt(n: SNode, m: nat) -> nat decreases n, 0nat, m when n is Branch && m <= n->children.len() {
    if m == 0 { 0 } else { let a = chgt(n, (m - 1) as nat); let b = hgt(n->children[m - 1]); if a < b { b } else { a } }
}
pub open spec fn le(a: St, b: St) -> bool {
    a.empty <= b.empty && a.hash <= b.hash && a.branch <= b.branch && a.ext <= b.ext && a.leaf <= b.leaf && a.lsum <= b.lsum && a.hsum <= b.hsum && a.low <= b.low
}
/// The numbers are representable.
pub open spec fn fits(s: St) -> bool {
    s.empty <= usize::MAX && s.hash <= usize::MAX && s.branch <= usize::MAX && s.ext <= usize::MAX && s.leaf <= usize::MAX && s.lsum <= u64::MAX && s.hsum <= u64::MAX
}
pub proof fn lemma_ctot_mono(n: SNode, m: nat, k: nat, d: nat)
    requires n is Branch, m <= k <= n->children.len()
    ensures le(ctot(n, m, d), ctot(n, k, d)), chgt(n, m) <= chgt(n, k)
    decreases k
{ reveal(ctot); reveal(chgt); if m < k { lemma_ctot_mono(n, m, (k - 1) as nat, d); } }
/// Counting one more child.
pub broadcast proof fn b_ctot(n: SNode, m: nat, d: nat, c: SNode)
    requires n is Branch, m < n->children.len(), c == n->children[m as int]
    ensures #![trigger ctot(n, m, d), tot(c, d)] ctot(n, m + 1, d) == stadd(ctot(n, m, d), tot(c, d)), le(ctot(n, m + 1, d), ctot(n, n->children.len() as nat, d))
{ lemma_ctot_mono(n, m + 1, n->children.len() as nat, d); reveal(ctot); }
pub broadcast proof fn b_ctot0(n: SNode, d: nat)
    requires n is Branch
    ensures #[trigger] ctot(n, 0, d) == zero()
{ reveal(ctot); }
pub broadcast proof fn b_chgt(n: SNode, m: int)
    requires n is Branch, 0 <= m < n->children.len()
    ensures #![trigger hgt(n), n->children[m]] hgt(n->children[m]) < hgt(n)
{ lemma_ctot_mono(n, (m + 1) as nat, n->children.len() as nat, 0); reveal(chgt); }
pub broadcast proof fn b_chgt_at(n: SNode, m: nat, d: nat, c: SNode)
    requires n is Branch, m < n->children.len(), c == n->children[m as int]
    ensures #![trigger ctot(n, m, d), hgt(c)] hgt(c) < hgt(n)
{ b_chgt(n, m as int); }
pub broadcast group g_stats { b_ctot, b_ctot0, b_chgt, b_chgt_at }
pub open spec fn sv(s: CurrTrackingState) -> St {
    St { empty: s.counts.empty as nat, hash: s.counts.hash as nat, branch: s.counts.branch as nat, ext: s.counts.extension as nat, leaf: s.counts.leaf as nat,
        lsum: s.leaf_depth_sum as nat, hsum: s.hash_depth_sum as nat, low: s.lowest_depth as nat }
}
pub open spec fn stats_ok(r: TrieStats, s: St) -> bool {
    &&& r.counts.empty == s.empty && r.counts.hash == s.hash && r.counts.branch == s.branch && r.counts.extension == s.ext && r.counts.leaf == s.leaf
    &&& r.depth_stats.lowest_depth == s.low
    &&& s.leaf > 0 ==> r.depth_stats.avg_leaf_depth == fdiv(fof(s.lsum), fof(s.leaf))
    &&& s.hash > 0 ==> r.depth_stats.avg_hash_depth == fdiv(fof(s.hsum), fof(s.hash))
}
pub open spec fn nfits(c: NodeCounts) -> bool { c.empty + c.hash + c.branch + c.extension + c.leaf <= usize::MAX }
pub open spec fn rat<T>(r: RatioStat<T>, a: T, b: T) -> bool { r.a == a && r.b == b }
pub open spec fn full(c: NodeCounts) -> int { c.hash + c.branch + c.extension + c.leaf }
/// Every figure of a comparison is that of the first and that of the second trie.
pub open spec fn ncomp(r: NodeComparison, a: NodeCounts, b: NodeCounts) -> bool {
    &&& r.tot_node_rat.a == full(a) + a.empty && r.tot_node_rat.b == full(b) + b.empty
    &&& r.non_empty_rat.a == full(a) && r.non_empty_rat.b == full(b)
    &&& rat(r.empty_rat, a.empty, b.empty) && rat(r.hash_rat, a.hash, b.hash) && rat(r.branch_rat, a.branch, b.branch)
    &&& rat(r.extension_rat, a.extension, b.extension) && rat(r.leaf_rat, a.leaf, b.leaf)
}
pub open spec fn dcomp(r: DepthComparison, a: DepthStats, b: DepthStats) -> bool {
    rat(r.lowest_depth_rat, a.lowest_depth, b.lowest_depth) && rat(r.avg_leaf_depth_rat, a.avg_leaf_depth, b.avg_leaf_depth)
        && rat(r.avg_hash_depth_rat, a.avg_hash_depth, b.avg_hash_depth)
}
// `#[derive(Default)]`
impl CurrTrackingState {
    pub fn default() -> (r: CurrTrackingState) ensures sv(r) == zero() {
        CurrTrackingState { counts: NodeCounts { empty: 0, hash: 0, branch: 0, extension: 0, leaf: 0 }, leaf_depth_sum: 0, hash_depth_sum: 0, lowest_depth: 0 }
    }
}
/// `f32`, of which only conversion and division are used.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { x: f32 }
pub uninterp spec fn fof(n: nat) -> F32;
pub uninterp spec fn fdiv(a: F32, b: F32) -> F32;
impl vstd::std_specs::ops::DivSpecImpl<F32> for F32 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F32) -> bool { true }
    open spec fn div_spec(self, o: F32) -> F32 { fdiv(self, o) }
}
impl std::ops::Div<F32> for F32 {
    type Output = F32;
    #[verifier::external_body]
    fn div(self, o: F32) -> F32 { unimplemented!() }
}
/// `x as f32`
pub trait VF32: Sized {
    spec fn fv(self) -> nat;
    fn vf32(self) -> (r: F32) ensures r == fof(self.fv());
}
impl VF32 for usize {
    open spec fn fv(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vf32(self) -> (r: F32) { unimplemented!() }
}
impl VF32 for u64 {
    open spec fn fv(self) -> nat { self as nat }
    #[verifier::external_body]
    fn vf32(self) -> (r: F32) { unimplemented!() }
}
} // mod statspec
pub use crate::statspec::*;
