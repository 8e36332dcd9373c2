pub use crate::triespec::*;
pub use crate::triebc::*;

pub type WN = Arc<Box<Inst>>;

pub mod glue {
use super::*;
// the crate's trait impls, by way of the extracted functions
impl std::ops::Deref for Inst {
    type Target = Node;
    fn deref(&self) -> (r: &Node) ensures *r == inner(*self) { self.v_deref() }
}
pub trait VAsRef<T> {
    spec fn asr(&self) -> T;
    fn v_as_ref(&self) -> (r: &T) ensures *r == self.asr();
}
impl VAsRef<Node> for WN {
    open spec fn asr(&self) -> Node { inner(***self) }
    fn v_as_ref(&self) -> (r: &Node) { v_as_ref_wn(self) }
}
impl VInto<WN> for Node {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: WN) -> bool { inner(**r) == self && cell_ok(**r) }
    fn vinto(self) -> (r: WN) { v_from_node(self) }
}
impl VInto<InsertEntry> for (Nibbles, ValOrHash) {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: InsertEntry) -> bool { r.nibbles == self.0 && r.v == self.1 }
    fn vinto(self) -> (r: InsertEntry) { v_from_entry(self) }
}
impl VInto<Nibbles> for Nibbles {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: Nibbles) -> bool { r == self }
    fn vinto(self) -> (r: Nibbles) { self }
}
impl VInto<ValOrHash> for ValOrHash {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: ValOrHash) -> bool { r == self }
    fn vinto(self) -> (r: ValOrHash) { self }
}
impl VInto<TrieNodeType> for &WN {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: TrieNodeType) -> bool { r == kind(inner(***self)) }
    fn vinto(self) -> (r: TrieNodeType) { v_kind_wn(self) }
}
impl VInto<TrieNodeType> for &Node {
    open spec fn into_req(self) -> bool { true }
    open spec fn into_rel(self, r: TrieNodeType) -> bool { r == kind(*self) }
    fn vinto(self) -> (r: TrieNodeType) { v_kind_node(self) }
}
pub open spec fn kind(n: Node) -> TrieNodeType {
    match n {
        Node::Empty => TrieNodeType::Empty,
        Node::Hash(_) => TrieNodeType::Hash,
        Node::Branch { .. } => TrieNodeType::Branch,
        Node::Extension { .. } => TrieNodeType::Extension,
        Node::Leaf { .. } => TrieNodeType::Leaf,
    }
}
// `#[derive(Clone)]`, `#[derive(PartialEq)]`, `EnumAsInner`
impl VClone for Node {
    open spec fn clone_req(self) -> bool { true }
    open spec fn clone_rel(self, r: Self) -> bool { r == self }
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
impl PartialEqSpecImpl for TrieNodeType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TrieNodeType) -> bool { *self == *o }
}
impl PartialEq for TrieNodeType {
    #[verifier::external_body]
    fn eq(&self, o: &TrieNodeType) -> bool { unimplemented!() }
}
impl ValOrHash {
    pub fn into_val(self) -> (r: Result<Vec<u8>, ValOrHash>) ensures match self { ValOrHash::Val(v) => r == Ok::<Vec<u8>, ValOrHash>(v), _ => r is Err }
    { match self { ValOrHash::Val(v) => Ok(v), x => Err(x) } }
    pub fn into_hash(self) -> (r: Result<H256, ValOrHash>) ensures match self { ValOrHash::Hash(v) => r == Ok::<H256, ValOrHash>(v), _ => r is Err }
    { match self { ValOrHash::Hash(v) => Ok(v), x => Err(x) } }
}
} // mod glue
pub use crate::glue::*;

pub mod triespec {
use super::*;

/// What is found at a key.
pub enum VH { Val(Seq<u8>), Hash(H256) }
/// A node tree.
pub enum SNode {
    Empty,
    Hash(H256),
    Branch { children: Seq<SNode>, value: Seq<u8> },
    Ext { nibs: Seq<u8>, child: Box<SNode> },
    Leaf { nibs: Seq<u8>, value: Seq<u8> },
}
pub open spec fn view(n: Node) -> SNode decreases n {
    match n {
        Node::Empty => SNode::Empty,
        Node::Hash(h) => SNode::Hash(h),
        Node::Branch { children, value } => SNode::Branch {
            children: Seq::new(16, |i: int| if 0 <= i < 16 { view(inner(**children[i])) } else { SNode::Empty }),
            value: value@,
        },
        Node::Extension { nibbles, child } => SNode::Ext { nibs: nibbles@, child: Box::new(view(inner(**child))) },
        Node::Leaf { nibbles, value } => SNode::Leaf { nibs: nibbles@, value: value@ },
    }
}
pub open spec fn wv(w: WN) -> SNode { view(inner(**w)) }
pub open spec fn cv(c: [WN; 16]) -> Seq<SNode> { Seq::new(16, |i: int| if 0 <= i < 16 { view(inner(**c[i])) } else { SNode::Empty }) }
pub open spec fn vh(v: ValOrHash) -> VH { match v { ValOrHash::Val(x) => VH::Val(x@), ValOrHash::Hash(h) => VH::Hash(h) } }
pub open spec fn vh_ok(v: VH) -> bool { v is Val ==> v->Val_0.len() > 0 }

/// The representation is in order: unused bits of paths are zero.
pub open spec fn ninv(n: Node) -> bool decreases n {
    match n {
        Node::Empty => true,
        Node::Hash(h) => true,
        Node::Branch { children, value } => forall|i: int| #![trigger children[i]] #![trigger children@[i]] 0 <= i < 16 ==> ninv(inner(**children[i])) && cell_ok(**children[i]),
        Node::Extension { nibbles, child } => nibbles.wf() && ninv(inner(**child)) && cell_ok(**child),
        Node::Leaf { nibbles, value } => nibbles.wf(),
    }
}
pub open spec fn winv(w: WN) -> bool { ninv(inner(**w)) && cell_ok(**w) }

/// What the tree holds under exactly this key.
pub open spec fn lk(n: SNode, k: Seq<u8>) -> Option<VH> decreases n {
    match n {
        SNode::Empty => None,
        SNode::Hash(h) => if k.len() == 0 { Some(VH::Hash(h)) } else { None },
        SNode::Branch { children, value } =>
            if k.len() == 0 { if value.len() == 0 { None } else { Some(VH::Val(value)) } }
            else if k[0] < children.len() { lk(children[k[0] as int], k.skip(1)) } else { None },
        SNode::Ext { nibs, child } => if nibs.is_prefix_of(k) { lk(*child, k.skip(nibs.len() as int)) } else { None },
        SNode::Leaf { nibs, value } => if k == nibs { Some(VH::Val(value)) } else { None },
    }
}
/// The key leads into a hashed-out part.
pub open spec fn bl(n: SNode, k: Seq<u8>) -> bool decreases n {
    match n {
        SNode::Empty => false,
        SNode::Hash(h) => true,
        SNode::Branch { children, value } => k.len() > 0 && k[0] < children.len() && bl(children[k[0] as int], k.skip(1)),
        SNode::Ext { nibs, child } => nibs.is_prefix_of(k) && bl(*child, k.skip(nibs.len() as int)),
        SNode::Leaf { nibs, value } => false,
    }
}
pub open spec fn ne1(n: SNode) -> nat { if n is Empty { 0 } else { 1 } }
/// The number of the first m children that are not empty.
pub open spec fn nec(c: Seq<SNode>, m: nat) -> nat decreases m {
    if m == 0 { 0 } else { nec(c, (m - 1) as nat) + ne1(c[m - 1]) }
}
pub open spec fn v1(v: Seq<u8>) -> nat { if v.len() == 0 { 0 } else { 1 } }
/// A canonical tree whose keys have at most m nibbles.
pub open spec fn wfd(n: SNode, m: nat) -> bool decreases n {
    match n {
        SNode::Empty => true,
        SNode::Hash(h) => true,
        SNode::Branch { children, value } => m >= 1 && children.len() == 16 && nec(children, 16) + v1(value) >= 2
            && forall|i: int| 0 <= i < 16 ==> wfd(#[trigger] children[i], (m - 1) as nat),
        SNode::Ext { nibs, child } => 1 <= nibs.len() <= m && (*child is Branch || *child is Hash) && wfd(*child, (m - nibs.len()) as nat),
        SNode::Leaf { nibs, value } => nibs.len() <= m && value.len() > 0,
    }
}
pub proof fn lemma_wfd_mono(n: SNode, m: nat, m2: nat)
    requires wfd(n, m), m <= m2
    ensures wfd(n, m2)
    decreases n
{
    match n {
        SNode::Branch { children, value } => {
            assert forall|i: int| 0 <= i < 16 implies wfd(#[trigger] children[i], (m2 - 1) as nat) by { lemma_wfd_mono(children[i], (m - 1) as nat, (m2 - 1) as nat); }
        }
        SNode::Ext { nibs, child } => { lemma_wfd_mono(*child, (m - nibs.len()) as nat, (m2 - nibs.len()) as nat); }
        _ => {}
    }
}
/// A tree that is canonical after the extension at its top has been merged with its child.
pub open spec fn pwfd(n: SNode, m: nat) -> bool {
    wfd(n, m) || (n is Ext && 1 <= n->Ext_nibs.len() <= m && !(*n->child is Empty) && wfd(*n->child, (m - n->Ext_nibs.len()) as nat))
}

#[verifier::opaque]
pub open spec fn upd(r: SNode, n: SNode, k: Seq<u8>, v: VH) -> bool {
    forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { Some(v) } else { lk(n, k2) }
}
/// Canonical trees are taken to canonical trees.
#[verifier::opaque]
pub open spec fn cano(r: SNode, n: SNode, k: Seq<u8>, v: VH) -> bool {
    forall|m: nat| #[trigger] wfd(n, m) && k.len() <= m && vh_ok(v) ==> wfd(r, m)
}
#[verifier::opaque]
pub open spec fn dcano(r: SNode, n: SNode, k: Seq<u8>) -> bool {
    forall|m: nat| #[trigger] wfd(n, m) ==> pwfd(r, m)
}
#[verifier::opaque]
pub open spec fn del(r: SNode, n: SNode, k: Seq<u8>) -> bool {
    forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) }
}
#[verifier::opaque]
pub open spec fn eqv(r: SNode, n: SNode) -> bool {
    forall|k2: Seq<u8>| #[trigger] lk(r, k2) == lk(n, k2)
}
} // mod triespec

pub mod placespec {
use super::*;
pub open spec fn pre_ok(info: ExistingAndNewNodePreAndPost, existing: WN, e: InsertEntry) -> bool {
    &&& info.common_prefix.wf() && info.existing_postfix.wf() && info.new_postfix.wf() && e.nibbles.wf() && winv(existing)
    &&& e.nibbles@ == info.common_prefix@ + info.new_postfix@
    &&& info.existing_postfix@.len() > 0 || info.new_postfix@.len() > 0
    &&& info.existing_postfix@.len() == 0 ==> wv(existing) is Leaf
    &&& info.existing_postfix@.len() > 0 && info.new_postfix@.len() > 0 ==> info.existing_postfix@[0] != info.new_postfix@[0]
}
/// The first child besides `nib` that is not empty, if there is one among the first n.
pub open spec fn found_ok(a: Option<(usize, &WN)>, children: [WN; 16], nib: u8, n: int) -> bool {
    match a {
        Some((j, c)) => j < 16 && j != nib && *c == children[j as int] && !(wv(*c) is Empty),
        None => forall|i: int| 0 <= i < n && i != nib ==> wv(#[trigger] children[i]) is Empty,
    }
}
/// The number of children besides `nib` that are not empty.
pub open spec fn others(children: [WN; 16], nib: u8) -> int {
    nec(cv(children), 16) - (if nib < 16 { ne1(wv(children[nib as int])) as int } else { 0 })
}
} // mod placespec
pub use crate::placespec::*;

/// Lemmas by which the relations above follow from the shape of the result.
pub mod triebc {
use super::*;

pub broadcast proof fn b_wfd_child(n: SNode, m: nat, i: int)
    requires wfd(n, m), n is Branch, 0 <= i < 16
    ensures #![trigger wfd(n, m), n->children[i]] wfd(n->children[i], m), wfd(n->children[i], (m - 1) as nat)
{ lemma_wfd_mono(n->children[i], (m - 1) as nat, m); }
pub broadcast proof fn b_wfd_nchild(n: Node, m: nat, i: int)
    requires wfd(view(n), m), n is Branch, 0 <= i < 16
    ensures #![trigger wfd(view(n), m), n->children[i]] #![trigger wfd(view(n), m), n->children@[i]] wfd(wv(n->children[i]), m), wfd(wv(n->children[i]), (m - 1) as nat),
        view(n)->children[i] == wv(n->children[i])
{ b_view(n); b_wfd_child(view(n), m, i); assert(view(n)->children[i] == cv(n->children)[i]); }
pub broadcast proof fn b_wfd_ext(n: SNode, m: nat)
    requires n is Ext, #[trigger] wfd(n, m)
    ensures wfd(*n->child, m), wfd(*n->child, (m - n->Ext_nibs.len()) as nat), 1 <= n->Ext_nibs.len() <= m
{ lemma_wfd_mono(*n->child, (m - n->Ext_nibs.len()) as nat, m); }

pub broadcast proof fn b_view(n: Node)
    requires n is Branch
    ensures #[trigger] view(n) == (SNode::Branch { children: cv(n->children), value: n->Branch_value@ })
{ assert(view(n)->children =~= cv(n->children)); }
pub broadcast proof fn b_take_all(s: Seq<u8>, n: int)
    ensures n == s.len() ==> #[trigger] s.take(n) == s
{ if n == s.len() { assert(s.take(n) =~= s); } }
pub broadcast proof fn b_take_skip(s: Seq<u8>, n: int)
    ensures #![trigger s.take(n), s.skip(n)] 0 <= n <= s.len() ==> s.take(n) + s.skip(n) == s
{ if 0 <= n <= s.len() { assert(s.take(n) + s.skip(n) =~= s); } }
pub broadcast proof fn b_skip_skip(s: Seq<u8>, m: int, n: int)
    ensures 0 <= m && 0 <= n && m + n <= s.len() ==> #[trigger] s.skip(m).skip(n) == s.skip(m + n)
{ if 0 <= m && 0 <= n && m + n <= s.len() { assert(s.skip(m).skip(n) =~= s.skip(m + n)); } }
pub broadcast proof fn b_add_skip(a: Seq<u8>, b: Seq<u8>, n: int)
    ensures a.len() <= n <= a.len() + b.len() ==> #[trigger] (a + b).skip(n) == b.skip(n - a.len())
{ if a.len() <= n <= a.len() + b.len() { assert((a + b).skip(n) =~= b.skip(n - a.len())); } }
pub broadcast group g_view { b_view, b_take_all, b_take_skip, b_skip_skip, b_add_skip }

pub proof fn lemma_skip1(a: Seq<u8>, b: Seq<u8>)
    requires a.len() > 0, b.len() > 0, a[0] == b[0], a.skip(1) == b.skip(1)
    ensures a == b
{
    assert(a.len() == a.skip(1).len() + 1 && b.len() == b.skip(1).len() + 1);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); assert(b[i] == b.skip(1)[i - 1]); } }
    assert(a =~= b);
}
pub proof fn lemma_skipn(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires p.is_prefix_of(a), p.is_prefix_of(b), a.skip(p.len() as int) == b.skip(p.len() as int)
    ensures a == b
{
    let n = p.len() as int;
    assert(a =~= p + a.skip(n));
    assert(b =~= p + b.skip(n));
}

// ------------------------------------------------------------- insertion
pub broadcast proof fn b_upd_empty(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Empty, r == single_entry(k, v)
    ensures #[trigger] upd(r, n, k, v)
{
    reveal(upd);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { Some(v) } else { lk(n, k2) } by {
        lemma_single(k, v, k2);
    }
}
/// The tree with one entry.
pub open spec fn single_entry(k: Seq<u8>, v: VH) -> SNode {
    match v {
        VH::Val(x) => SNode::Leaf { nibs: k, value: x },
        VH::Hash(h) => if k.len() == 0 { SNode::Hash(h) } else { SNode::Ext { nibs: k, child: Box::new(SNode::Hash(h)) } },
    }
}
pub proof fn lemma_single(k: Seq<u8>, v: VH, k2: Seq<u8>)
    ensures lk(single_entry(k, v), k2) == if k2 == k { Some(v) } else { None }
{
    if v is Hash {
        if k.len() == 0 {
            if k2.len() == 0 { assert(k2 =~= k); }
        } else {
            reveal_with_fuel(lk, 2);
            if k == k2 { assert(k.is_prefix_of(k2)); }
            if k.is_prefix_of(k2) && k2.skip(k.len() as int).len() == 0 { assert(k =~= k2); }
        }
    }
}
pub broadcast proof fn b_upd_leaf(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Leaf, r is Leaf, r->Leaf_nibs == n->Leaf_nibs, k == n->Leaf_nibs, v == VH::Val(r->Leaf_value)
    ensures #[trigger] upd(r, n, k, v)
{ reveal(upd); }
pub broadcast proof fn b_upd_value(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Branch, r is Branch, r->children == n->children, k.len() == 0, v == VH::Val(r->Branch_value), r->Branch_value.len() > 0
    ensures #[trigger] upd(r, n, k, v)
{
    reveal(upd);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { Some(v) } else { lk(n, k2) } by { if k2.len() == 0 { assert(k2 =~= k); } }
}
pub broadcast proof fn b_upd_branch(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Branch, r is Branch, k.len() > 0, k[0] < 16, n->Branch_value == r->Branch_value,
        r->children.len() == 16, n->children.len() == 16,
        forall|i: int| 0 <= i < 16 && i != k[0] ==> r->children[i] == n->children[i],
        upd(r->children[k[0] as int], n->children[k[0] as int], k.skip(1), v),
    ensures #[trigger] upd(r, n, k, v)
{
    reveal(upd);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { Some(v) } else { lk(n, k2) } by {
        if k2.len() > 0 && k2[0] == k[0] {
            assert(lk(r->children[k[0] as int], k2.skip(1)) == if k2.skip(1) == k.skip(1) { Some(v) } else { lk(n->children[k[0] as int], k2.skip(1)) });
            if k2.skip(1) == k.skip(1) { lemma_skip1(k2, k); }
        }
    }
}
pub broadcast proof fn b_upd_ext(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Ext, r is Ext, n->Ext_nibs == r->Ext_nibs, n->Ext_nibs.is_prefix_of(k),
        upd(*r->child, *n->child, k.skip(n->Ext_nibs.len() as int), v),
    ensures #[trigger] upd(r, n, k, v)
{
    reveal(upd);
    let p = n->Ext_nibs;
    let l = p.len() as int;
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { Some(v) } else { lk(n, k2) } by {
        if p.is_prefix_of(k2) {
            assert(lk(*r->child, k2.skip(l)) == if k2.skip(l) == k.skip(l) { Some(v) } else { lk(*n->child, k2.skip(l)) });
            if k2.skip(l) == k.skip(l) { lemma_skipn(p, k2, k); }
        }
    }
}

/// What is left of an existing leaf or extension after its first j nibbles.
pub open spec fn tail(n: SNode, j: int) -> SNode {
    match n {
        SNode::Leaf { nibs, value } => SNode::Leaf { nibs: nibs.skip(j), value },
        SNode::Ext { nibs, child } => if nibs.len() == j { *child } else { SNode::Ext { nibs: nibs.skip(j), child } },
        _ => SNode::Empty,
    }
}
pub open spec fn nnibs(n: SNode) -> Seq<u8> { if n is Leaf { n->Leaf_nibs } else { n->Ext_nibs } }
pub open spec fn split_p(r: SNode) -> Seq<u8> { if r is Ext { r->Ext_nibs } else { Seq::empty() } }
pub open spec fn split_b(r: SNode) -> SNode { if r is Ext { *r->child } else { r } }

pub proof fn lemma_tail(n: SNode, j: int, k: Seq<u8>)
    requires n is Leaf || n is Ext, 0 <= j <= nnibs(n).len()
    ensures lk(tail(n, j), k) == lk(n, nnibs(n).take(j) + k)
{
    let p = nnibs(n);
    let k2 = p.take(j) + k;
    if n is Leaf {
        if k == p.skip(j) { assert(k2 =~= p); }
        if k2 == p { assert(k =~= p.skip(j)); }
    } else {
        if p.len() == j {
            assert(p.take(j) =~= p);
            assert(p.is_prefix_of(k2)) by { assert(k2.subrange(0, p.len() as int) =~= p); }
            assert(k2.skip(j) =~= k);
        } else {
            let q = p.skip(j);
            if q.is_prefix_of(k) {
                assert(k2.subrange(0, p.len() as int) =~= p) by {
                    assert forall|i: int| 0 <= i < p.len() implies k2[i] == p[i] by { if i >= j { assert(k[i - j] == k.subrange(0, q.len() as int)[i - j]); } }
                }
                assert(k2.skip(p.len() as int) =~= k.skip(q.len() as int));
            } else if p.is_prefix_of(k2) {
                assert(k.subrange(0, q.len() as int) =~= q) by {
                    assert forall|i: int| 0 <= i < q.len() implies k[i] == q[i] by { assert(k2.subrange(0, p.len() as int)[i + j] == p[i + j]); }
                }
                assert(q.is_prefix_of(k));
                assert(false);
            }
        }
    }
}
/// n only holds keys that start with its nibbles.
pub proof fn lemma_lk_prefix(n: SNode, k: Seq<u8>)
    requires n is Leaf || n is Ext, !nnibs(n).is_prefix_of(k)
    ensures lk(n, k) is None
{ if n is Leaf && k == nnibs(n) { assert(nnibs(n).is_prefix_of(k)); } }

/// The split of a leaf or extension into a branch with the old and the new entry.
pub broadcast proof fn b_upd_split(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Leaf || n is Ext,
        r is Branch || (r is Ext && *r->child is Branch),
        split_ok(r, n, k, v)
    ensures #[trigger] upd(r, n, k, v)
{
    reveal(upd);
    let p = split_p(r);
    let b = split_b(r);
    let l = p.len() as int;
    let a = nnibs(n);
    let c = b->children;
    assert(p =~= a.take(l));
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { Some(v) } else { lk(n, k2) } by {
        reveal_with_fuel(lk, 3);
        if p.is_prefix_of(k2) {
            let t = k2.skip(l);
            assert(k2 =~= p + t);
            assert(r is Branch ==> k2 == t) by { if r is Branch { assert(k2 =~= t); } }
            assert(lk(r, k2) == lk(b, t));
            if k2 == k { assert(t == k.skip(l)); }
            if t == k.skip(l) { lemma_skipn(p, k2, k); }
            if t.len() == 0 {
                assert(k2 =~= p);
                if k.len() == l { assert(k =~= p); }
                if a.len() == l { assert(a =~= p); assert(n is Leaf); }
                else { assert(!a.is_prefix_of(k2)); lemma_lk_prefix(n, k2); }
            } else {
                let t0 = t[0] as int;
                assert(t0 == k2[l]);
                assert(lk(b, t) == if t0 < 16 { lk(c[t0], t.skip(1)) } else { None });
                if t0 < 16 { assert(c[t0] == split_child(n, k, v, l, t0)); }
                if a.len() > l && t0 == a[l] {
                    lemma_tail(n, l + 1, t.skip(1));
                    assert(a.take(l + 1) + t.skip(1) =~= k2);
                    assert(t != k.skip(l)) by { if t == k.skip(l) { assert(k.skip(l)[0] == k[l]); } }
                    assert(k2 != k);
                    assert(lk(r, k2) == lk(n, k2));
                } else {
                    if a.is_prefix_of(k2) && a.len() > l { assert(a[l] == k2.subrange(0, a.len() as int)[l]); assert(false); }
                    if a.len() > l { lemma_lk_prefix(n, k2); } else { assert(n is Leaf); assert(k2 != a); assert(lk(n, k2) is None); }
                    if k.len() > l && t0 == k[l] {
                        lemma_single(k.skip(l + 1), v, t.skip(1));
                        assert(k.skip(l).skip(1) =~= k.skip(l + 1));
                        assert(t0 == k.skip(l)[0]);
                        if t.skip(1) == k.skip(l + 1) { lemma_skip1(t, k.skip(l)); }
                        assert(k2 != k ==> lk(r, k2) is None);
                        assert(k2 == k ==> lk(r, k2) == Some(v));
                    } else {
                        assert(lk(r, k2) is None);
                        assert(k2 != k);
                    }
                }
            }
        } else {
            assert(lk(r, k2) is None);
            if k2 == k { assert(false); }
            if a.is_prefix_of(k2) {
                assert(k2.subrange(0, l) =~= p) by {
                    assert forall|i: int| 0 <= i < l implies k2[i] == p[i] by { assert(k2.subrange(0, a.len() as int)[i] == a[i]); assert(p[i] == a.take(l)[i]); }
                }
                assert(false);
            }
            lemma_lk_prefix(n, k2);
        }
    }
}
pub open spec fn split_ok(r: SNode, n: SNode, k: Seq<u8>, v: VH) -> bool {
    let p = split_p(r);
    let l = p.len() as int;
    let b = split_b(r);
    let a = nnibs(n);
    &&& p.is_prefix_of(a) && p.is_prefix_of(k)
    &&& a.len() > l || k.len() > l
    &&& a.len() == l ==> n is Leaf
    &&& a.len() > l && k.len() > l ==> a[l] != k[l]
    &&& k.len() == l ==> v is Val && v->Val_0.len() > 0
    &&& n is Leaf ==> n->Leaf_value.len() > 0
    &&& b->children.len() == 16
    &&& b->Branch_value == (if a.len() == l { n->Leaf_value } else if k.len() == l { v->Val_0 } else { Seq::empty() })
    &&& forall|i: int| 0 <= i < 16 ==> (#[trigger] b->children[i]) == split_child(n, k, v, l, i)
    &&& (a.len() > l ==> a[l] < 16)
    &&& (k.len() > l ==> k[l] < 16)
}
pub open spec fn split_child(n: SNode, k: Seq<u8>, v: VH, l: int, i: int) -> SNode {
    if nnibs(n).len() > l && i == nnibs(n)[l] { tail(n, l + 1) }
    else if k.len() > l && i == k[l] { single_entry(k.skip(l + 1), v) }
    else { SNode::Empty }
}

/// A branch (below an extension with the nibbles p) with what is left of the
/// old entry (nibbles a) and the new one (nibbles b).
#[verifier::opaque]
pub open spec fn placed(r: SNode, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH) -> bool {
    let c = split_b(r);
    &&& r is Branch || (r is Ext && *r->child is Branch && r->Ext_nibs.len() > 0)
    &&& split_p(r) == p
    &&& c->children.len() == 16
    &&& b.len() == 0 ==> v is Val
    &&& c->Branch_value == (if a.len() == 0 { x->Leaf_value } else if b.len() == 0 { v->Val_0 } else { Seq::empty() })
    &&& forall|i: int| 0 <= i < 16 ==> (#[trigger] c->children[i]) == placed_child(a, b, x, v, i)
}
pub open spec fn placed_child(a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH, i: int) -> SNode {
    if a.len() > 0 && i == a[0] { x }
    else if b.len() > 0 && i == b[0] { single_entry(b.skip(1), v) }
    else { SNode::Empty }
}
pub open spec fn placed_ok(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH, n: SNode, k: Seq<u8>) -> bool {
    &&& n is Leaf || n is Ext
    &&& nnibs(n) == p + a && k == p + b
    &&& n is Leaf ==> n->Leaf_value.len() > 0
    &&& a.len() > 0 || b.len() > 0
    &&& a.len() > 0 ==> x == tail(n, p.len() as int + 1) && a[0] < 16
    &&& a.len() == 0 ==> n is Leaf && x is Leaf && x->Leaf_value == n->Leaf_value
    &&& b.len() > 0 ==> b[0] < 16
    &&& a.len() > 0 && b.len() > 0 ==> a[0] != b[0]
    &&& vh_ok(v)
}
proof fn lemma_placed(r: SNode, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH, n: SNode, k: Seq<u8>)
    requires placed(r, p, a, b, x, v), placed_ok(p, a, b, x, v, n, k)
    ensures split_ok(r, n, k, v), r is Branch || (r is Ext && *r->child is Branch && r->Ext_nibs.len() > 0)
{
    reveal(placed);
    let l = p.len() as int;
    let c = split_b(r)->children;
    assert(nnibs(n).take(l) =~= p);
    assert(k.take(l) =~= p);
    if b.len() > 0 { assert(k.skip(l + 1) =~= b.skip(1)); assert(k[l] == b[0]); }
    if a.len() > 0 { assert(nnibs(n)[l] == a[0]); }
    assert forall|i: int| 0 <= i < 16 implies (#[trigger] c[i]) == split_child(n, k, v, l, i) by { assert(c[i] == placed_child(a, b, x, v, i)); }
}
pub broadcast proof fn b_upd_placed(r: SNode, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH, n: SNode, k: Seq<u8>)
    requires #[trigger] placed(r, p, a, b, x, v), placed_ok(p, a, b, x, v, n, k)
    ensures #[trigger] upd(r, n, k, v)
{ lemma_placed(r, p, a, b, x, v, n, k); b_upd_split(r, n, k, v); }
pub broadcast proof fn b_cano_placed(r: SNode, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH, n: SNode, k: Seq<u8>)
    requires #[trigger] placed(r, p, a, b, x, v), placed_ok(p, a, b, x, v, n, k)
    ensures #[trigger] cano(r, n, k, v)
{ lemma_placed(r, p, a, b, x, v, n, k); b_cano_split(r, n, k, v); }
pub open spec fn placed_now(c: SNode, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH) -> bool {
    &&& c is Branch
    &&& c->children.len() == 16
    &&& b.len() == 0 ==> v is Val
    &&& c->Branch_value == (if a.len() == 0 { x->Leaf_value } else if b.len() == 0 { v->Val_0 } else { Seq::empty() })
    &&& forall|i: int| 0 <= i < 16 ==> (#[trigger] c->children[i]) == placed_child(a, b, x, v, i)
}
pub broadcast proof fn b_placed(r: SNode, p: Seq<u8>, a: Seq<u8>, b: Seq<u8>, x: SNode, v: VH)
    requires (p.len() == 0 && r is Branch) || (p.len() > 0 && r is Ext && r->Ext_nibs == p), placed_now(split_b(r), a, b, x, v)
    ensures #[trigger] placed(r, p, a, b, x, v)
{ reveal(placed); assert(split_p(r) =~= p); }
pub broadcast group g_placed { b_placed, b_upd_placed, b_cano_placed }

// ------------------------------------------------------- counting children
pub proof fn lemma_nec_ext(c: Seq<SNode>, d: Seq<SNode>, m: nat)
    requires forall|i: int| 0 <= i < m ==> ne1(#[trigger] c[i]) == ne1(d[i])
    ensures nec(c, m) == nec(d, m)
    decreases m
{ if m > 0 { lemma_nec_ext(c, d, (m - 1) as nat); } }
pub proof fn lemma_nec_le(c: Seq<SNode>, d: Seq<SNode>, m: nat)
    requires forall|i: int| 0 <= i < m ==> ne1(#[trigger] c[i]) <= ne1(d[i])
    ensures nec(c, m) <= nec(d, m)
    decreases m
{ if m > 0 { lemma_nec_le(c, d, (m - 1) as nat); } }
pub proof fn lemma_nec_one(c: Seq<SNode>, m: nat, i: int)
    requires 0 <= i < m, !(c[i] is Empty)
    ensures nec(c, m) >= 1
    decreases m
{ if i < m - 1 { lemma_nec_one(c, (m - 1) as nat, i); } }
pub proof fn lemma_nec_two(c: Seq<SNode>, m: nat, i: int, j: int)
    requires 0 <= i < m, 0 <= j < m, i != j, !(c[i] is Empty), !(c[j] is Empty)
    ensures nec(c, m) >= 2
    decreases m
{
    if i < m - 1 && j < m - 1 { lemma_nec_two(c, (m - 1) as nat, i, j); }
    else if i == m - 1 { lemma_nec_one(c, (m - 1) as nat, j); }
    else { lemma_nec_one(c, (m - 1) as nat, i); }
}
pub proof fn lemma_nec_three(c: Seq<SNode>, m: nat, i: int, j: int, k: int)
    requires 0 <= i < m, 0 <= j < m, 0 <= k < m, i != j, i != k, j != k, !(c[i] is Empty), !(c[j] is Empty), !(c[k] is Empty)
    ensures nec(c, m) >= 3
    decreases m
{
    if i < m - 1 && j < m - 1 && k < m - 1 { lemma_nec_three(c, (m - 1) as nat, i, j, k); }
    else if i == m - 1 { lemma_nec_two(c, (m - 1) as nat, j, k); }
    else if j == m - 1 { lemma_nec_two(c, (m - 1) as nat, i, k); }
    else { lemma_nec_two(c, (m - 1) as nat, i, j); }
}
pub proof fn lemma_nec_upd(c: Seq<SNode>, d: Seq<SNode>, m: nat, i: int)
    requires 0 <= i, forall|j: int| 0 <= j < m && j != i ==> c[j] == d[j]
    ensures i < m ==> nec(d, m) == nec(c, m) - ne1(c[i]) + ne1(d[i]), i >= m ==> nec(d, m) == nec(c, m)
    decreases m
{ if m > 0 { lemma_nec_upd(c, d, (m - 1) as nat, i); } }

pub broadcast proof fn b_nec_le(c: Seq<SNode>, m: nat)
    ensures #[trigger] nec(c, m) <= m
    decreases m
{ if m > 0 { b_nec_le(c, (m - 1) as nat); } }
pub proof fn lemma_nec_none(c: Seq<SNode>, m: nat, j: int)
    requires forall|i: int| 0 <= i < m && i != j ==> (#[trigger] c[i]) is Empty
    ensures nec(c, m) == (if 0 <= j < m { ne1(c[j]) } else { 0 })
    decreases m
{ if m > 0 { lemma_nec_none(c, (m - 1) as nat, j); } }
pub broadcast proof fn b_found(a: Option<(usize, &WN)>, children: [WN; 16], nib: u8, n: int)
    requires #[trigger] found_ok(a, children, nib, n), n == 16, others(children, nib) > 0
    ensures a is Some
{
    if a is None {
        let c = cv(children);
        assert forall|i: int| 0 <= i < 16 && i != nib implies (#[trigger] c[i]) is Empty by { assert(c[i] == wv(children[i])); }
        lemma_nec_none(c, 16, nib as int);
    }
}

// ------------------------------------- the result of an insertion is canonical
pub broadcast proof fn b_upd_nonempty(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires #[trigger] upd(r, n, k, v)
    ensures !(r is Empty)
{ reveal(upd); assert(lk(r, k) == Some(v)); }
pub broadcast proof fn b_cano_branch(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Branch, r is Branch, k.len() > 0, k[0] < 16,
        r->children.len() == 16, n->Branch_value == r->Branch_value,
        forall|i: int| 0 <= i < 16 && i != k[0] ==> r->children[i] == n->children[i],
        cano(r->children[k[0] as int], n->children[k[0] as int], k.skip(1), v), !(r->children[k[0] as int] is Empty)
    ensures #[trigger] cano(r, n, k, v)
{
    reveal(cano);
    assert forall|m: nat| #[trigger] wfd(n, m) && k.len() <= m && vh_ok(v) implies wfd(r, m) by {
        assert(wfd(n->children[k[0] as int], (m - 1) as nat));
        lemma_nec_upd(n->children, r->children, 16, k[0] as int);
        assert forall|i: int| 0 <= i < 16 implies wfd(#[trigger] r->children[i], (m - 1) as nat) by { if i != k[0] { assert(wfd(n->children[i], (m - 1) as nat)); } }
    }
}
pub broadcast proof fn b_cano_ext(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Ext, r is Ext, r->Ext_nibs == n->Ext_nibs, *r->child is Branch || *r->child is Hash, n->Ext_nibs.is_prefix_of(k),
        cano(*r->child, *n->child, k.skip(n->Ext_nibs.len() as int), v),
    ensures #[trigger] cano(r, n, k, v)
{
    reveal(cano);
    assert forall|m: nat| #[trigger] wfd(n, m) && k.len() <= m && vh_ok(v) implies wfd(r, m) by {
        assert(wfd(*n->child, (m - n->Ext_nibs.len()) as nat));
    }
}
pub broadcast proof fn b_cano_value(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Branch, r is Branch, r->children == n->children, v == VH::Val(r->Branch_value),
    ensures #[trigger] cano(r, n, k, v)
{ reveal(cano); }
pub broadcast proof fn b_cano_leaf(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Leaf, r is Leaf, r->Leaf_nibs == n->Leaf_nibs, v == VH::Val(r->Leaf_value)
    ensures #[trigger] cano(r, n, k, v)
{ reveal(cano); }
pub proof fn lemma_single_wfd(k: Seq<u8>, v: VH, m: nat)
    requires k.len() <= m, vh_ok(v)
    ensures wfd(single_entry(k, v), m), !(single_entry(k, v) is Empty)
{ reveal_with_fuel(wfd, 2); }
pub broadcast proof fn b_cano_empty(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires r == single_entry(k, v)
    ensures #[trigger] cano(r, n, k, v)
{
    reveal(cano);
    assert forall|m: nat| #[trigger] wfd(n, m) && k.len() <= m && vh_ok(v) implies wfd(r, m) by { lemma_single_wfd(k, v, m); }
}
pub proof fn lemma_tail_wfd(n: SNode, j: int, m: nat)
    requires n is Leaf || n is Ext, wfd(n, m), 0 <= j <= nnibs(n).len(),
    ensures j <= m, wfd(tail(n, j), (m - j) as nat), !(tail(n, j) is Empty)
{ }
pub broadcast proof fn b_cano_split(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires n is Leaf || n is Ext,
        r is Branch || (r is Ext && *r->child is Branch && r->Ext_nibs.len() > 0),
        split_ok(r, n, k, v)
    ensures #[trigger] cano(r, n, k, v)
{
    reveal(cano);
    let p = split_p(r);
    let b = split_b(r);
    let l = p.len() as int;
    let a = nnibs(n);
    let c = b->children;
    assert forall|m: nat| #[trigger] wfd(n, m) && k.len() <= m && vh_ok(v) implies wfd(r, m) by {
        if a.len() > l { lemma_tail_wfd(n, l + 1, m); }
        if k.len() > l { lemma_single_wfd(k.skip(l + 1), v, (m - l - 1) as nat); }
        assert(wfd(b, (m - l) as nat)) by {
            assert forall|i: int| 0 <= i < 16 implies wfd(#[trigger] c[i], (m - l - 1) as nat) by { assert(c[i] == split_child(n, k, v, l, i)); }
            if a.len() > l { assert(c[a[l] as int] == split_child(n, k, v, l, a[l] as int)); lemma_nec_one(c, 16, a[l] as int); }
            if k.len() > l { assert(c[k[l] as int] == split_child(n, k, v, l, k[l] as int)); lemma_nec_one(c, 16, k[l] as int); }
            if a.len() > l && k.len() > l { lemma_nec_two(c, 16, a[l] as int, k[l] as int); }
        }
    }
}
pub broadcast proof fn b_cano_use(r: SNode, n: SNode, k: Seq<u8>, v: VH, m: nat)
    requires #[trigger] cano(r, n, k, v), #[trigger] wfd(n, m), k.len() <= m, vh_ok(v)
    ensures wfd(r, m)
{ reveal(cano); }
pub broadcast group g_ins {
    b_upd_empty, b_upd_leaf, b_upd_value, b_upd_branch, b_upd_ext, b_upd_split, b_upd_nonempty,
    b_cano_branch, b_cano_ext, b_cano_value, b_cano_leaf, b_cano_empty, b_cano_split, b_wfd_child, b_wfd_nchild, b_wfd_ext,
}
pub broadcast proof fn b_nibs16(n: Nibbles, i: int)
    ensures 0 <= i < n@.len() ==> #[trigger] n@[i] < 16
{ b_nview(n); }

// -------------------------------------------------------------- deletion
pub broadcast proof fn b_eqv_refl(r: SNode)
    ensures #[trigger] eqv(r, r)
{ reveal(eqv); }
/// Merging an extension with its child.
pub broadcast proof fn b_eqv_merge(r: SNode, n: SNode)
    requires n is Ext, *n->child is Leaf || *n->child is Ext,
        r == merged(n->Ext_nibs, *n->child)
    ensures #[trigger] eqv(r, n)
{
    reveal(eqv);
    let p = n->Ext_nibs;
    let c = *n->child;
    let q = nnibs(c);
    let a = p + q;
    let l = p.len() as int;
    assert(nnibs(r) == a);
    assert(a.take(l) =~= p);
    assert(a.skip(l) =~= q);
    assert(tail(r, l) == c || (q.len() == 0 && c is Ext));
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == lk(n, k2) by {
        if p.is_prefix_of(k2) {
            let t = k2.skip(l);
            assert(k2 =~= p + t);
            if tail(r, l) == c {
                lemma_tail(r, l, t);
            } else {
                reveal_with_fuel(lk, 2);
                assert(q.is_prefix_of(t)) by { assert(t.subrange(0, 0) =~= q); }
                assert(a =~= p);
                assert(t.skip(0) =~= t);
            }
        } else {
            if a.is_prefix_of(k2) {
                assert(k2.subrange(0, l) =~= p) by {
                    assert forall|i: int| 0 <= i < l implies k2[i] == p[i] by { assert(k2.subrange(0, a.len() as int)[i] == a[i]); }
                }
                assert(false);
            }
            lemma_lk_prefix(r, k2);
        }
    }
}
pub open spec fn merged(p: Seq<u8>, c: SNode) -> SNode {
    match c {
        SNode::Leaf { nibs, value } => SNode::Leaf { nibs: p + nibs, value },
        SNode::Ext { nibs, child } => SNode::Ext { nibs: p + nibs, child },
        _ => SNode::Ext { nibs: p, child: Box::new(c) },
    }
}
pub broadcast proof fn b_del_eqv(a: SNode, b: SNode, n: SNode, k: Seq<u8>)
    requires #[trigger] eqv(a, b), #[trigger] del(b, n, k)
    ensures del(a, n, k)
{
    reveal(eqv); reveal(del);
    assert forall|k2: Seq<u8>| #[trigger] lk(a, k2) == if k2 == k { None } else { lk(n, k2) } by { assert(lk(a, k2) == lk(b, k2)); }
}
pub broadcast proof fn b_del_leaf(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Leaf, n->Leaf_nibs == k, r is Empty
    ensures #[trigger] del(r, n, k)
{ reveal(del); }
pub broadcast proof fn b_del_value(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, r is Branch, r->children == n->children, k.len() == 0, r->Branch_value.len() == 0
    ensures #[trigger] del(r, n, k)
{
    reveal(del);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) } by { if k2.len() == 0 { assert(k2 =~= k); } }
}
pub proof fn lemma_one_child(r: SNode, c: SNode, j: u8, k2: Seq<u8>)
    requires r is Ext, r->Ext_nibs == seq![j], *r->child == c
    ensures lk(r, k2) == (if k2.len() > 0 && k2[0] == j { lk(c, k2.skip(1)) } else { None })
{
    if k2.len() > 0 && k2[0] == j { assert(k2.subrange(0, 1) =~= seq![j]); assert(seq![j].is_prefix_of(k2)); }
    else if seq![j].is_prefix_of(k2) { assert(k2.subrange(0, 1)[0] == j); assert(false); }
}
/// The branch value goes and one child stays.
pub broadcast proof fn b_del_value_one(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, k.len() == 0, n->children.len() == 16, r is Ext, r->Ext_nibs.len() == 1, r->Ext_nibs[0] < 16,
        *r->child == n->children[r->Ext_nibs[0] as int], !(*r->child is Empty),
        nec(n->children, 16) <= 1
    ensures #[trigger] del(r, n, k)
{
    reveal(del);
    let j = r->Ext_nibs[0];
    assert(r->Ext_nibs =~= seq![j]);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) } by {
        reveal_with_fuel(lk, 2);
        lemma_one_child(r, *r->child, j, k2);
        if k2.len() == 0 { assert(k2 =~= k); }
        else if k2[0] != j && k2[0] < 16 && !(n->children[k2[0] as int] is Empty) { lemma_nec_two(n->children, 16, j as int, k2[0] as int); assert(false); }
    }
}
pub broadcast proof fn b_del_branch(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, r is Branch, k.len() > 0, k[0] < 16, n->Branch_value == r->Branch_value,
        r->children.len() == 16, n->children.len() == 16,
        forall|i: int| 0 <= i < 16 && i != k[0] ==> r->children[i] == n->children[i],
        del(r->children[k[0] as int], n->children[k[0] as int], k.skip(1)),
    ensures #[trigger] del(r, n, k)
{
    reveal(del);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) } by {
        if k2.len() > 0 && k2[0] == k[0] {
            assert(lk(r->children[k[0] as int], k2.skip(1)) == if k2.skip(1) == k.skip(1) { None } else { lk(n->children[k[0] as int], k2.skip(1)) });
            if k2.skip(1) == k.skip(1) { lemma_skip1(k2, k); }
        }
    }
}
/// The last child of a branch goes and its value stays.
pub broadcast proof fn b_del_branch_value_left(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, k.len() > 0, k[0] < 16, n->children.len() == 16, r is Leaf, r->Leaf_nibs.len() == 0, r->Leaf_value == n->Branch_value,
        n->Branch_value.len() > 0,
        nec(n->children, 16) <= 1, del(SNode::Empty, n->children[k[0] as int], k.skip(1)), lk(n, k) is Some,
    ensures #[trigger] del(r, n, k)
{
    reveal(del);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) } by {
        if k2.len() == 0 { assert(k2 =~= r->Leaf_nibs); }
        else {
            if k2[0] < 16 && k2[0] == k[0] {
                assert(lk(SNode::Empty, k2.skip(1)) == if k2.skip(1) == k.skip(1) { None } else { lk(n->children[k[0] as int], k2.skip(1)) });
                if k2.skip(1) == k.skip(1) { lemma_skip1(k2, k); }
            } else if k2[0] < 16 && !(n->children[k2[0] as int] is Empty) {
                assert(lk(n->children[k[0] as int], k.skip(1)) is Some);
                assert(!(n->children[k[0] as int] is Empty));
                lemma_nec_two(n->children, 16, k[0] as int, k2[0] as int); assert(false);
            }
        }
    }
}
/// One of two children of a branch goes.
pub broadcast proof fn b_del_branch_one_left(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, k.len() > 0, k[0] < 16, n->children.len() == 16, n->Branch_value.len() == 0,
        r is Ext, r->Ext_nibs.len() == 1, r->Ext_nibs[0] < 16, r->Ext_nibs[0] != k[0],
        *r->child == n->children[r->Ext_nibs[0] as int], !(*r->child is Empty),
        nec(n->children, 16) <= 2, del(SNode::Empty, n->children[k[0] as int], k.skip(1)), lk(n, k) is Some,
    ensures #[trigger] del(r, n, k)
{
    reveal(del);
    let j = r->Ext_nibs[0];
    assert(r->Ext_nibs =~= seq![j]);
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) } by {
        lemma_one_child(r, *r->child, j, k2);
        if k2.len() > 0 && k2[0] < 16 {
            if k2[0] == k[0] {
                assert(lk(SNode::Empty, k2.skip(1)) == if k2.skip(1) == k.skip(1) { None } else { lk(n->children[k[0] as int], k2.skip(1)) });
                if k2.skip(1) == k.skip(1) { lemma_skip1(k2, k); }
            } else if k2[0] != j && !(n->children[k2[0] as int] is Empty) {
                assert(lk(n->children[k[0] as int], k.skip(1)) is Some);
                assert(!(n->children[k[0] as int] is Empty));
                lemma_nec_three(n->children, 16, k[0] as int, j as int, k2[0] as int); assert(false);
            }
        }
    }
}
pub broadcast proof fn b_del_ext(r: SNode, n: SNode, k: Seq<u8>, x: SNode)
    requires n is Ext, #[trigger] eqv(r, x), x is Ext, x->Ext_nibs == n->Ext_nibs, n->Ext_nibs.is_prefix_of(k),
        del(*x->child, *n->child, k.skip(n->Ext_nibs.len() as int)),
    ensures #[trigger] del(r, n, k)
{
    reveal(del); reveal(eqv);
    let p = n->Ext_nibs;
    let l = p.len() as int;
    assert forall|k2: Seq<u8>| #[trigger] lk(r, k2) == if k2 == k { None } else { lk(n, k2) } by {
        assert(lk(r, k2) == lk(x, k2));
        if p.is_prefix_of(k2) {
            assert(lk(*x->child, k2.skip(l)) == if k2.skip(l) == k.skip(l) { None } else { lk(*n->child, k2.skip(l)) });
            if k2.skip(l) == k.skip(l) { lemma_skipn(p, k2, k); }
        }
    }
}
pub broadcast proof fn b_del_merged(r: SNode, n: SNode, k: Seq<u8>, c: SNode)
    requires n is Ext, #[trigger] del(c, *n->child, k.skip(n->Ext_nibs.len() as int)), r == merged(n->Ext_nibs, c), n->Ext_nibs.is_prefix_of(k)
    ensures #[trigger] del(r, n, k)
{
    let x = SNode::Ext { nibs: n->Ext_nibs, child: Box::new(c) };
    if c is Leaf || c is Ext { b_eqv_merge(r, x); } else { b_eqv_refl(r); }
    b_del_ext(r, n, k, x);
}
// the result of a deletion is canonical
pub broadcast proof fn b_dcano_leaf(r: SNode, n: SNode, k: Seq<u8>)
    requires r is Empty
    ensures #[trigger] dcano(r, n, k)
{ reveal(dcano); }
pub broadcast proof fn b_dcano_value(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, r is Branch, r->children == n->children, nec(r->children, 16) + v1(r->Branch_value) >= 2,
    ensures #[trigger] dcano(r, n, k)
{ reveal(dcano); }
pub broadcast proof fn b_dcano_branch(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, r is Branch, k.len() > 0, k[0] < 16,
        r->children.len() == 16, n->Branch_value == r->Branch_value,
        forall|i: int| 0 <= i < 16 && i != k[0] ==> r->children[i] == n->children[i],
        keeps(r->children[k[0] as int], n->children[k[0] as int]),
        !(r->children[k[0] as int] is Empty) || nec(n->children, 16) + v1(n->Branch_value) > 2
    ensures #[trigger] dcano(r, n, k)
{
    reveal(dcano); reveal(keeps);
    assert forall|m: nat| #[trigger] wfd(n, m) implies pwfd(r, m) by {
        assert(wfd(n->children[k[0] as int], (m - 1) as nat));
        lemma_nec_upd(n->children, r->children, 16, k[0] as int);
        assert forall|i: int| 0 <= i < 16 implies wfd(#[trigger] r->children[i], (m - 1) as nat) by { if i != k[0] { assert(wfd(n->children[i], (m - 1) as nat)); } }
    }
}
/// If n is canonical, so is r.
#[verifier::opaque]
pub open spec fn keeps(r: SNode, n: SNode) -> bool { forall|m: nat| #[trigger] wfd(n, m) ==> wfd(r, m) }
/// If n is canonical but for an extension on top, r is canonical.
#[verifier::opaque]
pub open spec fn fixes(r: SNode, n: SNode) -> bool { forall|m: nat| #[trigger] pwfd(n, m) ==> wfd(r, m) }
pub broadcast proof fn b_keeps(r: SNode, x: SNode, n: SNode, k: Seq<u8>)
    requires #[trigger] fixes(r, x), #[trigger] dcano(x, n, k)
    ensures keeps(r, n)
{
    reveal(keeps); reveal(fixes); reveal(dcano);
    assert forall|m: nat| #[trigger] wfd(n, m) implies wfd(r, m) by { assert(pwfd(x, m)); }
}
pub broadcast proof fn b_dcano_pwfd(r: SNode, n: SNode, k: Seq<u8>, m: nat)
    requires #[trigger] dcano(r, n, k), #[trigger] wfd(n, m)
    ensures pwfd(r, m)
{ reveal(dcano); }
pub broadcast proof fn b_dcano_use(r: SNode, x: SNode, n: SNode, k: Seq<u8>, m: nat)
    requires #[trigger] fixes(r, x), #[trigger] dcano(x, n, k), #[trigger] wfd(n, m)
    ensures wfd(r, m)
{ reveal(dcano); reveal(fixes); assert(pwfd(x, m)); }
pub broadcast proof fn b_fixes_same(n: SNode)
    requires !(n is Ext)
    ensures #[trigger] fixes(n, n)
{ reveal(fixes); }
pub broadcast proof fn b_fixes_merge(r: SNode, n: SNode)
    requires n is Ext, r == merged(n->Ext_nibs, *n->child), !(*n->child is Empty)
    ensures #[trigger] fixes(r, n)
{ reveal(fixes); reveal_with_fuel(wfd, 2); }
pub broadcast proof fn b_dcano_leaf0(r: SNode, n: SNode, k: Seq<u8>)
    requires r is Leaf, r->Leaf_nibs.len() == 0, r->Leaf_value.len() > 0
    ensures #[trigger] dcano(r, n, k)
{ reveal(dcano); }
pub broadcast proof fn b_dcano_one_left(r: SNode, n: SNode, k: Seq<u8>)
    requires n is Branch, r is Ext, r->Ext_nibs.len() == 1, r->Ext_nibs[0] < 16,
        *r->child == n->children[r->Ext_nibs[0] as int], !(*r->child is Empty)
    ensures #[trigger] dcano(r, n, k)
{
    reveal(dcano);
    assert forall|m: nat| #[trigger] wfd(n, m) implies pwfd(r, m) by { assert(wfd(n->children[r->Ext_nibs[0] as int], (m - 1) as nat)); }
}
/// Below an extension the child is merged with it.
pub broadcast proof fn b_dcano_ext(r: SNode, n: SNode, k: Seq<u8>, c: SNode)
    requires n is Ext, #[trigger] dcano(c, *n->child, k.skip(n->Ext_nibs.len() as int)), r == merged(n->Ext_nibs, c), !(c is Empty)
    ensures #[trigger] dcano(r, n, k)
{
    reveal(dcano);
    let p = n->Ext_nibs;
    assert forall|m: nat| #[trigger] wfd(n, m) implies pwfd(r, m) by {
        let m2 = (m - p.len()) as nat;
        assert(wfd(*n->child, m2));
        assert(pwfd(c, m2));
    }
}
pub broadcast group g_del {
    b_eqv_refl, b_eqv_merge, b_del_eqv, b_del_leaf, b_del_value, b_del_value_one, b_del_branch, b_del_branch_value_left,
    b_del_branch_one_left, b_del_ext, b_del_merged, b_dcano_leaf, b_dcano_value, b_dcano_branch, b_keeps, b_dcano_pwfd, b_nec_le, b_fixes_same, b_fixes_merge, b_dcano_leaf0, b_dcano_one_left, b_dcano_ext, b_wfd_child, b_wfd_nchild, b_wfd_ext, b_nibs16,
}
} // mod triebc
