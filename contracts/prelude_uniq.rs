// Canonical trees without hashed-out parts are determined by their entries.
pub mod uniq {
use super::*;

pub open spec fn nohash(n: SNode) -> bool decreases n {
    match n {
        SNode::Hash(h) => false,
        SNode::Branch { children, value } => forall|i: int| 0 <= i < children.len() ==> nohash(#[trigger] children[i]),
        SNode::Ext { nibs, child } => nohash(*child),
        _ => true,
    }
}
/// The two keys part at their first nibble.
pub open spec fn part(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == 0 && b.len() > 0 || b.len() == 0 && a.len() > 0 || (a.len() > 0 && b.len() > 0 && a[0] != b[0]) }

proof fn one_child(c: Seq<SNode>, m: nat) -> (i: int)
    requires nec(c, m) >= 1, m <= c.len()
    ensures 0 <= i < m, !(c[i] is Empty)
    decreases m
{ if c[m - 1] is Empty { one_child(c, (m - 1) as nat) } else { m - 1 } }
proof fn two_children(c: Seq<SNode>, m: nat) -> (r: (int, int))
    requires nec(c, m) >= 2, m <= c.len()
    ensures 0 <= r.0 < r.1 < m, !(c[r.0] is Empty), !(c[r.1] is Empty)
    decreases m
{ if c[m - 1] is Empty { two_children(c, (m - 1) as nat) } else { (one_child(c, (m - 1) as nat), m - 1) } }

proof fn some_key(n: SNode, m: nat) -> (k: Seq<u8>)
    requires wfd(n, m), nohash(n), !(n is Empty)
    ensures lk(n, k) is Some
    decreases n, 2nat
{
    match n {
        SNode::Leaf { nibs, value } => nibs,
        SNode::Branch { children, value } => two_keys(n, m).0,
        SNode::Ext { nibs, child } => {
            let k = some_key(*child, (m - nibs.len()) as nat);
            assert((nibs + k).skip(nibs.len() as int) =~= k);
            nibs + k
        }
        _ => { assert(false); seq![] }
    }
}
proof fn below(n: SNode, m: nat, i: int) -> (k: Seq<u8>)
    requires wfd(n, m), nohash(n), n is Branch, 0 <= i < 16, !(n->children[i] is Empty)
    ensures lk(n, k) is Some, k.len() > 0, k[0] == i
    decreases n, 0nat
{
    let k = some_key(n->children[i], (m - 1) as nat);
    assert((seq![i as u8] + k).skip(1) =~= k);
    seq![i as u8] + k
}
proof fn two_keys(n: SNode, m: nat) -> (r: (Seq<u8>, Seq<u8>))
    requires wfd(n, m), nohash(n), n is Branch
    ensures lk(n, r.0) is Some, lk(n, r.1) is Some, part(r.0, r.1)
    decreases n, 1nat
{
    let c = n->children;
    if n->Branch_value.len() == 0 {
        let (i, j) = two_children(c, 16);
        (below(n, m, i), below(n, m, j))
    } else {
        let i = one_child(c, 16);
        (seq![], below(n, m, i))
    }
}
/// The first parting keys of an extension.
proof fn ext_keys(n: SNode, m: nat) -> (r: (Seq<u8>, Seq<u8>))
    requires wfd(n, m), nohash(n), n is Ext
    ensures lk(n, n->Ext_nibs + r.0) is Some, lk(n, n->Ext_nibs + r.1) is Some, part(r.0, r.1)
{
    let p = n->Ext_nibs;
    let (a, b) = two_keys(*n->child, (m - p.len()) as nat);
    assert((p + a).skip(p.len() as int) =~= a);
    assert((p + b).skip(p.len() as int) =~= b);
    (a, b)
}
proof fn not_leaf(a: SNode, b: SNode, m: nat)
    requires wfd(a, m), wfd(b, m), nohash(a), nohash(b), eqv(a, b), a is Leaf, !(b is Leaf)
    ensures false
{
    reveal(eqv);
    let p = a->Leaf_nibs;
    assert(lk(b, p) == lk(a, p));
    match b {
        SNode::Empty => {}
        SNode::Branch { children, value } => {
            let (x, y) = two_keys(b, m);
            assert(lk(a, x) is Some && lk(a, y) is Some);
        }
        SNode::Ext { nibs, child } => {
            let (x, y) = ext_keys(b, m);
            assert(lk(a, nibs + x) is Some && lk(a, nibs + y) is Some);
            assert((nibs + x).skip(nibs.len() as int) =~= x);
            assert((nibs + y).skip(nibs.len() as int) =~= y);
        }
        _ => {}
    }
}
proof fn not_branch_ext(a: SNode, b: SNode, m: nat)
    requires wfd(a, m), wfd(b, m), nohash(a), nohash(b), eqv(a, b), a is Branch, b is Ext
    ensures false
{
    reveal(eqv);
    let (x, y) = two_keys(a, m);
    assert(lk(b, x) is Some && lk(b, y) is Some);
    assert(x[0] == b->Ext_nibs[0] && y[0] == b->Ext_nibs[0]);
}
proof fn ext_nibs_prefix(a: SNode, b: SNode, m: nat)
    requires wfd(a, m), wfd(b, m), nohash(a), nohash(b), eqv(a, b), a is Ext, b is Ext
    ensures b->Ext_nibs.is_prefix_of(a->Ext_nibs)
{
    reveal(eqv);
    let p = a->Ext_nibs;
    let q = b->Ext_nibs;
    let (x, y) = ext_keys(a, m);
    assert(lk(b, p + x) is Some && lk(b, p + y) is Some);
    assert(q.is_prefix_of(p + x) && q.is_prefix_of(p + y));
    if q.len() > p.len() {
        assert((p + x)[p.len() as int] == q[p.len() as int]);
        assert((p + y)[p.len() as int] == q[p.len() as int]);
        assert(false);
    }
    assert forall|i: int| 0 <= i < q.len() implies q[i] == p[i] by { assert((p + x)[i] == q[i]); }
    assert(q =~= p.take(q.len() as int));
}
/// Two canonical trees without hashed-out parts that hold the same entries are the same tree.
pub proof fn lemma_unique(a: SNode, b: SNode, m: nat)
    requires wfd(a, m), wfd(b, m), nohash(a), nohash(b), eqv(a, b)
    ensures a == b
    decreases a
{
    reveal(eqv);
    if a is Empty {
        if !(b is Empty) { let k = some_key(b, m); assert(lk(a, k) is Some); }
    } else if b is Empty {
        let k = some_key(a, m); assert(lk(b, k) is Some);
    } else if a is Leaf {
        if !(b is Leaf) { not_leaf(a, b, m); }
        assert(lk(a, a->Leaf_nibs) == lk(b, a->Leaf_nibs));
    } else if b is Leaf {
        not_leaf(b, a, m);
    } else if a is Branch && b is Ext {
        not_branch_ext(a, b, m);
    } else if a is Ext && b is Branch {
        not_branch_ext(b, a, m);
    } else if a is Branch {
        let e = Seq::<u8>::empty();
        assert(lk(a, e) == lk(b, e));
        assert(a->Branch_value =~= b->Branch_value);
        assert forall|i: int| 0 <= i < 16 implies a->children[i] == b->children[i] by {
            let x = a->children[i]; let y = b->children[i];
            assert forall|k: Seq<u8>| #[trigger] lk(x, k) == lk(y, k) by {
                let k2 = seq![i as u8] + k;
                assert(k2.skip(1) =~= k);
                assert(lk(a, k2) == lk(b, k2));
            }
            lemma_unique(x, y, (m - 1) as nat);
        }
        assert(a->children =~= b->children);
    } else {
        ext_nibs_prefix(a, b, m);
        ext_nibs_prefix(b, a, m);
        let p = a->Ext_nibs;
        assert(p =~= b->Ext_nibs);
        let x = *a->child; let y = *b->child;
        assert forall|k: Seq<u8>| #[trigger] lk(x, k) == lk(y, k) by {
            let k2 = p + k;
            assert(k2.skip(p.len() as int) =~= k);
            assert(lk(a, k2) == lk(b, k2));
        }
        lemma_unique(x, y, (m - p.len()) as nat);
    }
}
/// Hashed-out parts are entries.
proof fn hash_key(n: SNode, m: nat) -> (k: Seq<u8>)
    requires wfd(n, m), !nohash(n)
    ensures lk(n, k) is Some && lk(n, k)->Some_0 is Hash
    decreases n
{
    match n {
        SNode::Branch { children, value } => {
            let i = choose|i: int| 0 <= i < children.len() && !nohash(#[trigger] children[i]);
            let k = hash_key(children[i], (m - 1) as nat);
            assert((seq![i as u8] + k).skip(1) =~= k);
            seq![i as u8] + k
        }
        SNode::Ext { nibs, child } => {
            let k = hash_key(*child, (m - nibs.len()) as nat);
            assert((nibs + k).skip(nibs.len() as int) =~= k);
            nibs + k
        }
        _ => seq![],
    }
}
proof fn no_hash_entry(n: SNode, k: Seq<u8>)
    requires nohash(n)
    ensures !(lk(n, k) is Some && lk(n, k)->Some_0 is Hash)
    decreases n
{
    match n {
        SNode::Branch { children, value } => if k.len() > 0 && k[0] < children.len() { no_hash_entry(children[k[0] as int], k.skip(1)) },
        SNode::Ext { nibs, child } => no_hash_entry(*child, k.skip(nibs.len() as int)),
        _ => {}
    }
}
/// Inserting a value and deleting hash nothing out.
pub proof fn lemma_nohash_upd(r: SNode, n: SNode, k: Seq<u8>, v: VH)
    requires wfd(r, 64), nohash(n), upd(r, n, k, v), v is Val
    ensures nohash(r)
{
    reveal(upd);
    if !nohash(r) { let x = hash_key(r, 64); no_hash_entry(n, x); assert(lk(r, x) == if x == k { Some(v) } else { lk(n, x) }); }
}
pub proof fn lemma_nohash_del(r: SNode, n: SNode, k: Seq<u8>)
    requires wfd(r, 64), nohash(n), del(r, n, k)
    ensures nohash(r)
{
    reveal(del);
    if !nohash(r) { let x = hash_key(r, 64); no_hash_entry(n, x); assert(lk(r, x) == if x == k { None } else { lk(n, x) }); }
}
/// A sequence of insertions of values and deletions.
pub enum Step { Ins(Seq<u8>, Seq<u8>), Del(Seq<u8>) }
pub open spec fn step(r: SNode, n: SNode, s: Step) -> bool {
    wfd(r, 64) && match s { Step::Ins(k, v) => upd(r, n, k, VH::Val(v)), Step::Del(k) => del(r, n, k) }
}
/// t[i+1] comes from t[i] by the i-th step; the trie starts empty.
pub open spec fn history(t: Seq<SNode>, h: Seq<Step>) -> bool {
    t.len() == h.len() + 1 && t[0] is Empty && forall|i: int| 0 <= i < h.len() ==> step(#[trigger] t[i + 1], t[i], h[i])
}
proof fn history_nohash(t: Seq<SNode>, h: Seq<Step>, i: int)
    requires history(t, h), 0 <= i <= h.len()
    ensures nohash(t[i]), wfd(t[i], 64)
    decreases i
{
    if i > 0 {
        history_nohash(t, h, i - 1);
        assert(step(t[i - 1 + 1], t[i - 1], h[i - 1]));
        match h[i - 1] {
            Step::Ins(k, v) => lemma_nohash_upd(t[i], t[i - 1], k, VH::Val(v)),
            Step::Del(k) => lemma_nohash_del(t[i], t[i - 1], k),
        }
    }
}
/// Whatever two histories led to the same entries led to the same tree and the same root hash.
pub proof fn theorem_history(t1: Seq<SNode>, h1: Seq<Step>, t2: Seq<SNode>, h2: Seq<Step>)
    requires history(t1, h1), history(t2, h2), eqv(t1.last(), t2.last())
    ensures t1.last() == t2.last(), root(t1.last()) == root(t2.last())
{
    history_nohash(t1, h1, h1.len() as int);
    history_nohash(t2, h2, h2.len() as int);
    lemma_unique(t1.last(), t2.last(), 64);
}
/// Deleting what was inserted restores the tree.
pub proof fn lemma_restore(n: SNode, r: SNode, s: SNode, k: Seq<u8>, v: VH)
    requires wfd(n, 64), wfd(r, 64), wfd(s, 64), nohash(n), nohash(s), lk(n, k) is None, upd(r, n, k, v), del(s, r, k)
    ensures s == n
{
    reveal(upd); reveal(del); reveal(eqv);
    assert(eqv(s, n)) by {
        assert forall|k2: Seq<u8>| #[trigger] lk(s, k2) == lk(n, k2) by { assert(lk(r, k2) == lk(r, k2)); }
    }
    lemma_unique(s, n, 64);
}
} // mod uniq
pub use crate::uniq::*;
