// Subsets of a trie.
pub mod subspec {
use super::*;
/// Which nodes of a tree are needed.
pub struct SMark { pub touched: bool, pub kids: Seq<SMark> }
pub open spec fn clear(n: SNode) -> SMark decreases n {
    match n {
        SNode::Branch { children, value } => SMark { touched: false, kids: Seq::new(16, |i: int| if 0 <= i < children.len() { clear(children[i]) } else { arbitrary() }) },
        SNode::Ext { nibs, child } => SMark { touched: false, kids: seq![clear(*child)] },
        _ => SMark { touched: false, kids: seq![] },
    }
}
/// The nodes on the way of k become needed.
pub open spec fn mark(n: SNode, s: SMark, k: Seq<u8>) -> SMark decreases n {
    match n {
        SNode::Branch { children, value } =>
            if k.len() > 0 && k[0] < children.len() { SMark { touched: true, kids: s.kids.update(k[0] as int, mark(children[k[0] as int], s.kids[k[0] as int], k.skip(1))) } }
            else { SMark { touched: true, kids: s.kids } },
        SNode::Ext { nibs, child } =>
            if nibs.is_prefix_of(k) { SMark { touched: true, kids: seq![mark(*child, s.kids[0], k.skip(nibs.len() as int))] } }
            else { SMark { touched: true, kids: s.kids } },
        _ => SMark { touched: true, kids: s.kids },
    }
}
/// The key continues into a hashed-out part.
pub open spec fn serr(n: SNode, k: Seq<u8>) -> bool decreases n {
    match n {
        SNode::Hash(h) => k.len() > 0,
        SNode::Branch { children, value } => k.len() > 0 && k[0] < children.len() && serr(children[k[0] as int], k.skip(1)),
        SNode::Ext { nibs, child } => nibs.is_prefix_of(k) && serr(*child, k.skip(nibs.len() as int)),
        _ => false,
    }
}
/// What remains of a tree: a part that is not needed is replaced by its hash if it has one.
pub open spec fn subt(n: SNode, s: SMark) -> SNode decreases n {
    if !s.touched && href(n) is Some { SNode::Hash(href(n)->Some_0) } else {
        match n {
            SNode::Branch { children, value } => SNode::Branch { children: Seq::new(16, |i: int| if 0 <= i < children.len() { subt(children[i], s.kids[i]) } else { arbitrary() }), value },
            SNode::Ext { nibs, child } => SNode::Ext { nibs, child: Box::new(subt(*child, s.kids[0])) },
            _ => n,
        }
    }
}
/// The marks after all keys.
#[verifier::opaque]
pub open spec fn smarks(n: SNode, s: SMark, ks: Seq<Seq<u8>>) -> SMark decreases ks.len() {
    if ks.len() == 0 { s } else { mark(n, smarks(n, s, ks.drop_last()), ks.last()) }
}
/// Some key continues into a hashed-out part.
pub open spec fn kerr(n: SNode, ks: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < ks.len() && serr(n, #[trigger] ks[i]) }
/// The subset of a tree for some keys.
pub open spec fn subset(n: SNode, ks: Seq<Seq<u8>>) -> SNode { subt(n, smarks(n, clear(n), ks)) }
pub broadcast proof fn b_smarks0(n: SNode, s: SMark, ks: Seq<Seq<u8>>)
    ensures #[trigger] smarks(n, s, ks.take(0)) == s
{ reveal_with_fuel(smarks, 2); }
pub broadcast proof fn b_smarks(n: SNode, s: SMark, ks: Seq<Seq<u8>>, i: int, k: Seq<u8>)
    requires 0 <= i < ks.len(), k == ks[i]
    ensures #![trigger mark(n, smarks(n, s, ks.take(i)), k)] smarks(n, s, ks.take(i + 1)) == mark(n, smarks(n, s, ks.take(i)), k)
{ reveal_with_fuel(smarks, 2); assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
pub broadcast proof fn b_smarks_all(n: SNode, s: SMark, ks: Seq<Seq<u8>>, i: int)
    requires i == ks.len()
    ensures #[trigger] smarks(n, s, ks.take(i)) == smarks(n, s, ks)
{ assert(ks.take(i) =~= ks); }
pub broadcast group g_smarks { b_smarks0, b_smarks, b_smarks_all }
} // mod subspec
pub use crate::subspec::*;
pub mod subrep {
use super::*;
/// A trie that can be hashed.
pub open spec fn uok(u: Inst) -> bool { ninv(inner(u)) && settled(inner(u)) && cell_bound(u) && wfd(view(inner(u)), 64) }
/// The tree a tracked node stands for.
pub open spec fn tu(t: TrackedNode) -> SNode { view(inner(t.info.underlying_node)) }
/// The tracked nodes follow the tree.
pub open spec fn tinv(t: TrackedNode) -> bool decreases t {
    &&& uok(t.info.underlying_node)
    &&& match t.node {
        TrackedNodeIntern::Empty => tu(t) is Empty,
        TrackedNodeIntern::Hash => tu(t) is Hash,
        TrackedNodeIntern::Leaf => tu(t) is Leaf,
        TrackedNodeIntern::Extension(c) => tu(t) is Ext && tinv(*c) && tu(*c) == *tu(t)->child,
        TrackedNodeIntern::Branch(cs) => tu(t) is Branch && forall|i: int| #![trigger cs[i]] #![trigger cs@[i]] 0 <= i < 16 ==> tinv(cs[i]) && tu(cs[i]) == tu(t)->children[i],
    }
}
pub open spec fn mk(t: TrackedNode) -> SMark decreases t {
    match t.node {
        TrackedNodeIntern::Branch(cs) => SMark { touched: t.info.touched, kids: Seq::new(16, |i: int| if 0 <= i < 16 { mk(cs[i]) } else { arbitrary() }) },
        TrackedNodeIntern::Extension(c) => SMark { touched: t.info.touched, kids: seq![mk(*c)] },
        _ => SMark { touched: t.info.touched, kids: seq![] },
    }
}
pub open spec fn kids(cs: [TrackedNode; 16]) -> Seq<SMark> { Seq::new(16, |i: int| if 0 <= i < 16 { mk(cs[i]) } else { arbitrary() }) }
pub broadcast proof fn b_mk(t: TrackedNode)
    requires t.node is Branch
    ensures (#[trigger] mk(t)).kids == kids(*t.node->Branch_0)
{ assert(mk(t).kids =~= kids(*t.node->Branch_0)); }
pub broadcast proof fn b_cv(c: [WN; 16], i: int)
    requires 0 <= i < 16
    ensures #![trigger cv(c), c[i]] #![trigger cv(c), c@[i]] cv(c)[i] == wv(c[i]), decreases_to!(cv(c) => wv(c[i]))
{ assert(decreases_to!(cv(c) => cv(c)[i])); }
pub broadcast proof fn b_kids(c: [TrackedNode; 16], i: int)
    requires 0 <= i < 16
    ensures #![trigger kids(c), c[i]] #![trigger kids(c), c@[i]] kids(c)[i] == mk(c[i]), decreases_to!(kids(c) => mk(c[i]))
{ assert(decreases_to!(kids(c) => kids(c)[i])); }
pub broadcast proof fn b_uok_ext(u: Inst)
    requires #[trigger] uok(u), inner(u) is Extension
    ensures uok(**inner(u)->child)
{ lemma_wfd_mono(wv(inner(u)->child), (64 - inner(u)->Extension_nibbles@.len()) as nat, 64); }
pub broadcast proof fn b_uok_kid(u: Inst, i: int)
    requires uok(u), inner(u) is Branch, 0 <= i < 16
    ensures #![trigger uok(u), inner(u)->children[i]] uok(**inner(u)->children[i]), wv(inner(u)->children[i]) == view(inner(u))->children[i]
{ let c = inner(u)->children[i]; lemma_wfd_mono(view(inner(u))->children[i], 63, 64); }
pub broadcast proof fn b_encodes_href(e: EncodedNode, n: SNode)
    requires #[trigger] encodes(e, n)
    ensures match e { EncodedNode::Raw(b) => href(n) is None, EncodedNode::Hashed(h) => href(n) == Some(H256(h)) }
{ reveal(encodes); }
pub broadcast proof fn b_mk_clear(t: TrackedNode)
    requires t.node is Branch, !t.info.touched, tu(t) is Branch, tu(t)->children.len() == 16,
        forall|i: int| 0 <= i < 16 ==> mk(#[trigger] t.node->Branch_0[i]) == clear(tu(t)->children[i])
    ensures #[trigger] mk(t) == clear(tu(t))
{
    assert forall|i: int| 0 <= i < 16 implies mk(t).kids[i] == clear(tu(t)).kids[i] by { let c = t.node->Branch_0[i]; }
    assert(mk(t).kids =~= clear(tu(t)).kids);
}
pub broadcast proof fn b_mk_ext(t: TrackedNode)
    requires t.node is Extension
    ensures (#[trigger] mk(t)).kids == seq![mk(*t.node->Extension_0)], decreases_to!(mk(t) => mk(*t.node->Extension_0))
{ assert(decreases_to!(mk(t).kids => mk(t).kids[0])); assert(decreases_to!(mk(t) => mk(t).kids)); }
pub broadcast proof fn b_mark_branch(t2: TrackedNode, t1: TrackedNode, k: Seq<u8>)
    requires t1.node is Branch, t2.node is Branch, t2.info.touched, tu(t1) is Branch, tu(t1)->children.len() == 16, 0 < k.len(), k[0] < 16,
        forall|i: int| 0 <= i < 16 && i != k[0] ==> #[trigger] t2.node->Branch_0[i] == t1.node->Branch_0[i],
        mk(t2.node->Branch_0[k[0] as int]) == mark(tu(t1)->children[k[0] as int], mk(t1.node->Branch_0[k[0] as int]), k.skip(1))
    ensures #![trigger mk(t2), mark(tu(t1), mk(t1), k)] mk(t2) == mark(tu(t1), mk(t1), k)
{
    let m = mark(tu(t1), mk(t1), k);
    assert forall|i: int| 0 <= i < 16 implies mk(t2).kids[i] == m.kids[i] by { let a = t2.node->Branch_0[i]; let b = t1.node->Branch_0[i]; }
    assert(mk(t2).kids =~= m.kids);
}
/// The children of the subset of a branch.
pub open spec fn subc(n: SNode, s: SMark) -> Seq<SNode> { Seq::new(16, |i: int| subt(n->children[i], s.kids[i])) }
pub open spec fn subcs(cs: [TrackedNode; 16]) -> Seq<SNode> { Seq::new(16, |i: int| subt(tu(cs[i]), mk(cs[i]))) }
pub broadcast proof fn b_subt(n: SNode, s: SMark)
    requires n is Branch, n->children.len() == 16, s.touched || href(n) is None
    ensures #[trigger] subt(n, s) == (SNode::Branch { children: subc(n, s), value: n->Branch_value })
{ assert(subt(n, s)->children =~= subc(n, s)); }
pub broadcast proof fn b_subcs(t: TrackedNode)
    requires t.node is Branch, tinv(t)
    ensures #![trigger subt(tu(t), mk(t))] subcs(*t.node->Branch_0) == subc(tu(t), mk(t))
{
    assert forall|i: int| 0 <= i < 16 implies subcs(*t.node->Branch_0)[i] == subc(tu(t), mk(t))[i] by { let a = t.node->Branch_0[i]; }
    assert(subcs(*t.node->Branch_0) =~= subc(tu(t), mk(t)));
}
pub open spec fn kseq(ks: Seq<Nibbles>) -> Seq<Seq<u8>> { Seq::new(ks.len(), |i: int| ks[i]@) }
pub broadcast proof fn b_kseq(ks: Seq<Nibbles>, i: int)
    requires 0 <= i < ks.len()
    ensures #![trigger kseq(ks), ks[i]] kseq(ks)[i] == ks[i]@
{ }
pub open spec fn keys_wf(ks: Seq<Nibbles>) -> bool { forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).wf() }
pub broadcast group g_subset { b_encodes_href, b_mk_clear, b_mk_ext, b_mark_branch, b_subt, b_subcs, b_cv, b_kids, b_mk, b_uok_ext, b_uok_kid }
} // mod subrep
pub use crate::subrep::*;
// What a subset is, without reference to how it is computed.
pub mod subthm {
use super::*;
pub type Keys = spec_fn(Seq<u8>) -> bool;
/// Some key comes here.
pub open spec fn some(ks: Keys) -> bool { exists|k: Seq<u8>| #[trigger] ks(k) }
/// What is left of the keys that go on to child i of a branch.
pub open spec fn below(ks: Keys, i: int) -> Keys { |k: Seq<u8>| ks(seq![i as u8] + k) }
/// What is left of the keys that go on past the path of an extension.
pub open spec fn past(ks: Keys, nibs: Seq<u8>) -> Keys { |k: Seq<u8>| ks(nibs + k) }
pub open spec fn plus(ks: Keys, k: Seq<u8>) -> Keys { |x: Seq<u8>| ks(x) || x == k }
pub open spec fn keyset(ks: Seq<Seq<u8>>) -> Keys { |k: Seq<u8>| ks.contains(k) }
/// The tree in which everything no key comes to is replaced by its hash, if it has one.
pub open spec fn keep(n: SNode, ks: Keys) -> SNode decreases n {
    if !some(ks) && href(n) is Some { SNode::Hash(href(n)->Some_0) } else {
        match n {
            SNode::Branch { children, value } => SNode::Branch { children: Seq::new(16, |i: int| if 0 <= i < children.len() { keep(children[i], below(ks, i)) } else { arbitrary() }), value },
            SNode::Ext { nibs, child } => SNode::Ext { nibs, child: Box::new(keep(*child, past(ks, nibs))) },
            _ => n,
        }
    }
}
/// The marks are those of the keys.
pub open spec fn covers(n: SNode, s: SMark, ks: Keys) -> bool decreases n {
    &&& s.touched == some(ks)
    &&& match n {
        SNode::Branch { children, value } => s.kids.len() == 16 && children.len() == 16 && forall|i: int| #![trigger s.kids[i]] #![trigger children[i]] 0 <= i < 16 ==> covers(children[i], s.kids[i], below(ks, i)),
        SNode::Ext { nibs, child } => s.kids.len() == 1 && covers(*child, s.kids[0], past(ks, nibs)),
        _ => true,
    }
}
pub proof fn lemma_clear(n: SNode, m: nat)
    requires wfd(n, m)
    ensures covers(n, clear(n), |k: Seq<u8>| false)
    decreases n
{
    let f = |k: Seq<u8>| false;
    match n {
        SNode::Branch { children, value } => {
            assert forall|i: int| 0 <= i < 16 implies covers(children[i], #[trigger] clear(n).kids[i], below(f, i)) by {
                lemma_clear(children[i], (m - 1) as nat);
                assert(below(f, i) =~= f);
            }
        }
        SNode::Ext { nibs, child } => {
            lemma_clear(*child, (m - nibs.len()) as nat);
            assert(past(f, nibs) =~= f);
        }
        _ => {}
    }
}
pub proof fn lemma_mark(n: SNode, s: SMark, ks: Keys, k: Seq<u8>)
    requires covers(n, s, ks), forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] < 16
    ensures covers(n, mark(n, s, k), plus(ks, k))
    decreases n
{
    let f = plus(ks, k);
    assert(f(k));
    match n {
        SNode::Branch { children, value } => {
            assert forall|i: int| 0 <= i < 16 implies covers(children[i], #[trigger] mark(n, s, k).kids[i], below(f, i)) by {
                if k.len() > 0 && k[0] == i {
                    lemma_mark(children[i], s.kids[i], below(ks, i), k.skip(1));
                    assert forall|x: Seq<u8>| #[trigger] below(f, i)(x) == plus(below(ks, i), k.skip(1))(x) by {
                        if seq![i as u8] + x == k { assert(k.skip(1) =~= x); }
                        if x == k.skip(1) { assert(seq![i as u8] + x =~= k); }
                    }
                    assert(below(f, i) =~= plus(below(ks, i), k.skip(1)));
                } else {
                    assert forall|x: Seq<u8>| #[trigger] below(f, i)(x) == below(ks, i)(x) by {
                        let y = seq![i as u8] + x;
                        assert(y[0] == i as u8);
                    }
                    assert(below(f, i) =~= below(ks, i));
                }
            }
        }
        SNode::Ext { nibs, child } => {
            if nibs.is_prefix_of(k) {
                let r = k.skip(nibs.len() as int);
                assert(nibs + r =~= k);
                lemma_mark(*child, s.kids[0], past(ks, nibs), r);
                assert forall|x: Seq<u8>| #[trigger] past(f, nibs)(x) == plus(past(ks, nibs), r)(x) by {
                    if nibs + x == k { assert(r =~= x); }
                }
                assert(past(f, nibs) =~= plus(past(ks, nibs), r));
            } else {
                assert forall|x: Seq<u8>| #[trigger] past(f, nibs)(x) == past(ks, nibs)(x) by {
                    let y = nibs + x;
                    assert(nibs.is_prefix_of(y)) by { assert(y.take(nibs.len() as int) =~= nibs); }
                }
                assert(past(f, nibs) =~= past(ks, nibs));
            }
        }
        _ => {}
    }
}
pub open spec fn nibs16(k: Seq<u8>) -> bool { forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] < 16 }
pub proof fn lemma_marks(n: SNode, m: nat, ks: Seq<Seq<u8>>)
    requires wfd(n, m), forall|i: int| 0 <= i < ks.len() ==> nibs16(#[trigger] ks[i])
    ensures covers(n, smarks(n, clear(n), ks), keyset(ks))
    decreases ks.len()
{
    reveal_with_fuel(smarks, 2);
    if ks.len() == 0 {
        lemma_clear(n, m);
        assert(keyset(ks) =~= |k: Seq<u8>| false);
    } else {
        let d = ks.drop_last();
        lemma_marks(n, m, d);
        assert(nibs16(ks[ks.len() - 1]));
        lemma_mark(n, smarks(n, clear(n), d), keyset(d), ks.last());
        assert forall|x: Seq<u8>| #[trigger] keyset(ks)(x) == plus(keyset(d), ks.last())(x) by {
            if ks.contains(x) { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == x; if j < d.len() { assert(d[j] == x); } }
            if d.contains(x) { let j = choose|j: int| 0 <= j < d.len() && d[j] == x; assert(ks[j] == x); }
            if x == ks.last() { assert(ks[ks.len() - 1] == x); }
        }
        assert(keyset(ks) =~= plus(keyset(d), ks.last()));
    }
}
pub proof fn lemma_keep(n: SNode, s: SMark, ks: Keys)
    requires covers(n, s, ks)
    ensures subt(n, s) == keep(n, ks)
    decreases n
{
    match n {
        SNode::Branch { children, value } => {
            if s.touched || href(n) is None {
                assert forall|i: int| 0 <= i < 16 implies #[trigger] subt(n, s)->children[i] == keep(n, ks)->children[i] by { lemma_keep(children[i], s.kids[i], below(ks, i)); }
                assert(subt(n, s)->children =~= keep(n, ks)->children);
            }
        }
        SNode::Ext { nibs, child } => { lemma_keep(*child, s.kids[0], past(ks, nibs)); }
        _ => {}
    }
}
/// The computed subset is the tree in which exactly what no key comes to is hashed out.
pub proof fn theorem_subset(n: SNode, m: nat, ks: Seq<Seq<u8>>)
    requires wfd(n, m), forall|i: int| 0 <= i < ks.len() ==> nibs16(#[trigger] ks[i])
    ensures subset(n, ks) == keep(n, keyset(ks))
{ lemma_marks(n, m, ks); lemma_keep(n, smarks(n, clear(n), ks), keyset(ks)); }
/// Every node the key comes to is in r as it is in n.
pub open spec fn same_along(n: SNode, r: SNode, k: Seq<u8>) -> bool decreases n {
    match n {
        SNode::Branch { children, value } => r is Branch && r->Branch_value == value && r->children.len() == children.len()
            && (k.len() > 0 && k[0] < children.len() ==> same_along(children[k[0] as int], r->children[k[0] as int], k.skip(1))),
        SNode::Ext { nibs, child } => r is Ext && r->Ext_nibs == nibs && (nibs.is_prefix_of(k) ==> same_along(*child, *r->child, k.skip(nibs.len() as int))),
        _ => r == n,
    }
}
/// A requested key finds in the subset what it finds in the full trie, and all nodes on its way.
pub proof fn theorem_kept(n: SNode, m: nat, ks: Keys, k: Seq<u8>)
    requires wfd(n, m), ks(k), nibs16(k)
    ensures lk(keep(n, ks), k) == lk(n, k), bl(keep(n, ks), k) == bl(n, k), same_along(n, keep(n, ks), k)
    decreases n
{
    match n {
        SNode::Branch { children, value } => {
            if k.len() > 0 {
                let i = k[0] as int;
                assert(seq![i as u8] + k.skip(1) =~= k);
                theorem_kept(children[i], (m - 1) as nat, below(ks, i), k.skip(1));
            }
        }
        SNode::Ext { nibs, child } => {
            if nibs.is_prefix_of(k) {
                assert(nibs + k.skip(nibs.len() as int) =~= k);
                theorem_kept(*child, (m - nibs.len()) as nat, past(ks, nibs), k.skip(nibs.len() as int));
            }
        }
        _ => {}
    }
}
/// Everything that refers to the one by hash or by inclusion can refer to the other.
#[verifier::opaque]
pub open spec fn refeq(a: SNode, b: SNode) -> bool { root(a) == root(b) && cref(a) == cref(b) && href(a) == href(b) }
pub broadcast proof fn b_refeq_refl(a: SNode)
    ensures #[trigger] refeq(a, a)
{ reveal(refeq); }
pub broadcast proof fn b_refeq_hash(a: SNode, b: SNode)
    requires a is Hash, href(b) == Some(a->Hash_0)
    ensures #[trigger] refeq(a, b)
{ reveal(refeq); }
pub broadcast proof fn b_refeq_ext(a: SNode, b: SNode)
    requires a is Ext, b is Ext, a->Ext_nibs == b->Ext_nibs, refeq(*a->child, *b->child)
    ensures #[trigger] refeq(a, b)
{ reveal(refeq); assert(enc(a) == enc(b)); }
pub broadcast proof fn b_refeq_branch(a: SNode, b: SNode)
    requires a is Branch, b is Branch, a->Branch_value == b->Branch_value, a->children.len() == 16, b->children.len() == 16,
        forall|i: int| 0 <= i < 16 ==> refeq(a->children[i], #[trigger] b->children[i])
    ensures #[trigger] refeq(a, b)
{ lemma_refs(a, b, 16); reveal(refeq); assert(enc(a) == enc(b)); }
pub proof fn lemma_refs(a: SNode, b: SNode, j: nat)
    requires a is Branch, b is Branch, a->children.len() == 16, b->children.len() == 16, j <= 16,
        forall|i: int| 0 <= i < 16 ==> refeq(a->children[i], #[trigger] b->children[i])
    ensures refs(a, j) == refs(b, j)
    decreases j
{
    if j > 0 {
        reveal(refeq);
        lemma_refs(a, b, (j - 1) as nat);
        assert(refeq(a->children[j - 1], b->children[j - 1]));
        assert(refs(a, j) == refs(a, (j - 1) as nat) + cref(a->children[j - 1]));
        assert(refs(b, j) == refs(b, (j - 1) as nat) + cref(b->children[j - 1]));
    }
}
pub broadcast proof fn b_refeq_root(a: SNode, b: SNode)
    requires #[trigger] refeq(a, b)
    ensures root(a) == root(b)
{ reveal(refeq); }
pub broadcast proof fn b_subset(n: SNode, s: SMark, ks: Seq<Seq<u8>>)
    requires wfd(n, 64), s == clear(n), forall|i: int| 0 <= i < ks.len() ==> nibs16(#[trigger] ks[i])
    ensures #[trigger] subt(n, smarks(n, s, ks)) == keep(n, keyset(ks))
{ theorem_subset(n, 64, ks); }
pub broadcast proof fn b_kseq16(ks: Seq<Nibbles>, i: int)
    requires keys_wf(ks), 0 <= i < ks.len()
    ensures #![trigger kseq(ks)[i]] nibs16(kseq(ks)[i])
{ broadcast use b_nibs16; let k = ks[i]; assert(k.wf()); assert(kseq(ks)[i] == k@); }
pub broadcast group g_refeq { b_refeq_refl, b_refeq_hash, b_refeq_ext, b_refeq_branch, b_refeq_root }
pub broadcast group g_subthm { b_subset, b_kseq16 }
pub open spec fn subsets_of(v: Seq<Inst>, n: SNode, ks: Seq<Vec<Nibbles>>, m: nat) -> bool {
    v.len() == m && forall|i: int| 0 <= i < m ==> view(inner(#[trigger] v[i])) == keep(n, keyset(kseq(ks[i]@)))
}
pub open spec fn same_root(v: Seq<Inst>, n: SNode) -> bool { forall|i: int| 0 <= i < v.len() ==> root(view(inner(#[trigger] v[i]))) == root(n) && ninv(inner(v[i])) && cell_ok(v[i]) }
} // mod subthm
pub use crate::subthm::*;
