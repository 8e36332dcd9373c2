// What iterating over a trie yields.
pub mod iterspec {
use super::*;
pub type It = (Seq<u8>, VH);
/// The entries of the subtree n, found below the path p.
pub open spec fn its(n: SNode, p: Seq<u8>) -> Seq<It> decreases n, 1nat, 0nat {
    match n {
        SNode::Empty => seq![],
        SNode::Hash(h) => seq![(p, VH::Hash(h))],
        SNode::Leaf { nibs, value } => seq![(p + nibs, VH::Val(value))],
        SNode::Ext { nibs, child } => its(*child, p + nibs),
        SNode::Branch { children, value } => cits(n, 0, p) + bits(n, p),
    }
}
/// The entries below the children of a branch from the j-th on.
#[verifier::opaque]
pub open spec fn cits(n: SNode, j: nat, p: Seq<u8>) -> Seq<It> decreases n, 0nat, n->children.len() - j when n is Branch {
    if j >= n->children.len() { seq![] } else { its(n->children[j as int], p.push(j as u8)) + cits(n, j + 1, p) }
}
/// The entry of the branch itself.
pub open spec fn bits(n: SNode, p: Seq<u8>) -> Seq<It> {
    if n->Branch_value.len() == 0 { seq![] } else { seq![(p, VH::Val(n->Branch_value))] }
}
/// An entry of the stack of an iterator: what is left to do.
pub enum SE { Root(SNode), Ext(nat), Branch(SNode, nat) }
pub open spec fn trunc(k: Seq<u8>, c: nat) -> Seq<u8> { k.take(if c <= k.len() { k.len() - c } else { 0 }) }
/// The entries that are still to come, k being the path of the innermost branch.
#[verifier::opaque]
pub open spec fn rem(s: Seq<SE>, k: Seq<u8>) -> Seq<It> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        match s.last() {
            SE::Root(n) => its(n, seq![]) + rem(s.drop_last(), k),
            SE::Ext(c) => rem(s.drop_last(), trunc(k, c)),
            SE::Branch(n, j) => cits(n, j, k) + (bits(n, k) + rem(s.drop_last(), trunc(k, 1))),
        }
    }
}
#[verifier::opaque]
pub open spec fn sok(s: Seq<SE>, k: Seq<u8>) -> bool decreases s.len() {
    s.len() > 0 ==> match s.last() {
        SE::Root(n) => s.len() == 1 && wfd(n, 64),
        SE::Ext(c) => sok(s.drop_last(), trunc(k, c)),
        SE::Branch(n, j) => n is Branch && 1 <= j <= 16 && k.len() < 64 && wfd(n, (64 - k.len()) as nat) && sok(s.drop_last(), trunc(k, 1)),
    }
}
/// How much is left to do.
pub open spec fn sz(n: SNode) -> nat decreases n, 1nat, 0nat {
    match n {
        SNode::Ext { nibs, child } => sz(*child) + 2,
        SNode::Branch { children, value } => csz(n, 0) + 2,
        _ => 1,
    }
}
#[verifier::opaque]
pub open spec fn csz(n: SNode, j: nat) -> nat decreases n, 0nat, n->children.len() - j when n is Branch {
    if j >= n->children.len() { 0 } else { sz(n->children[j as int]) + csz(n, j + 1) }
}
pub open spec fn we(e: SE) -> nat { match e { SE::Root(n) => sz(n) + 1, SE::Ext(c) => 1, SE::Branch(n, j) => csz(n, j) + 1 } }
#[verifier::opaque]
pub open spec fn wt(s: Seq<SE>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wt(s.drop_last()) + we(s.last()) } }

/// One child after the other.
pub broadcast proof fn b_cits(n: SNode, j: nat, p: Seq<u8>, c: SNode, q: Seq<u8>)
    requires n is Branch, j < n->children.len(), c == n->children[j as int], q == p.push(j as u8)
    ensures #![trigger cits(n, j, p), its(c, q)] cits(n, j, p) == its(c, q) + cits(n, j + 1, p)
{ reveal_with_fuel(cits, 2); }
pub broadcast proof fn b_cits_end(n: SNode, j: nat, p: Seq<u8>)
    requires n is Branch, j >= n->children.len()
    ensures #[trigger] cits(n, j, p) == Seq::<It>::empty()
{ reveal_with_fuel(cits, 2); }
pub broadcast proof fn b_csz(n: SNode, j: nat, c: SNode)
    requires n is Branch, j < n->children.len(), c == n->children[j as int]
    ensures #![trigger csz(n, j), sz(c)] csz(n, j) == sz(c) + csz(n, j + 1)
{ reveal_with_fuel(csz, 2); }
pub broadcast proof fn b_sz(n: SNode) ensures #[trigger] sz(n) >= 1 {}
pub proof fn lemma_push(s: Seq<SE>, e: SE)
    ensures s.push(e).drop_last() == s, s.push(e).last() == e
{ assert(s.push(e).drop_last() =~= s); }
pub open spec fn rem1(s: Seq<SE>, e: SE, k: Seq<u8>) -> Seq<It> {
    match e {
        SE::Root(n) => its(n, seq![]) + rem(s, k),
        SE::Ext(c) => rem(s, trunc(k, c)),
        SE::Branch(n, j) => cits(n, j, k) + (bits(n, k) + rem(s, trunc(k, 1))),
    }
}
pub open spec fn sok1(s: Seq<SE>, e: SE, k: Seq<u8>) -> bool {
    match e {
        SE::Root(n) => s.len() == 0 && wfd(n, 64),
        SE::Ext(c) => sok(s, trunc(k, c)),
        SE::Branch(n, j) => n is Branch && 1 <= j <= 16 && k.len() < 64 && wfd(n, (64 - k.len()) as nat) && sok(s, trunc(k, 1)),
    }
}
/// Pushing an entry on the stack, and taking the last one from it.
pub broadcast proof fn b_rem_push(s: Seq<SE>, e: SE, k: Seq<u8>)
    ensures #[trigger] rem(s.push(e), k) == rem1(s, e, k)
{ reveal_with_fuel(rem, 2); lemma_push(s, e); }
pub broadcast proof fn b_rem_pop(s: Seq<SE>, k: Seq<u8>)
    requires s.len() > 0
    ensures #![trigger rem(s, k), s.drop_last()] rem(s, k) == rem1(s.drop_last(), s.last(), k)
{ reveal_with_fuel(rem, 2); }
pub broadcast proof fn b_rem_empty(s: Seq<SE>, k: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] rem(s, k) == Seq::<It>::empty()
{ reveal_with_fuel(rem, 2); }
pub broadcast proof fn b_sok_push(s: Seq<SE>, e: SE, k: Seq<u8>)
    ensures #[trigger] sok(s.push(e), k) == sok1(s, e, k)
{ reveal_with_fuel(sok, 2); lemma_push(s, e); }
pub broadcast proof fn b_sok_pop(s: Seq<SE>, k: Seq<u8>)
    requires s.len() > 0
    ensures #![trigger sok(s, k), s.drop_last()] sok(s, k) == sok1(s.drop_last(), s.last(), k)
{ reveal_with_fuel(sok, 2); }
pub broadcast proof fn b_sok_empty(s: Seq<SE>, k: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] sok(s, k)
{ reveal_with_fuel(sok, 2); }
pub broadcast proof fn b_wt_push(s: Seq<SE>, e: SE)
    ensures #[trigger] wt(s.push(e)) == wt(s) + we(e)
{ reveal_with_fuel(wt, 2); lemma_push(s, e); }
pub broadcast proof fn b_wt_pop(s: Seq<SE>)
    requires s.len() > 0
    ensures #![trigger wt(s), s.drop_last()] wt(s) == wt(s.drop_last()) + we(s.last())
{ reveal_with_fuel(wt, 2); }
pub broadcast proof fn b_trunc_push(k: Seq<u8>, x: u8)
    ensures #[trigger] trunc(k.push(x), 1) == k
{ assert(trunc(k.push(x), 1) =~= k); }
pub broadcast proof fn b_trunc_ext(k: Seq<u8>, p: Seq<u8>, c: nat)
    requires p.len() == c, c > 0
    ensures #[trigger] trunc(trunc(k + p, 1), c) == trunc(k, 1)
{ assert(trunc(trunc(k + p, 1), c) =~= trunc(k, 1)); }
pub broadcast proof fn b_assoc(a: Seq<It>, b: Seq<It>, c: Seq<It>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn b_nil_add(a: Seq<It>, b: Seq<It>)
    requires a.len() == 0
    ensures #[trigger] (a + b) == b
{ assert(a + b =~= b); }
pub broadcast proof fn b_add_nil(a: Seq<It>, b: Seq<It>)
    requires b.len() == 0
    ensures #[trigger] (a + b) == a
{ assert(a + b =~= a); }

// ------------------------------------------------- the iterator of the crate
pub open spec fn sev(e: IterStackEntry) -> SE {
    match e {
        IterStackEntry::Root(w) => SE::Root(wv(w)),
        IterStackEntry::Extension(c) => SE::Ext(c as nat),
        IterStackEntry::Branch(b) => SE::Branch(SNode::Branch { children: cv(b.children), value: b.value@ }, b.curr_nib as nat),
    }
}
pub open spec fn eok(e: IterStackEntry) -> bool {
    match e {
        IterStackEntry::Root(w) => winv(w),
        IterStackEntry::Extension(c) => true,
        IterStackEntry::Branch(b) => forall|i: int| #![trigger b.children[i]] #![trigger b.children@[i]] 0 <= i < 16 ==> winv(b.children[i]),
    }
}
pub open spec fn stk(v: Seq<IterStackEntry>) -> Seq<SE> { Seq::new(v.len(), |i: int| sev(v[i])) }
pub open spec fn ist(i: PartialTrieIter) -> Seq<SE> { stk(i.trie_stack@) }
pub open spec fn ikey(i: PartialTrieIter) -> Seq<u8> { i.curr_key_after_last_branch@ }
pub open spec fn itinv(i: PartialTrieIter) -> bool { i.curr_key_after_last_branch.wf() && forall|j: int| 0 <= j < i.trie_stack@.len() ==> eok(#[trigger] i.trie_stack@[j]) }
pub open spec fn itok(i: PartialTrieIter) -> bool { itinv(i) && sok(ist(i), ikey(i)) }
/// The entries an iterator is still to yield.
pub open spec fn irem(i: PartialTrieIter) -> Seq<It> { rem(ist(i), ikey(i)) }
pub open spec fn opt(r: Option<(Nibbles, ValOrHash)>) -> Seq<It> { match r { Some(x) => seq![(x.0@, vh(x.1))], None => seq![] } }
/// The subtree leads to a branch without passing an entry.
pub open spec fn tobr(n: SNode) -> bool { n is Branch || n is Ext && !(*n->child is Hash) }
pub open spec fn bkey(n: SNode, k: Seq<u8>, ck: Seq<u8>) -> Seq<u8> { if tobr(n) { trunc(ck, 1) } else { k } }
pub broadcast proof fn b_stk_push(v: Seq<IterStackEntry>, e: IterStackEntry)
    ensures #[trigger] stk(v.push(e)) == stk(v).push(sev(e))
{ assert(stk(v.push(e)) =~= stk(v).push(sev(e))); }
pub broadcast proof fn b_stk_pop(v: Seq<IterStackEntry>, m: int)
    requires v.len() > 0, m == v.len() - 1
    ensures #![trigger stk(v), v.subrange(0, m)] stk(v.subrange(0, m)) == stk(v).drop_last(), stk(v).last() == sev(v[m])
{ assert(stk(v.drop_last()) =~= stk(v).drop_last()); }
pub broadcast proof fn b_its_nil(n: SNode, p: Seq<u8>)
    requires p.len() == 0
    ensures #[trigger] its(n, p) == its(n, seq![])
{ assert(p =~= seq![]); }
pub open spec fn keys_of(r: Seq<Nibbles>, s: Seq<It>) -> bool { r.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> (#[trigger] r[j])@ == s[j].0 }
pub open spec fn vals_of(r: Seq<ValOrHash>, s: Seq<It>) -> bool { r.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> vh(#[trigger] r[j]) == s[j].1 }
pub open spec fn keys_upto(r: Seq<Nibbles>, s: Seq<It>, c: nat) -> bool { forall|j: int| 0 <= j < c ==> (#[trigger] r[j])@ == s[j].0 }
pub open spec fn vals_upto(r: Seq<ValOrHash>, s: Seq<It>, c: nat) -> bool { forall|j: int| 0 <= j < c ==> vh(#[trigger] r[j]) == s[j].1 }
/// After c items of `all`, `left` is to come.
pub open spec fn drained(all: Seq<It>, c: nat, left: Seq<It>) -> bool { c <= all.len() && left == all.skip(c as int) }
pub broadcast proof fn b_drain0(all: Seq<It>)
    ensures #[trigger] drained(all, 0, all)
{ assert(all.skip(0) =~= all); }
pub broadcast proof fn b_drain(all: Seq<It>, c: nat, left: Seq<It>, r: Option<(Nibbles, ValOrHash)>, rest: Seq<It>)
    requires drained(all, c, left), opt(r) + rest == left
    ensures #![trigger drained(all, c, left), opt(r) + rest] r is Some ==> drained(all, c + 1, rest) && c < all.len() && all[c as int] == (r->Some_0.0@, vh(r->Some_0.1)) && rest.len() < left.len(),
        r is None && left.len() == 0 ==> c == all.len()
{
    if r is Some {
        assert((opt(r) + rest)[0] == opt(r)[0]);
        assert(rest =~= left.skip(1));
        assert(left.skip(1) =~= all.skip(c as int + 1));
    }
}
pub broadcast group g_iter {
    b_drain0, b_drain,
    b_its_nil,     b_cits, b_cits_end, b_csz, b_sz, b_rem_push, b_rem_pop, b_rem_empty, b_sok_push, b_sok_pop, b_sok_empty, b_wt_push, b_wt_pop, b_trunc_push, b_trunc_ext, b_assoc, b_nil_add, b_add_nil, b_stk_push, b_stk_pop,
}

// ------------------------- the entries are what lookups find, each of them once
pub open spec fn has(n: SNode, p: Seq<u8>, x: It) -> bool { p.is_prefix_of(x.0) && lk(n, x.0.skip(p.len() as int)) == Some(x.1) }
pub proof fn lemma_add_has(a: Seq<It>, b: Seq<It>, x: It)
    ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    let s = a + b;
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(s[a.len() + i] == x); }
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub proof fn lemma_prefix_add(p: Seq<u8>, q: Seq<u8>, x: Seq<u8>)
    ensures (p + q).is_prefix_of(x) <==> p.is_prefix_of(x) && q.is_prefix_of(x.skip(p.len() as int)),
        (p + q).is_prefix_of(x) ==> x.skip((p + q).len() as int) == x.skip(p.len() as int).skip(q.len() as int)
{
    if (p + q).is_prefix_of(x) {
        assert(x.take((p + q).len() as int) =~= p + q);
        assert forall|i: int| 0 <= i < p.len() implies p[i] == x[i] by { assert(p[i] == (p + q)[i]); }
        assert(p =~= x.take(p.len() as int));
        assert forall|i: int| 0 <= i < q.len() implies q[i] == x.skip(p.len() as int)[i] by { assert(q[i] == (p + q)[p.len() + i]); }
        assert(q =~= x.skip(p.len() as int).take(q.len() as int));
        assert(x.skip((p + q).len() as int) =~= x.skip(p.len() as int).skip(q.len() as int));
    }
    if p.is_prefix_of(x) && q.is_prefix_of(x.skip(p.len() as int)) {
        assert forall|i: int| 0 <= i < (p + q).len() implies (p + q)[i] == x[i] by {
            if i < p.len() { assert(p[i] == x[i]); } else { assert(q[i - p.len()] == x.skip(p.len() as int)[i - p.len()]); }
        }
        assert(p + q =~= x.take((p + q).len() as int));
    }
}
pub proof fn lemma_its_branch(n: SNode, p: Seq<u8>)
    requires n is Branch
    ensures its(n, p) == cits(n, 0, p) + bits(n, p)
{ reveal_with_fuel(cits, 2); reveal_with_fuel(its, 2); }
pub proof fn lemma_its(n: SNode, m: nat, p: Seq<u8>, x: It)
    requires wfd(n, m)
    ensures its(n, p).contains(x) <==> has(n, p, x)
    decreases n, 1nat, 0nat
{
    let k = x.0.skip(p.len() as int);
    if p.is_prefix_of(x.0) { assert(x.0 =~= p + k); }
    match n {
        SNode::Empty => {}
        SNode::Hash(h) => {
            let s = seq![(p, VH::Hash(h))];
            assert(its(n, p) == s);
            if has(n, p, x) { assert(x.0 =~= p); assert(s[0] == x); }
            if s.contains(x) { assert(x == s[0]); assert(p =~= x.0.take(p.len() as int)); }
        }
        SNode::Leaf { nibs, value } => {
            let s = seq![(p + nibs, VH::Val(value))];
            if has(n, p, x) { assert(s[0] == x); }
            if s.contains(x) { assert(x == s[0]); assert(p =~= x.0.take(p.len() as int)); assert(k =~= nibs); }
        }
        SNode::Ext { nibs, child } => { lemma_its(*child, (m - nibs.len()) as nat, p + nibs, x); lemma_prefix_add(p, nibs, x.0); }
        SNode::Branch { children, value } => {
            lemma_its_branch(n, p);
            lemma_add_has(cits(n, 0, p), bits(n, p), x);
            if p.is_prefix_of(x.0) && k.len() > 0 { assert(k[0] == x.0[p.len() as int]); }
            lemma_cits(n, m, 0, p, x);
            if bits(n, p).contains(x) { assert(x == bits(n, p)[0]); assert(p =~= x.0.take(p.len() as int)); assert(k.len() == 0); }
            if has(n, p, x) && k.len() == 0 { assert(x.0 =~= p); assert(bits(n, p)[0] == x); }
        }
    }
}
pub proof fn lemma_cits(n: SNode, m: nat, j: nat, p: Seq<u8>, x: It)
    requires wfd(n, m), n is Branch, j <= 16
    ensures cits(n, j, p).contains(x) <==> has(n, p, x) && x.0.len() > p.len() && j <= x.0[p.len() as int] < 16
    decreases n, 0nat, 16 - j
{
    reveal_with_fuel(cits, 2);
    if j < 16 {
        let c = n->children[j as int];
        let q = p.push(j as u8);
        lemma_its(c, (m - 1) as nat, q, x);
        lemma_cits(n, m, j + 1, p, x);
        lemma_add_has(its(c, q), cits(n, j + 1, p), x);
        assert(q =~= p + seq![j as u8]);
        lemma_prefix_add(p, seq![j as u8], x.0);
        let k = x.0.skip(p.len() as int);
        if p.is_prefix_of(x.0) && k.len() > 0 {
            assert(seq![j as u8].is_prefix_of(k) <==> k[0] == j) by {
                if k[0] == j { assert(seq![j as u8] =~= k.take(1)); }
                if seq![j as u8].is_prefix_of(k) { assert(seq![j as u8][0] == k[0]); }
            }
        }
    } else { assert(cits(n, j, p) =~= seq![]); }
}
/// No two entries have the same key.
pub open spec fn distinct(s: Seq<It>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub proof fn lemma_distinct(n: SNode, m: nat, p: Seq<u8>)
    requires wfd(n, m)
    ensures distinct(its(n, p))
    decreases n, 1nat, 0nat
{
    match n {
        SNode::Ext { nibs, child } => { lemma_distinct(*child, (m - nibs.len()) as nat, p + nibs); }
        SNode::Branch { children, value } => {
            lemma_cdistinct(n, m, 0, p);
            let a = cits(n, 0, p); let b = bits(n, p);
            lemma_its_branch(n, p);
            assert forall|i: int, j: int| 0 <= i < j < (a + b).len() implies (#[trigger] (a + b)[i]).0 != (#[trigger] (a + b)[j]).0 by {
                if j >= a.len() && i < a.len() { lemma_cits(n, m, 0, p, a[i]); assert(a.contains(a[i])); assert((a + b)[j].0 == p); }
            }
        }
        _ => { assert(its(n, p).len() <= 1); }
    }
}
pub proof fn lemma_cdistinct(n: SNode, m: nat, j: nat, p: Seq<u8>)
    requires wfd(n, m), n is Branch, j <= 16
    ensures distinct(cits(n, j, p))
    decreases n, 0nat, 16 - j
{
    reveal_with_fuel(cits, 2);
    if j < 16 {
        let c = n->children[j as int];
        let q = p.push(j as u8);
        lemma_distinct(c, (m - 1) as nat, q);
        lemma_cdistinct(n, m, j + 1, p);
        let a = its(c, q); let b = cits(n, j + 1, p);
        assert forall|x: int, y: int| 0 <= x < y < (a + b).len() implies (#[trigger] (a + b)[x]).0 != (#[trigger] (a + b)[y]).0 by {
            if x < a.len() && y >= a.len() {
                lemma_its(c, (m - 1) as nat, q, a[x]);
                assert(a.contains(a[x]));
                assert(q[p.len() as int] == a[x].0[p.len() as int]);
                lemma_cits(n, m, j + 1, p, b[y - a.len()]);
                assert(b.contains(b[y - a.len()]));
            }
        }
    } else { assert(cits(n, j, p) =~= seq![]); }
}
/// Iterating yields exactly the keys that are in the trie, with what a lookup finds there, each once.
pub proof fn theorem_items(n: SNode)
    requires wfd(n, 64)
    ensures forall|k: Seq<u8>, v: VH| #[trigger] its(n, seq![]).contains((k, v)) <==> lk(n, k) == Some(v), distinct(its(n, seq![]))
{
    lemma_distinct(n, 64, seq![]);
    assert forall|k: Seq<u8>, v: VH| #[trigger] its(n, seq![]).contains((k, v)) <==> lk(n, k) == Some(v) by {
        lemma_its(n, 64, seq![], (k, v));
        assert(k.skip(0) =~= k);
        assert(k.take(0) =~= seq![]);
    }
}
} // mod iterspec
pub use crate::iterspec::*;
