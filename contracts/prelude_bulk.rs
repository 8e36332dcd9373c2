// Sequences of insertions.
pub mod bulkspec {
use super::*;
pub type Entry = (Nibbles, ValOrHash);
pub open spec fn entries_ok(s: Seq<Entry>) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].0.wf() && s[i].0.count <= 64 && vh_ok(vh(s[i].1))
}
/// ts are the trees on the way from n to r.
pub open spec fn steps_of(ts: Seq<SNode>, r: SNode, n: SNode, s: Seq<Entry>) -> bool {
    ts.len() == s.len() + 1 && ts[0] == n && ts[s.len() as int] == r
    && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> upd(ts[i + 1], ts[i], s[i].0@, vh(s[i].1))
}
/// r is what the entries make of n, each inserted after the ones before it.
#[verifier::opaque]
pub open spec fn chain(r: SNode, n: SNode, s: Seq<Entry>) -> bool { exists|ts: Seq<SNode>| steps_of(ts, r, n, s) }
pub broadcast proof fn b_chain_end(r: SNode, n: SNode, s: Seq<Entry>)
    requires #[trigger] chain(r, n, s.take(s.len() as int))
    ensures chain(r, n, s)
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn b_chain_nil(n: SNode, s: Seq<Entry>)
    ensures #[trigger] chain(n, n, s.take(0))
{ reveal(chain); assert(steps_of(seq![n], n, n, s.take(0))); }
pub broadcast proof fn b_chain_step(r: SNode, n: SNode, t: SNode, s: Seq<Entry>, i: int, k: Seq<u8>, v: VH)
    requires #[trigger] chain(t, n, s.take(i)), 0 <= i < s.len(), #[trigger] upd(r, t, k, v), k == s[i].0@, v == vh(s[i].1)
    ensures chain(r, n, s.take(i + 1))
{
    reveal(chain);
    let ts = choose|ts: Seq<SNode>| steps_of(ts, t, n, s.take(i));
    let us = ts.push(r);
    let s2 = s.take(i + 1);
    assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() implies upd(us[j + 1], us[j], s2[j].0@, vh(s2[j].1)) by {
        if j < i { assert(s.take(i)[j] == s2[j]); }
    }
    assert(steps_of(us, r, n, s2));
}
pub broadcast group b_chain { b_chain_nil, b_chain_step, b_chain_end }
/// Bulk insertion with distinct or repeated keys: the last entry of a key wins.
pub open spec fn last_of(s: Seq<Entry>, k: Seq<u8>) -> Option<VH> decreases s.len() {
    if s.len() == 0 { None } else if s.last().0@ == k { Some(vh(s.last().1)) } else { last_of(s.drop_last(), k) }
}
pub proof fn lemma_last_wins(ts: Seq<SNode>, r: SNode, n: SNode, s: Seq<Entry>, k: Seq<u8>)
    requires steps_of(ts, r, n, s)
    ensures lk(r, k) == match last_of(s, k) { Some(v) => Some(v), None => lk(n, k) }
    decreases s.len()
{
    reveal(upd);
    if s.len() > 0 {
        let m = s.len() - 1;
        let s1 = s.drop_last();
        assert(s[m] == s.last());
        assert forall|j: int| #![trigger s1[j]] 0 <= j < s1.len() implies upd(ts.drop_last()[j + 1], ts.drop_last()[j], s1[j].0@, vh(s1[j].1)) by { assert(s[j] == s1[j]); }
        lemma_last_wins(ts.drop_last(), ts[m], n, s1, k);
    }
}
pub proof fn theorem_last_wins(r: SNode, n: SNode, s: Seq<Entry>, k: Seq<u8>)
    requires chain(r, n, s)
    ensures lk(r, k) == match last_of(s, k) { Some(v) => Some(v), None => lk(n, k) }
{
    reveal(chain);
    let ts = choose|ts: Seq<SNode>| steps_of(ts, r, n, s);
    lemma_last_wins(ts, r, n, s, k);
}
/// What inserting one entry makes of a node tree.
pub uninterp spec fn insfn(n: SNode, k: Nibbles, v: ValOrHash) -> SNode;
pub open spec fn insall(n: SNode, s: Seq<Entry>) -> SNode decreases s.len() {
    if s.len() == 0 { n } else { insfn(insall(n, s.drop_last()), s.last().0, s.last().1) }
}
pub broadcast proof fn b_insall_step(n: SNode, s: Seq<Entry>, i: int)
    requires 0 <= i < s.len()
    ensures #[trigger] insall(n, s.take(i + 1)) == insfn(insall(n, s.take(i)), s[i].0, s[i].1)
{ let s2 = s.take(i + 1); assert(s2.drop_last() =~= s.take(i)); }
pub broadcast proof fn b_insall_nil(n: SNode, s: Seq<Entry>)
    ensures #[trigger] insall(n, s.take(0)) == n
{}
pub broadcast proof fn b_insall_end(n: SNode, s: Seq<Entry>)
    ensures #[trigger] insall(n, s.take(s.len() as int)) == insall(n, s)
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast group b_insall { b_insall_step, b_insall_nil, b_insall_end }
} // mod bulkspec
pub use crate::bulkspec::*;
