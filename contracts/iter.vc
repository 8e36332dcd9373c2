%module m_iter
%defaultuse g_path g_view g_cell g_iter
%type IterStackEntry
%type BranchStackEntry
%type PartialTrieIter

%fn PartialTrieIter::advance_iter_to_next_empty_leaf_or_hash_node
%use b_wfd_nchild b_wfd_ext
    requires itinv(*old(self)), winv(*node), curr_key.wf(), curr_key.count <= 64, wfd(wv(*node), (64 - curr_key.count) as nat), sok(ist(*old(self)), bkey(wv(*node), ikey(*old(self)), curr_key@))
    ensures itinv(*final(self)), sok(ist(*final(self)), ikey(*final(self))),
        opt(r) + rem(ist(*final(self)), ikey(*final(self))) == its(wv(*node), curr_key@) + rem(ist(*old(self)), bkey(wv(*node), ikey(*old(self)), curr_key@)),
        wt(ist(*final(self))) < wt(ist(*old(self))) + sz(wv(*node))
    decreases *node
%end
%fn PartialTrieIter::next
%use b_wfd_child
    requires itok(*old(self))
    ensures itok(*final(self)), opt(r) + irem(*final(self)) == irem(*old(self)), r is None ==> irem(*old(self)) == Seq::<(Seq<u8>, VH)>::empty()
%loop 0
    invariant itok(*self), opt(next_iter_item) + irem(*self) == irem(*old(self))
    decreases wt(ist(*self))
%end
%fn Node::trie_items
%rettype PartialTrieIter
    requires ninv(*self), wfd(view(*self), 64)
    ensures itok(r), irem(r) == its(view(*self), seq![])
%end
%fn Node::trie_keys
%opt drain
    requires ninv(*self), wfd(view(*self), 64)
    ensures keys_of(r@, its(view(*self), seq![]))
%loop 0
    invariant itok(s__0), drained(its(view(*self), seq![]), acc__0@.len(), irem(s__0)), keys_upto(acc__0@, its(view(*self), seq![]), acc__0@.len())
    decreases irem(s__0).len()
%end
%fn Node::trie_values
%opt drain
    requires ninv(*self), wfd(view(*self), 64)
    ensures vals_of(r@, its(view(*self), seq![]))
%loop 0
    invariant itok(s__0), drained(its(view(*self), seq![]), acc__0@.len(), irem(s__0)), vals_upto(acc__0@, its(view(*self), seq![]), acc__0@.len())
    decreases irem(s__0).len()
%end
%fn INST::items
%rettype PartialTrieIter
    requires ninv(inner(*self)), wfd(view(inner(*self)), 64)
    ensures itok(r), irem(r) == its(view(inner(*self)), seq![])
%end
%fn INST::keys
    requires ninv(inner(*self)), wfd(view(inner(*self)), 64)
    ensures keys_of(r@, its(view(inner(*self)), seq![]))
%end
%fn INST::values
    requires ninv(inner(*self)), wfd(view(inner(*self)), 64)
    ensures vals_of(r@, its(view(inner(*self)), seq![]))
%end
