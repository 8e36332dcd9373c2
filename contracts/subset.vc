%module m_subset
%defaultuse g_path g_view g_cell g_subset
%type SubsetTrieResult
%type SubsetTrieError
%type TrackedNodeIntern
%type TrackedNode
%type TrackedNodeInfo

%fn TrackedNode::new
    requires uok(*underlying_node)
    ensures tinv(r), tu(r) == view(inner(*underlying_node)), mk(r) == clear(tu(r))
    decreases view(inner(*underlying_node))
%end
%fn tracked_branch
%hide tinv subt mk clear uok
    requires forall|i: int| 0 <= i < 16 ==> uok(**#[trigger] underlying_children[i])
    ensures forall|i: int| 0 <= i < 16 ==> tinv(#[trigger] r[i]) && tu(r[i]) == wv(underlying_children[i]) && mk(r[i]) == clear(tu(r[i]))
    decreases cv(*underlying_children)
%end
%fn TrackedNodeInfo::new
    ensures r.underlying_node == underlying_node, !r.touched
%end
%fn TrackedNodeInfo::get_nibbles_expected
    requires inner(self.underlying_node) is Extension || inner(self.underlying_node) is Leaf
    ensures inner(self.underlying_node) is Extension ==> *r == inner(self.underlying_node)->Extension_nibbles, inner(self.underlying_node) is Leaf ==> *r == inner(self.underlying_node)->Leaf_nibbles
%end
%fn TrackedNodeInfo::get_hash_node_hash_expected
    requires inner(self.underlying_node) is Hash
    ensures r == inner(self.underlying_node)->Hash_0
%end
%fn TrackedNodeInfo::get_branch_value_expected
    requires inner(self.underlying_node) is Branch
    ensures *r == inner(self.underlying_node)->Branch_value
%end
%fn TrackedNodeInfo::get_leaf_nibbles_and_value_expected
    requires inner(self.underlying_node) is Leaf
    ensures *r.0 == inner(self.underlying_node)->Leaf_nibbles, *r.1 == inner(self.underlying_node)->Leaf_value
%end
%fn mark_nodes_that_are_needed
%use b_nibs16
    requires tinv(*old(trie)), old(curr_nibbles).wf()
    ensures r is Err <==> serr(tu(*old(trie)), old(curr_nibbles)@),
        r is Ok ==> tinv(*final(trie)) && tu(*final(trie)) == tu(*old(trie)),
        r is Ok ==> mk(*final(trie)) == mark(tu(*old(trie)), mk(*old(trie)), old(curr_nibbles)@)
    decreases mk(*old(trie))
%end
%fn create_partial_trie_subset_from_tracked_trie
%use g_refeq
    requires tinv(*tracked_node)
    ensures view(inner(r)) == subt(tu(*tracked_node), mk(*tracked_node)), refeq(view(inner(r)), tu(*tracked_node)), ninv(inner(r)), cell_ok(r)
    decreases mk(*tracked_node), 0nat
%end
%fn partial_trie_extension
%use g_refeq
    requires nibbles.wf(), tinv(*child)
    ensures view(inner(r)) is Ext, view(inner(r))->Ext_nibs == nibbles@, *view(inner(r))->child == subt(tu(*child), mk(*child)), refeq(*view(inner(r))->child, tu(*child)), ninv(inner(r)), cell_ok(r)
    decreases mk(*child), 1nat
%end
%fn partial_trie_branch
%hide tinv subt mk clear uok
    requires forall|i: int| 0 <= i < 16 ==> tinv(#[trigger] underlying_children[i])
    ensures view(inner(r)) is Branch, view(inner(r))->Branch_value == value@, view(inner(r))->children =~= subcs(*underlying_children),
        forall|i: int| 0 <= i < 16 ==> refeq(view(inner(r))->children[i], tu(#[trigger] underlying_children[i])), ninv(inner(r)), cell_ok(r)
    decreases kids(*underlying_children), 1nat
%end
%fn create_trie_subset_intern
%use g_smarks b_kseq g_refeq
    requires tinv(*old(tracked_trie)), keys_wf(keys_involved@)
    ensures r is Err <==> kerr(tu(*old(tracked_trie)), kseq(keys_involved@)),
        r is Ok ==> tinv(*final(tracked_trie)) && tu(*final(tracked_trie)) == tu(*old(tracked_trie)) && ninv(inner(r->Ok_0)) && cell_ok(r->Ok_0),
        r is Ok ==> root(view(inner(r->Ok_0))) == root(tu(*old(tracked_trie))),
        r is Ok ==> view(inner(r->Ok_0)) == subt(tu(*old(tracked_trie)), smarks(tu(*old(tracked_trie)), mk(*old(tracked_trie)), kseq(keys_involved@)))
%loop 0
    invariant i__0 <= keys_involved@.len(), s__0@ == keys_involved@, tinv(*tracked_trie), tu(*tracked_trie) == tu(*old(tracked_trie)),
        mk(*tracked_trie) == smarks(tu(*old(tracked_trie)), mk(*old(tracked_trie)), kseq(keys_involved@).take(i__0 as int)),
        forall|j: int| 0 <= j < i__0 ==> !serr(tu(*old(tracked_trie)), #[trigger] kseq(keys_involved@)[j])
    decreases keys_involved@.len() - i__0
%end
%fn create_trie_subset
%use g_subthm
    requires uok(*trie), keys_wf(keys_involved@)
    ensures r is Err <==> kerr(view(inner(*trie)), kseq(keys_involved@)),
        r is Ok ==> ninv(inner(r->Ok_0)) && cell_ok(r->Ok_0),
        r is Ok ==> root(view(inner(r->Ok_0))) == root(view(inner(*trie))),
        r is Ok ==> view(inner(r->Ok_0)) == keep(view(inner(*trie)), keyset(kseq(keys_involved@)))
%end
%module m_batch
%fn TrackedNodeInfo::reset
    ensures final(self).underlying_node == old(self).underlying_node, !final(self).touched
%end
%fn reset_tracked_trie_state
    requires tinv(*old(tracked_node))
    ensures tinv(*final(tracked_node)), tu(*final(tracked_node)) == tu(*old(tracked_node)), mk(*final(tracked_node)) == clear(tu(*old(tracked_node)))
    decreases mk(*old(tracked_node))
%loop 0
    invariant i__0 <= 16, old(tracked_node).node is Branch,
        forall|j: int| 0 <= j < 16 ==> tinv(#[trigger] children[j]) && tu(children[j]) == tu(*old(tracked_node))->children[j],
        forall|j: int| 0 <= j < i__0 ==> mk(#[trigger] children[j]) == clear(tu(*old(tracked_node))->children[j]),
        forall|j: int| i__0 <= j < 16 ==> #[trigger] children[j] == old(tracked_node).node->Branch_0[j]
    decreases 16 - i__0
%end
%fn create_trie_subsets
%use g_subthm
    requires uok(*base_trie), forall|i: int| 0 <= i < keys_involved@.len() ==> keys_wf((#[trigger] keys_involved@[i])@)
    ensures r is Err <==> exists|i: int| 0 <= i < keys_involved@.len() && kerr(view(inner(*base_trie)), kseq((#[trigger] keys_involved@[i])@)),
        r is Ok ==> same_root(r->Ok_0@, view(inner(*base_trie))),
        r is Ok ==> subsets_of(r->Ok_0@, view(inner(*base_trie)), keys_involved@, keys_involved@.len())
%loop 0
    invariant i__0 <= keys_involved@.len(), s__0@ == keys_involved@, tinv(tracked_trie), tu(tracked_trie) == view(inner(*base_trie)), mk(tracked_trie) == clear(tu(tracked_trie)),
        subsets_of(acc__0@, view(inner(*base_trie)), keys_involved@, i__0 as nat), same_root(acc__0@, view(inner(*base_trie))),
        forall|j: int| 0 <= j < i__0 ==> !kerr(view(inner(*base_trie)), kseq((#[trigger] keys_involved@[j])@))
    decreases keys_involved@.len() - i__0
%end
