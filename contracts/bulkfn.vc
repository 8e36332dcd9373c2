// Bulk operations over insertion taken as a function of the node tree and the entry.
%module m_bulk
%defaultuse g_path g_view g_cell

%fn Node::trie_insert
%override
%trusted insertion of an entry is taken as a function of the node tree, the key and the entry (it is deterministic: no state but its arguments); what it computes is the subject of C01 and C04
    ensures view(*final(self)) == insfn(view(*old(self)), k, v)
%end
%fn INST::insert
%override
    ensures view(inner(*final(self))) == insfn(view(inner(*old(self))), k, v)
%end
%fn Node::trie_extend
%use b_insall
    ensures view(*final(self)) == insall(view(*old(self)), nodes@)
%loop 0
    invariant i__0 <= s__0@.len(), s__0@ == nodes@, view(*self) == insall(view(*old(self)), nodes@.take(i__0 as int))
    decreases s__0@.len() - i__0
%end
%fn INST::extend
    ensures view(inner(*final(self))) == insall(view(inner(*old(self))), nodes@)
%end
%fn INST::from_iter
    ensures view(inner(r)) == insall(SNode::Empty, nodes@)
%end
%fn from_iter_common
    ensures view(inner(r)) == insall(SNode::Empty, nodes@)
%end
