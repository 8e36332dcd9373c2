%module m_wrap
%defaultuse g_path g_view g_cell

%fn Node::trie_extend
%use b_chain
    requires ninv(*old(self)), wfd(view(*old(self)), 64), entries_ok(nodes@)
    ensures chain(view(*final(self)), view(*old(self)), nodes@), wfd(view(*final(self)), 64), ninv(*final(self))
%loop 0
    invariant i__0 <= s__0@.len(), s__0@ == nodes@, chain(view(*self), view(*old(self)), nodes@.take(i__0 as int)), wfd(view(*self), 64), ninv(*self)
    decreases s__0@.len() - i__0
%end
%fn INST::extend
    requires ninv(inner(*old(self))), wfd(view(inner(*old(self))), 64), entries_ok(nodes@)
    ensures chain(view(inner(*final(self))), view(inner(*old(self))), nodes@), wfd(view(inner(*final(self))), 64), ninv(inner(*final(self))), cell_ok(*final(self))
%end
%fn INST::from_iter
    requires entries_ok(nodes@)
    ensures chain(view(inner(r)), SNode::Empty, nodes@), wfd(view(inner(r)), 64), ninv(inner(r)), cell_ok(r)
%end
%fn from_iter_common
    requires entries_ok(nodes@)
    ensures chain(view(inner(r)), SNode::Empty, nodes@), wfd(view(inner(r)), 64), ninv(inner(r)), cell_ok(r)
%end
%fn INST::deref_mut
    ensures *r == inner(*old(self)), inner(*final(self)) == *final(r)
%inst HashedPartialTrie
        , fresh(*final(self).hash)
%anyinst
%end
