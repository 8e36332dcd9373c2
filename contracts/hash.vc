%module m_hash
%defaultuse g_path g_view g_cell g_enc
%type EncodedNode
%always From<&EncodedNode>forH256

%fn From<&EncodedNode>forH256
%as v_h256_from_enc
    ensures r == enc_root(*v)
%end
%fn hash_bytes
    ensures H256(r) == kec(bytes@)
%end
%fn bytes_to_h256
    ensures r == H256(*b)
%end
%fn hash_bytes_if_large_enough
    ensures sized(r, bytes@)
%end
%fn append_to_stream
    requires old(s).k() < old(s).n()
    ensures final(s).n() == old(s).n(), final(s).k() == old(s).k() + 1, final(s).p() == old(s).p() + eref(node)
%end
%fn rlp_encode_and_hash_node
    requires ninv(*node), settled(*node), wfd(view(*node), 64)
    ensures encodes(r, view(*node))
    decreases *node, 0nat
%use b_refs b_wfd_nchild b_wfd_ext
%hide enc refs cref rlp_bytes rlp_list hp root
%loop 0
    invariant i__0 <= 16, s__0@ == children@, stream.n() == 17, stream.k() == i__0, stream.p() == refs(view(*node), i__0 as nat)
    decreases 16 - i__0
%end
%fn hash_trie
    requires ninv(*node), settled(*node), wfd(view(*node), 64)
    ensures r == root(view(*node))
%end
%fn INST::hash_intern
    requires ninv(inner(*self)), settled(inner(*self)), cell_bound(*self), wfd(view(inner(*self)), 64)
    ensures encodes(r, view(inner(*self)))
    decreases inner(*self), 1nat
%end
%fn INST::hash
    requires ninv(inner(*self)), settled(inner(*self)), cell_bound(*self), wfd(view(inner(*self)), 64)
    ensures r == root(view(inner(*self)))
%end
%fn HashedPartialTrie::get_hash
    requires ninv(inner(*self)), settled(inner(*self)), cell_bound(*self), wfd(view(inner(*self)), 64)
    ensures r == root(view(inner(*self)))
%end
%fn HashedPartialTrie::set_hash
    requires cell_bound(*self), v is None || v == href(view(inner(*self)))
%end
