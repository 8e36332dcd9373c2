%module m_query
%defaultuse g_path g_view g_query
%type PathSegment
%type NodePath
%type DebugQuery
%type DebugQueryParams
%type DebugQueryOutput
%type DebugQueryParamsBuilder
%type ExtraNodeSegmentInfo

%fn From<Nibbles>forDebugQuery
%as v_from_query
    ensures r.k == k, r.params.include_node_type, r.params.include_key_piece_per_node
%end
%fn DebugQueryParamsBuilder::build
    ensures r.k == k, r.params == self.params
%end
%fn DebugQueryParamsBuilder::print_key_pieces
    ensures r.params == (DebugQueryParams { include_key_piece_per_node: enabled, ..self.params })
%end
%fn DebugQueryParamsBuilder::print_node_type
    ensures r.params == (DebugQueryParams { include_node_type: enabled, ..self.params })
%end
%fn DebugQueryParamsBuilder::print_node_specific_values
    ensures r.params == (DebugQueryParams { include_node_specific_values: enabled, ..self.params })
%end
%fn ExtraNodeSegmentInfo::from_node
    ensures match *n { Node::Hash(h) => r == Some(ExtraNodeSegmentInfo::Hash(h)), Node::Branch { .. } => r is Some && r->Some_0 is Branch, Node::Leaf { nibbles, value } => r is Some && r->Some_0 is Leaf && r->Some_0->Leaf_value@ == value@, _ => r is None }
%end
%fn create_child_mask_from_children
%loop 0
    invariant i__0 <= 16, s__0@ == children@
    decreases 16 - i__0
%end
%fn DebugQueryOutput::new
    ensures r.k == k, r.params == params, !r.node_found, qv(r).len() == 0, r.extra_node_info@.len() == 0
%end
%fn NodePath::append
    ensures final(self).0@ == old(self).0@.push(seg)
%end
%fn get_key_piece_from_node_pulling_from_key_for_branches
    requires ninv(*n), curr_key.wf()
    ensures r.wf(), r@ == piece(view(*n), curr_key@)
%end
%fn get_segment_from_node_and_key_piece
%use b_nibs16
    requires k_piece.wf()
    ensures sg(r) == segof(view(*n), k_piece@), segok(r)
%end
%fn get_next_nibbles_from_node_key_clamped
    requires key.wf()
    ensures r.wf(), r@ == key@.take(if n_nibs <= key@.len() { n_nibs as int } else { key@.len() as int })
%end
%fn get_path_from_query
    requires ninv(*trie), q.k.wf()
    ensures r.k == q.k, r.params == q.params, qv(r) == qpath(view(*trie), q.k@), r.node_found == qfound(view(*trie), q.k@), r.extra_node_info@.len() == qv(r).len(), r.k.wf(), qv(r).len() >= 1, segsok(r.node_path.0@)
%end
%fn get_path_from_query_rec
%use b_nibs16
    requires ninv(*node), old(curr_key).wf(), !old(query_out).node_found, segsok(old(query_out).node_path.0@), old(query_out).extra_node_info@.len() == qv(*old(query_out)).len()
    ensures final(query_out).k == old(query_out).k, final(query_out).params == old(query_out).params,
        qv(*final(query_out)) == qv(*old(query_out)) + qpath(view(*node), old(curr_key)@),
        final(query_out).node_found == qfound(view(*node), old(curr_key)@),
        final(query_out).extra_node_info@.len() == qv(*final(query_out)).len(),
        segsok(final(query_out).node_path.0@), qv(*final(query_out)).len() >= 1
    decreases *node
%end

%fn PathSegment::node_type
    ensures r == stype(sg(*self))
%end
%fn PathSegment::get_key_piece_from_seg_if_present
    requires segok(*self)
    ensures r is Some <==> skey(sg(*self)) is Some, r is Some ==> r->Some_0.wf() && r->Some_0@ == skey(sg(*self))->Some_0
%end
%fn DebugQueryOutput::fmt_node_based_on_debug_params
%opt show
%use b_showed
    requires segok(*seg), short1(sg(*seg))
    ensures old(f).good() ==> r is Ok && final(f).good() && showed(*old(f), *final(f), shown1(sg(*seg), *params), seq![])
%end
%fn DisplayforDebugQueryOutput
%opt show
%use b_showed b_shown0 b_shown_next
    requires self__.k.wf(), self__.k@.len() <= 64, segsok(self__.node_path.0@), shorts(self__.node_path.0@), qv(*self__).len() >= 1, self__.extra_node_info@.len() == qv(*self__).len()
    ensures old(f).good() ==> r is Ok && final(f).good() && showed(*old(f), *final(f), header(*self__) + shown(qv(*self__), self__.params), seq![self__.node_found])
%proof
    reveal(showed);
    assert(qv(*self__).take(qv(*self__).len() as int) =~= qv(*self__));
%loop 0
    invariant i__0 < qv(*self__).len(), s__0@ == self__.node_path.0@,
        old(f).good() ==> f.good() && showed(*old(f), *f, header(*self__) + shown(qv(*self__).take(i__0 as int), self__.params), seq![self__.node_found])
    decreases s__0.len() - i__0
%end
