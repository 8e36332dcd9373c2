%module m_diff
%defaultuse g_path g_view g_cell g_diff b_h256_eq
%type TrieDiff
%type DiffPoint
%type NodeInfo
%type DiffDetectionState
%type DepthNodeDiffState
%type DepthDiffPerCallState
%type NodePath
%type PathSegment

%fn create_diff_between_tries
    requires hok(*a, 64), hok(*b, 64), sane(view(inner(*a)), view(inner(*b)))
    ensures r.latest_diff_res is None <==> root(view(inner(*a))) == root(view(inner(*b))),
        r.latest_diff_res is Some ==> realpt(r.latest_diff_res->Some_0, Seq::empty(), view(inner(*a)), view(inner(*b)))
%end
%fn find_latest_diff_point_between_tries
    requires hok(*a, 64), hok(*b, 64), sane(view(inner(*a)), view(inner(*b)))
    ensures r is None <==> root(view(inner(*a))) == root(view(inner(*b))),
        r is Some ==> realpt(r->Some_0, Seq::empty(), view(inner(*a)), view(inner(*b)))
%end
%fn DepthDiffPerCallState::new
    ensures r.a == a, r.b == b, r.curr_key == curr_key, r.curr_depth == curr_depth
%end
%fn DepthDiffPerCallState::new_from_parent
    requires self.curr_key.wf(), key_piece.wf(), self.curr_key@.len() + key_piece@.len() <= 64, self.curr_depth < usize::MAX
    ensures r.a == a, r.b == b, r.curr_key.wf(), r.curr_key@ == self.curr_key@ + key_piece@, r.curr_depth == self.curr_depth + 1
%end
%fn find_latest_diff_point_between_tries_rec
    requires dok(*state), state.curr_depth <= state.curr_key@.len(), sane(sa(*state), sb(*state))
    ensures r is NoDiffDetected <==> root(sa(*state)) == root(sb(*state)),
        r is NoDiffDetected ==> *final(depth_state) == *old(depth_state),
        !(r is NoDiffDetected) ==> found(*final(depth_state)),
        steps(*old(depth_state), *final(depth_state), state.curr_key@, sa(*state), sb(*state))
    decreases sa(*state)
%loop 0
    invariant i__0 <= 16,
        most_significant_diff_found is NoDiffDetected ==> *depth_state == *old(depth_state),
        !(most_significant_diff_found is NoDiffDetected) ==> found(*depth_state),
        steps(*old(depth_state), *depth_state, state.curr_key@, sa(*state), sb(*state))
    decreases 16 - i__0
%end
%fn DepthNodeDiffState::try_update_longest_divergence_key_hash
    requires dok(*state), differ(sa(*state), sb(*state))
    ensures final(self).longest_key_hash_diff is Some, final(self).longest_key_node_diff == old(self).longest_key_node_diff,
        step(old(self).longest_key_hash_diff, final(self).longest_key_hash_diff, state.curr_key@, sa(*state), sb(*state))
%end
%fn DepthNodeDiffState::try_update_longest_divergence_key_node
    requires dok(*state), differ(sa(*state), sb(*state))
    ensures final(self).longest_key_node_diff is Some, final(self).longest_key_hash_diff == old(self).longest_key_hash_diff,
        step(old(self).longest_key_node_diff, final(self).longest_key_node_diff, state.curr_key@, sa(*state), sb(*state))
%end
%fn DepthNodeDiffState::replace_longest_field_if_our_key_is_larger
    requires parent_k.wf(), parent_k@.len() <= 64, hok(*child_a, (64 - parent_k@.len()) as nat), hok(*child_b, (64 - parent_k@.len()) as nat), differ(view(inner(*child_a)), view(inner(*child_b)))
    ensures *final(field) is Some, step(*old(field), *final(field), parent_k@, view(inner(*child_a)), view(inner(*child_b)))
%end
%fn DiffPoint::new
    requires parent_k.wf(), parent_k@.len() <= 64, hok(*child_a, (64 - parent_k@.len()) as nat), hok(*child_b, (64 - parent_k@.len()) as nat), differ(view(inner(*child_a)), view(inner(*child_b)))
    ensures realpt(r, parent_k@, view(inner(*child_a)), view(inner(*child_b)))
%end
%fn NodeInfo::new
    requires hok(*n, 64), key.wf()
    ensures r.key == key, r.value == value, r.node_type == skind(view(inner(*n))), r.hash == root(view(inner(*n)))
%end
%fn get_value_from_node
    requires ninv(*n)
    ensures match r { Some(v) => valof(view(*n)) == Some(v@), None => valof(view(*n)) is None }
%end
%fn get_key_piece_from_node
    requires ninv(*n)
    ensures r.wf(), r@ == own(view(*n))
%end
%fn get_segment_from_node_and_key_piece
    requires k_piece.wf()
%end
%fn NodePath::dup_and_append
%end
%fn DiffDetectionState::pick_most_significant_state
    ensures r == *self || r == *other, r is NoDiffDetected <==> *self is NoDiffDetected && *other is NoDiffDetected
%end
%fn DiffDetectionState::get_int_repr
    ensures r == rank(self)
%end
%fn create_diff_detection_state_based_from_hash_and_gen_hashes
    requires dok(*state)
    ensures r is NoDiffDetected <==> root(sa(*state)) == root(sb(*state)),
        r is NoDiffDetected ==> *final(depth_state) == *old(depth_state),
        !(r is NoDiffDetected) ==> found(*final(depth_state)),
        steps(*old(depth_state), *final(depth_state), state.curr_key@, sa(*state), sb(*state))
%end
%fn create_diff_detection_state_based_from_hashes
    requires dok(*state), *a_hash == root(sa(*state)), *b_hash == root(sb(*state))
    ensures r is NoDiffDetected <==> *a_hash == *b_hash,
        r is NoDiffDetected ==> *final(depth_state) == *old(depth_state),
        !(r is NoDiffDetected) ==> found(*final(depth_state)),
        steps(*old(depth_state), *final(depth_state), state.curr_key@, sa(*state), sb(*state))
%end
