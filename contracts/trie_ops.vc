%module m_ops
%defaultuse g_path g_view g_cell
%type WrappedNode
%type Node
%type INST
%type InsertEntry
%type ValOrHash
%type ExistingAndNewNodePreAndPost
%type ExistingOrNewBranchValuePlacement
%type TrieNodeType
%always INST::deref AsRef<Node>forWrappedNode From<(Nibbles,ValOrHash)>forInsertEntry From<Node>forWrappedNode INST::new From<&Arc<Box<INST>>>forTrieNodeType From<&Node>forTrieNodeType

%fn INST::deref
%as v_deref
    ensures *r == inner(*self)
%end
%fn INST::new
%inst StandardTrie
    ensures inner(r) == n, cell_ok(r)
%inst HashedPartialTrie
    ensures inner(r) == node, cell_ok(r)
%anyinst
%end

%fn AsRef<Node>forWrappedNode
%as v_as_ref_wn
    ensures *r == inner(***self__)
%end

%fn From<(Nibbles,ValOrHash)>forInsertEntry
%as v_from_entry
    ensures r.nibbles == arg0.0, r.v == arg0.1
%end

%fn From<Node>forWrappedNode
%as v_from_node
    ensures inner(**r) == v, cell_ok(**r)
%end
%fn From<&Arc<Box<INST>>>forTrieNodeType
%as v_kind_wn
    ensures r == kind(inner(***value))
%end
%fn From<&Node>forTrieNodeType
%as v_kind_node
    ensures r == kind(*node)
%end

%fn Node::trie_get
    requires ninv(*self), k.wf()
    ensures match lk(view(*self), k@) { Some(VH::Val(v)) => r is Some && r->Some_0@ == v, _ => r is None }
%end

%fn Node::trie_get_intern
%use b_nibs16
    requires ninv(*self), old(curr_nibbles).wf()
    ensures match lk(view(*self), old(curr_nibbles)@) { Some(VH::Val(v)) => r is Some && r->Some_0@ == v, _ => r is None }
    decreases *self
%end

// ---------------------------------------------------------------- insertion
%fn Node::trie_insert
%use g_ins b_cano_use
    requires ninv(*old(self)), wfd(view(*old(self)), 64), k.wf(), k.count <= 64, vh_ok(vh(v))
%mode A
        , !bl(view(*old(self)), k@), v is Val
%anymode
    ensures
        upd(view(*final(self)), view(*old(self)), k@, vh(v)),
        wfd(view(*final(self)), 64), ninv(*final(self))
%mode B
        , !bl(view(*old(self)), k@)
%anymode
%end

%fn insert_into_trie_rec
%use g_ins g_placed
%hide lk
    requires ninv(*node), wfd(view(*node), 64), new_node.nibbles.wf(), new_node.nibbles.count <= 64, vh_ok(vh(new_node.v))
%mode A
        , !bl(view(*node), new_node.nibbles@), new_node.v is Val
%anymode
    ensures r is Some,
        upd(wv(r->Some_0), view(*node), new_node.nibbles@, vh(new_node.v)),
        cano(wv(r->Some_0), view(*node), new_node.nibbles@, vh(new_node.v)),
        node is Branch ==> wv(r->Some_0) is Branch,
        winv(r->Some_0)
%mode B
        , !bl(view(*node), new_node.nibbles@)
%anymode
    decreases *node
%proof
    reveal_with_fuel(bl, 2);
    let _ = lk(SNode::Empty, seq![]);
%end

%fn create_node_from_insert_val
    requires nibbles.wf()
    ensures wv(r) == single_entry(nibbles@, vh(value)), winv(r)
%proof
    reveal_with_fuel(view, 2);
    reveal_with_fuel(ninv, 2);
%end

%fn branch
    requires forall|i: int| 0 <= i < 16 ==> winv(#[trigger] children[i])
    ensures wv(r) == (SNode::Branch { children: cv(children), value: value@ }), winv(r)
%end
%fn branch_from_insert_val
    requires forall|i: int| 0 <= i < 16 ==> winv(#[trigger] children[i])
%mode A
        , value is Val
%anymode
    ensures value is Val, wv(r) == (SNode::Branch { children: cv(children), value: value->Val_0@ }), winv(r)
%end
%fn extension
    requires nibbles.wf(), winv(child)
    ensures wv(r) == (SNode::Ext { nibs: nibbles@, child: Box::new(wv(child)) }), winv(r)
%end
%fn leaf
    requires nibbles.wf()
    ensures wv(r) == (SNode::Leaf { nibs: nibbles@, value: value@ }), winv(r)
%end
%fn leaf_from_insert_val
    requires nibbles.wf()
%mode A
        , value is Val
%anymode
    ensures value is Val, wv(r) == (SNode::Leaf { nibs: nibbles@, value: value->Val_0@ }), winv(r)
%end

%fn get_pre_and_postfixes_for_existing_and_new_nodes
    requires existing_node_nibbles.wf(), new_node_nibbles.wf()
    ensures ({
        let a = existing_node_nibbles@; let b = new_node_nibbles@; let l = r.common_prefix@.len() as int;
        &&& r.common_prefix.wf() && r.existing_postfix.wf() && r.new_postfix.wf()
        &&& l <= a.len() && l <= b.len()
        &&& r.common_prefix@ == a.take(l) && r.common_prefix@ == b.take(l)
        &&& r.existing_postfix@ == a.skip(l) && r.new_postfix@ == b.skip(l)
        &&& (l < a.len() && l < b.len() ==> a[l] != b[l])
    })
%end

%fn new_branch_child_arr
    ensures forall|i: int| 0 <= i < 16 ==> (#[trigger] r[i] == r[i]) && wv(r[i]) is Empty && winv(r[i])
%end

%fn ins_entry_into_leaf_and_nibble
    requires info.new_postfix.wf(), entry.nibbles.wf(), info.new_postfix@.len() > 0, info.common_prefix.wf(), entry.nibbles@ == info.common_prefix@ + info.new_postfix@
    ensures r.0 == info.new_postfix@[0], r.0 < 16, wv(r.1) == single_entry(info.new_postfix@.skip(1), vh(entry.v)), winv(r.1)
%end

%fn check_if_existing_or_new_node_should_go_in_branch_value_field
    requires pre_ok(*info, existing_node, new_node_entry)
%mode A
        , new_node_entry.v is Val
%anymode
    ensures match r {
        ExistingOrNewBranchValuePlacement::BranchValue(v, (nib, node)) => winv(node) && nib < 16 && (
            (info.existing_postfix@.len() == 0 && v@ == wv(existing_node)->Leaf_value && nib == info.new_postfix@[0] && wv(node) == single_entry(info.new_postfix@.skip(1), vh(new_node_entry.v)))
            || (info.existing_postfix@.len() > 0 && info.new_postfix@.len() == 0 && vh(new_node_entry.v) == VH::Val(v@) && nib == info.existing_postfix@[0] && wv(node) == wv(existing_node))),
        ExistingOrNewBranchValuePlacement::BothBranchChildren((n1, c1), (n2, c2)) =>
            info.existing_postfix@.len() > 0 && info.new_postfix@.len() > 0 && winv(c1) && winv(c2) && n1 < 16 && n2 < 16 && (
            (n1 == info.existing_postfix@[0] && wv(c1) == wv(existing_node) && n2 == info.new_postfix@[0] && wv(c2) == single_entry(info.new_postfix@.skip(1), vh(new_node_entry.v)))
            || (n2 == info.existing_postfix@[0] && wv(c2) == wv(existing_node) && n1 == info.new_postfix@[0] && wv(c1) == single_entry(info.new_postfix@.skip(1), vh(new_node_entry.v)))),
    }
%end

%fn place_branch_and_potentially_ext_prefix
%use b_placed
    requires pre_ok(*info, existing_node, new_node)
%mode A
        , new_node.v is Val
%anymode
    ensures placed(wv(r), info.common_prefix@, info.existing_postfix@, info.new_postfix@, wv(existing_node), vh(new_node.v)), winv(r)
%end

// ----------------------------------------------------------------- deletion
%fn Node::trie_delete
%use g_del b_dcano_use
    requires ninv(*old(self)), wfd(view(*old(self)), 64), k.wf(), k.count <= 64
%mode A
        , !bl(view(*old(self)), k@)
%anymode
    ensures
        match r {
            Some(val) => lk(view(*old(self)), k@) == Some(VH::Val(val@)) && del(view(*final(self)), view(*old(self)), k@),
            None => lk(view(*old(self)), k@) is None && *final(self) == *old(self),
        },
        wfd(view(*final(self)), 64), ninv(*final(self))
%mode B
        , !bl(view(*old(self)), k@)
%anymode
%end

%fn delete_intern
%use g_del
    requires ninv(*node), wfd(view(*node), 64), curr_k.wf(), curr_k.count <= 64
%mode A
        , !bl(view(*node), curr_k@)
%anymode
    ensures
        r is Some ==> lk(view(*node), curr_k@) == Some(VH::Val(r->Some_0.1@)),
        r is Some ==> del(wv(r->Some_0.0), view(*node), curr_k@),
        r is Some ==> dcano(wv(r->Some_0.0), view(*node), curr_k@),
        r is Some ==> winv(r->Some_0.0),
        r is Some && node is Branch ==> !(wv(r->Some_0.0) is Empty),
        r is None ==> lk(view(*node), curr_k@) is None
%mode B
        , !bl(view(*node), curr_k@)
%anymode
    decreases *node
%proof
    reveal_with_fuel(bl, 2);
%end

%fn try_collapse_if_extension
%use g_del
    requires winv(node), pwfd(wv(node), 64)
    ensures eqv(wv(r), wv(node)), fixes(wv(r), wv(node)), winv(r), wv(node) is Empty == wv(r) is Empty
%end

%fn collapse_ext_node_if_needed
%use g_del
    requires winv(*child), ext_nibbles.wf(), !(wv(*child) is Empty), 1 <= ext_nibbles@.len() <= 64, pwfd(wv(*child), (64 - ext_nibbles@.len()) as nat)
    ensures wv(r) == merged(ext_nibbles@, wv(*child)), winv(r)
%end

%fn get_num_non_empty_children
    ensures r == nec(cv(*children), 16)
%loop 0
    invariant i__0 <= 16, s__0@ == children@, acc__0 == nec(cv(*children), i__0 as nat), acc__0 <= i__0
    decreases 16 - i__0
%end

%fn get_other_non_empty_child_and_nibble_in_two_elem_branch
%use b_found
    requires others(*children, our_nib) > 0
    ensures r.0 < 16, r.0 != our_nib, *r.1 == children[r.0 as int], !(wv(*r.1) is Empty)
%loop 0
    invariant i__0 <= 16, s__0@ == children@,
        found_ok(acc__0, *children, our_nib, i__0 as int)
    decreases 16 - i__0
%end

%fn node_is_empty
    ensures r == (wv(*node) is Empty)
%end
