%module m_nibbles
%defaultuse g_nib
%defaultproof reveal(Nibbles::wf); reveal(nview);
%type Nibble
%type NibblesIntern
%type Nibbles
%type BytesToNibblesError
%type FromHexPrefixError

%fn is_even
    ensures r == (num % 2 == 0)
%end

%fn create_mask_of_1s
    requires amt < 512
    ensures ones(r, amt as int)
%proof
    lemma_pow2_mono(0, amt as nat);
    assert forall|s: U512| single(s, amt as nat) implies #[trigger] bval(s, 512) == pow2(amt as nat) by { lemma_bval_one(s, amt as int, 512); }
    assert forall|r: U512| #[trigger] bval(r, 512) == pow2(amt as nat) - 1 implies ones(r, amt as int) by { lemma_bval_ones(r, amt as nat, 512); }
%end

%fn Nibbles::from_nibble
    requires n <= 15
    ensures r.wf(), r@ =~= seq![n], r.count == 1
%end

%fn Nibbles::get_nibble
    requires self.wf(), idx < self.count
    ensures r == self@[idx as int], r < 16
%end

%fn Nibbles::pop_next_nibble_front
    requires old(self).wf(), old(self).count > 0
    ensures final(self).wf(), final(self).count == old(self).count - 1, r == old(self)@[0], r < 16, final(self)@ =~= old(self)@.skip(1)
%end

%fn Nibbles::pop_next_nibble_back
    requires old(self).wf(), old(self).count > 0
    ensures final(self).wf(), r == old(self)@.last(), r < 16, final(self)@ =~= old(self)@.drop_last()
%end

%fn Nibbles::get_next_nibbles
    requires self.wf(), n <= self.count
    ensures r.wf(), r@ =~= self@.take(n as int)
%end

%fn Nibbles::pop_nibbles_front
    requires old(self).wf(), n <= old(self).count
    ensures final(self).wf(), r.wf(), r@ =~= old(self)@.take(n as int), final(self)@ =~= old(self)@.skip(n as int)
%end

%fn Nibbles::pop_nibbles_back
    requires old(self).wf(), n <= old(self).count
    ensures final(self).wf(), r.wf(), r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == old(self)@[old(self)@.len() - 1 - i], final(self)@ =~= old(self)@.take(old(self)@.len() - n)
%end

%fn Nibbles::push_nibble_front
    requires old(self).wf(), old(self).count < 64, n < 16
    ensures final(self).wf(), final(self)@ =~= seq![n] + old(self)@
%end

%fn Nibbles::push_nibble_back
    requires old(self).wf(), old(self).count < 64, n < 16
    ensures final(self).wf(), final(self)@ =~= old(self)@.push(n)
%end

%fn Nibbles::push_nibbles_front
    requires old(self).wf(), n.wf(), old(self).count + n.count <= 64
    ensures final(self).wf(), final(self)@ =~= n@ + old(self)@
%end

%fn Nibbles::get_nibble_range
    requires self.wf(), range.start <= range.end <= self.count
    ensures r.wf(), r@ =~= self@.subrange(range.start as int, range.end as int)
%end

%fn Nibbles::truncate_n_nibbles_front
    requires self.wf()
    ensures r.wf(), r@ =~= self@.skip(if n <= self.count { n as int } else { self.count as int })
%end

%fn Nibbles::truncate_n_nibbles_back
    requires self.wf()
    ensures r.wf(), r@ =~= self@.take(if n <= self.count { self.count - n } else { 0 })
%end

%fn Nibbles::truncate_n_nibbles_front_mut
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= old(self)@.skip(if n <= old(self).count { n as int } else { old(self).count as int })
%end

%fn Nibbles::truncate_n_nibbles_back_mut
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= old(self)@.take(if n <= old(self).count { old(self).count - n } else { 0 })
%end

%fn Nibbles::is_empty
    ensures r == (self@.len() == 0)
%end

%fn Nibbles::nibbles_are_identical_up_to_smallest_count
    requires self.wf(), other.wf()
    ensures r == (if self@.len() <= other@.len() { self@.is_prefix_of(other@) } else { other@.is_prefix_of(self@) })
%loop 0
    invariant i__0 <= n__0, n__0 == (if self.count <= other.count { self.count } else { other.count }), n__0 <= self.count, n__0 <= other.count, self.wf(), other.wf(),
        acc__0 == (forall|q: int| 0 <= q < i__0 ==> self@[q] == other@[q])
    decreases n__0 - i__0
%end

%fn Nibbles::split_at_idx
    requires self.wf(), idx <= self.count
    ensures r.0.wf(), r.1.wf(), r.0@ =~= self@.take(idx as int), r.1@ =~= self@.skip(idx as int)
%end

%fn Nibbles::split_at_idx_prefix
    requires self.wf(), idx <= self.count
    ensures r.wf(), r@ =~= self@.take(idx as int)
%end

%fn Nibbles::split_at_idx_postfix
    requires self.wf(), idx <= self.count
    ensures r.wf(), r@ =~= self@.skip(idx as int)
%end

%fn Nibbles::merge_nibble
    requires self.wf(), self.count < 64, post < 16
    ensures r.wf(), r@ =~= self@.push(post)
%end

%fn Nibbles::merge_nibbles
    requires self.wf(), post.wf(), self.count + post.count <= 64
    ensures r.wf(), r@ =~= self@ + post@
%end

%fn Nibbles::reverse
    requires self.wf()
    ensures r.wf(), r@ =~= self@.reverse()
%loop 0
    invariant i__0 <= n__0, n__0 == self.count, self.wf(),
        forall|i: int| #[trigger] mask.bit(i) == (4 * i__0 <= i < 4 * i__0 + 4 && i < 512),
        forall|j: int| 0 <= j < i__0 ==> #[trigger] nib(reversed_packed, j) == nib(self.packed, i__0 - 1 - j),
        forall|i: int| i >= 4 * i__0 ==> !#[trigger] reversed_packed.bit(i),
    decreases n__0 - i__0
%end

%fn Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths
    requires n1.wf(), n2.wf()
    ensures r <= n1.count, r <= n2.count, n1@.take(r as int) =~= n2@.take(r as int), r < n1.count && r < n2.count ==> n1@[r as int] != n2@[r as int]
%end

%fn Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths
    requires n1.wf(), n2.wf(), n1.count == n2.count
%use b_nib_diff
    ensures r <= n1.count, r <= n2.count, n1@.take(r as int) =~= n2@.take(r as int), r < n1.count && r < n2.count ==> n1@[r as int] != n2@[r as int]
%loop 0
    invariant i__0 <= n__0, n__0 == n1.count, n1.count == n2.count, n1.wf(), n2.wf(),
        forall|i: int| #[trigger] curr_mask.bit(i) == (4 * (n1.count - 1 - i__0) <= i < 4 * (n1.count - i__0) && 0 <= i < 512),
        forall|q: int| 0 <= q < i__0 ==> n1@[q] == n2@[q],
    decreases n__0 - i__0
%end
