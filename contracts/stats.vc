%module m_stats
%defaultuse g_view
%type TrieStats
%type NodeCounts
%type CurrTrackingState
%type DepthStats
%type TrieComparison
%type NodeComparison
%type DepthComparison
%type RatioStat

%fn CurrTrackingState::update_lowest_depth_if_larger
    ensures sv(*final(self)) == (St { low: if old(self).lowest_depth < curr_depth { curr_depth as nat } else { old(self).lowest_depth as nat }, ..sv(*old(self)) })
%end
%fn get_trie_stats_rec
%use g_stats
    requires fits(stadd(sv(*old(state)), tot(view(*node), curr_depth as nat))), curr_depth + hgt(view(*node)) <= usize::MAX
    ensures sv(*final(state)) == stadd(sv(*old(state)), tot(view(*node), curr_depth as nat))
    decreases *node
%loop 0
    invariant i__0 <= 16, s__0@ == children@, sv(*state) == stadd(sv(*old(state)), addb(ctot(view(*node), i__0 as nat, curr_depth as nat + 1)))
    decreases 16 - i__0
%end
%fn get_trie_stats_common
    requires fits(tot(view(inner(*trie)), 0)), hgt(view(inner(*trie))) <= usize::MAX
    ensures r.name == name, stats_ok(r, tot(view(inner(*trie)), 0))
%end
%fn get_trie_stats
    requires fits(tot(view(inner(*trie)), 0)), hgt(view(inner(*trie))) <= usize::MAX
    ensures stats_ok(r, tot(view(inner(*trie)), 0))
%end
%fn get_trie_stats_with_name
    requires fits(tot(view(inner(*trie)), 0)), hgt(view(inner(*trie))) <= usize::MAX
    ensures stats_ok(r, tot(view(inner(*trie)), 0))
%end
%fn TrieStats::compare
    requires nfits(self.counts), nfits(other.counts)
    ensures ncomp(r.node_comp, self.counts, other.counts), dcomp(r.depth_comp, self.depth_stats, other.depth_stats)
%end
%fn NodeCounts::compare
    requires nfits(*self), nfits(*other)
    ensures ncomp(r, *self, *other)
%end
%fn DepthStats::compare
    ensures dcomp(r, *self, *other)
%end
