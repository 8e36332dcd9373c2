"""Which functions each property's obligations are generated from."""
NIB = ['nibbles.vc']
OPS = NIB + ['trie_ops.vc', 'wrap.vc']
CONV = NIB + ['nibconv.vc']
HASH = CONV + ['trie_ops.vc', 'wrap.vc', 'hash.vc']
PRELUDES = {
    'StandardTrie': ['prelude_base.rs', 'prelude_std.rs', 'prelude_trie.rs', 'prelude_enc.rs'],
    'HashedPartialTrie': ['prelude_base.rs', 'prelude_hashed.rs', 'prelude_trie.rs', 'prelude_enc.rs'],
}
HASHED = ['HashedPartialTrie']
INSTS = ['StandardTrie', 'HashedPartialTrie']


def both(modes, overlays, roots, preludes=(), insts=INSTS):
    return [dict(inst=i, mode=m, overlays=overlays, roots=roots, preludes=list(preludes)) for i in insts for m in modes]


CANON = ['cano(', 'wfd(']
PANIC = ['!bl(']
TRIE = ['m_ops', 'm_wrap']
NIBROOTS = '''Nibbles::from_nibble
Nibbles::get_nibble
Nibbles::pop_next_nibble_front
Nibbles::pop_next_nibble_back
Nibbles::get_next_nibbles
Nibbles::pop_nibbles_front
Nibbles::pop_nibbles_back
Nibbles::push_nibble_front
Nibbles::push_nibble_back
Nibbles::push_nibbles_front
Nibbles::get_nibble_range
Nibbles::truncate_n_nibbles_front
Nibbles::truncate_n_nibbles_back
Nibbles::truncate_n_nibbles_front_mut
Nibbles::truncate_n_nibbles_back_mut
Nibbles::is_empty
Nibbles::nibbles_are_identical_up_to_smallest_count
Nibbles::split_at_idx
Nibbles::split_at_idx_prefix
Nibbles::split_at_idx_postfix
Nibbles::merge_nibble
Nibbles::merge_nibbles
Nibbles::reverse
Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths
Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths'''.split()
CONVPRE = ['prelude_base.rs', 'prelude_conv.rs']
HPROOTS = ['Nibbles::to_hex_prefix_encoding', 'Nibbles::from_hex_prefix_encoding']
CONVROOTS = ['Nibbles::from_bytes_be', 'Nibbles::from_bytes_le', 'Nibbles::from_h256_be', 'Nibbles::from_h256_le', 'Nibbles::bytes_be', 'ToNibbles::to_nibbles_byte_padded'] + [
    t + '::to_nibbles' for t in 'u8 u16 u32 u64 U128 U256 U512'.split()]
VALROOTS = [f'From<{t}>forValOrHash' for t in 'Vec<u8> &[u8] H256 u8 u16 u32 u64 U128 U256 U512'.split()] + ['ValOrHash::expect_val', 'ValOrHash::expect_hash']
TEXTROOTS = ['FromStrforNibbles', 'LowerHexforNibbles', 'UpperHexforNibbles', 'DisplayforNibbles']
SUBROOTS = ['create_trie_subset', 'create_trie_subsets']
SUBPRE = ['prelude_rlp.rs', 'prelude_subset.rs']
# Kani harness in kani/ -> the assumed contracts it discharges
KANI = {
    'bit_of_nibble': [], 'ext': ['axiom: ax_bit_range', 'axiom: ax_u512_ext', 'external_body: eq [PartialEq for U512]'],
    'one_zero': ['external_body: one [U512]', 'external_body: zero [U512]'],
    'byte': ['external_body: byte [U512]'], 'bits': ['external_body: bits [U512]'],
    'shl': ['external_body: u512_shl'], 'shr': ['external_body: u512_shr'],
    'logic': ['external_body: u512_bitand', 'external_body: u512_bitor', 'external_body: bitxor [BitXor<U512> for U512]', 'external_body: not [Not for U512]'],
    'sub': ['external_body: sub [Sub<i32> for U512]'],
    'into': [f'external_body: vinto [VInto<U512> for {t}]' for t in 'u8 u16 u32 u64 i32 U128 U256'.split()],
    'to_big_endian': ['external_body: to_big_endian [U512]'],
    'from_big_endian': ['external_body: from_big_endian [U512]'], 'from_little_endian': ['external_body: from_little_endian [U512]'],
    'bytes_of_u128_u256': [f'external_body: to_{e}_endian [{t}]' for e in ('big', 'little') for t in ('U128', 'U256')],
    'bytes_of_ints': [f'external_body: vto_{e}_bytes [VBytes for {t}]' for e in ('be', 'le') for t in 'u8 u16 u32 u64'.split()],
    'leading_zeros': [f'external_body: vleading_zeros [VNum for {t}]' for t in 'u8 u16 u32 u64'.split()],
    'leading_zeros_wide': [f'external_body: vleading_zeros [VNum for {t}]' for t in 'U128 U256 U512'.split()],
    'h256': ['external_body: as_bytes [H256]', 'external_body: from_slice [H256]', 'external_body: eq [PartialEq for H256]'],
}
KANI_U512 = 'bit_of_nibble ext one_zero byte bits shl shr logic sub'.split()
KANI_CONV = 'into to_big_endian from_big_endian from_little_endian leading_zeros leading_zeros_wide h256'.split()
KANI_VALS = ['bytes_of_u128_u256', 'bytes_of_ints']
BOUNDED = 'bounded: not yet under contract; the real crate is run on seeded random inputs (keys up to 64 nibbles, histories up to about 60 operations) and compared with an independent reference'
PROPS = {
    'C01': dict(level='proof', units=both('AB', OPS, ['INST::insert', 'INST::get']), modules=TRIE, other_clauses=CANON + PANIC,
                note='insert and get of the trie types down to the packed nibble arithmetic are proved for all tries and keys; U512 operations are used through contracts discharged in C11 and C12, Vec and Bytes operations through assumed contracts'),
    'C02': dict(level='proof', units=both('A', OPS, ['INST::get']), modules=TRIE,
                note='get proved equal to the lookup function of the node tree for all tries and keys; U512 operations are used through contracts discharged in C11 and C12, Vec operations through assumed contracts'),
    'C03': dict(level='proof', units=both('AB', OPS, ['INST::delete', 'INST::get']), modules=TRIE, other_clauses=CANON + PANIC,
                note='delete and get proved for all canonical tries and keys; U512 operations are used through contracts discharged in C11 and C12, Vec operations through assumed contracts'),
    'C04': dict(level='proof', units=both('A', OPS, ['INST::insert', 'INST::delete', 'INST::get'], preludes=['prelude_uniq.rs']), modules=TRIE, other_clauses=PANIC,
                note='insert and delete are proved to keep the trie canonical and to change one entry; a canonical trie without hashed-out parts is proved to be determined by its entries, so is its root hash; U512 operations are used through contracts discharged in C11 and C12, Vec operations through assumed contracts'),
    'C05': dict(level='proof', units=both('A', NIB + ['trie_ops.vc', 'iter.vc'], ['INST::items', 'INST::keys', 'INST::values', 'PartialTrieIter::next'], preludes=['prelude_iter.rs']), modules=['m_iter'],
                note='the items still to come are a function of the state of the iterator, and next is proved to yield and remove the first of them for all states; the items of a new iterator are proved to be exactly what lookups find, each once'),
    'C06': dict(level='proof', units=both('A', HASH, ['INST::hash'], preludes=['prelude_rlp.rs']), modules=['m_hash', 'm_conv', 'm_ops'],
                note='the root hash of every canonical trie is proved equal to the Yellow Paper definition; Keccak is an uninterpreted function, the RLP stream, U512 operations are used through contracts discharged in C11 and C12, Vec operations through assumed contracts'),
    'C07': dict(level='proof', units=both('A', HASH, ['INST::hash', 'INST::insert', 'INST::delete', 'INST::get'], preludes=['prelude_rlp.rs'], insts=HASHED)
                + both('B', OPS + ['bulk.vc'], ['INST::extend', 'INST::from_iter', 'INST::deref_mut'], preludes=['prelude_bulk.rs'], insts=HASHED),
                modules=['m_hash', 'm_conv', 'm_ops', 'm_wrap'], other_clauses=CANON + PANIC + ['upd(', 'del(', 'chain('],
                note='every cache of a node is proved to be new or to belong to that very node after every operation, and only the hash standing for the node is written into it'),
    'C08': dict(level='proof', units=both('A', HASH + ['subset.vc'], SUBROOTS, preludes=SUBPRE), modules=['m_subset', 'm_batch', 'm_hash', 'm_conv', 'm_ops'], other_clauses=['mk(', 'mark(', 'smarks(', 'serr(', 'kerr(', 'keep(', 'subt(', 'subcs(', 'subsets_of('],
                note='a subset, however the nodes are chosen, is proved to have the root hash of the full trie and to be referred to like it, for all canonical tries and keys; rests on the contract of hashing (C06)'),
    'C09': dict(level='proof', units=both('A', HASH + ['subset.vc'], SUBROOTS, preludes=SUBPRE), modules=['m_subset', 'm_batch'], other_clauses=['root(', 'refeq('],
                note='the subset is proved to be the tree in which exactly what no key comes to is replaced by its hash, if it has one; that requested keys find the same in it and all nodes on their way is a theorem about that tree; errors are proved to be reported exactly for keys that continue into a hashed-out part'),
    'C10': dict(level='proof', units=both('A', HASH + ['subset.vc'], SUBROOTS, preludes=SUBPRE), modules=['m_batch'], other_clauses=['root(', 'refeq('],
                note='creation of one subset and of several are proved to give the same function of trie and keys; resetting is proved to clear every mark'),
    'C11': dict(level='proof', units=[dict(inst='StandardTrie', mode='A', overlays=NIB, roots=NIBROOTS, base=['prelude_base.rs'])], kani=KANI_U512,
                note='every nibble sequence operation proved against the list of nibbles for all inputs; the contracts of the U512 operations used are discharged by Kani on the real implementation, all bits symbolic'),
    'C12': dict(level='proof', units=[dict(inst='StandardTrie', mode='A', overlays=CONV, roots=CONVROOTS, base=CONVPRE),
                                      dict(inst='StandardTrie', mode='A', overlays=CONV + ['text.vc'], roots=TEXTROOTS, base=CONVPRE + ['prelude_text.rs'])], kani=KANI_CONV,
                note='conversions from and to bytes, integers and text are proved for all inputs; parsing of U512 and encoding of bytes as text (crates uint and hex) are used through assumed contracts'),
    'C13': dict(level='proof', units=[dict(inst='StandardTrie', mode='A', overlays=CONV, roots=HPROOTS, base=CONVPRE)],
                note='hex-prefix encoding and decoding proved for all paths and byte strings, decoding inverts encoding as a theorem over the two contracts'),
    'C14': dict(level='proof', units=[dict(u, preludes=u['preludes'] + (['prelude_eq_std.rs'] if u['inst'] == 'StandardTrie' else []), roots=['PartialEqforNode'] if u['inst'] == 'StandardTrie' else ['PartialEqforHashedPartialTrie'])
                                      for u in both('A', OPS + ['eq.vc'], [], preludes=['prelude_eq.rs'])]
                + both('B', OPS + ['bulk.vc'], ['INST::insert', 'INST::delete', 'INST::extend', 'INST::deref_mut'], preludes=['prelude_bulk.rs'])
                + both('A', HASH, ['INST::hash'], preludes=['prelude_rlp.rs'], insts=HASHED),
                modules=['m_eq', 'm_ops', 'm_wrap', 'm_hash'], other_clauses=CANON + PANIC + ['upd(', 'del(', 'chain('],
                note='equality is proved to be equality of the node trees; the only state shared by clones, the cached hashes, is proved to be replaced and not written by every change; that the derived clone copies the node tree is assumed'),
    'C15': dict(level='proof', units=both('AB', OPS, ['INST::insert', 'INST::delete', 'INST::get']) + both('A', HASH + ['subset.vc'], SUBROOTS, preludes=SUBPRE), modules=TRIE + ['m_subset'],
                other_clauses=['upd(', 'del(', 'cano(', 'wfd(', 'mk(', 'mark(', 'smarks(', 'keep(', 'subt(', 'subcs(', 'root(', 'refeq('],
                note='insert, delete and get proved not to panic outside hashed-out parts (mode A) and not to return when the key leads into one (mode B); creating a subset is proved to fail exactly for keys that continue into a hashed-out part'),
    'C16': dict(level='proof', units=both('A', HASH + ['diff.vc'], ['create_diff_between_tries'], preludes=['prelude_rlp.rs', 'prelude_diff.rs'], insts=HASHED), modules=['m_diff'],
                note='a difference is proved to be reported exactly if the root hashes differ, and the reported nodes are proved to be the nodes at the reported key in both tries and to differ; needs, as a precondition, that equal digests at the same place stand for the same part (no Keccak collision); rests on the contract of hashing (C06)'),
    'C17': dict(level='proof', units=both('A', NIB + ['trie_ops.vc', 'query.vc'], ['get_path_from_query', 'From<Nibbles>forDebugQuery', 'DebugQueryParamsBuilder::build', 'DebugQueryParamsBuilder::print_key_pieces', 'DebugQueryParamsBuilder::print_node_type', 'DebugQueryParamsBuilder::print_node_specific_values', 'DisplayforDebugQueryOutput'], preludes=['prelude_query.rs', 'prelude_show.rs']), modules=['m_query'],
                note='the recorded path and the found flag are proved for all tries and keys, and printing is proved to show the key, the flag and the nodes in order with their nibbles, whatever the layout; names of node types and node specific values are checked at run time only'),
    'C18': dict(level='proof', units=both('A', NIB + ['trie_ops.vc', 'stats.vc'], ['get_trie_stats', 'get_trie_stats_with_name', 'TrieStats::compare', 'NodeCounts::compare', 'DepthStats::compare'], preludes=['prelude_stats.rs']), modules=['m_stats'],
                note='node counts, depth sums and the deepest position are proved for all tries whose counts fit the counters; f32 conversion and division are uninterpreted, so the averages are proved to be the quotient of the right sum and the right count'),
    'C19': dict(level='proof', units=both('B', OPS + ['bulkfn.vc'], ['INST::extend', 'INST::from_iter', 'INST::insert'], preludes=['prelude_bulk.rs'])
                + both('B', OPS + ['bulk.vc'], ['INST::extend', 'INST::from_iter'], preludes=['prelude_bulk.rs']), modules=['m_bulk', 'm_wrap'], other_clauses=CANON + PANIC,
                note='bulk operations proved equal to the fold of insertion, taken as a function of the node tree and the entry; with the contract of insertion this gives that the last entry of a key wins'),
    'C20': dict(level='proof', units=[dict(inst='StandardTrie', mode='A', overlays=NIB + ['values.vc'], roots=VALROOTS, base=CONVPRE + ['prelude_vals.rs'])]
                + both('A', OPS, ['INST::insert', 'INST::get']), kani=KANI_VALS, modules=['m_vals', 'm_ops', 'm_wrap'], other_clauses=CANON + PANIC,
                note='every conversion into a trie value is proved, insert and get are proved to store and return the bytes'),
}
for _p in range(1, 21):
    _p = f'C{_p:02}'
    PROPS.setdefault(_p, dict(level='exploration', units=[], note=BOUNDED, search_ms=12000))
PROPS = dict(sorted(PROPS.items()))
