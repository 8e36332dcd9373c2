%module m_vals
%type ValOrHash

%fn From<Vec<u8>>forValOrHash
%as v_val_vec
    ensures r == ValOrHash::Val(value)
%end
%fn From<&[u8]>forValOrHash
%as v_val_slice
    ensures r is Val, r->Val_0@ == value@
%end
%fn From<H256>forValOrHash
%as v_val_h256
    ensures r == ValOrHash::Hash(hash)
%end
%fn From<u8>forValOrHash
%as v_val_u8
    ensures r is Val, is_bew(r->Val_0@, v.val(), 1)
%end
%fn From<u16>forValOrHash
%as v_val_u16
    ensures r is Val, is_bew(r->Val_0@, v.val(), 2)
%end
%fn From<u32>forValOrHash
%as v_val_u32
    ensures r is Val, is_bew(r->Val_0@, v.val(), 4)
%end
%fn From<u64>forValOrHash
%as v_val_u64
    ensures r is Val, is_bew(r->Val_0@, v.val(), 8)
%end
%fn From<U128>forValOrHash
%as v_val_u128
    ensures r is Val, is_bew(r->Val_0@, v.val(), 16)
%end
%fn From<U256>forValOrHash
%as v_val_u256
    ensures r is Val, is_bew(r->Val_0@, v.val(), 32)
%end
%fn From<U512>forValOrHash
%as v_val_u512
    ensures r is Val, r->Val_0@.len() == 64, forall|j: int| 0 <= j < 64 ==> #[trigger] r->Val_0@[j] == byt(v, 63 - j)
%end
%fn ValOrHash::expect_val
    requires self is Val
    ensures r == self->Val_0
%end
%fn ValOrHash::expect_hash
    requires self is Hash
    ensures r == self->Hash_0
%end
