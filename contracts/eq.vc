%module m_eq
%defaultuse g_path g_view g_cell g_same
%always PartialEqforNode

%fn PartialEqforNode
%as veq
%opt veq
    requires ninv(*self), ninv(*other)
    ensures r == same(*self, *other)
    decreases *self, 0nat
%loop 0
    invariant i__0 <= 16, n__0 == 16, acc__0 == forall|i: int| #![trigger c1[i]] 0 <= i < i__0 ==> wsame(**c1[i], **c2[i])
    decreases 16 - i__0
%end
%inst HashedPartialTrie
%fn PartialEqforHashedPartialTrie
%as veq
%opt veq
    requires ninv(inner(*self)), ninv(inner(*other))
    ensures r == wsame(*self, *other)
    decreases inner(*self), 1nat
%end
%anyinst
