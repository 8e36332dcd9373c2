%module m_text
%defaultuse g_nib
%type StrToNibblesError

%fn Nibbles::get_num_nibbles_in_key
%only b_top ax_bit_range
    ensures r == top(*k, 128), r <= 128
%end

%fn FromStrforNibbles
%opt text
%hide zeros top body
%only b_parsed b_zeros b_zeros_end b_skip0 b_zeros_ascii b_strip b_no_strip
    ensures forall|d: Seq<u8>| #[trigger] denotes(s@, d) && d.len() <= 64 ==> parsed(r, d)
%proof
    reveal_strlit("0x");
    assert("0x"@ =~= seq!['0', 'x']);
%loop 0
    invariant i__0 <= s__0@.len(),
        acc__0 is None ==> zeros(s__0@) == i__0 + zeros(s__0@.skip(i__0 as int)),
        acc__0 is Some ==> zeros(s__0@) == acc__0->Some_0 && acc__0->Some_0 < s__0@.len()
    decreases s__0.len() - i__0
%end

%fn LowerHexforNibbles
%opt text
%use b_wrote b_denotes b_hex_text_len
    requires self__.wf(), self__.count <= 64
    ensures old(f).good() ==> r is Ok && final(f).good() && wrote(old(f).out(), final(f).out(), self__@)
%proof
    reveal(Nibbles::wf); reveal(nview);
    reveal_strlit("0x");
    assert("0x"@ =~= seq!['0', 'x']);
%loop 0
    invariant st__0 <= i__0 <= s__0@.len(), acc__0@ =~= s__0@.subrange(st__0 as int, i__0 as int)
    decreases s__0.len() - i__0
%end
%fn UpperHexforNibbles
%opt text
%use b_wrote b_denotes b_hex_text_len
    requires self__.wf(), self__.count <= 64
    ensures old(f).good() ==> r is Ok && final(f).good() && wrote(old(f).out(), final(f).out(), self__@)
%proof
    reveal(Nibbles::wf); reveal(nview);
    reveal_strlit("0x");
    assert("0x"@ =~= seq!['0', 'x']);
%loop 0
    invariant st__0 <= i__0 <= s__0@.len(), acc__0@ =~= s__0@.subrange(st__0 as int, i__0 as int)
    decreases s__0.len() - i__0
%end
%fn DisplayforNibbles
%opt text
    requires self__.wf(), self__.count <= 64
    ensures old(f).good() ==> r is Ok && final(f).good() && wrote(old(f).out(), final(f).out(), self__@)
%end
