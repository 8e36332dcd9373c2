%module m_conv
%defaultuse g_nib
%defaultproof reveal(Nibbles::wf); reveal(nview);

%fn Nibbles::min_bytes
    requires self.count <= 127
    ensures r == (self.count + 1) / 2
%end

%fn Nibbles::from_bytes_be
%only g_is_be
%noproof
    ensures match r {
        Ok(n) => n.wf() && n@ =~= unpack(bytes@) && 1 <= bytes@.len() <= 33,
        Err(e) => bytes@.len() == 0 || bytes@.len() > 32,
    }
%end
%fn Nibbles::from_bytes_le
%only g_is_be
%noproof
    ensures match r {
        Ok(n) => n.wf() && n@ =~= unpack(bytes@.reverse()) && 1 <= bytes@.len() <= 33,
        Err(e) => bytes@.len() == 0 || bytes@.len() > 32,
    }
%end
%fn Nibbles::from_h256_be
%only g_is_be
%noproof
    ensures r.wf(), r.count == 64, r@ =~= unpack(v.0@)
%end
%fn Nibbles::from_h256_le
%only g_is_be
%noproof
    ensures r.wf(), r.count == 64, r@ =~= unpack(v.0@.reverse())
%end
%fn Nibbles::bytes_be
    requires self.wf()
    ensures r@ =~= pack(even(self@))
%end

%fn Nibbles::to_hex_prefix_encoding
    requires self.wf(), self.count <= 126
    ensures r@ =~= hp(self@, is_leaf)
%proof
    assert forall|o: u8, t: u8| o <= 1 && t <= 1 implies #[trigger] ((o | (t << 1)) << 4) == 16 * o + 32 * t by { assert(o <= 1 && t <= 1 ==> ((o | (t << 1)) << 4) == 16 * o + 32 * t) by (bit_vector); }
    assert forall|b: u8, f: u8| b < 16 && f % 16 == 0 implies #[trigger] (b | f) == b + f by { assert(b < 16 && f % 16 == 0 ==> (b | f) == b + f) by (bit_vector); }
%end

%fn Nibbles::from_hex_prefix_encoding
%only g_is_be b_unhp b_byte_hi b_byte_lo b_even g_flags b_byte_shr
%noproof
    ensures match r {
        Ok(n) => 1 <= hex_prefix_bytes@.len() <= 33 && hex_prefix_bytes@[0] / 16 <= 3 && n.wf() && n@ == unhp(hex_prefix_bytes@),
        Err(e) => hex_prefix_bytes@.len() == 0 || hex_prefix_bytes@.len() > 33 || hex_prefix_bytes@[0] / 16 > 3,
    }
%loop 0
    invariant st__0 <= i__0, s__0@ == hex_prefix_bytes@, acc__0@ =~= hex_prefix_bytes@.subrange(st__0 as int, i__0 as int), i__0 <= s__0@.len()
    decreases s__0.len() - i__0
%end
%fn Nibbles::write_byte_iter_to_byte_buf
    requires *old(i) + bytes@.len() <= old(buf)@.len(), old(buf)@.len() <= 1000
    ensures *final(i) == *old(i) + bytes@.len(),
        final(buf)@ =~= old(buf)@.take(*old(i) as int) + bytes@ + old(buf)@.skip(*old(i) + bytes@.len())
%loop 0
    invariant i__0 <= bytes@.len(), s__0@ == bytes@, *i == *old(i) + i__0, buf@.len() == old(buf)@.len(),
        buf@ =~= old(buf)@.take(*old(i) as int) + bytes@.take(i__0 as int) + old(buf)@.skip(*old(i) + i__0),
        *old(i) + bytes@.len() <= old(buf)@.len()
    decreases s__0.len() - i__0
%end

%fn u8::to_nibbles
%only b_digits b_pow2_mono
%noproof

    ensures digits(r, self__.val()), r.count <= 126
%end
%fn u16::to_nibbles
%only b_digits b_pow2_mono
%noproof

    ensures digits(r, self__.val()), r.count <= 126
%end
%fn u32::to_nibbles
%only b_digits b_pow2_mono
%noproof

    ensures digits(r, self__.val()), r.count <= 126
%end
%fn u64::to_nibbles
%only b_digits b_pow2_mono
%noproof

    ensures digits(r, self__.val()), r.count <= 126
%end
%fn U128::to_nibbles
%only b_digits b_pow2_mono
%noproof

    ensures digits(r, self__.val()), r.count <= 126
%end
%fn U256::to_nibbles
%only b_digits b_pow2_mono
%noproof

    ensures digits(r, self__.val()), r.count <= 126
%end
%fn U512::to_nibbles
%only b_digits b_pow2_mono
%noproof
    requires self__.val() < pow2(504)
    ensures digits(r, self__.val()), r.count <= 126
%end
%fn ToNibbles::to_nibbles_byte_padded
%self VAnyNum
%only b_padded
%noproof
    ensures padded(r, self__.v())
%end
