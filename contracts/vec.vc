@keep trait VecExt
@keep impl VecExt for Vec
@items
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// b with the bytes x written over position p.
pub open spec fn put(b: Seq<u8>, p: int, x: Seq<u8>) -> Seq<u8> {
    Seq::new(b.len(), |i: int| if p <= i < p + x.len() { x[i - p] } else { b[i] })
}
/// A string: its encoded length, then its bytes.
pub open spec fn enc_str(s: Seq<u8>) -> Seq<u8> { enc_var(s.len() as int) + s }
/// A number: one length byte, then its compact encoding.
pub open spec fn enc_number(n: crate::decimal_rs::NumV) -> Seq<u8> { seq![crate::decimal_rs::enc_num(n).len() as u8] + crate::decimal_rs::enc_num(n) }
pub proof fn lemma_b32_put(b: Seq<u8>, p: int, x: int)
    requires 0 <= p, p + 4 <= b.len(), 0 <= x < 0x1_0000_0000
    ensures le32(put(b, p, b32(x)), p) == x, put(b, p, b32(x)).len() == b.len()
{
    lemma_b32(x);
    let c = put(b, p, b32(x));
    assert(c[p] == b32(x)[0] && c[p + 1] == b32(x)[1] && c[p + 2] == b32(x)[2] && c[p + 3] == b32(x)[3]);
}
@end
@fn VecExt::@spec
%spec
    spec fn v(&self) -> Seq<u8>;
@fn VecExt@Vec::@spec
%spec
    open spec fn v(&self) -> Seq<u8> { self@ }
@fn VecExt::try_with_capacity
%ret r
%spec
    ensures r matches Ok(x) ==> x.v() == Seq::<u8>::empty(),
@fn VecExt::push_u8
%spec
    ensures final(self).v() == old(self).v().push(val),
@fn VecExt::push_u16
%spec
    ensures final(self).v() == old(self).v() + b16(val as int),
@fn VecExt::push_i32
%spec
    requires val >= 0,
    ensures final(self).v() == old(self).v() + b32(val as int),
@fn VecExt::push_data_type
%spec
    ensures final(self).v() == old(self).v().push(tag(data_type)),
@fn VecExt::write_data_type_by_pos
%spec
    requires type_pos < old(self).v().len(),
    ensures final(self).v() == old(self).v().update(type_pos as int, tag(data_type)),
@fn VecExt::push_str
%spec
    ensures final(self).v() == old(self).v() + s.spec_bytes(),
@fn VecExt::skip_size
%spec
    ensures final(self).v() == old(self).v() + zeros(4),
@fn VecExt::skip_key_offset
%spec
    requires element_count <= 65535,
    ensures final(self).v() == old(self).v() + zeros(4 * element_count),
@fn VecExt::skip_value_entry
%spec
    requires element_count <= 65535,
    ensures final(self).v() == old(self).v() + zeros(5 * element_count),
@fn VecExt::write_total_size
%spec
    requires size_pos + 4 <= old(self).v().len(), size >= 0,
    ensures final(self).v() == put(old(self).v(), size_pos as int, b32(size as int)),
@fn VecExt::write_offset
%spec
    requires offset_pos + 4 <= old(self).v().len(),
    ensures final(self).v() == put(old(self).v(), offset_pos as int, b32(offset as int)),
@fn VecExt::push_bytes
%spec
    ensures final(self).v() == old(self).v() + bytes@,
@fn VecExt::push_data_length
%ret r
%spec
    ensures
        r is Ok == (length <= MAX_STRING_SIZE),
        r is Ok ==> final(self).v() == old(self).v() + enc_var(length as int),
        r matches Err(e) ==> e == BuildError::StringTooLong(length) && final(self).v() == old(self).v(),
@fn VecExt::push_key
%spec
    requires s.spec_bytes().len() <= 65535,
    ensures final(self).v() == old(self).v() + b16(s.spec_bytes().len() as int) + s.spec_bytes(),
@fn VecExt::push_string
%ret r
%spec
    ensures
        r is Ok == (s.spec_bytes().len() <= MAX_STRING_SIZE),
        r is Ok ==> final(self).v() == old(self).v() + enc_str(s.spec_bytes()),
        r matches Err(e) ==> e == BuildError::StringTooLong(s.spec_bytes().len() as usize) && final(self).v() == old(self).v(),
@fn VecExt::push_number
%spec
    ensures final(self).v() == old(self).v() + enc_number(nv(*value)),
@fn VecExt@Vec::try_with_capacity
@fn VecExt@Vec::push_u8
@fn VecExt@Vec::push_u16
@fn VecExt@Vec::push_i32
@fn VecExt@Vec::push_data_type
@fn VecExt@Vec::write_data_type_by_pos
@fn VecExt@Vec::push_str
@fn VecExt@Vec::skip_size
%hint start
    proof { axiom_vec_len(self); }
%hint end
    assert(self@ =~= old(self)@ + zeros(4));
@fn VecExt@Vec::skip_key_offset
%hint start
    proof { axiom_vec_len(self); }
%hint end
    assert(self@ =~= old(self)@ + zeros(4 * element_count));
@fn VecExt@Vec::skip_value_entry
%hint start
    proof { axiom_vec_len(self); }
%hint end
    assert(self@ =~= old(self)@ + zeros(5 * element_count));
@fn VecExt@Vec::write_total_size
%hint start
    proof { axiom_vec_len(self); }
%hint end
    assert(self@ =~= put(old(self)@, size_pos as int, b32(size as int)));
@fn VecExt@Vec::write_offset
%hint start
    proof { axiom_vec_len(self); }
%hint end
    assert(self@ =~= put(old(self)@, offset_pos as int, b32(offset as int)));
@fn VecExt@Vec::push_bytes
@fn VecExt@Vec::push_data_length
@fn VecExt@Vec::push_key
@fn VecExt@Vec::push_string
@fn VecExt@Vec::push_number
%hint start
    proof { axiom_vec_len(self); }
%hint end
    assert(self@ =~= old(self)@ + enc_number(nv(*value)));
