@items
/// bytes with pl appended; y covers exactly pl, which encodes x.
pub open spec fn appended(o: Seq<u8>, f: Seq<u8>, y: Seq<u8>, pl: Seq<u8>, x: SVal) -> bool {
    f == o + pl && y == pl && doc(y) && val(y) == x
}
pub proof fn lemma_scalar(o: Seq<u8>, pl: Seq<u8>, x: SVal)
    requires enc_of(pl, x), !(x is Obj), !(x is Arr)
    ensures doc(pl), val(pl) == x, (o + pl).subrange(o.len() as int, (o + pl).len() as int) == pl
{
    assert(found(pl, 0, pl));
    assert((o + pl).subrange(o.len() as int, (o + pl).len() as int) =~= pl);
    if pl[0] == 1 || pl[0] == 2 { assert(subc(pl, 0).len() > 0); }
}
@end
@fn Scalar::string_with_vec
%ret r
%opt conv=try_reserve
%spec
    ensures
        r matches Ok(y) ==> s.spec_bytes().len() <= 268435455 && appended(old(bytes)@, final(bytes)@, y.bytes@, seq![3u8] + enc_str(s.spec_bytes()), SVal::Str(s.spec_bytes())),
        r matches Err(e) ==> e is TryReserveError || (s.spec_bytes().len() > 268435455 && e == BuildError::StringTooLong(s.spec_bytes().len() as usize)),
%hint start
    let ghost v0 = bytes@;
    proof { axiom_vec_len(bytes); axiom_str_len(s); lemma_str_bytes(s); }
%hint end
    proof { lemma_pl_str(s.spec_bytes()); assert(bytes@ =~= v0 + (seq![3u8] + enc_str(s.spec_bytes()))); lemma_scalar(v0, seq![3u8] + enc_str(s.spec_bytes()), SVal::Str(s.spec_bytes())); }
@fn Scalar::string
%ret r
%spec
    ensures
        r matches Ok(y) ==> s.spec_bytes().len() <= 268435455 && y.bytes@ == seq![3u8] + enc_str(s.spec_bytes()) && doc(y.bytes@) && val(y.bytes@) == SVal::Str(s.spec_bytes()),
        r matches Err(e) ==> e is TryReserveError || (s.spec_bytes().len() > 268435455 && e == BuildError::StringTooLong(s.spec_bytes().len() as usize)),
%hint end
    assert(bytes@ =~= seq![3u8] + enc_str(s.spec_bytes()));
@fn Scalar::number_with_vec
%ret r
%opt conv=try_reserve
%spec
    ensures
        r matches Ok(y) ==> appended(old(bytes)@, final(bytes)@, y.bytes@, seq![4u8] + enc_number(nv(*value)), SVal::Num(nv(*value))),
        r matches Err(e) ==> e is TryReserveError,
%hint start
    let ghost v0 = bytes@;
    proof { axiom_vec_len(bytes);  }
%hint end
    proof { lemma_pl_num(nv(*value)); assert(bytes@ =~= v0 + (seq![4u8] + enc_number(nv(*value)))); lemma_scalar(v0, seq![4u8] + enc_number(nv(*value)), SVal::Num(nv(*value))); }
@fn Scalar::number
%ret r
%spec
    ensures
        r matches Ok(y) ==> y.bytes@ == seq![4u8] + enc_number(nv(*value)) && doc(y.bytes@) && val(y.bytes@) == SVal::Num(nv(*value)),
        r matches Err(e) ==> e is TryReserveError,
%hint end
    assert(bytes@ =~= seq![4u8] + enc_number(nv(*value)));
@fn Scalar::bool_with_vec
%ret r
%opt conv=try_reserve
%spec
    ensures
        r matches Ok(y) ==> appended(old(bytes)@, final(bytes)@, y.bytes@, seq![5u8, if value { 1u8 } else { 0u8 }], SVal::Bool(value)),
        r matches Err(e) ==> e is TryReserveError,
%hint start
    let ghost v0 = bytes@;
    proof { axiom_vec_len(bytes);  }
%hint end
    proof { lemma_pl_small(value); assert(bytes@ =~= v0 + (seq![5u8, if value { 1u8 } else { 0u8 }])); lemma_scalar(v0, seq![5u8, if value { 1u8 } else { 0u8 }], SVal::Bool(value)); }
@fn Scalar::bool
%ret r
%spec
    ensures
        r matches Ok(y) ==> y.bytes@ == seq![5u8, if value { 1u8 } else { 0u8 }] && doc(y.bytes@) && val(y.bytes@) == SVal::Bool(value),
        r matches Err(e) ==> e is TryReserveError,
%hint end
    assert(bytes@ =~= seq![5u8, if value { 1u8 } else { 0u8 }]);
@fn Scalar::null_with_vec
%ret r
%opt conv=try_reserve
%spec
    ensures
        r matches Ok(y) ==> appended(old(bytes)@, final(bytes)@, y.bytes@, seq![6u8], SVal::Null),
        r matches Err(e) ==> e is TryReserveError,
%hint start
    let ghost v0 = bytes@;
    proof { axiom_vec_len(bytes);  }
%hint end
    proof { lemma_pl_small(true); assert(bytes@ =~= v0 + (seq![6u8])); lemma_scalar(v0, seq![6u8], SVal::Null); }
@fn Scalar::null
%ret r
%spec
    ensures
        r matches Ok(y) ==> y.bytes@ == seq![6u8] && doc(y.bytes@) && val(y.bytes@) == SVal::Null,
        r matches Err(e) ==> e is TryReserveError,
%hint end
    assert(bytes@ =~= seq![6u8]);
