@items
impl<'a> Array<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.0.bytes@ }
}
pub open spec fn typed<T>(r: YasonResult<T>, c: Seq<u8>, index: int, t: DataType) -> bool {
    if index >= cnt(c) { oob(r, cnt(c), index) }
    else if c[ent(index)] != tag(t) { mismatch(r, c[ent(index)], t) }
    else { r is Ok }
}
@end
@fn Array::new_unchecked
%ret r
%spec
    requires yason.bytes@.len() >= 7,
    ensures r.0 == yason,
@fn Array::iter
%ret r
%spec
    requires arr_ok(self.b()),
    ensures r is Ok, r->Ok_0.array.0 == self.0, r->Ok_0.index == 0, r->Ok_0.len == cnt(self.b()),
@fn Array::lazy_iter
%ret r
%spec
    requires arr_ok(self.b()),
    ensures r is Ok, r->Ok_0.array.0 == self.0, r->Ok_0.index == 0, r->Ok_0.len == cnt(self.b()),
@fn Array::len
%ret r
%spec
    requires hdr_ok(self.b()),
    ensures r == Ok::<usize, YasonError>(cnt(self.b()) as usize), cnt(self.b()) <= 65535,
@fn Array::yason
%ret r
%spec
    ensures r == self.0,
@fn Array::is_empty
%ret r
%spec
    requires arr_ok(self.b()),
    ensures r == Ok::<bool, YasonError>(elems(self.b()).len() == 0),
@fn Array::get
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        index >= elems(self.b()).len() ==> oob(r, elems(self.b()).len() as int, index as int),
        index < elems(self.b()).len() ==> r is Ok && vok(r->Ok_0) && vv(r->Ok_0) == elems(self.b())[index as int],
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::lazy_get_unchecked
%ret r
%spec
    requires arr_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, lok(r->Ok_0), lv(r->Ok_0) == elems(self.b())[index as int], r->Ok_0.yason == self.0,
%hint start
    proof { lemma_elem(self.b(), index as int); lemma_tags(DataType::Null, self.b()[ent(index as int)]); }
@fn Array::get_unchecked
%ret r
%spec
    requires arr_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, vok(r->Ok_0), vv(r->Ok_0) == elems(self.b())[index as int],
%hint start
    proof { lemma_elem(self.b(), index as int); }
@fn Array::type_of
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        index >= elems(self.b()).len() ==> oob(r, elems(self.b()).len() as int, index as int),
        index < elems(self.b()).len() ==> r == Ok::<DataType, YasonError>(of_tag(stag(elems(self.b())[index as int]))),
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::is_type
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        index >= elems(self.b()).len() ==> oob(r, elems(self.b()).len() as int, index as int),
        index < elems(self.b()).len() ==> r == Ok::<bool, YasonError>(stag(elems(self.b())[index as int]) == tag(data_type)),
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::is_null
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        index >= elems(self.b()).len() ==> oob(r, elems(self.b()).len() as int, index as int),
        index < elems(self.b()).len() ==> r == Ok::<bool, YasonError>(elems(self.b())[index as int] is Null),
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::object
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        typed(r, self.b(), index as int, DataType::Object),
        r matches Ok(x) ==> obj_ok(x.0.bytes@) && cont(x.0.bytes@) == elems(self.b())[index as int],
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::array
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        typed(r, self.b(), index as int, DataType::Array),
        r matches Ok(x) ==> arr_ok(x.0.bytes@) && cont(x.0.bytes@) == elems(self.b())[index as int],
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::string
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        typed(r, self.b(), index as int, DataType::String),
        r matches Ok(x) ==> SVal::Str(x.spec_bytes()) == elems(self.b())[index as int],
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::number
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        typed(r, self.b(), index as int, DataType::Number),
        r matches Ok(x) ==> SVal::Num(nv(x)) == elems(self.b())[index as int],
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::bool
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        typed(r, self.b(), index as int, DataType::Bool),
        r matches Ok(x) ==> SVal::Bool(x) == elems(self.b())[index as int],
%hint start
    proof { if index < cnt(self.b()) { lemma_elem(self.b(), index as int); } }
@fn Array::equals
%ret r
%opt noloopiso
%spec
    requires arr_ok(self.b()), arr_ok(other.b()),
    ensures r == Ok::<bool, YasonError>(sval_eq(cont(self.b()), cont(other.b()))),
    decreases self.b().len(), 1int,
%loop 0 iter
    invariant
        arr_ok(self.b()), arr_ok(other.b()), cnt(self.b()) == cnt(other.b()),
        elems(self.b()).len() == cnt(self.b()), elems(other.b()).len() == cnt(self.b()),
        cont(self.b()) is Arr, cont(other.b()) is Arr,
        vit0.array.0 == self.0, vjt0.array.0 == other.0, vit0.len == cnt(self.b()), vjt0.len == cnt(other.b()),
        vit0.index <= vit0.len, vit0.index == vjt0.index,
        forall|i: int| 0 <= i < vit0.index ==> sval_eq(#[trigger] elems(self.b())[i], elems(other.b())[i]),
    decreases vit0.len - vit0.index,
%hint loop 0 start
    proof { let i = vit0.index as int; if i < cnt(self.b()) { lemma_elem(self.b(), i); lemma_eq_arr(cont(self.b()), cont(other.b()), i); } }
@fn Array::read_type_and_value_entry_pos
%ret r
%spec
    requires arr_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, r->Ok_0.0 == of_tag(self.b()[ent(index as int)]), r->Ok_0.1 == ent(index as int),
%hint start
    proof { lemma_elem(self.b(), index as int); }
@fn Array::check_index
%ret r
%spec
    requires arr_ok(self.b()),
    ensures
        index >= cnt(self.b()) ==> oob(r, cnt(self.b()), index as int),
        index < cnt(self.b()) ==> r is Ok,
@fn Array::read_value_pos
%ret r
%spec
    requires value_entry_pos + 5 <= self.b().len(), value_entry_pos < 0x1_0000_0000_0000,
    ensures r == Ok::<usize, YasonError>(ent_pos(self.b(), value_entry_pos as int) as usize), ent_pos(self.b(), value_entry_pos as int) < 0x1_0000_0010,
@fn Array::read_size
%ret r
%spec
    requires value_pos < 0x1_0000_0010, sub_ok(self.b(), value_pos as int),
    ensures r is Ok, r->Ok_0 as int == le32(self.b(), value_pos + 1),
@fn Array::read_object
%ret r
%spec
    requires wf_e(self.b(), value_entry_pos as int), self.b()[value_entry_pos as int] == 1, value_entry_pos < 0x1_0000_0000_0000,
    ensures r is Ok, r->Ok_0.0.bytes@ == subc(self.b(), ent_pos(self.b(), value_entry_pos as int)),
        obj_ok(r->Ok_0.0.bytes@), cont(r->Ok_0.0.bytes@) == ent_at(self.b(), value_entry_pos as int), r->Ok_0.0.bytes@.len() < self.b().len(),
%hint start
    proof { lemma_sub(self.b(), ent_pos(self.b(), value_entry_pos as int)); }
@fn Array::read_array
%ret r
%spec
    requires wf_e(self.b(), value_entry_pos as int), self.b()[value_entry_pos as int] == 2, value_entry_pos < 0x1_0000_0000_0000,
    ensures r is Ok, r->Ok_0.0.bytes@ == subc(self.b(), ent_pos(self.b(), value_entry_pos as int)),
        arr_ok(r->Ok_0.0.bytes@), cont(r->Ok_0.0.bytes@) == ent_at(self.b(), value_entry_pos as int), r->Ok_0.0.bytes@.len() < self.b().len(),
%hint start
    proof { lemma_sub(self.b(), ent_pos(self.b(), value_entry_pos as int)); }
@fn Array::read_string
%ret r
%spec
    requires wf_e(self.b(), value_entry_pos as int), self.b()[value_entry_pos as int] == 3, value_entry_pos < 0x1_0000_0000_0000,
    ensures r is Ok, SVal::Str(r->Ok_0.spec_bytes()) == ent_at(self.b(), value_entry_pos as int),
@fn Array::read_number
%ret r
%spec
    requires wf_e(self.b(), value_entry_pos as int), self.b()[value_entry_pos as int] == 4, value_entry_pos < 0x1_0000_0000_0000,
    ensures r is Ok, SVal::Num(nv(r->Ok_0)) == ent_at(self.b(), value_entry_pos as int),
@fn Array::read_bool
%ret r
%spec
    requires wf_e(self.b(), value_entry_pos as int), self.b()[value_entry_pos as int] == 5, value_entry_pos < 0x1_0000_0000_0000,
    ensures r is Ok, SVal::Bool(r->Ok_0) == ent_at(self.b(), value_entry_pos as int),
@fn Array::read_value
%ret r
%spec
    requires arr_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, vok(r->Ok_0), vv(r->Ok_0) == elems(self.b())[index as int],
%hint start
    proof { lemma_elem(self.b(), index as int); lemma_tags(DataType::Null, self.b()[ent(index as int)]); }
@fn ArrayIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.array.0 == yason, r->Ok_0.index == 0, r->Ok_0.len == cnt(yason.bytes@),
@fn ArrayIter::iter_next
%ret r
%spec
    requires arr_ok(old(self).array.b()), old(self).len == cnt(old(self).array.b()), old(self).index <= old(self).len,
    ensures
        final(self).array == old(self).array, final(self).len == old(self).len,
        old(self).index == old(self).len ==> r is None && final(self).index == old(self).index,
        old(self).index < old(self).len ==> final(self).index == old(self).index + 1
            && (r matches Some(Ok(x)) && vok(x) && vv(x) == elems(old(self).array.b())[old(self).index as int]),
@fn LazyArrayIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.array.0 == yason, r->Ok_0.index == 0, r->Ok_0.len == cnt(yason.bytes@),
@fn LazyArrayIter::next
%ret r
%spec
    requires arr_ok(old(self).array.b()), old(self).len == cnt(old(self).array.b()), old(self).index < old(self).len,
    ensures
        final(self).array == old(self).array, final(self).len == old(self).len, final(self).index == old(self).index + 1,
        r matches Ok(x) && lok(x) && lv(x) == elems(old(self).array.b())[old(self).index as int] && x.yason == old(self).array.0,
%hint start
    proof { lemma_elem(self.array.b(), self.index as int); lemma_tags(DataType::Null, self.array.b()[ent(self.index as int)]); }
@fn LazyArrayIter::iter_next
%ret r
%spec
    requires arr_ok(old(self).array.b()), old(self).len == cnt(old(self).array.b()), old(self).index <= old(self).len,
    ensures
        final(self).array == old(self).array, final(self).len == old(self).len,
        old(self).index == old(self).len ==> r is None && final(self).index == old(self).index,
        old(self).index < old(self).len ==> final(self).index == old(self).index + 1
            && (r matches Some(Ok(x)) && lok(x) && lv(x) == elems(old(self).array.b())[old(self).index as int] && x.yason == old(self).array.0),
