@items
impl<'a> Object<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.0.bytes@ }
}
/// A typed getter: absence, type mismatch or success.
pub open spec fn otyped<T>(r: YasonResult<Option<T>>, c: Seq<u8>, k: Seq<u8>, t: DataType) -> bool {
    if !has_key(c, k) { r matches Ok(None) }
    else if c[vpos(c, key_idx(c, k))] != tag(t) { mismatch(r, c[vpos(c, key_idx(c, k))], t) }
    else { r matches Ok(Some(_)) }
}
pub open spec fn found_ok(r: YasonResult<Option<usize>>, c: Seq<u8>, k: Seq<u8>) -> bool {
    match r {
        Ok(Some(p)) => has_key(c, k) && p == vpos(c, key_idx(c, k)) && p < 0x1_0002_0000,
        Ok(None) => !has_key(c, k),
        Err(_) => false,
    }
}
/// The value under key k, when there is one.
pub open spec fn member(c: Seq<u8>, k: Seq<u8>) -> SVal { members(c)[key_idx(c, k)].1 }
pub proof fn lemma_found(c: Seq<u8>, k: Seq<u8>)
    requires obj_ok(c), has_key(c, k)
    ensures
        0 <= key_idx(c, k) < cnt(c), key_of(c, key_idx(c, k)) == k,
        wf_v(c, vpos(c, key_idx(c, k))), member(c, k) == val_at(c, vpos(c, key_idx(c, k))),
        stag(member(c, k)) == c[vpos(c, key_idx(c, k))], is_tag(stag(member(c, k))),
        vpos(c, key_idx(c, k)) < 0x1_0002_0000,
{
    lemma_member(c, key_idx(c, k));
    lemma_tags(DataType::Null, c[vpos(c, key_idx(c, k))]);
}
@end
@fn Object::new_unchecked
%ret r
%spec
    requires yason.bytes@.len() >= 7,
    ensures r.0 == yason,
@fn Object::iter
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r is Ok, r->Ok_0.object.0 == self.0, r->Ok_0.index == 0, r->Ok_0.len == cnt(self.b()),
@fn Object::lazy_iter
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r is Ok, r->Ok_0.object.0 == self.0, r->Ok_0.index == 0, r->Ok_0.len == cnt(self.b()),
@fn Object::key_iter
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r is Ok, r->Ok_0.inner.object.0 == self.0, r->Ok_0.inner.index == 0, r->Ok_0.inner.len == cnt(self.b()),
@fn Object::value_iter
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r is Ok, r->Ok_0.inner.object.0 == self.0, r->Ok_0.inner.index == 0, r->Ok_0.inner.len == cnt(self.b()),
@fn Object::lazy_value_iter
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r is Ok, r->Ok_0.object.0 == self.0, r->Ok_0.index == 0, r->Ok_0.len == cnt(self.b()),
@fn Object::len
%ret r
%spec
    requires hdr_ok(self.b()),
    ensures r == Ok::<usize, YasonError>(cnt(self.b()) as usize), cnt(self.b()) <= 65535,
@fn Object::yason
%ret r
%spec
    ensures r == self.0,
@fn Object::is_empty
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r == Ok::<bool, YasonError>(members(self.b()).len() == 0),
@fn Object::get
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        !has_key(self.b(), key.spec_bytes()) ==> r matches Ok(None),
        has_key(self.b(), key.spec_bytes()) ==> (r matches Ok(Some(v)) && vok(v) && vv(v) == member(self.b(), key.spec_bytes())),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::lazy_get
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        !has_key(self.b(), key.spec_bytes()) ==> r matches Ok(None),
        has_key(self.b(), key.spec_bytes()) ==> (r matches Ok(Some(v)) && lok(v) && lv(v) == member(self.b(), key.spec_bytes()) && v.yason == self.0
            && v.value_pos >= 9),
%hint start
    proof {
        if has_key(self.b(), key.spec_bytes()) {
            lemma_found(self.b(), key.spec_bytes());
            lemma_tags(DataType::Null, stag(member(self.b(), key.spec_bytes())));
            lemma_member(self.b(), key_idx(self.b(), key.spec_bytes()));
        }
    }
@fn Object::type_of
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        !has_key(self.b(), key.spec_bytes()) ==> r matches Ok(None),
        has_key(self.b(), key.spec_bytes()) ==> r == Ok::<Option<DataType>, YasonError>(Some(of_tag(stag(member(self.b(), key.spec_bytes()))))),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::is_type
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        !has_key(self.b(), key.spec_bytes()) ==> r matches Ok(None),
        has_key(self.b(), key.spec_bytes()) ==> r == Ok::<Option<bool>, YasonError>(Some(stag(member(self.b(), key.spec_bytes())) == tag(data_type))),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::is_null
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        !has_key(self.b(), key.spec_bytes()) ==> r matches Ok(None),
        has_key(self.b(), key.spec_bytes()) ==> r == Ok::<Option<bool>, YasonError>(Some(member(self.b(), key.spec_bytes()) is Null)),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::contains_key
%ret r
%spec
    requires obj_ok(self.b()),
    ensures r == Ok::<bool, YasonError>(has_key(self.b(), key.spec_bytes())),
@fn Object::object
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        otyped(r, self.b(), key.spec_bytes(), DataType::Object),
        r matches Ok(Some(x)) ==> obj_ok(x.0.bytes@) && cont(x.0.bytes@) == member(self.b(), key.spec_bytes()),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::array
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        otyped(r, self.b(), key.spec_bytes(), DataType::Array),
        r matches Ok(Some(x)) ==> arr_ok(x.0.bytes@) && cont(x.0.bytes@) == member(self.b(), key.spec_bytes()),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::string
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        otyped(r, self.b(), key.spec_bytes(), DataType::String),
        r matches Ok(Some(x)) ==> SVal::Str(x.spec_bytes()) == member(self.b(), key.spec_bytes()),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::number
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        otyped(r, self.b(), key.spec_bytes(), DataType::Number),
        r matches Ok(Some(x)) ==> SVal::Num(nv(x)) == member(self.b(), key.spec_bytes()),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::bool
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        otyped(r, self.b(), key.spec_bytes(), DataType::Bool),
        r matches Ok(Some(x)) ==> SVal::Bool(x) == member(self.b(), key.spec_bytes()),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::skip_key
%ret r
%spec
    requires
        offset <= 0xffff_ffff, offset + 7 <= self.b().len(),
        offset + 7 + le16(self.b(), offset + 5) <= self.b().len(),
        vstd::utf8::valid_utf8(self.b().subrange(offset + 7, offset + 7 + le16(self.b(), offset + 5))),
    ensures r == Ok::<usize, YasonError>((offset + 7 + le16(self.b(), offset + 5)) as usize), offset + 7 + le16(self.b(), offset + 5) < 0x1_0002_0000,
@fn Object::read_key
%ret r
%spec
    requires
        key_offset <= 0xffff_ffff, key_offset + 7 <= self.b().len(),
        key_offset + 7 + le16(self.b(), key_offset + 5) <= self.b().len(),
        vstd::utf8::valid_utf8(self.b().subrange(key_offset + 7, key_offset + 7 + le16(self.b(), key_offset + 5))),
    ensures
        r is Ok,
        r->Ok_0.0.spec_bytes() == self.b().subrange(key_offset + 7, key_offset + 7 + le16(self.b(), key_offset + 5)),
        r->Ok_0.1 == key_offset + 7 + le16(self.b(), key_offset + 5), r->Ok_0.1 < 0x1_0002_0000,
@fn Object::read_key_offset
%ret r
%spec
    requires offset_pos + 4 <= self.b().len(), offset_pos < 0x1_0000_0000,
    ensures r is Ok, r->Ok_0 as int == le32(self.b(), offset_pos as int),
@fn Object::read_size
%ret r
%spec
    requires value_pos < 0x1_0002_0000, sub_ok(self.b(), value_pos as int),
    ensures r is Ok, r->Ok_0 as int == le32(self.b(), value_pos + 1),
@fn Object::read_object
%ret r
%spec
    requires wf_v(self.b(), value_pos as int), self.b()[value_pos as int] == 1, value_pos < 0x1_0002_0000,
    ensures r is Ok, r->Ok_0.0.bytes@ == subc(self.b(), value_pos as int),
        obj_ok(r->Ok_0.0.bytes@), cont(r->Ok_0.0.bytes@) == val_at(self.b(), value_pos as int),
        r->Ok_0.0.bytes@.len() + value_pos <= self.b().len(),
%hint start
    proof { lemma_sub(self.b(), value_pos as int); assert(subc(self.b(), value_pos as int)[0] == 1); }
@fn Object::read_array
%ret r
%spec
    requires wf_v(self.b(), value_pos as int), self.b()[value_pos as int] == 2, value_pos < 0x1_0002_0000,
    ensures r is Ok, r->Ok_0.0.bytes@ == subc(self.b(), value_pos as int),
        arr_ok(r->Ok_0.0.bytes@), cont(r->Ok_0.0.bytes@) == val_at(self.b(), value_pos as int),
        r->Ok_0.0.bytes@.len() + value_pos <= self.b().len(),
%hint start
    proof { lemma_sub(self.b(), value_pos as int); assert(subc(self.b(), value_pos as int)[0] == 2); }
@fn Object::read_string
%ret r
%spec
    requires wf_v(self.b(), value_pos as int), self.b()[value_pos as int] == 3, value_pos < 0x1_0002_0000,
    ensures r is Ok, SVal::Str(r->Ok_0.spec_bytes()) == val_at(self.b(), value_pos as int),
@fn Object::read_number
%ret r
%spec
    requires wf_v(self.b(), value_pos as int), self.b()[value_pos as int] == 4, value_pos < 0x1_0002_0000,
    ensures r is Ok, SVal::Num(nv(r->Ok_0)) == val_at(self.b(), value_pos as int),
@fn Object::read_bool
%ret r
%spec
    requires wf_v(self.b(), value_pos as int), self.b()[value_pos as int] == 5, value_pos < 0x1_0002_0000,
    ensures r is Ok, SVal::Bool(r->Ok_0) == val_at(self.b(), value_pos as int),
@fn Object::read_value
%ret r
%spec
    requires wf_v(self.b(), value_pos as int), value_pos < 0x1_0002_0000,
    ensures r is Ok, vok(r->Ok_0), vv(r->Ok_0) == val_at(self.b(), value_pos as int),
%hint start
    proof { lemma_tags(DataType::Null, self.b()[value_pos as int]); }
@fn Object::find_key
%opt strvars=cur_key
%ret r
%spec
    requires obj_ok(self.b()),
    ensures found_ok(r, self.b(), key.spec_bytes()),
%hint start
    let ghost c = self.b();
    let ghost k = key.spec_bytes();
%loop 0
    invariant
        c == self.b(), k == key.spec_bytes(), obj_ok(c),
        0 <= left <= right <= cnt(c) <= 65535,
        forall|i: int| 0 <= i < left ==> key_lt(#[trigger] key_of(c, i), k),
        forall|i: int| right <= i < cnt(c) ==> key_lt(k, #[trigger] key_of(c, i)),
    decreases right - left
%hint after let mid
    let ghost m = mid as int;
    proof {
        lemma_member(c, m);
        lemma_key_total(key_of(c, m), k);
        lemma_lex_total(key_of(c, m), k);
        lemma_lex_irrefl(k);
        assert forall|i: int| 0 <= i <= m && key_lt(key_of(c, m), k) implies key_lt(#[trigger] key_of(c, i), k) by {
            if i < m { lemma_key_trans(key_of(c, i), key_of(c, m), k); }
        }
        assert forall|i: int| m <= i < cnt(c) && key_lt(k, key_of(c, m)) implies key_lt(k, #[trigger] key_of(c, i)) by {
            if m < i { lemma_key_trans(k, key_of(c, m), key_of(c, i)); }
        }
        if key_of(c, m) == k { lemma_key_idx(c, m); }
    }
%hint after loop 0
    proof {
        if has_key(c, k) {
            let i = key_idx(c, k);
            lemma_key_irrefl(k);
            if i < left { assert(key_lt(key_of(c, i), k)); } else { assert(key_lt(k, key_of(c, i))); }
        }
    }
@fn Object::check_key
%ret r
%spec
    requires obj_ok(self.b()),
    ensures
        otyped(r, self.b(), key.spec_bytes(), expected),
        r is Ok ==> found_ok(r, self.b(), key.spec_bytes()),
%hint start
    proof { if has_key(self.b(), key.spec_bytes()) { lemma_found(self.b(), key.spec_bytes()); } }
@fn Object::nth_key_offset
%ret r
%spec
    requires obj_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, r->Ok_0 as int == kpos(self.b(), index as int) - 5,
%hint start
    proof { lemma_member(self.b(), index as int); }
@fn Object::read_nth_value_pos
%ret r
%spec
    requires obj_ok(self.b()), index < cnt(self.b()),
    ensures r == Ok::<usize, YasonError>(vpos(self.b(), index as int) as usize), vpos(self.b(), index as int) < 0x1_0002_0000,
%hint start
    proof { lemma_member(self.b(), index as int); }
@fn Object::read_nth_key_and_value_pos
%ret r
%spec
    requires obj_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, r->Ok_0.0.spec_bytes() == key_of(self.b(), index as int), r->Ok_0.1 == vpos(self.b(), index as int), r->Ok_0.1 < 0x1_0002_0000,
%hint start
    proof { lemma_member(self.b(), index as int); }
@fn Object::read_nth_type_and_value_pos
%ret r
%spec
    requires obj_ok(self.b()), index < cnt(self.b()),
    ensures r is Ok, r->Ok_0.0 == of_tag(self.b()[vpos(self.b(), index as int)]), r->Ok_0.1 == vpos(self.b(), index as int), r->Ok_0.1 < 0x1_0002_0000,
%hint start
    proof { lemma_member(self.b(), index as int); }
@fn Object::equals
%ret r
%opt noloopiso strvars=l_key,r_key
%spec
    requires obj_ok(self.b()), obj_ok(other.b()),
    ensures r == Ok::<bool, YasonError>(sval_eq(cont(self.b()), cont(other.b()))),
    decreases self.b().len(), 1int,
%loop 0 iter
    invariant
        obj_ok(self.b()), obj_ok(other.b()), cnt(self.b()) == cnt(other.b()),
        members(self.b()).len() == cnt(self.b()), members(other.b()).len() == cnt(self.b()),
        cont(self.b()) is Obj, cont(other.b()) is Obj,
        vit0.object.0 == self.0, vjt0.object.0 == other.0, vit0.len == cnt(self.b()), vjt0.len == cnt(other.b()),
        vit0.index <= vit0.len, vit0.index == vjt0.index,
        forall|i: int| 0 <= i < vit0.index ==> (#[trigger] members(self.b())[i]).0 == members(other.b())[i].0 && sval_eq(members(self.b())[i].1, members(other.b())[i].1),
    decreases vit0.len - vit0.index,
%hint loop 0 start
    proof { let i = vit0.index as int; if i < cnt(self.b()) { lemma_member(self.b(), i); lemma_eq_obj(cont(self.b()), cont(other.b()), i); } }
@fn ObjectIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.object.0 == yason, r->Ok_0.index == 0, r->Ok_0.len == cnt(yason.bytes@),
@fn ObjectIter::next_entry
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).index < cnt(old(self).object.b()),
    ensures
        *final(self) == *old(self),
        r is Ok, r->Ok_0.0.spec_bytes() == members(old(self).object.b())[old(self).index as int].0,
        vok(r->Ok_0.1), vv(r->Ok_0.1) == members(old(self).object.b())[old(self).index as int].1,
%hint start
    proof { lemma_member(self.object.b(), self.index as int); }
@fn ObjectIter::next_key
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).index < cnt(old(self).object.b()),
    ensures
        *final(self) == *old(self),
        r is Ok, r->Ok_0.spec_bytes() == members(old(self).object.b())[old(self).index as int].0,
%hint start
    proof { lemma_member(self.object.b(), self.index as int); }
@fn ObjectIter::next_value
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).index < cnt(old(self).object.b()),
    ensures
        *final(self) == *old(self),
        r is Ok, vok(r->Ok_0), vv(r->Ok_0) == members(old(self).object.b())[old(self).index as int].1,
%hint start
    proof { lemma_member(self.object.b(), self.index as int); }
@fn ObjectIter::iter_next
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).len == cnt(old(self).object.b()), old(self).index <= old(self).len,
    ensures
        final(self).object == old(self).object, final(self).len == old(self).len,
        old(self).index == old(self).len ==> r is None && final(self).index == old(self).index,
        old(self).index < old(self).len ==> final(self).index == old(self).index + 1
            && (r matches Some(Ok(x)) && x.0.spec_bytes() == members(old(self).object.b())[old(self).index as int].0
                && vok(x.1) && vv(x.1) == members(old(self).object.b())[old(self).index as int].1),
@fn LazyObjectIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.object.0 == yason, r->Ok_0.index == 0, r->Ok_0.len == cnt(yason.bytes@),
@fn LazyObjectIter::next
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).index < cnt(old(self).object.b()), old(self).len == cnt(old(self).object.b()),
    ensures
        final(self).object == old(self).object, final(self).len == old(self).len, final(self).index == old(self).index + 1,
        r is Ok, r->Ok_0.0.spec_bytes() == members(old(self).object.b())[old(self).index as int].0,
        lok(r->Ok_0.1), lv(r->Ok_0.1) == members(old(self).object.b())[old(self).index as int].1,
        r->Ok_0.1.yason == old(self).object.0, r->Ok_0.1.value_pos >= 9,
%hint start
    proof { lemma_member(self.object.b(), self.index as int); lemma_tags(DataType::Null, self.object.b()[vpos(self.object.b(), self.index as int)]); }
@fn LazyObjectIter::iter_next
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).len == cnt(old(self).object.b()), old(self).index <= old(self).len,
    ensures
        final(self).object == old(self).object, final(self).len == old(self).len,
        old(self).index == old(self).len ==> r is None && final(self).index == old(self).index,
        old(self).index < old(self).len ==> final(self).index == old(self).index + 1
            && (r matches Some(Ok(x)) && x.0.spec_bytes() == members(old(self).object.b())[old(self).index as int].0
                && lok(x.1) && lv(x.1) == members(old(self).object.b())[old(self).index as int].1
                && x.1.yason == old(self).object.0 && x.1.value_pos >= 9),
@fn KeyIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.inner.object.0 == yason, r->Ok_0.inner.index == 0, r->Ok_0.inner.len == cnt(yason.bytes@),
@fn KeyIter::iter_next
%ret r
%spec
    requires obj_ok(old(self).inner.object.b()), old(self).inner.len == cnt(old(self).inner.object.b()), old(self).inner.index <= old(self).inner.len,
    ensures
        final(self).inner.object == old(self).inner.object, final(self).inner.len == old(self).inner.len,
        old(self).inner.index == old(self).inner.len ==> r is None && final(self).inner.index == old(self).inner.index,
        old(self).inner.index < old(self).inner.len ==> final(self).inner.index == old(self).inner.index + 1
            && (r matches Some(Ok(x)) && x.spec_bytes() == members(old(self).inner.object.b())[old(self).inner.index as int].0),
@fn ValueIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.inner.object.0 == yason, r->Ok_0.inner.index == 0, r->Ok_0.inner.len == cnt(yason.bytes@),
@fn ValueIter::iter_next
%ret r
%spec
    requires obj_ok(old(self).inner.object.b()), old(self).inner.len == cnt(old(self).inner.object.b()), old(self).inner.index <= old(self).inner.len,
    ensures
        final(self).inner.object == old(self).inner.object, final(self).inner.len == old(self).inner.len,
        old(self).inner.index == old(self).inner.len ==> r is None && final(self).inner.index == old(self).inner.index,
        old(self).inner.index < old(self).inner.len ==> final(self).inner.index == old(self).inner.index + 1
            && (r matches Some(Ok(x)) && vok(x) && vv(x) == members(old(self).inner.object.b())[old(self).inner.index as int].1),
@fn LazyObjectValueIter::try_new
%ret r
%spec
    requires hdr_ok(yason.bytes@),
    ensures r is Ok, r->Ok_0.object.0 == yason, r->Ok_0.index == 0, r->Ok_0.len == cnt(yason.bytes@),
@fn LazyObjectValueIter::next
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).index < cnt(old(self).object.b()), old(self).len == cnt(old(self).object.b()),
    ensures
        final(self).object == old(self).object, final(self).len == old(self).len, final(self).index == old(self).index + 1,
        r is Ok, lok(r->Ok_0), lv(r->Ok_0) == members(old(self).object.b())[old(self).index as int].1,
        r->Ok_0.yason == old(self).object.0, r->Ok_0.value_pos >= 9,
%hint start
    proof { lemma_member(self.object.b(), self.index as int); lemma_tags(DataType::Null, self.object.b()[vpos(self.object.b(), self.index as int)]); }
@fn LazyObjectValueIter::iter_next
%ret r
%spec
    requires obj_ok(old(self).object.b()), old(self).len == cnt(old(self).object.b()), old(self).index <= old(self).len,
    ensures
        final(self).object == old(self).object, final(self).len == old(self).len,
        old(self).index == old(self).len ==> r is None && final(self).index == old(self).index,
        old(self).index < old(self).len ==> final(self).index == old(self).index + 1
            && (r matches Some(Ok(x)) && lok(x) && lv(x) == members(old(self).object.b())[old(self).index as int].1
                && x.yason == old(self).object.0 && x.value_pos >= 9),
