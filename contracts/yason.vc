@drop use Formatter
@keep impl From<BuildError> for YasonError
@inherent impl TryFrom<&'aYason> for Value
@inherent impl PartialEq for Yason
@inherent impl PartialEq for YasonBuf
@inherent impl Deref for YasonBuf
@inherent impl Borrow<Yason> for YasonBuf
@inherent impl ToOwned for Yason
@inherent impl AsRef<Yason> for Yason
@inherent impl AsRef<Yason> for YasonBuf
@inherent impl TryFrom<&'aYason> for LazyValue
@items
#[verifier::external]
impl std::fmt::Debug for YasonError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub open spec fn oob<T>(r: YasonResult<T>, len: int, index: int) -> bool {
    r matches Err(e) && e == (YasonError::IndexOutOfBounds { len: len as usize, index: index as usize })
}
/// What the type test at index i reports.
pub open spec fn mismatch<T>(r: YasonResult<T>, b: u8, expected: DataType) -> bool {
    r matches Err(e) && e == (if is_tag(b) { YasonError::UnexpectedType { expected, actual: of_tag(b) } } else { YasonError::InvalidDataType(b) })
}
/// The value a typed value denotes.
pub open spec fn vv(v: Value) -> SVal {
    match v {
        Value::Object(o) => cont(o.0.bytes@),
        Value::Array(a) => cont(a.0.bytes@),
        Value::String(s) => SVal::Str(s.spec_bytes()),
        Value::Number(n) => SVal::Num(nv(n)),
        Value::Bool(x) => SVal::Bool(x),
        Value::Null => SVal::Null,
    }
}
pub open spec fn vok(v: Value) -> bool {
    match v {
        Value::Object(o) => obj_ok(o.0.bytes@),
        Value::Array(a) => arr_ok(a.0.bytes@),
        _ => true,
    }
}
pub open spec fn lv<const IN_ARRAY: bool>(l: LazyValue<IN_ARRAY>) -> SVal {
    if IN_ARRAY { ent_at(l.yason.bytes@, l.value_pos as int) } else { val_at(l.yason.bytes@, l.value_pos as int) }
}
pub open spec fn lok<const IN_ARRAY: bool>(l: LazyValue<IN_ARRAY>) -> bool {
    let b = l.yason.bytes@;
    let p = l.value_pos as int;
    (if IN_ARRAY { wf_e(b, p) } else { wf_v(b, p) }) && b[p] == tag(l.ty) && p < 0x1_0002_0000
}
pub proof fn lemma_lok<const IN_ARRAY: bool>(l: LazyValue<IN_ARRAY>)
    requires lok(l)
    ensures stag(lv(l)) == tag(l.ty)
{
    let b = l.yason.bytes@;
    let p = l.value_pos as int;
    if b[p] == 1 || b[p] == 2 {
        if IN_ARRAY { lemma_sub(b, ent_pos(b, p)); } else { lemma_sub(b, p); }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<BuildError> for YasonError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BuildError) -> YasonError {
        match e { BuildError::TryReserveError(t) => YasonError::TryReserveError(t), e => YasonError::BuildError(e) }
    }
}
@end
@fn From@YasonError::from
@fn YasonBuf::new_unchecked
%ret r
%spec
    requires bytes@.len() > 0,
    ensures r.bytes@ == bytes@,
@fn YasonBuf::clone_from_yason
%spec
    ensures final(self).bytes@ =~= yason.bytes@,
@fn Yason::new_unchecked
%ret r
%external raw pointer cast between the slice and its transparent wrapper
%spec
    requires bytes@.len() > 0,
    ensures r.bytes@ == bytes@,
@fn Yason::to_yason_buf
%ret r
%spec
    ensures
        r matches Ok(x) ==> x.bytes@ == self.bytes@,
        r matches Err(e) ==> e is TryReserveError,
@fn Yason::data_type
%ret r
%spec
    ensures
        self.bytes@.len() > 0 && is_tag(self.bytes@[0]) ==> r == Ok::<DataType, YasonError>(of_tag(self.bytes@[0])),
        self.bytes@.len() > 0 && !is_tag(self.bytes@[0]) ==> (r matches Err(e) && e == YasonError::InvalidDataType(self.bytes@[0])),
        self.bytes@.len() == 0 ==> oob(r, 0, 0),
@fn Yason::object
%ret r
%spec
    requires doc(self.bytes@),
    ensures
        self.bytes@[0] == 1 ==> r is Ok && obj_ok(r->Ok_0.0.bytes@) && cont(r->Ok_0.0.bytes@) == val(self.bytes@),
        self.bytes@[0] != 1 ==> mismatch(r, self.bytes@[0], DataType::Object),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::array
%ret r
%spec
    requires doc(self.bytes@),
    ensures
        self.bytes@[0] == 2 ==> r is Ok && arr_ok(r->Ok_0.0.bytes@) && cont(r->Ok_0.0.bytes@) == val(self.bytes@),
        self.bytes@[0] != 2 ==> mismatch(r, self.bytes@[0], DataType::Array),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::string
%ret r
%spec
    requires doc(self.bytes@),
    ensures
        self.bytes@[0] == 3 ==> r is Ok && SVal::Str(r->Ok_0.spec_bytes()) == val(self.bytes@),
        self.bytes@[0] != 3 ==> mismatch(r, self.bytes@[0], DataType::String),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::string_unchecked
%ret r
%spec
    requires doc(self.bytes@), self.bytes@[0] == 3,
    ensures r is Ok && SVal::Str(r->Ok_0.spec_bytes()) == val(self.bytes@),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::number
%ret r
%spec
    requires doc(self.bytes@),
    ensures
        self.bytes@[0] == 4 ==> r is Ok && SVal::Num(nv(r->Ok_0)) == val(self.bytes@),
        self.bytes@[0] != 4 ==> mismatch(r, self.bytes@[0], DataType::Number),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::number_unchecked
%ret r
%spec
    requires doc(self.bytes@), self.bytes@[0] == 4,
    ensures r is Ok && SVal::Num(nv(r->Ok_0)) == val(self.bytes@),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::bool
%ret r
%spec
    requires doc(self.bytes@),
    ensures
        self.bytes@[0] == 5 ==> r is Ok && SVal::Bool(r->Ok_0) == val(self.bytes@),
        self.bytes@[0] != 5 ==> mismatch(r, self.bytes@[0], DataType::Bool),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::bool_unchecked
%ret r
%spec
    requires doc(self.bytes@), self.bytes@[0] == 5,
    ensures r is Ok && SVal::Bool(r->Ok_0) == val(self.bytes@),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::is_null
%ret r
%spec
    requires doc(self.bytes@),
    ensures r == Ok::<bool, YasonError>(val(self.bytes@) is Null),
%hint start
    proof { lemma_doc(self.bytes@); }
@fn Yason::as_bytes
%ret r
%spec
    ensures r@ == self.bytes@,
@fn Yason::get
%ret r
%spec
    ensures
        index < self.bytes@.len() ==> r == Ok::<u8, YasonError>(self.bytes@[index as int]),
        index >= self.bytes@.len() ==> oob(r, self.bytes@.len() as int, index as int),
@fn Yason::slice
%ret r
%spec
    ensures
        r is Ok == (from <= to && to <= self.bytes@.len()),
        r matches Ok(s) ==> s@ == self.bytes@.subrange(from as int, to as int),
        r is Err ==> oob(r, self.bytes@.len() as int, to as int),
@fn Yason::read_type
%ret r
%spec
    ensures
        index < self.bytes@.len() && is_tag(self.bytes@[index as int]) ==> r == Ok::<DataType, YasonError>(of_tag(self.bytes@[index as int])),
        index < self.bytes@.len() && !is_tag(self.bytes@[index as int]) ==> (r matches Err(e) && e == YasonError::InvalidDataType(self.bytes@[index as int])),
        index >= self.bytes@.len() ==> oob(r, self.bytes@.len() as int, index as int),
@fn Yason::is_type
%ret r
%spec
    ensures
        index < self.bytes@.len() ==> r == Ok::<bool, YasonError>(self.bytes@[index as int] == data_type),
        index >= self.bytes@.len() ==> oob(r, self.bytes@.len() as int, index as int),
@fn Yason::read_i32
%ret r
%spec
    requires index <= usize::MAX - 4,
    ensures
        r is Ok == (index + 4 <= self.bytes@.len()),
        r matches Ok(x) ==> x as int == i32_of(le32(self.bytes@, index as int)),
        r is Err ==> oob(r, self.bytes@.len() as int, index + 4),
@fn Yason::read_u8
%ret r
%spec
    ensures
        index < self.bytes@.len() ==> r == Ok::<u8, YasonError>(self.bytes@[index as int]),
        index >= self.bytes@.len() ==> oob(r, self.bytes@.len() as int, index as int),
@fn Yason::read_u16
%ret r
%spec
    requires index <= usize::MAX - 2,
    ensures
        r is Ok == (index + 2 <= self.bytes@.len()),
        r matches Ok(x) ==> x as int == le16(self.bytes@, index as int),
        r is Err ==> oob(r, self.bytes@.len() as int, index + 2),
@fn Yason::read_u32
%ret r
%spec
    requires index <= usize::MAX - 4,
    ensures
        r is Ok == (index + 4 <= self.bytes@.len()),
        r matches Ok(x) ==> x as int == le32(self.bytes@, index as int),
        r is Err ==> oob(r, self.bytes@.len() as int, index + 4),
@fn Yason::read_string
%ret r
%spec
    requires
        pos < self.bytes@.len(), !var_bad(self.bytes@, pos as int),
        str_fits(self.bytes@, pos as int) ==> vstd::utf8::valid_utf8(str_of(self.bytes@, pos as int)),
    ensures
        r is Ok == str_fits(self.bytes@, pos as int),
        r matches Ok(s) ==> s.spec_bytes() == str_of(self.bytes@, pos as int),
%hint start
    proof { axiom_slice_len(&self.bytes); if var_ok(self.bytes@, pos as int) { lemma_var_fewest(self.bytes@, pos as int); } }
@fn Yason::read_number
%ret r
%spec
    requires index <= usize::MAX - 256, num_fits(self.bytes@, index as int) ==> self.bytes@[index as int] >= 1,
    ensures
        r is Ok == num_fits(self.bytes@, index as int),
        r matches Ok(n) ==> nv(n) == num_of(self.bytes@, index as int),
@fn Yason::read_bool
%ret r
%spec
    ensures
        index < self.bytes@.len() ==> r == Ok::<bool, YasonError>(self.bytes@[index as int] == 1),
        index >= self.bytes@.len() ==> oob(r, self.bytes@.len() as int, index as int),
@fn Yason::check_type
%ret r
%spec
    ensures
        index < self.bytes@.len() && self.bytes@[index as int] == tag(expected) ==> r is Ok,
        index < self.bytes@.len() && self.bytes@[index as int] != tag(expected) ==> mismatch(r, self.bytes@[index as int], expected),
        index >= self.bytes@.len() ==> oob(r, self.bytes@.len() as int, index as int),
@fn Value::data_type
%ret r
%spec
    requires vok(*self),
    ensures tag(r) == stag(vv(*self)), r == of_tag(stag(vv(*self))),
@fn Value::try_from
%ret r
%spec
    requires doc(yason.bytes@),
    ensures r is Ok, vok(r->Ok_0), vv(r->Ok_0) == val(yason.bytes@),
%hint start
    proof { lemma_doc(yason.bytes@); }
@fn LazyValue::try_from
%ret r
%spec
    requires doc(yason.bytes@),
    ensures r is Ok, lok(r->Ok_0), lv(r->Ok_0) == val(yason.bytes@), r->Ok_0.yason == yason, r->Ok_0.value_pos == 0,
%hint start
    proof { lemma_doc(yason.bytes@); lemma_tags(DataType::Null, yason.bytes@[0]); }
@fn LazyValue::new
%ret r
%spec
    ensures r.yason == yason, r.ty == ty, r.value_pos == value_pos,
@fn LazyValue::data_type
%ret r
%spec
    ensures r == self.ty,
@fn LazyValue::value
%ret r
%spec
    requires lok(*self),
    ensures r is Ok, vok(r->Ok_0), vv(r->Ok_0) == lv(*self),
@fn LazyValue::object
%ret r
%spec
    requires lok(*self), self.ty is Object,
    ensures r is Ok, obj_ok(r->Ok_0.0.bytes@), cont(r->Ok_0.0.bytes@) == lv(*self), r->Ok_0.0.bytes@.len() <= self.yason.bytes@.len(),
        self.value_pos > 0 ==> r->Ok_0.0.bytes@.len() < self.yason.bytes@.len(),
@fn LazyValue::array
%ret r
%spec
    requires lok(*self), self.ty is Array,
    ensures r is Ok, arr_ok(r->Ok_0.0.bytes@), cont(r->Ok_0.0.bytes@) == lv(*self), r->Ok_0.0.bytes@.len() <= self.yason.bytes@.len(),
        self.value_pos > 0 ==> r->Ok_0.0.bytes@.len() < self.yason.bytes@.len(),
@fn LazyValue::string
%ret r
%spec
    requires lok(*self), self.ty is String,
    ensures r is Ok, SVal::Str(r->Ok_0.spec_bytes()) == lv(*self),
@fn LazyValue::number
%ret r
%spec
    requires lok(*self), self.ty is Number,
    ensures r is Ok, SVal::Num(nv(r->Ok_0)) == lv(*self),
@fn LazyValue::bool
%ret r
%spec
    requires lok(*self), self.ty is Bool,
    ensures r is Ok, SVal::Bool(r->Ok_0) == lv(*self),
@fn Yason::equals
%ret r
%spec
    requires doc(self.bytes@), doc(other.bytes@),
    ensures r == Ok::<bool, YasonError>(sval_eq(val(self.bytes@), val(other.bytes@))),
%hint start
    proof { lemma_doc(self.bytes@); lemma_doc(other.bytes@); lemma_eq_tags(val(self.bytes@), val(other.bytes@)); lemma_tags(DataType::Null, self.bytes@[0]); lemma_tags(DataType::Null, other.bytes@[0]); }
@fn LazyValue::equals
%ret r
%opt strvars=string() addref=equals
%spec
    requires lok(*self), lok(other),
    ensures r == Ok::<bool, YasonError>(sval_eq(lv(*self), lv(other))),
    decreases self.yason.bytes@.len(), (if self.value_pos == 0 { 2int } else { 0int }),
%hint start
    proof { lemma_lok(*self); lemma_lok(other); lemma_eq_tags(lv(*self), lv(other)); }
@fn Yason::eq
%ret r
%spec
    requires doc(self.bytes@), doc(other.bytes@),
    ensures r == sval_eq(val(self.bytes@), val(other.bytes@)),
@fn YasonBuf::eq
%ret r
%opt argasref=equals
%spec
    requires doc(self.bytes@), doc(other.bytes@),
    ensures r == sval_eq(val(self.bytes@), val(other.bytes@)),
@fn YasonBuf::deref
%ret r
%spec
    requires self.bytes@.len() > 0,
    ensures r.bytes@ == self.bytes@,
@fn YasonBuf::borrow
%ret r
%spec
    requires self.bytes@.len() > 0,
    ensures r.bytes@ == self.bytes@,
@fn Yason::to_owned
%ret r
%spec
    requires self.bytes@.len() > 0,
    ensures r.bytes@ == self.bytes@,
@fn Yason::as_ref
%ret r
%spec
    ensures r == self,
@fn YasonBuf::as_ref
%ret r
%opt selfderef
%spec
    requires self.bytes@.len() > 0,
    ensures r.bytes@ == self.bytes@,
@fn Value::try_to_yason
%ret r
%opt conv=string_with_vec,number_with_vec,bool_with_vec,null_with_vec
%spec
    requires vok(*self),
    ensures
        r matches Ok(y) ==> doc(y.bytes@) && val(y.bytes@) == vv(*self),
        r is Ok && (self is Object || self is Array) ==> final(buf)@ == old(buf)@,
        r is Ok && !(self is Object || self is Array) ==> final(buf)@ == old(buf)@ + r->Ok_0.bytes@,
        r matches Err(e) ==> e is TryReserveError || (*self matches Value::String(s) && s.spec_bytes().len() > 268435455
            && e == YasonError::BuildError(BuildError::StringTooLong(s.spec_bytes().len() as usize))),
%hint start
    proof { match self { Value::Object(o) => lemma_whole(o.0.bytes@), Value::Array(a) => lemma_whole(a.0.bytes@), _ => {} } }
@fn Yason::format
%opt rettype=LazyFormat<'_>
%ret r
%spec
    ensures r.yason == self, r.pretty == pretty,
@fn Yason::format_to
%ret r
%spec
    requires doc(self.bytes@),
    ensures
        r is Ok ==> final(buf).out() == old(buf).out() + text(val(self.bytes@), pretty),
        old(buf).total() ==> r is Ok && final(buf).total(),
%hint start
    proof { axiom_slice_len(&self.bytes); }
@fn Value::format_to
%ret r
%spec
    requires vok(*self),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + text(vv(*self), pretty),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { match self { Value::Object(o) => lemma_whole(o.0.bytes@), Value::Array(a) => lemma_whole(a.0.bytes@), _ => {} } }
