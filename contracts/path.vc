@drop use Formatter
@inherent impl AsMut<Vec<Value<'a>>> for QueryBuf
@inherent impl AsRef<[Value<'a>]> for QueryBuf
@inherent impl FromStr for PathExpression
@items
use crate::path::query::{vals, allok, lemma_vals_push};
use crate::path::parse::blamed;
use crate::prelude::fmt::Write as _;
impl<'a, 'b> QueryBuf<'a, 'b> {
    pub open spec fn v(&self) -> Seq<Value<'a>> { match self { QueryBuf::Owned(b) => b@, QueryBuf::Borrowed(b) => b@ } }
    /// The same buffer.
    #[verifier::prophetic]
    pub open spec fn is_same(&self, o: &Self) -> bool {
        match (self, o) {
            (QueryBuf::Owned(_), QueryBuf::Owned(_)) => true,
            (QueryBuf::Borrowed(a), QueryBuf::Borrowed(b)) => *final(*a) == *final(*b),
            _ => false,
        }
    }
}
impl PathExpression {
    pub open spec fn ok(&self) -> bool { steps_ok(self.0@) }
    pub open spec fn counts(&self) -> bool { method(self.0@) && self.0@.last() == Step::Func(FuncStep::Count) }
}
/// Results beyond the limits of the format, or memory running out.
pub open spec fn beyond(e: YasonError) -> bool {
    e is TryReserveError || (e matches YasonError::BuildError(b) && (b is TooManyElements || b is DocumentTooLong || b is StringTooLong))
}
/// C20, C21: what a query for the values s yields.
#[verifier::prophetic]
pub open spec fn answered<'a, 'b>(p: &PathExpression, r: YasonResult<QueriedValue<'a, 'b>>, doc0: Seq<u8>, wrapper: bool,
    query_buf: Option<&'b mut Vec<Value<'a>>>, result_buf: Option<&'b mut Vec<u8>>) -> bool
{
    let s = sel(val(doc0), p.0@, 1);
    let x = results(val(doc0), p.0@);
    match r {
        Err(e) => if !wrapper { e is TryReserveError || (e is MultiValuesWithoutWrapper && (method(p.0@) || s.len() > 1)) } else { e is TryReserveError || (result_buf is Some && beyond(e)) },
        Ok(q) => (!wrapper ==> !method(p.0@) && s.len() <= 1) && match q {
            QueriedValue::None => if wrapper { x.len() == 0 } else { s.len() == 0 },
            QueriedValue::Value(v) => !wrapper && s.len() == 1 && vok(v) && vv(v) == s[0],
            QueriedValue::Values(b) => wrapper && query_buf is None && result_buf is None && allok(b@) && vals(b@) == x && x.len() > 0,
            QueriedValue::ValuesRef(b) => wrapper && query_buf is Some && result_buf is None && allok(b@) && vals(b@) == x && x.len() > 0
                && *final(b) == *final(query_buf->0),
            QueriedValue::Yason(y) => wrapper && result_buf is Some && doc(y.bytes@) && val(y.bytes@) == SVal::Arr(x) && x.len() > 0
                && final(result_buf->0)@ == y.bytes@,
        },
    }
}
/// What a query result holds, when it is well-formed.
pub open spec fn qok(q: QueriedValue<'_, '_>) -> bool {
    match q {
        QueriedValue::None => true,
        QueriedValue::Value(v) => vok(v),
        QueriedValue::Values(b) => allok(b@),
        QueriedValue::ValuesRef(b) => allok(b@),
        QueriedValue::Yason(y) => doc(y.bytes@),
    }
}
/// The text of a list of results.
pub open spec fn list_text(s: Seq<SVal>, pretty: bool) -> Seq<u8> { if s.len() == 0 { Seq::empty() } else { text(SVal::Arr(s), pretty) } }
pub open spec fn qtext(q: QueriedValue<'_, '_>, pretty: bool) -> Seq<u8> {
    match q {
        QueriedValue::None => Seq::empty(),
        QueriedValue::Value(v) => text(vv(v), pretty),
        QueriedValue::Values(b) => list_text(vals(b@), pretty),
        QueriedValue::ValuesRef(b) => list_text(vals(b@), pretty),
        QueriedValue::Yason(y) => text(val(y.bytes@), pretty),
    }
}
/// C21: the results as a list and in a buffer have the same text.
pub proof fn lemma_same_text(q: QueriedValue<'_, '_>, y: QueriedValue<'_, '_>, x: Seq<SVal>, pretty: bool)
    requires
        x.len() > 0,
        y matches QueriedValue::Yason(d) && val(d.bytes@) == SVal::Arr(x),
        match q { QueriedValue::Values(b) => vals(b@) == x, QueriedValue::ValuesRef(b) => vals(b@) == x, _ => false },
    ensures qtext(q, pretty) == qtext(y, pretty)
{}
/// C19: existence is a non-empty answer.
pub proof fn lemma_exists(p: &PathExpression, d: Seq<u8>)
    requires p.ok(), !method(p.0@)
    ensures (sel(val(d), p.0@, 1).len() > 0) == (results(val(d), p.0@).len() > 0)
{}
@end
@fn push_value
%opt conv=try_reserve
%ret r
%spec
    ensures
        r is Ok ==> final(buf)@ == old(buf)@.push(value),
        r matches Err(e) ==> e is TryReserveError && final(buf)@ == old(buf)@,
@fn QueriedValue::format_to
%ret r
%spec
    requires qok(*self),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + qtext(*self, pretty),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { assert(writer.out() + Seq::<u8>::empty() =~= writer.out()); }
@fn QueryBuf::as_mut
%ret r
%spec
    ensures r@ == old(self).v(), final(self).v() == final(r)@, final(self).is_same(old(self)),
@fn QueryBuf::as_ref
%ret r
%spec
    ensures r@ == self.v(),
@fn PathExpression::new
%ret r
%spec
    ensures r.0 == steps,
@fn PathExpression::steps
%ret r
%spec
    ensures r@ == self.0@,
@fn PathExpression::has_method
%ret r
%spec
    ensures r == method(self.0@),
@fn PathExpression::has_method_count
%ret r
%spec
    ensures r == self.counts(),
@fn PathExpression::query
%ret r
%spec
    requires self.ok(), doc(yason.bytes@),
    ensures answered(self, r, yason.bytes@, with_wrapper, query_buf, result_buf),
%hint start
    hide(sel);
    let ghost s = sel(val(yason.bytes@), self.0@, 1);
    let ghost xs = results(val(yason.bytes@), self.0@);
    let ghost e0 = Seq::<Value<'a>>::empty();
    proof { assert(vals(e0) =~= Seq::<SVal>::empty()); assert(Seq::<SVal>::empty() + s =~= s); }
%hint after let selector
    assert(selector.query_buf@ =~= e0);
%hint after call values_to_yason 0
    proof { let f = final(result_buf->0)@; assert(reg(f, 0) =~= f); }
    assert(val(yason.bytes@) == SVal::Arr(xs));
%hint after call push_value 0
    assert(vals(query_buf.v()) =~= xs);
%hint after call query 0
    assert(vals(query_buf.v()) == s);
@fn PathExpression::exists
%ret r
%spec
    requires self.ok(), doc(yason.bytes@),
    ensures
        method(self.0@) ==> (r matches Err(e) && e is InvalidPathExpression),
        !method(self.0@) ==> r == Ok::<bool, YasonError>(sel(val(yason.bytes@), self.0@, 1).len() > 0),
@fn values_to_yason
%opt noloopiso conv=checked_element_count,try_new,push_object_or_array,push_string,push_number,push_bool,push_null,finish
%ret r
%spec
    requires allok(values@),
    ensures
        r matches Ok(y) ==> doc(y.bytes@) && val(y.bytes@) == SVal::Arr(vals(values@)) && y.bytes@ == reg(final(bytes)@, old(bytes)@.len() as int),
        r matches Err(e) ==> beyond(e),
%hint start
    let ghost f0 = *final(bytes);
    let ghost n0 = bytes@.len() as int;
%loop 0
    invariant
        vs0@ == values@, vi0 <= vs0@.len(), values@.len() <= 65535, allok(values@),
        builder.0.inv(), builder.0.n() == values@.len(), builder.0.k() == vi0, builder.0.d() == 1, builder.0.current_depth == 1,
        builder.0.elems() == vals(values@).take(vi0 as int), builder.0.bytes_init_len == n0, builder.0.bytes.fin() == f0@,
    decreases vs0@.len() - vi0,
%hint loop 0 start
    proof {
        let x = values@[vi0 as int];
        assert(vals(values@)[vi0 as int] == vv(x));
        assert(vals(values@).take(vi0 + 1) =~= vals(values@).take(vi0 as int).push(vv(x)));
        match x { Value::Object(o) => lemma_whole(o.0.bytes@), Value::Array(a) => lemma_whole(a.0.bytes@), _ => {} }
    }
%hint after loop 0
    proof { assert(vals(values@).take(values@.len() as int) =~= vals(values@)); }
@fn values_format_to
%ret r
%spec
    requires allok(values@),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + list_text(vals(values@), pretty),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { assert(writer.out() + Seq::<u8>::empty() =~= writer.out()); }
@fn PathExpression::from_str
%ret r
%spec
    ensures
        r matches Ok(p) ==> p.ok() && p_path(s.spec_bytes()) == Some(ssteps(p.0@)),
        r matches Err(e) ==> blamed(s.spec_bytes(), e, p_path(s.spec_bytes()) is None),
