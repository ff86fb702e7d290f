@items
use crate::builder::array::{InnerArrayBuilder, with_entry};
use crate::builder::object::InnerObjectBuilder;
/// The builder holds the first k elements of s.
pub open spec fn arr_at<B: AsMutBytes>(b: InnerArrayBuilder<'_, B>, s: Seq<JVal>, k: int) -> bool {
    b.inv() && b.d() == b.current_depth && b.n() == s.len() && b.k() == k && 0 <= k <= s.len()
        && b.elems() == jelems(s, k as nat) && b.c() == narr(s, k as nat)
}
/// The builder holds the first k members of m.
pub open spec fn obj_at<B: AsMutBytes>(b: InnerObjectBuilder<'_, B>, m: JObj, k: int) -> bool {
    b.inv() && b.d() == b.current_depth && b.n() == nsize(m) && b.k() == k && 0 <= k <= nsize(m) && !b.key_sorted
        && b.mem() == jmems(m, k as nat) && b.c() == nobj(m, k as nat)
}
/// An error is for want of memory, or the one expected.
pub open spec fn why(e: BuildError, f: Option<BuildError>) -> bool { e is TryReserveError || f == Some(e) }
pub proof fn lemma_pay(v: JVal)
    ensures
        npay(v).len() > 0, npay(v)[0] == stag(jval(v)),
        npay(v)[0] == 3 || npay(v)[0] == 4 ==> npay(v).drop_first() =~= (match v { JVal::String(s) => enc_str(nstr(s)), JVal::Number(n) => enc_number(jnum(n)->0), _ => Seq::empty() }),
        v is Bool ==> npay(v)[1] == (if v->Bool_0 { 1u8 } else { 0u8 }),
{
    match v {
        JVal::Array(a) => lemma_narr(a@, a@.len()),
        JVal::Object(m) => lemma_nobj(m, nsize(m)),
        _ => {}
    }
}
pub proof fn lemma_narr(s: Seq<JVal>, k: nat)
    requires k <= s.len()
    ensures narr(s, k).len() >= 7 + 5 * s.len(), narr(s, k)[0] == 2
    decreases s, k
{
    if k > 0 {
        let c = narr(s, (k - 1) as nat);
        lemma_narr(s, (k - 1) as nat);
        lemma_reg_aentry(c, 0, ent(k - 1), c.len() - 5, seq![7u8] + npay(s[k - 1]));
    }
}
pub proof fn lemma_nobj(m: JObj, k: nat)
    requires k <= nsize(m)
    ensures nobj(m, k).len() >= 7 + 4 * nsize(m), nobj(m, k)[0] == 1
    decreases k
{
    if k > 0 { lemma_nobj(m, (k - 1) as nat); lemma_mem_keys(m, (k - 1) as nat); }
}
pub proof fn lemma_arr_step<B: AsMutBytes>(o: InnerArrayBuilder<'_, B>, b: InnerArrayBuilder<'_, B>, s: Seq<JVal>, k: int)
    requires
        arr_at(o, s, k), k < s.len(), b.inv(), b.d() == o.d(), b.current_depth == o.current_depth, b.bytes_init_len == o.bytes_init_len,
        b.element_count == o.element_count, b.k() == k + 1, b.elems() == o.elems().push(jval(s[k])),
        b.v() == aentry(o.v(), o.value_entry_pos as int, o.off(), npay(s[k])),
    ensures arr_at(b, s, k + 1)
{
    lemma_pay(s[k]);
    lemma_reg_aentry(o.v(), o.bytes_init_len as int, ent(k), o.off(), npay(s[k]));
}
pub proof fn lemma_obj_step<B: AsMutBytes>(o: InnerObjectBuilder<'_, B>, b: InnerObjectBuilder<'_, B>, m: JObj, k: int, pos: int)
    requires
        obj_at(o, m, k), k < nsize(m), b.inv(), b.d() == o.d(), b.current_depth == o.current_depth, b.bytes_init_len == o.bytes_init_len,
        b.element_count == o.element_count, b.key_sorted == o.key_sorted, b.k() == k + 1, o.slot(nkey(m, k), pos),
        b.mem() == o.mem().insert(pos, (nkey(m, k), jval(m.entries@[k].1))),
        b.v() == o.keyed(nkey(m, k), pos) + npay(m.entries@[k].1),
    ensures obj_at(b, m, k + 1)
{
    lemma_mem_keys(m, k as nat);
    lemma_slot_unique(o.mem(), nkey(m, k), pos, jslot(o.mem(), nkey(m, k)));
    lemma_reg_with_key(o.v(), o.bytes_init_len as int, k, pos, o.off(), nkey(m, k), npay(m.entries@[k].1));
}
// --- steps
/// What a container holds before its size is filled in.
pub open spec fn nbody(v: JVal) -> Seq<u8> { match v { JVal::Array(a) => narr(a@, a@.len()), JVal::Object(m) => nobj(m, nsize(m)), _ => Seq::empty() } }
pub open spec fn ctag(v: JVal) -> u8 { if v is Array { 2 } else { 1 } }
/// The failure met at element k, if any, is the failure of the whole.
pub proof fn lemma_arr_next(s: Seq<JVal>, d: int, k: int)
    requires 0 <= k < s.len(), narr_fail(s, d, k as nat) is None
    ensures ({
        let f = or(npre(s[k], d), or(noff(narr(s, k as nat)), nin(s[k], d)));
        narr_fail(s, d, (k + 1) as nat) == f && (f is Some ==> narr_fail(s, d, s.len()) == f)
    })
{ if narr_fail(s, d, (k + 1) as nat) is Some { lemma_arr_fail(s, d, (k + 1) as nat, s.len()); } }
pub proof fn lemma_obj_next(m: JObj, d: int, k: int)
    requires 0 <= k < nsize(m), nobj_fail(m, d, k as nat) is None
    ensures ({
        let f = or(npre(m.entries@[k].1, d), or(nkey_fail(nkey(m, k)), or(noff(nobj(m, k as nat)), nin(m.entries@[k].1, d))));
        nobj_fail(m, d, (k + 1) as nat) == f && (f is Some ==> nobj_fail(m, d, nsize(m)) == f)
    })
{ if nobj_fail(m, d, (k + 1) as nat) is Some { lemma_obj_fail(m, d, (k + 1) as nat, nsize(m)); } }
pub proof fn lemma_arr_zero(s: Seq<JVal>, d: int) ensures narr_fail(s, d, 0) is None {}
pub proof fn lemma_obj_zero(m: JObj, d: int) ensures nobj_fail(m, d, 0) is None {}
pub proof fn lemma_nin(v: JVal, d: int)
    ensures nin(v, d) == (match v {
        JVal::Array(a) => or(narr_fail(a@, d + 1, a@.len()), noff(nbody(v))),
        JVal::Object(m) => or(nobj_fail(m, d + 1, nsize(m)), noff(nbody(v))),
        _ => None,
    }), v is Array || v is Object ==> npay(v) == sized(nbody(v)) && nbody(v).len() >= 7 && nbody(v)[0] == ctag(v) && npay(v)[0] == ctag(v),
{
    match v {
        JVal::Array(a) => lemma_narr(a@, a@.len()),
        JVal::Object(m) => lemma_nobj(m, nsize(m)),
        _ => {}
    }
}
pub proof fn lemma_jval(v: JVal)
    ensures jval(v) == (match v {
        JVal::Null => SVal::Null,
        JVal::Bool(b) => SVal::Bool(b),
        JVal::Number(n) => SVal::Num(jnum(n)->0),
        JVal::String(s) => SVal::Str(nstr(s)),
        JVal::Array(a) => SVal::Arr(jelems(a@, a@.len())),
        JVal::Object(m) => SVal::Obj(jmems(m, nsize(m))),
    }), v is Null ==> npay(v) == seq![6u8], v is Bool ==> npay(v) == seq![5u8, if v->Bool_0 { 1u8 } else { 0u8 }],
        v is Number ==> npay(v) == seq![4u8] + enc_number(jnum(v->Number_0)->0), v is String ==> npay(v) == seq![3u8] + enc_str(nstr(v->String_0)),
{}
pub proof fn lemma_arr_open<B: AsMutBytes>(b: InnerArrayBuilder<'_, B>, s: Seq<JVal>)
    requires b.inv(), b.d() == b.current_depth, b.n() == s.len(), b.k() == 0, b.elems() == Seq::<SVal>::empty(), b.bytes_init_len <= b.v().len(), b.c() =~= arr_hdr(s.len() as int)
    ensures arr_at(b, s, 0)
{}
pub proof fn lemma_obj_open<B: AsMutBytes>(b: InnerObjectBuilder<'_, B>, m: JObj)
    requires b.inv(), b.d() == b.current_depth, b.n() == nsize(m), b.k() == 0, !b.key_sorted, b.mem() == Seq::<(Seq<u8>, SVal)>::empty(), b.bytes_init_len <= b.v().len(), b.c() =~= obj_hdr(nsize(m) as int)
    ensures obj_at(b, m, 0)
{}
/// A container opened after w.
pub proof fn lemma_after(w: Seq<u8>, h: Seq<u8>)
    ensures reg(w + h, w.len() as int) == h,
        forall|cv: Seq<u8>| #[trigger] agree(w + h, cv, 0, w.len() as int) ==> agree(w, cv, 0, w.len() as int),
{
    assert(reg(w + h, w.len() as int) =~= h);
    assert forall|cv: Seq<u8>| #[trigger] agree(w + h, cv, 0, w.len() as int) implies agree(w, cv, 0, w.len() as int) by {
        assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] == cv[j] by { assert((w + h)[j] == cv[j]); }
    }
}
pub proof fn lemma_keyed_len<B: AsMutBytes>(o: InnerObjectBuilder<'_, B>, key: Seq<u8>, pos: int)
    requires o.inv(), o.reject(key) is None, o.slot(key, pos)
    ensures o.keyed(key, pos).len() == o.v().len() + 2 + key.len()
{}
pub proof fn lemma_top(v: Seq<u8>, f: Seq<u8>, x: JVal)
    requires x is Array || x is Object, reg(v, 0) == nbody(x), f == put(v, 1, b32(v.len() - 5))
    ensures f == npay(x)
{ lemma_nin(x, 0); assert(reg(v, 0) =~= v); }
/// A container appended to v0 is all there is after it.
pub proof fn lemma_appended(v0: Seq<u8>, h: Seq<u8>, cv: Seq<u8>, f: Seq<u8>, x: JVal)
    requires x is Array || x is Object, cv.len() >= v0.len() + 7, agree(v0 + h, cv, 0, v0.len() as int), reg(cv, v0.len() as int) == nbody(x),
        f == put(cv, v0.len() as int + 1, b32(cv.len() - v0.len() - 5)),
    ensures f == v0 + npay(x), reg(f, v0.len() as int) == npay(x)
{
    lemma_nin(x, 0);
    lemma_after(v0, h);
    let l = v0.len() as int;
    lemma_sized(cv, l, cv.len() - l - 5);
    assert forall|j: int| 0 <= j < l implies #[trigger] f[j] == v0[j] by { assert(cv[j] == v0[j]); }
    assert(f =~= v0 + reg(f, l));
}
pub proof fn lemma_obj_full<B: AsMutBytes>(b: InnerObjectBuilder<'_, B>, m: JObj)
    requires obj_at(b, m, nsize(m) as int)
    ensures nondecreasing(b.mem()), distinct_keys(b.mem())
{ lemma_members(m); }
/// What finish leaves of a container.
pub proof fn lemma_sized(v: Seq<u8>, i0: int, off: int)
    requires 0 <= i0, i0 + 5 <= v.len(), off == v.len() - i0 - 5
    ensures reg(put(v, i0 + 1, b32(off)), i0) == sized(reg(v, i0)), agree(v, put(v, i0 + 1, b32(off)), 0, i0), put(v, i0 + 1, b32(off)).len() == v.len()
{ assert(reg(put(v, i0 + 1, b32(off)), i0) =~= sized(reg(v, i0))); }
/// Element k is a container that was written in place.
pub proof fn lemma_arr_nested<B: AsMutBytes>(o: InnerArrayBuilder<'_, B>, b: InnerArrayBuilder<'_, B>, s: Seq<JVal>, k: int, cv: Seq<u8>)
    requires
        arr_at(o, s, k), k < s.len(), o.reject() is None, b.opened(&o), b.d() == o.d(), s[k] is Array || s[k] is Object,
        cv.len() >= o.v().len() + 7, agree(with_entry(o.v(), o.value_entry_pos as int, ctag(s[k]), o.off()), cv, 0, o.v().len() as int),
        reg(cv, o.v().len() as int) == nbody(s[k]), b.v() == put(cv, o.v().len() as int + 1, b32(cv.len() - o.v().len() - 5)),
        ({ let r = reg(b.v(), o.v().len() as int); wf_c(r) && cont(r) == jval(s[k]) }),
    ensures arr_at(b, s, k + 1), agree(o.v(), b.v(), 0, o.bytes_init_len as int)
{
    lemma_nin(s[k], 0);
    let l = o.v().len() as int;
    lemma_sized(cv, l, cv.len() - l - 5);
    let r = reg(b.v(), l);
    assert(r == npay(s[k]));
    let w = with_entry(o.v(), o.value_entry_pos as int, ctag(s[k]), o.off());
    assert(agree(w, b.v(), 0, l)) by { assert forall|j: int| 0 <= j < l implies #[trigger] w[j] == b.v()[j] by { assert(w[j] == cv[j]); } }
    b.lemma_child(&o, ctag(s[k]));
    assert(b.v() =~= w + r);
    lemma_arr_step(o, b, s, k);
}
pub proof fn lemma_nkey_valid(m: JObj, k: int) ensures vstd::utf8::valid_utf8(nkey(m, k)) { vstd::utf8::encode_utf8_valid_utf8(m.entries@[k].0@); }
pub proof fn lemma_obj_nested<B: AsMutBytes>(o: InnerObjectBuilder<'_, B>, b: InnerObjectBuilder<'_, B>, m: JObj, k: int, pos: int, cv: Seq<u8>)
    requires
        obj_at(o, m, k), k < nsize(m), o.reject(nkey(m, k)) is None, o.slot(nkey(m, k), pos), b.opened(&o), b.d() == o.d(), m.entries@[k].1 is Array || m.entries@[k].1 is Object,
        ({
            let w = o.keyed(nkey(m, k), pos);
            cv.len() >= w.len() + 7 && agree(w, cv, 0, w.len() as int) && reg(cv, w.len() as int) == nbody(m.entries@[k].1)
                && b.v() == put(cv, w.len() as int + 1, b32(cv.len() - w.len() - 5)) && wf_c(reg(b.v(), w.len() as int)) && cont(reg(b.v(), w.len() as int)) == jval(m.entries@[k].1)
        }),
    ensures obj_at(b, m, k + 1), agree(o.v(), b.v(), 0, o.bytes_init_len as int)
{
    hide(pobj); hide(pmem); hide(with_key); hide(nobj); hide(jmems); hide(jval); hide(npay); hide(wf_c); hide(cont);
    let x = m.entries@[k].1;
    lemma_nin(x, 0);
    let w = o.keyed(nkey(m, k), pos);
    let l = w.len() as int;
    lemma_sized(cv, l, cv.len() - l - 5);
    let r = reg(b.v(), l);
    assert(r == npay(x));
    assert(agree(w, b.v(), 0, l)) by { assert forall|j: int| 0 <= j < l implies #[trigger] w[j] == b.v()[j] by { assert(w[j] == cv[j]); } }
    lemma_nkey_valid(m, k);
    lemma_keyed_len(o, nkey(m, k), pos);
    b.lemma_child(&o, nkey(m, k), pos);
    assert(b.v() =~= w + r);
    lemma_obj_step(o, b, m, k, pos);
}
pub proof fn lemma_obj_did<B: AsMutBytes>(o: InnerObjectBuilder<'_, B>, b: InnerObjectBuilder<'_, B>, m: JObj, k: int)
    requires obj_at(o, m, k), k < nsize(m), b.pushed(&o, nkey(m, k), jval(m.entries@[k].1), npay(m.entries@[k].1))
    ensures obj_at(b, m, k + 1)
{
    let pos = choose|pos: int| #[trigger] o.slot(nkey(m, k), pos) && b.mem() == o.mem().insert(pos, (nkey(m, k), jval(m.entries@[k].1))) && b.v() == o.keyed(nkey(m, k), pos) + npay(m.entries@[k].1);
    lemma_obj_step(o, b, m, k, pos);
}
@end
@inherent impl TryFrom<&serde_json::Value> for YasonBuf
@fn YasonBuf::try_from
%ret r
%opt asstr=string:0 addref=number rlimit=200
%spec
    ensures
        r matches Ok(y) ==> nfail(*value) is None && doc(y.bytes@) && y.bytes@ == npay(*value) && val(y.bytes@) == jval(*value),
        r matches Err(e) ==> why(e, nfail(*value)),
%hint start
    hide(narr); hide(nobj); hide(jelems); hide(jmems); hide(npay); hide(jval); hide(nin); hide(narr_fail); hide(nobj_fail); hide(sized); hide(parr); hide(pobj); hide(pelems); hide(pmem); hide(with_key); hide(wf_c); hide(doc); hide(cont);
    proof { lemma_pay(*value); lemma_nin(*value, 0); lemma_jval(*value); }
%hint before call write_array 0
    proof { lemma_after(Seq::<u8>::empty(), array_builder.0.v()); lemma_arr_open(array_builder.0, val@); }
%hint before call finish 0
    proof { lemma_top(array_builder.0.v(), array_builder.0.finished(), *value); }
%hint before call write_object 0
    proof { lemma_obj_open(object_builder.0, *val); }
%hint before call finish 1
    proof { lemma_obj_full(object_builder.0, *val); lemma_top(object_builder.0.v(), object_builder.0.finished(), *value); }
@fn YasonBuf::parse
%ret r
%spec
    ensures
        r matches Ok(y) ==> (json_of(str@) matches Some(j) && nfail(j) is None && doc(y.bytes@) && y.bytes@ == npay(j) && val(y.bytes@) == jval(j)),
        r matches Err(e) ==> e is TryReserveError || (match json_of(str@) { None => e is JsonError, Some(j) => nfail(j) == Some(e) }),
@fn Yason::parse_to
%ret r
%opt asstr=string_with_vec:0 addref=number_with_vec:0 rlimit=200
%spec
    ensures
        r matches Ok(y) ==> (json_of(str@) matches Some(j) && nfail(j) is None && doc(y.bytes@) && y.bytes@ == npay(j) && val(y.bytes@) == jval(j)
            && final(bytes)@ == old(bytes)@ + npay(j)),
        r matches Err(e) ==> e is TryReserveError || (match json_of(str@) { None => e is JsonError, Some(j) => nfail(j) == Some(e) }),
%hint start
    hide(narr); hide(nobj); hide(jelems); hide(jmems); hide(npay); hide(jval); hide(nin); hide(narr_fail); hide(nobj_fail); hide(sized); hide(parr); hide(pobj); hide(pelems); hide(pmem); hide(with_key); hide(wf_c); hide(doc); hide(cont);
    let ghost v0 = bytes@;
%hint after let json
    proof { lemma_pay(json); lemma_nin(json, 0); lemma_jval(json); }
%hint before call write_array 0
    let ghost c0 = builder.0;
    proof { lemma_after(v0, arr_hdr(array@.len() as int)); lemma_arr_open(builder.0, array@); }
%hint before call finish 0
    proof { lemma_appended(v0, arr_hdr(array@.len() as int), builder.0.v(), builder.0.finished(), json); }
%hint before call write_object 0
    let ghost c0 = builder.0;
    proof { lemma_after(v0, obj_hdr(nsize(*object) as int)); lemma_obj_open(builder.0, *object); }
%hint before call finish 1
    proof { lemma_obj_full(builder.0, *object); lemma_appended(v0, obj_hdr(nsize(*object) as int), builder.0.v(), builder.0.finished(), json); }
@fn write_array
%ret r
%opt asstr=push_string:0 addref=push_number rlimit=200
%spec
    requires arr_at(old(builder).inner(), array@, 0), array@.len() <= 65535,
    ensures
        r matches Ok(_) ==> final(builder).inner().fixed(&old(builder).inner()) && arr_at(final(builder).inner(), array@, array@.len() as int)
            && narr_fail(array@, old(builder).inner().d(), array@.len()) is None
            && agree(old(builder).inner().v(), final(builder).inner().v(), 0, old(builder).inner().bytes_init_len as int),
        r matches Err(e) ==> why(e, narr_fail(array@, old(builder).inner().d(), array@.len())),
    decreases array@,
%hint start
    hide(narr); hide(nobj); hide(jelems); hide(jmems); hide(npay); hide(jval); hide(nin); hide(narr_fail); hide(nobj_fail); hide(sized); hide(parr); hide(pobj); hide(pelems); hide(pmem); hide(with_key); hide(wf_c); hide(doc); hide(cont);
    let ghost b0 = *builder;
    let ghost s = array@;
    proof { lemma_arr_zero(s, b0.inner().d()); }
%loop 0
    invariant
        vs0@ == s, s == array@, vi0 <= s.len(), s.len() <= 65535,
        arr_at(builder.inner(), s, vi0 as int), builder.inner().fixed(&b0.inner()),
        narr_fail(s, b0.inner().d(), vi0 as nat) is None,
        agree(b0.inner().v(), builder.inner().v(), 0, b0.inner().bytes_init_len as int),
        b0.inner().d() == b0.inner().current_depth, b0 == *old(builder),
    decreases s.len() - vi0,
%hint loop 0 start
    let ghost o = *builder;
    let ghost k = vi0 as int;
    proof { lemma_arr_next(s, b0.inner().d(), k); lemma_pay(s[k]); lemma_nin(s[k], b0.inner().d()); lemma_jval(s[k]); assert(decreases_to!(s => s[k])); }
%hint before call write_array 0
    let ghost c0 = array_builder.0;
    proof { broadcast use vstd::std_specs::vec::axiom_vec_decreases_to_view; lemma_after(with_entry(o.inner().v(), o.inner().value_entry_pos as int, ctag(s[k]), o.inner().off()), arr_hdr(val@.len() as int)); lemma_arr_open(c0, val@); }
%hint before call finish 0
    let ghost ch = array_builder.0;
%hint after call finish 0
    proof {
        ch.lemma_finished();
        lemma_sized(ch.v(), ch.bytes_init_len as int, ch.off());
        let r = reg(builder.inner().v(), o.inner().v().len() as int);
        assert(builder.inner().v() == ch.finished());
        assert(wf_c(r));
        assert(cont(r) == jval(s[k]));
        lemma_arr_nested(o.inner(), builder.inner(), s, k, ch.v());
    }
%hint before call write_object 0
    let ghost c0 = object_builder.0;
    proof { lemma_after(with_entry(o.inner().v(), o.inner().value_entry_pos as int, ctag(s[k]), o.inner().off()), obj_hdr(nsize(*val) as int)); lemma_obj_open(c0, *val); }
%hint before call finish 1
    let ghost ch = object_builder.0;
    proof { lemma_obj_full(ch, *val); }
%hint after call finish 1
    proof {
        ch.lemma_finished();
        lemma_sized(ch.v(), ch.bytes_init_len as int, ch.off());
        let r = reg(builder.inner().v(), o.inner().v().len() as int);
        assert(builder.inner().v() == ch.finished());
        assert(wf_c(r));
        assert(cont(r) == jval(s[k]));
        lemma_arr_nested(o.inner(), builder.inner(), s, k, ch.v());
    }
%hint loop 0 end
    proof {
        if !(s[k] is Array || s[k] is Object) { lemma_arr_step(o.inner(), builder.inner(), s, k); }
    }
@fn write_object
%ret r
%opt asstr=push_string:0:1,push_null:0,push_bool:0,push_number:0,push_array:0,push_object:0 addref=push_number rlimit=200
%spec
    requires obj_at(old(builder).inner(), *object, 0), nsize(*object) <= 65535,
    ensures
        r matches Ok(_) ==> final(builder).inner().fixed(&old(builder).inner()) && obj_at(final(builder).inner(), *object, nsize(*object) as int)
            && nobj_fail(*object, old(builder).inner().d(), nsize(*object)) is None
            && agree(old(builder).inner().v(), final(builder).inner().v(), 0, old(builder).inner().bytes_init_len as int),
        r matches Err(e) ==> why(e, nobj_fail(*object, old(builder).inner().d(), nsize(*object))),
    decreases *object,
%hint start
    hide(narr); hide(nobj); hide(jelems); hide(jmems); hide(npay); hide(jval); hide(nin); hide(narr_fail); hide(nobj_fail); hide(sized); hide(parr); hide(pobj); hide(pelems); hide(pmem); hide(with_key); hide(wf_c); hide(doc); hide(cont);
    let ghost b0 = *builder;
    let ghost m = *object;
    proof { lemma_obj_zero(m, b0.inner().d()); }
%loop 0 into
    invariant
        *vit0.m == m, m == *object, vit0.i <= nsize(m), nsize(m) <= 65535,
        obj_at(builder.inner(), m, vit0.i as int), builder.inner().fixed(&b0.inner()),
        nobj_fail(m, b0.inner().d(), vit0.i as nat) is None,
        agree(b0.inner().v(), builder.inner().v(), 0, b0.inner().bytes_init_len as int),
        b0.inner().d() == b0.inner().current_depth, b0 == *old(builder),
    ensures vit0.i == nsize(m),
    decreases nsize(m) - vit0.i,
%hint loop 0 start
    let ghost o = *builder;
    let ghost k = vit0.i as int;
    proof {
        if k < nsize(m) {
            let x = m.entries@[k].1;
            lemma_obj_next(m, b0.inner().d(), k); lemma_nin(x, b0.inner().d()); lemma_jval(x); lemma_map_dec(m, k);
        }
    }
%hint before call write_array 0
    let ghost c0 = array_builder.0;
    let ghost pos = choose|pos: int| #[trigger] o.inner().slot(nkey(m, k), pos) && c0.v() == o.inner().keyed(nkey(m, k), pos) + arr_hdr(val@.len() as int);
    proof { broadcast use vstd::std_specs::vec::axiom_vec_decreases_to_view; lemma_keyed_len(o.inner(), nkey(m, k), pos); lemma_after(o.inner().keyed(nkey(m, k), pos), arr_hdr(val@.len() as int)); lemma_arr_open(c0, val@); }
%hint before call finish 0
    let ghost ch = array_builder.0;
%hint after call finish 0
    proof {
        ch.lemma_finished();
        lemma_sized(ch.v(), ch.bytes_init_len as int, ch.off());
        let w = o.inner().keyed(nkey(m, k), pos);
        let r = reg(builder.inner().v(), w.len() as int);
        assert(builder.inner().v() == ch.finished());
        assert(agree(w, ch.v(), 0, w.len() as int));
        assert(reg(ch.v(), w.len() as int) == nbody(m.entries@[k].1));
        assert(wf_c(r));
        assert(cont(r) == jval(m.entries@[k].1));
        lemma_obj_nested(o.inner(), builder.inner(), m, k, pos, ch.v());
    }
%hint before call write_object 0
    let ghost c0 = object_builder.0;
    let ghost pos = choose|pos: int| #[trigger] o.inner().slot(nkey(m, k), pos) && c0.v() == o.inner().keyed(nkey(m, k), pos) + obj_hdr(nsize(*val) as int);
    proof { lemma_keyed_len(o.inner(), nkey(m, k), pos); lemma_after(o.inner().keyed(nkey(m, k), pos), obj_hdr(nsize(*val) as int)); lemma_obj_open(c0, *val); }
%hint before call finish 1
    let ghost ch = object_builder.0;
    proof { lemma_obj_full(ch, *val); }
%hint after call finish 1
    proof {
        ch.lemma_finished();
        lemma_sized(ch.v(), ch.bytes_init_len as int, ch.off());
        let w = o.inner().keyed(nkey(m, k), pos);
        let r = reg(builder.inner().v(), w.len() as int);
        assert(builder.inner().v() == ch.finished());
        assert(agree(w, ch.v(), 0, w.len() as int));
        assert(reg(ch.v(), w.len() as int) == nbody(m.entries@[k].1));
        assert(wf_c(r));
        assert(cont(r) == jval(m.entries@[k].1));
        lemma_obj_nested(o.inner(), builder.inner(), m, k, pos, ch.v());
    }
%hint loop 0 end
    proof {
        let x = m.entries@[k].1;
        if !(x is Array || x is Object) { lemma_obj_did(o.inner(), builder.inner(), m, k); }
    }
@fn number2decimal
%ret r
%opt conv=try_reserve
%spec
    ensures
        r matches Ok(d) ==> jnum(*val) == Some(nv(d)),
        r matches Err(e) ==> e is TryReserveError || (jnum(*val) is None && e == BuildError::NumberError(NumberError::Overflow)),
%hint start
    proof { axiom_num_text(*val); }
