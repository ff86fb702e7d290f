@items
use crate::path::parse::*;
/// The values in a query buffer.
pub open spec fn vals(b: Seq<Value<'_>>) -> Seq<SVal> { b.map_values(|v: Value<'_>| vv(v)) }
pub open spec fn allok(b: Seq<Value<'_>>) -> bool { forall|i: int| 0 <= i < b.len() ==> vok(#[trigger] b[i]) }
pub proof fn lemma_vals_push<'a>(b: Seq<Value<'a>>, x: Value<'a>)
    ensures vals(b.push(x)) == vals(b).push(vv(x)), allok(b) && vok(x) ==> allok(b.push(x))
{
    assert(vals(b.push(x)) =~= vals(b).push(vv(x)));
}
impl<'a, 'b> Selector<'a, 'b> {
    pub open spec fn inv(&self) -> bool {
        steps_ok(self.steps@) && allok(self.query_buf@) && (!self.with_wrapper ==> self.query_buf@.len() <= 1)
            && (method(self.steps@) ==> self.with_wrapper && !self.for_exists)
    }
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool {
        self.steps == o.steps && self.with_wrapper == o.with_wrapper && self.for_exists == o.for_exists
            && *final(self.query_buf) == *final(o.query_buf)
    }
    /// The values x were selected: added to the buffer, or their presence reported.
    #[verifier::prophetic]
    pub open spec fn did(&self, o: &Self, r: YasonResult<bool>, x: Seq<SVal>) -> bool {
        self.inv() && self.same(o) && (
            if o.for_exists { self.query_buf@ == o.query_buf@ && (r matches Ok(f) && f == (x.len() > 0)) }
            else {
                match r {
                    Ok(_) => vals(self.query_buf@) == vals(o.query_buf@) + x,
                    Err(e) => e is TryReserveError || (e is MultiValuesWithoutWrapper && !o.with_wrapper && o.query_buf@.len() + x.len() > 1),
                }
            })
    }
}
@end
@fn Selector::new
%ret r
%spec
    ensures r.steps == steps, r.with_wrapper == with_wrapper, r.for_exists == for_exists, r.query_buf@ == old(query_buf)@, *final(r.query_buf) == *final(query_buf),
@fn Selector::query
%ret r
%spec
    requires old(self).inv(), doc(value.bytes@), 1 <= step_index <= old(self).steps@.len(),
    ensures final(self).did(old(self), r, sel(val(value.bytes@), old(self).steps@, step_index as int)),
@fn Selector::query_internal
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index <= old(self).steps@.len(),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 1int,
%hint start
    hide(sel);
    let ghost b0 = self.query_buf@;
    proof {
        lemma_add(vals(b0), Seq::<SVal>::empty(), Seq::<SVal>::empty());
        lemma_sel(lv(value), self.steps@, step_index as int);
    }
%hint after call push_value 0
    proof { assert(self.query_buf@ =~= b0.push(self.query_buf@.last())); lemma_vals_push(b0, self.query_buf@.last());
        assert(vals(b0).push(lv(value)) =~= vals(b0) + seq![lv(value)]); }
@fn Selector::object_key_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), (old(self).steps@[step_index as int] matches Step::Object(ObjectStep::Key(k)) && skey(k) == key.spec_bytes()),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z);  }
%hint after let array
    let ghost a = elems(array.b());
    let ghost ps = every(a.len() as int);
    proof { lemma_arr_view(array.b(), v); }
%hint after let object
    let ghost m = members(object.b());
    let ghost own = sel_key(m, key.spec_bytes(), s, i + 1);
    proof { lemma_obj_view(object.b(), v); lemma_sel_key(object.b(), key.spec_bytes(), s, i + 1); lemma_add(b0, own, z); }
%loop 0 iter
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_at(a, ps, vit0.index as int, s, i)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_at(a, ps, vit0.index as int, s, i)),
        vit0.array.0 == array.0, vit0.len == cnt(array.b()), vit0.index <= vit0.len,
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof { lemma_at_zero(a, ps, s, i); }
%hint loop 0 start
    proof { if vit0.index < vit0.len { lemma_elem(array.b(), vit0.index as int); lemma_at_next(a, ps, vit0.index as int, s, i); lemma_add(b0, sel_at(a, ps, vit0.index as int, s, i), sel(a[vit0.index as int], s, i)); } }
@fn Selector::object_wildcard_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), old(self).steps@[step_index as int] == Step::Object(ObjectStep::Wildcard),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z);  }
%hint after let array
    let ghost a = elems(array.b());
    let ghost ps = every(a.len() as int);
    proof { lemma_arr_view(array.b(), v); }
%hint after let object
    let ghost m = members(object.b());
    proof { lemma_obj_view(object.b(), v); }
%loop 0 iter
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_mem(m, vit0.index as int, s, i + 1)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_mem(m, vit0.index as int, s, i + 1)),
        vit0.object.0 == object.0, vit0.len == cnt(object.b()), vit0.index <= vit0.len,
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof { lemma_mem_zero(m, s, i + 1); }
%hint loop 0 start
    proof { if vit0.index < vit0.len { lemma_member(object.b(), vit0.index as int); lemma_mem_next(m, vit0.index as int, s, i + 1); lemma_add(b0, sel_mem(m, vit0.index as int, s, i + 1), sel(m[vit0.index as int].1, s, i + 1));  } }
%loop 1 iter
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_at(a, ps, vit1.index as int, s, i)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_at(a, ps, vit1.index as int, s, i)),
        vit1.array.0 == array.0, vit1.len == cnt(array.b()), vit1.index <= vit1.len,
    decreases vit1.len - vit1.index,
%hint before loop 1
    proof { lemma_at_zero(a, ps, s, i); }
%hint loop 1 start
    proof { if vit1.index < vit1.len { lemma_elem(array.b(), vit1.index as int); lemma_at_next(a, ps, vit1.index as int, s, i); lemma_add(b0, sel_at(a, ps, vit1.index as int, s, i), sel(a[vit1.index as int], s, i)); } }
@fn Selector::descendent_step_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), (old(self).steps@[step_index as int] matches Step::Descendent(k) && skey(k) == key.spec_bytes()),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z);  }
%hint after let array
    let ghost a = elems(array.b());
    let ghost ps = every(a.len() as int);
    proof { lemma_arr_view(array.b(), v); }
%hint after let object
    let ghost m = members(object.b());
    let ghost own = sel_key(m, key.spec_bytes(), s, i + 1);
    proof { lemma_obj_view(object.b(), v); lemma_sel_key(object.b(), key.spec_bytes(), s, i + 1); lemma_add(b0, own, z); }
%loop 0 iter
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (own + sel_mem(m, vit0.index as int, s, i)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (own + sel_mem(m, vit0.index as int, s, i)),
        vit0.object.0 == object.0, vit0.len == cnt(object.b()), vit0.index <= vit0.len,
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof { lemma_mem_zero(m, s, i); lemma_add(b0, own, z); }
%hint loop 0 start
    proof { if vit0.index < vit0.len { lemma_member(object.b(), vit0.index as int); lemma_mem_next(m, vit0.index as int, s, i); lemma_add(b0, own + sel_mem(m, vit0.index as int, s, i), sel(m[vit0.index as int].1, s, i)); lemma_add(own, sel_mem(m, vit0.index as int, s, i), sel(m[vit0.index as int].1, s, i)); } }
%loop 1 iter
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_at(a, ps, vit1.index as int, s, i)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_at(a, ps, vit1.index as int, s, i)),
        vit1.array.0 == array.0, vit1.len == cnt(array.b()), vit1.index <= vit1.len,
    decreases vit1.len - vit1.index,
%hint before loop 1
    proof { lemma_at_zero(a, ps, s, i); }
%hint loop 1 start
    proof { if vit1.index < vit1.len { lemma_elem(array.b(), vit1.index as int); lemma_at_next(a, ps, vit1.index as int, s, i); lemma_add(b0, sel_at(a, ps, vit1.index as int, s, i), sel(a[vit1.index as int], s, i)); } }
@fn Selector::array_wildcard_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), old(self).steps@[step_index as int] == Step::Array(ArrayStep::Wildcard),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z);  }
%hint after let array
    let ghost a = elems(array.b());
    let ghost ps = every(a.len() as int);
    proof { lemma_arr_view(array.b(), v); }
%loop 0 iter
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_at(a, ps, vit0.index as int, s, i + 1)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_at(a, ps, vit0.index as int, s, i + 1)),
        vit0.array.0 == array.0, vit0.len == cnt(array.b()), vit0.index <= vit0.len,
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof { lemma_at_zero(a, ps, s, i + 1); }
%hint loop 0 start
    proof { if vit0.index < vit0.len { lemma_elem(array.b(), vit0.index as int); lemma_at_next(a, ps, vit0.index as int, s, i + 1); lemma_add(b0, sel_at(a, ps, vit0.index as int, s, i + 1), sel(a[vit0.index as int], s, i + 1)); } }
@fn Selector::array_index_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), old(self).steps@[step_index as int] == Step::Array(ArrayStep::Index(index)),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z); lemma_rng_one(index as int, 1); }
%hint after let array
    let ghost a = elems(array.b());
    let ghost p = index as int;
    proof { lemma_arr_view(array.b(), v); lemma_at_pos(a, p, s, i + 1); if 0 <= p < a.len() { lemma_elem(array.b(), p); } }
@fn Selector::array_last_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), old(self).steps@[step_index as int] == Step::Array(ArrayStep::Last(minus)),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z); lemma_rng_one(0 - minus, 1); }
%hint after let array
    let ghost a = elems(array.b());
    let ghost p = a.len() - 1 - minus;
    proof { lemma_arr_view(array.b(), v); lemma_at_pos(a, p, s, i + 1); if 0 <= p < a.len() { lemma_elem(array.b(), p); } }
@fn Selector::array_range_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), old(self).steps@[step_index as int] == Step::Array(ArrayStep::Range(*begin, *end)),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z);  }
%hint after let array
    let ghost a = elems(array.b());
    let ghost ps = rng(end_pos(*begin, a.len() as int), end_pos(*end, a.len() as int), a.len() as int);
    proof { lemma_arr_view(array.b(), v); lemma_at_zero(a, ps, s, i + 1); }
%loop 0 desugar
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_at(a, ps, vi0 - b, s, i + 1)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_at(a, ps, vi0 - b, s, i + 1)),
        b <= vi0, vs0 == e + 1, vi0 <= e + 1,
    decreases vs0 - vi0,
%hint before loop 0
    proof { lemma_at_zero(a, ps, s, i + 1); }
%hint loop 0 start
    proof { assert(ps[vi0 - b] == vi0); lemma_elem(array.b(), vi0 as int); lemma_at_next(a, ps, vi0 - b, s, i + 1); lemma_add(b0, sel_at(a, ps, vi0 - b, s, i + 1), sel(a[vi0 as int], s, i + 1));  }
@fn Selector::array_multi_steps_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), (old(self).steps@[step_index as int] matches Step::Array(ArrayStep::Multiple(m)) && m@ == arr_steps@),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 1int } else { 0int }), old(self).steps@.len() - step_index, 0int,
%hint start
    hide(sel); hide(sel_at); hide(sel_mem); hide(sel_key); hide(multi_pos); hide(sel_multi); hide(rng); hide(elems); hide(members); hide(arr_ok); hide(obj_ok);
    let ghost s = self.steps@; assert(self.steps.len() == s.len());
    let ghost i = step_index as int;
    let ghost v = lv(value);
    let ghost b0 = vals(self.query_buf@);
    let ghost f0 = *final(self.query_buf);
    let ghost z = Seq::<SVal>::empty();
    proof { lemma_lok(value); lemma_sel(v, s, i); lemma_add(b0, z, z);  }
%hint after let array
    let ghost a = elems(array.b());
    let ghost n = a.len() as int;
    proof { lemma_arr_view(array.b(), v); lemma_multi_view(a, arr_steps@, s, i + 1); }
%loop 0 
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (sel_multi(a, arr_steps@, arr_steps_index as int, s, i + 1)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (sel_multi(a, arr_steps@, arr_steps_index as int, s, i + 1)),
        arr_steps_index <= arr_steps@.len(),
    decreases arr_steps@.len() - arr_steps_index,
%hint before loop 0
    proof { lemma_multi_zero(a, arr_steps@, s, i + 1); }
%hint loop 0 start
    proof {  }
%hint after let cur_step
    let ghost k = arr_steps_index as int;
    let ghost ps = single_pos(arr_steps@[k], n);
    let ghost pre = sel_multi(a, arr_steps@, k, s, i + 1);
    proof {
        lemma_multi_next(a, arr_steps@, k, n, s, i + 1);
        lemma_add(b0, pre, sel_at(a, ps, ps.len() as int, s, i + 1)); lemma_add(b0, pre, z);
        match arr_steps@[k] {
            SingleStep::Single(x) => { let p = end_pos(x, n); lemma_at_pos(a, p, s, i + 1); lemma_add(b0, pre, sel(a[p], s, i + 1)); if 0 <= p < n { lemma_elem(array.b(), p); } }
            _ => { lemma_at_zero(a, ps, s, i + 1); }
        }
    }
%loop 1 desugar
    invariant
        self.inv(), self.steps == old(self).steps, self.with_wrapper == old(self).with_wrapper, self.for_exists == old(self).for_exists, *final(self.query_buf) == f0,
        self.for_exists ==> self.query_buf@ == old(self).query_buf@ && (pre + sel_at(a, ps, vi1 - b, s, i + 1)).len() == 0,
        !self.for_exists ==> vals(self.query_buf@) == b0 + (pre + sel_at(a, ps, vi1 - b, s, i + 1)),
        b <= vi1, vs1 == e + 1, vi1 <= e + 1,
    decreases vs1 - vi1,
%hint before loop 1
    proof { lemma_at_zero(a, ps, s, i + 1); lemma_add(b0, pre, z); }
%hint loop 1 start
    proof { assert(ps[vi1 - b] == vi1); lemma_elem(array.b(), vi1 as int); lemma_at_next(a, ps, vi1 - b, s, i + 1); lemma_add(b0, pre + sel_at(a, ps, vi1 - b, s, i + 1), sel(a[vi1 as int], s, i + 1)); lemma_add(pre, sel_at(a, ps, vi1 - b, s, i + 1), sel(a[vi1 as int], s, i + 1)); }
@fn Selector::func_step_match
%opt noloopiso
%ret r
%spec
    requires old(self).inv(), lok(value), 1 <= step_index < old(self).steps@.len(), old(self).steps@[step_index as int] == Step::Func(*func),
    ensures final(self).did(old(self), r, sel(lv(value), old(self).steps@, step_index as int)),
%hint start
    let ghost b0 = self.query_buf@;
    assert(self.steps.len() == self.steps@.len());
    proof { lemma_lok(value); lemma_tags(value.ty, stag(lv(value))); }
%hint after call push_value 0
    proof { lemma_vals_push(b0, self.query_buf@.last()); assert(self.query_buf@ =~= b0.push(self.query_buf@.last()));
        assert(vals(b0).push(fval(*func, lv(value))) =~= vals(b0) + seq![fval(*func, lv(value))]); }
@fn non_array_relaxed_match
%ret r
%spec
    ensures r == (multi_pos(steps@, steps@.len() as int, 1).len() > 0),
%loop 0
    invariant vs0@ == steps@, vi0 <= vs0@.len(), multi_pos(steps@, vi0 as int, 1).len() == 0,
    decreases vs0@.len() - vi0,
%hint loop 0 start
    proof { lemma_multi_len(steps@, vi0 + 1, steps@.len() as int, 1);
        match steps@[vi0 as int] { SingleStep::Single(x) => lemma_rng_one(end_pos(x, 1), 1), _ => {} } }
@fn find_range
%ret r
%spec
    ensures
        r matches Some(p) ==> p.0 <= p.1 < len && rng(end_pos(*begin, len as int), end_pos(*end, len as int), len as int) == Seq::new((p.1 - p.0 + 1) as nat, |j: int| p.0 + j),
        r is None ==> rng(end_pos(*begin, len as int), end_pos(*end, len as int), len as int) == Seq::<int>::empty(),
@fn find_range::inner
%ret r
%spec
    requires len > 0,
    ensures
        r matches Some(p) ==> p.0 <= p.1 < len && rng(u1 as int, u2 as int, len as int) == Seq::new((p.1 - p.0 + 1) as nat, |j: int| p.0 + j),
        r is None ==> rng(u1 as int, u2 as int, len as int) == Seq::<int>::empty(),
