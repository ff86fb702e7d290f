@items
impl<'a, B: AsMutBytes> InnerObjectBuilder<'a, B> {
    pub open spec fn v(&self) -> Seq<u8> { self.bytes.v() }
    pub open spec fn c(&self) -> Seq<u8> { reg(self.v(), self.bytes_init_len as int) }
    pub open spec fn n(&self) -> int { self.element_count as int }
    pub open spec fn k(&self) -> int { self.value_count as int }
    pub open spec fn d(&self) -> int { self.total_nested_depth.d() as int }
    pub open spec fn off(&self) -> int { self.v().len() - self.start_pos }
    /// The members pushed so far, in stored order.
    pub open spec fn mem(&self) -> Seq<(Seq<u8>, SVal)> { pmem(self.c(), self.k()) }
    pub open spec fn cons(&self) -> bool {
        1 <= self.current_depth <= 100 && self.start_pos == self.bytes_init_len + 5 && self.k() <= self.n()
            && self.key_offset_pos == self.bytes_init_len + 7 + 4 * self.k()
    }
    pub open spec fn inv(&self) -> bool {
        self.cons() && (self.d() == self.current_depth ==> self.bytes_init_len <= self.v().len() && pobj(self.c(), self.n(), self.k())
            && (!self.key_sorted ==> nondecreasing(self.mem())))
    }
    #[verifier::prophetic]
    pub open spec fn fixed(&self, o: &Self) -> bool {
        self.element_count == o.element_count && self.start_pos == o.start_pos && self.bytes_init_len == o.bytes_init_len
            && self.current_depth == o.current_depth && self.key_sorted == o.key_sorted && self.bytes.fin() == o.bytes.fin()
            && self.total_nested_depth.fin() == o.total_nested_depth.fin() && self.total_nested_depth.lent() == o.total_nested_depth.lent()
    }
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool {
        self.fixed(o) && self.d() == o.d() && self.value_count == o.value_count && self.key_offset_pos == o.key_offset_pos && self.v() == o.v()
    }
    /// Why the next push is refused.
    pub open spec fn reject(&self, key: Seq<u8>) -> Option<BuildError> {
        if self.d() != self.current_depth { Some(BuildError::InnerUncompletedError) }
        else if self.k() >= self.n() {
            Some(BuildError::InconsistentElementCount { expected: self.element_count, actual: if self.k() == 65535 { 65535 } else { (self.k() + 1) as u16 } })
        }
        else if key.len() > 65535 { Some(BuildError::StringTooLong(key.len() as usize)) }
        else if self.off() > 0x7fff_ffff { Some(BuildError::DocumentTooLong(self.off() as usize)) }
        else { None }
    }
    /// Where a member with this key goes: last if the keys are pushed in order, else by the order of the keys.
    pub open spec fn slot(&self, key: Seq<u8>, pos: int) -> bool {
        0 <= pos <= self.k() && (if self.key_sorted { pos == self.k() } else { slot_ok(self.mem(), key, pos) })
    }
    pub open spec fn keyed(&self, key: Seq<u8>, pos: int) -> Seq<u8> {
        with_key(self.v(), self.bytes_init_len as int, self.k(), pos, self.off(), key)
    }
    /// o after pushing the member (key, x) encoded as pl.
    #[verifier::prophetic]
    pub open spec fn pushed(&self, o: &Self, key: Seq<u8>, x: SVal, pl: Seq<u8>) -> bool {
        self.fixed(o) && self.inv() && self.d() == o.d() && self.k() == o.k() + 1 && agree(o.v(), self.v(), 0, o.bytes_init_len as int)
            && exists|pos: int| #[trigger] o.slot(key, pos) && self.mem() == o.mem().insert(pos, (key, x)) && self.v() == o.keyed(key, pos) + pl
    }
    #[verifier::prophetic]
    pub open spec fn opened(&self, o: &Self) -> bool {
        self.fixed(o) && self.cons() && self.k() == o.k() + 1
    }
    #[verifier::prophetic]
    pub open spec fn did_push(&self, o: &Self, e: Option<BuildError>, key: Seq<u8>, x: SVal, pl: Seq<u8>) -> bool {
        if o.reject(key) is Some { e == o.reject(key) && self.same(o) }
        else if e is Some { e->0 is TryReserveError && self.same(o) }
        else { self.pushed(o, key, x, pl) }
    }
    #[verifier::prophetic]
    pub open spec fn did_string(&self, o: &Self, e: Option<BuildError>, key: Seq<u8>, s: Seq<u8>) -> bool {
        if s.len() > 268435455 { e == Some(BuildError::StringTooLong(s.len() as usize)) && self.same(o) }
        else { self.did_push(o, e, key, SVal::Str(s), seq![3u8] + enc_str(s)) }
    }
    #[verifier::prophetic]
    pub open spec fn did_number(&self, o: &Self, e: Option<BuildError>, key: Seq<u8>, n: NumV) -> bool {
        self.did_push(o, e, key, SVal::Num(n), seq![4u8] + enc_number(n))
    }
    #[verifier::prophetic]
    pub open spec fn did_bool(&self, o: &Self, e: Option<BuildError>, key: Seq<u8>, x: bool) -> bool {
        self.did_push(o, e, key, SVal::Bool(x), seq![5u8, if x { 1u8 } else { 0u8 }])
    }
    #[verifier::prophetic]
    pub open spec fn did_null(&self, o: &Self, e: Option<BuildError>, key: Seq<u8>) -> bool {
        self.did_push(o, e, key, SVal::Null, seq![6u8])
    }
    #[verifier::prophetic]
    pub open spec fn did_finish(&self, o: &Self, e: Option<BuildError>) -> bool {
        if o.d() != o.current_depth { e == Some(BuildError::InnerUncompletedError) && self.same(o) }
        else if o.k() != o.n() { e == Some(BuildError::InconsistentElementCount { expected: o.element_count, actual: o.value_count }) && self.same(o) }
        else if o.off() > 0x7fff_ffff { e == Some(BuildError::DocumentTooLong(o.off() as usize)) && self.same(o) }
        else { e is None && self.fixed(o) && self.d() == o.d() - 1 && self.v() == o.finished() }
    }
    pub open spec fn finished(&self) -> Seq<u8> { put(self.v(), self.bytes_init_len + 1, b32(self.off())) }
    /// finish will succeed.
    pub open spec fn done(&self) -> bool { self.d() == self.current_depth && self.k() == self.n() && self.off() <= 0x7fff_ffff }
    pub proof fn lemma_finished(&self)
        requires self.inv(), self.done(), nondecreasing(self.mem()), distinct_keys(self.mem()),
        ensures ({ let c = reg(self.finished(), self.bytes_init_len as int); obj_ok(c) && cont(c) == SVal::Obj(self.mem()) && c.len() == self.c().len() && doc(c) && val(c) == cont(c) }),
            agree(self.v(), self.finished(), 0, self.bytes_init_len as int), self.finished().len() == self.v().len(),
    {
        lemma_obj_finish(self.c(), self.n());
        let c = reg(self.finished(), self.bytes_init_len as int);
        assert(c =~= put(self.c(), 1, b32(self.c().len() - 5)));
        lemma_whole(c);
    }
    /// An embedded container of type t was opened under this key at slot pos.
    #[verifier::prophetic]
    pub open spec fn did_push_array<C: AsMutBytes>(&self, o: &Self, child: crate::builder::array::InnerArrayBuilder<'_, C>, key: Seq<u8>, n: u16) -> bool {
        o.reject(key) is None && o.current_depth < 100 && self.opened(o) && child.inv() && child.element_count == n && child.value_count == 0
            && child.elems() == Seq::<SVal>::empty() && child.current_depth == o.current_depth + 1 && child.d() == child.current_depth
            && (exists|pos: int| #[trigger] o.slot(key, pos) && child.v() == o.keyed(key, pos) + arr_hdr(n as int))
            && child.bytes_init_len == o.v().len() + 2 + key.len()
            && child.bytes.fin() == self.v() && child.total_nested_depth.fin() == self.d() && child.total_nested_depth.lent()
    }
    #[verifier::prophetic]
    pub open spec fn did_push_object<C: AsMutBytes>(&self, o: &Self, child: InnerObjectBuilder<'_, C>, key: Seq<u8>, n: u16, key_sorted: bool) -> bool {
        o.reject(key) is None && o.current_depth < 100 && self.opened(o) && child.inv() && child.element_count == n && child.value_count == 0 && child.key_sorted == key_sorted
            && child.mem() == Seq::<(Seq<u8>, SVal)>::empty() && child.current_depth == o.current_depth + 1 && child.d() == child.current_depth
            && (exists|pos: int| #[trigger] o.slot(key, pos) && child.v() == o.keyed(key, pos) + obj_hdr(n as int))
            && child.bytes_init_len == o.v().len() + 2 + key.len()
            && child.bytes.fin() == self.v() && child.total_nested_depth.fin() == self.d() && child.total_nested_depth.lent()
    }
    #[verifier::prophetic]
    pub open spec fn not_opened(&self, o: &Self, e: BuildError, key: Seq<u8>) -> bool {
        if o.current_depth >= 100 { e == BuildError::NestedTooDeeply && self.same(o) }
        else if o.reject(key) is Some { Some(e) == o.reject(key) && self.same(o) }
        else { e is TryReserveError }
    }
    pub proof fn lemma_pushed(&self, o: &Self, key: Seq<u8>, pos: int, x: SVal, pl: Seq<u8>)
        requires
            o.inv(), o.reject(key) is None, o.slot(key, pos), vstd::utf8::valid_utf8(key), self.cons(), self.key_sorted == o.key_sorted,
            self.start_pos == o.start_pos, self.bytes_init_len == o.bytes_init_len, self.element_count == o.element_count, self.d() == o.d(), self.current_depth == o.current_depth,
            self.k() == o.k() + 1, self.v() == o.keyed(key, pos) + pl, pl.len() > 0,
            wf_v(self.c(), (o.c().len() + 2 + key.len()) as int), val_at(self.c(), (o.c().len() + 2 + key.len()) as int) == x,
        ensures self.inv(), self.mem() == o.mem().insert(pos, (key, x)), agree(o.v(), self.v(), 0, o.bytes_init_len as int),
    {
        lemma_with_key(o.v(), o.bytes_init_len as int, o.n(), o.k(), pos, key, pl);
        if !o.key_sorted { lemma_slot(o.mem(), key, pos, x); }
    }
    pub proof fn lemma_did(&self, o: &Self, key: Seq<u8>, x: SVal, pl: Seq<u8>)
        requires
            o.inv(), o.reject(key) is None, vstd::utf8::valid_utf8(key), self.fixed(o), self.cons(), self.d() == o.d(), self.k() == o.k() + 1,
            exists|pos: int| #[trigger] o.slot(key, pos) && self.v() == o.keyed(key, pos) + pl,
            enc_of(pl, x),
        ensures self.pushed(o, key, x, pl)
    {
        let pos = choose|pos: int| #[trigger] o.slot(key, pos) && self.v() == o.keyed(key, pos) + pl;
        let (c, p) = (self.c(), o.c().len() + 2 + key.len());
        assert forall|j: int| 0 <= j < pl.len() implies c[p + j] == #[trigger] pl[j] by { assert(c[p + j] == self.v()[self.bytes_init_len + p + j]); }
        assert(found(c, p as int, pl));
        self.lemma_pushed(o, key, pos, x, pl);
    }
    /// C04: an embedded container that was finished is the value pushed under the key.
    pub proof fn lemma_child(&self, o: &Self, key: Seq<u8>, pos: int)
        requires
            o.inv(), o.reject(key) is None, o.slot(key, pos), vstd::utf8::valid_utf8(key), self.opened(o), self.d() == self.current_depth,
            self.v().len() >= o.keyed(key, pos).len(), agree(o.keyed(key, pos), self.v(), 0, o.keyed(key, pos).len() as int),
            wf_c(reg(self.v(), o.keyed(key, pos).len() as int)),
        ensures
            self.inv(), self.mem() == o.mem().insert(pos, (key, cont(reg(self.v(), o.keyed(key, pos).len() as int)))), agree(o.v(), self.v(), 0, o.bytes_init_len as int)
    {
        let w = o.keyed(key, pos);
        let s = reg(self.v(), w.len() as int);
        assert(w.len() == o.v().len() + 2 + key.len());
        assert(self.v() =~= w + s);
        lemma_whole(s);
        let p = (o.c().len() + 2 + key.len()) as int;
        assert forall|j: int| 0 <= j < s.len() implies self.c()[p + j] == #[trigger] s[j] by { assert(self.v()[w.len() + j] == s[j]); }
        lemma_sub_at(self.c(), p, s);
        self.lemma_pushed(o, key, pos, cont(s), s);
    }
}
/// Keys i of the object at start - 5, as the builder reads them.
pub open spec fn keys_ok(b: Seq<u8>, start: int, n: int, k: int) -> bool {
    5 <= start <= b.len() && 0 <= k <= n <= 65535 && forall|j: int| 0 <= j < k ==> #[trigger] key_ok(reg(b, start - 5), j)
}
/// Filling in the size changes no key.
pub proof fn lemma_finish_keys(v: Seq<u8>, v2: Seq<u8>, i0: int, n: int, off: int)
    requires 0 <= i0 <= v.len(), pobj(reg(v, i0), n, n), v2 == put(v, i0 + 1, b32(off)),
    ensures keys_ok(v2, i0 + 5, n, n), nondecreasing(pmem(reg(v, i0), n)) ==> nondecreasing(pmem(reg(v2, i0), n)),
{
    let (c, c2) = (reg(v, i0), reg(v2, i0));
    assert forall|j: int| 0 <= j < n implies #[trigger] pkey(c2, n, j) && key_of(c2, j) == key_of(c, j) by {
        assert(pkey(c, n, j));
        assert forall|t: int| 0 <= t < 4 implies c2[koff(j) + t] == #[trigger] c[koff(j) + t] by {}
        lemma_key_moved(c, j, c2, j, n);
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] key_ok(c2, j) by { assert(pkey(c2, n, j)); }
    if nondecreasing(pmem(c, n)) {
        assert forall|i: int, j: int| 0 <= i < j < n implies !key_lt(#[trigger] pmem(c2, n)[j].0, #[trigger] pmem(c2, n)[i].0) by {
            assert(pkey(c2, n, i) && pkey(c2, n, j));
            assert(!key_lt(pmem(c, n)[j].0, pmem(c, n)[i].0));
        }
    }
}
/// The raw reads find key i.
pub proof fn lemma_read_key(b: Seq<u8>, start: int, i: int)
    requires 5 <= start <= b.len(), 0 <= i <= 65535, key_ok(reg(b, start - 5), i)
    ensures ({
        let c = reg(b, start - 5);
        let o = le32(b, start + 2 + 4 * i);
        let p = o + start;
        start + 2 + 4 * i + 4 <= b.len() && p + 2 <= b.len() && p + 2 + le16(b, p) <= b.len() && b.subrange(p + 2, p + 2 + le16(b, p)) == key_of(c, i)
            && o == kpos(c, i) - 5 && vstd::utf8::valid_utf8(key_of(c, i))
    })
{
    let c = reg(b, start - 5);
    let q = koff(i);
    assert(c[q] == b[start - 5 + q] && c[q + 1] == b[start - 5 + q + 1] && c[q + 2] == b[start - 5 + q + 2] && c[q + 3] == b[start - 5 + q + 3]);
    let p = kpos(c, i);
    assert(c[p] == b[start - 5 + p] && c[p + 1] == b[start - 5 + p + 1]);
    assert(b.subrange(start - 5 + p + 2, start - 5 + p + 2 + klen(c, i)) =~= key_of(c, i));
}
@end
@fn InnerObjectBuilder::try_new
%ret r
%opt conv=try_reserve
%spec
    ensures
        total_depth.d() >= 100 ==> r == Err::<Self, BuildError>(BuildError::NestedTooDeeply),
        total_depth.d() < 100 ==> (r matches Ok(b) ==> (
            b.inv() && b.v() == bytes.v() + obj_hdr(element_count as int) && b.element_count == element_count && b.value_count == 0
            && b.bytes_init_len == bytes.v().len() && b.d() == total_depth.d() + 1 && b.total_nested_depth.lent() == total_depth.lent() && b.current_depth == b.d() && b.key_sorted == key_sorted
            && b.mem() == Seq::<(Seq<u8>, SVal)>::empty() && b.bytes.fin() == bytes.fin() && b.total_nested_depth.fin() == total_depth.fin())),
        total_depth.d() < 100 ==> (r matches Err(e) ==> e is TryReserveError),
%hint start
    let ghost v0 = bytes.v();
    proof { lemma_obj_new(element_count as int); }
%hint after let bytes_init_len
    proof { axiom_vec_len(bs); }
%hint end
    proof {
        assert(bytes.v() =~= v0 + obj_hdr(element_count as int));
        assert(reg(bytes.v(), v0.len() as int) =~= obj_hdr(element_count as int));
    }
@fn InnerObjectBuilder::key_offset
%ret r
%spec
    requires start_pos >= 5, index <= 65535, start_pos + 2 + 4 * index + 4 <= bytes@.len(),
    ensures r == le32(bytes@, start_pos + 2 + 4 * index),
%hint start
    proof { axiom_slice_len(bytes); }
@fn InnerObjectBuilder::read_key_by_offset
%ret r
%spec
    requires
        key_offset + start_pos + 2 <= bytes@.len(), key_offset + start_pos + 2 + le16(bytes@, key_offset + start_pos) <= bytes@.len(),
        vstd::utf8::valid_utf8(bytes@.subrange(key_offset + start_pos + 2, key_offset + start_pos + 2 + le16(bytes@, key_offset + start_pos))),
    ensures r.spec_bytes() == bytes@.subrange(key_offset + start_pos + 2, key_offset + start_pos + 2 + le16(bytes@, key_offset + start_pos)),
%hint start
    proof { axiom_slice_len(bytes); }
@fn InnerObjectBuilder::binary_search
%ret r
%spec
    requires
        5 <= start_pos <= bytes@.len(), value_count <= 65535, start_pos + 2 + 4 * value_count <= bytes@.len(),
        ({ let c = reg(bytes@, start_pos - 5); (forall|j: int| 0 <= j < value_count ==> #[trigger] key_ok(c, j)) && nondecreasing(pmem(c, value_count as int)) }),
    ensures slot_ok(pmem(reg(bytes@, start_pos - 5), value_count as int), target.spec_bytes(), r as int),
%hint start
    let ghost c = reg(bytes@, start_pos - 5);
    let ghost m = pmem(c, value_count as int);
    let ghost t = target.spec_bytes();
    proof { axiom_slice_len(bytes); }
%loop 0
    invariant
        left <= right <= value_count, value_count <= 65535, 5 <= start_pos, start_pos + 2 + 4 * value_count <= bytes@.len() <= 0x7fff_ffff_ffff_ffff,
        c == reg(bytes@, start_pos - 5), m == pmem(c, value_count as int), t == target.spec_bytes(), nondecreasing(m),
        forall|j: int| 0 <= j < value_count ==> #[trigger] key_ok(c, j),
        forall|j: int| 0 <= j < left ==> !key_lt(t, #[trigger] m[j].0),
        forall|j: int| right <= j < value_count ==> !key_lt(#[trigger] m[j].0, t),
    decreases right - left
%hint after let mid
    proof { lemma_read_key(bytes@, start_pos as int, mid as int); assert(key_ok(c, mid as int)); }
%hint after let key
    proof {
        assert(m[mid as int].0 == key.spec_bytes());
        assert forall|j: int| 0 <= j < mid implies !key_lt(m[mid as int].0, #[trigger] m[j].0) by {}
        assert forall|j: int| mid < j < value_count implies !key_lt(#[trigger] m[j].0, m[mid as int].0) by {}
        let x = m[mid as int].0;
        assert forall|j: int| 0 <= j <= mid && key_lt(x, t) implies !key_lt(t, #[trigger] m[j].0) by {
            if key_lt(t, m[j].0) { lemma_key_trans(x, t, m[j].0); lemma_key_irrefl(x); }
        }
        assert forall|j: int| mid <= j < value_count && key_lt(t, x) implies !key_lt(#[trigger] m[j].0, t) by {
            if key_lt(m[j].0, t) { lemma_key_trans(m[j].0, t, x); lemma_key_irrefl(x); }
        }
        lemma_key_irrefl(t);
    }
@fn InnerObjectBuilder::push_key_value_by
%ret r
%opt conv=try_reserve
%spec
    requires
        old(self).inv(),
        forall|b: &mut Vec<u8>| #[trigger] f.requires((b,)),
    ensures
        final(self).fixed(old(self)),
        old(self).reject(key.spec_bytes()) matches Some(e) ==> r == Err::<(), BuildError>(e) && final(self).same(old(self)),
        old(self).reject(key.spec_bytes()) is None ==> (
            ((r matches Err(e) && e is TryReserveError) && final(self).same(old(self)))
            || ((exists|pos: int, b: &mut Vec<u8>| #[trigger] old(self).slot(key.spec_bytes(), pos) && #[trigger] f.ensures((b,), r)
                    && (*b)@ == old(self).keyed(key.spec_bytes(), pos) && (*final(b))@ == final(self).v())
                && final(self).d() == old(self).d()
                && (r is Ok ==> final(self).value_count == old(self).value_count + 1 && final(self).key_offset_pos == old(self).key_offset_pos + 4))),
%hint start
    let ghost kb = key.spec_bytes();
    let ghost mut gpos: int = self.k();
    proof { lemma_str_bytes(key); }
%hint after let bytes
    proof { axiom_vec_len(bytes); }
%hint after let offset
    proof {
        let c = old(self).c();
        assert(reg(bytes@, self.start_pos - 5) == c);
        assert forall|j: int| 0 <= j < self.value_count implies #[trigger] key_ok(c, j) by { assert(pkey(c, self.element_count as int, j)); }
    }
%hint after let pos
    proof { gpos = pos as int; }
%hint before call f 0
    proof { assert(bytes@ =~= old(self).keyed(kb, gpos)); assert(old(self).slot(kb, gpos)); }
@fn InnerObjectBuilder::key_sorted
%ret r
%opt strvars=cur_key,next_key noloopiso
%spec
    requires old(self).bytes_init_len + 5 == old(self).start_pos, keys_ok(old(self).v(), old(self).start_pos as int, old(self).n(), old(self).n()),
    ensures r == nondecreasing(pmem(old(self).c(), old(self).n())), final(self).same(old(self)),
%hint start
    hide(key_ok);
    hide(key_of);
    hide(val_at);
    let ghost c = self.c();
    let ghost n = self.n();
    let ghost m = pmem(c, n);
    let ghost v0 = self.v();
%hint after let bytes
    proof { axiom_vec_len(bytes); }
%loop 0
    invariant
        self.element_count >= 2, n == self.element_count, bytes@ == v0, c == reg(bytes@, self.start_pos - 5), m == pmem(c, n),
        keys_ok(bytes@, self.start_pos as int, n, n),
        forall|j: int| 0 <= j < i ==> !key_lt(#[trigger] m[j + 1].0, m[j].0),
%hint loop 0 start
    proof {
        lemma_read_key(bytes@, self.start_pos as int, i as int); lemma_read_key(bytes@, self.start_pos as int, i + 1);
        assert(key_ok(c, i as int) && key_ok(c, i + 1));
        assert(m[i as int].0 == key_of(c, i as int) && m[i + 1].0 == key_of(c, i + 1));
        if key_lt(m[i + 1].0, m[i as int].0) { assert(!nondecreasing(m)); }
    }
%hint end
    proof { lemma_adjacent(m); }
@fn InnerObjectBuilder::finish
%ret r
%spec
    requires old(self).inv(), old(self).done() ==> nondecreasing(old(self).mem()),
    ensures final(self).did_finish(old(self), err_of(r)), r matches Ok(n) ==> n == old(self).bytes_init_len,
%hint after call decrease 0
    proof { lemma_finish_keys(old(self).v(), self.v(), self.bytes_init_len as int, self.n(), old(self).off()); }
@fn InnerObjectBuilder::push_string
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_string(old(self), err_of(r), key.spec_bytes(), value.spec_bytes()),
%closure 0 bytes: &mut Vec<u8>
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ =~= old(bytes)@ + pl,
%hint start
    hide(enc_of);
    let ghost pl = seq![3u8] + enc_str(value.spec_bytes());
    proof { axiom_str_len(key); lemma_str_bytes(key); axiom_str_len(value); lemma_str_bytes(value); }
%hint after call push_key_value_by 0
    proof {
        lemma_pl_str(value.spec_bytes());
        if vx_r is Ok { self.lemma_did(old(self), key.spec_bytes(), SVal::Str(value.spec_bytes()), pl); }
    }
@fn InnerObjectBuilder::push_number
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_number(old(self), err_of(r), key.spec_bytes(), nv(*value)),
%closure 0 bytes: &mut Vec<u8>
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ =~= old(bytes)@ + pl,
%hint start
    hide(enc_of);
    let ghost pl = seq![4u8] + enc_number(nv(*value));
    proof { axiom_str_len(key); lemma_str_bytes(key); axiom_num(nv(*value)); }
%hint after call push_key_value_by 0
    proof {
        lemma_pl_num(nv(*value));
        if vx_r is Ok { self.lemma_did(old(self), key.spec_bytes(), SVal::Num(nv(*value)), pl); }
    }
@fn InnerObjectBuilder::push_bool
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_bool(old(self), err_of(r), key.spec_bytes(), value),
%closure 0 bytes: &mut Vec<u8>
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ =~= old(bytes)@ + seq![5u8, if value { 1u8 } else { 0u8 }],
%hint start
    proof { axiom_str_len(key); lemma_str_bytes(key);  }
%hint after call push_key_value_by 0
    proof {
        lemma_pl_small(value);
        if vx_r is Ok { self.lemma_did(old(self), key.spec_bytes(), SVal::Bool(value), seq![5u8, if value { 1u8 } else { 0u8 }]); }
    }
@fn InnerObjectBuilder::push_null
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_null(old(self), err_of(r), key.spec_bytes()),
%closure 0 bytes: &mut Vec<u8>
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ =~= old(bytes)@ + seq![6u8],
%hint start
    proof { axiom_str_len(key); lemma_str_bytes(key);  }
%hint after call push_key_value_by 0
    proof {
        lemma_pl_small(true);
        if vx_r is Ok { self.lemma_did(old(self), key.spec_bytes(), SVal::Null, seq![6u8]); }
    }
@fn InnerObjectBuilder::push_object
%ret r
%spec
    requires old(self).inv(),
    ensures
        r matches Ok(b) ==> final(self).did_push_object(old(self), b, key.spec_bytes(), element_count, key_sorted),
        r matches Err(e) ==> final(self).not_opened(old(self), e, key.spec_bytes()),
%closure 0 bytes: &mut Vec<u8>
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ == old(bytes)@,
%hint start
    proof { axiom_str_len(key); }
@fn InnerObjectBuilder::push_array
%ret r
%spec
    requires old(self).inv(),
    ensures
        r matches Ok(b) ==> final(self).did_push_array(old(self), b, key.spec_bytes(), element_count),
        r matches Err(e) ==> final(self).not_opened(old(self), e, key.spec_bytes()),
%closure 0 bytes: &mut Vec<u8>
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ == old(bytes)@,
%hint start
    proof { axiom_str_len(key); }
@fn ObjectBuilder::try_new
%ret r
%opt conv=try_with_capacity
%spec
    ensures
        r matches Ok(b) ==> b.0.inv() && b.0.element_count == element_count && b.0.value_count == 0 && b.0.mem() == Seq::<(Seq<u8>, SVal)>::empty()
            && b.0.bytes_init_len == 0 && b.0.v() == obj_hdr(element_count as int) && b.0.current_depth == 1 && b.0.d() == 1 && b.0.key_sorted == key_sorted,
        r matches Err(e) ==> e is TryReserveError,
%hint end
    assert(builder.v() =~= obj_hdr(element_count as int));
@fn ObjectBuilder::finish
%ret r
%spec
    requires self.0.inv(), self.0.bytes_init_len == 0, self.0.done() ==> nondecreasing(self.0.mem()),
    ensures
        r matches Ok(y) ==> y.bytes@ == self.0.finished() && self.0.done()
            && (distinct_keys(self.0.mem()) ==> obj_ok(y.bytes@) && val(y.bytes@) == SVal::Obj(self.0.mem()) && doc(y.bytes@)),
        r matches Err(e) ==> self.0.did_finish(&self.0, Some(e)),
%hint start
    proof { if self.0.done() && distinct_keys(self.0.mem()) { self.0.lemma_finished(); assert(reg(self.0.finished(), 0) =~= self.0.finished()); } }
@fn ObjectRefBuilder::try_new
%ret r
%spec
    ensures
        r matches Ok(b) ==> b.0.inv() && b.0.element_count == element_count && b.0.value_count == 0 && b.0.mem() == Seq::<(Seq<u8>, SVal)>::empty()
            && b.0.bytes_init_len == old(bytes)@.len() && b.0.v() == old(bytes)@ + obj_hdr(element_count as int) && b.0.current_depth == 1 && b.0.d() == 1
            && b.0.key_sorted == key_sorted && b.0.bytes.fin() == final(bytes)@,
        r matches Err(e) ==> e is TryReserveError,
@fn ObjectRefBuilder::finish
%ret r
%spec
    requires self.0.inv(), self.0.done() ==> nondecreasing(self.0.mem()),
    ensures
        r matches Ok(y) ==> y.bytes@ == reg(self.0.finished(), self.0.bytes_init_len as int) && self.0.done()
            && (distinct_keys(self.0.mem()) ==> obj_ok(y.bytes@) && val(y.bytes@) == SVal::Obj(self.0.mem()) && doc(y.bytes@))
            && self.0.bytes.fin() == self.0.finished() && (self.0.total_nested_depth.lent() ==> self.0.total_nested_depth.fin() == self.0.d() - 1),
        r matches Err(e) ==> self.0.did_finish(&self.0, Some(e)) && self.0.bytes.fin() == self.0.v()
            && (self.0.total_nested_depth.lent() ==> self.0.total_nested_depth.fin() == self.0.d()),
%hint start
    proof { if self.0.done() && distinct_keys(self.0.mem()) { self.0.lemma_finished(); } }
@fn ObjectBuilder::push_string
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_string(&old(self).0, None, key.spec_bytes(), value.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_string(&old(self).0, Some(e), key.spec_bytes(), value.spec_bytes()),
@fn ObjectBuilder::push_number
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_number(&old(self).0, None, key.spec_bytes(), nv(*value)) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_number(&old(self).0, Some(e), key.spec_bytes(), nv(*value)),
@fn ObjectBuilder::push_bool
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_bool(&old(self).0, None, key.spec_bytes(), value) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_bool(&old(self).0, Some(e), key.spec_bytes(), value),
@fn ObjectBuilder::push_null
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_null(&old(self).0, None, key.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_null(&old(self).0, Some(e), key.spec_bytes()),
@fn ObjectBuilder::push_object
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_object(&old(self).0, b.0, key.spec_bytes(), element_count, key_sorted),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e, key.spec_bytes()),
@fn ObjectBuilder::push_array
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_array(&old(self).0, b.0, key.spec_bytes(), element_count),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e, key.spec_bytes()),
@fn ObjectRefBuilder::push_string
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_string(&old(self).0, None, key.spec_bytes(), value.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_string(&old(self).0, Some(e), key.spec_bytes(), value.spec_bytes()),
@fn ObjectRefBuilder::push_number
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_number(&old(self).0, None, key.spec_bytes(), nv(*value)) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_number(&old(self).0, Some(e), key.spec_bytes(), nv(*value)),
@fn ObjectRefBuilder::push_bool
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_bool(&old(self).0, None, key.spec_bytes(), value) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_bool(&old(self).0, Some(e), key.spec_bytes(), value),
@fn ObjectRefBuilder::push_null
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_null(&old(self).0, None, key.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_null(&old(self).0, Some(e), key.spec_bytes()),
@fn ObjectRefBuilder::push_object
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_object(&old(self).0, b.0, key.spec_bytes(), element_count, key_sorted),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e, key.spec_bytes()),
@fn ObjectRefBuilder::push_array
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_array(&old(self).0, b.0, key.spec_bytes(), element_count),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e, key.spec_bytes()),
@keep trait ObjBuilder
@fn ObjBuilder::@spec
%spec
    type B: AsMutBytes;
    spec fn inner(&self) -> InnerObjectBuilder<'static, Self::B>;
@keep impl ObjBuilder for ObjectBuilder
@fn ObjBuilder@ObjectBuilder::@spec
%spec
    type B = Vec<u8>;
    open spec fn inner(&self) -> InnerObjectBuilder<'static, Self::B> { self.0 }
@keep impl ObjBuilder for ObjectRefBuilder
@fn ObjBuilder@ObjectRefBuilder::@spec
%spec
    type B = &'vx mut Vec<u8>;
    open spec fn inner(&self) -> InnerObjectBuilder<'static, Self::B> { self.0 }
@fn ObjBuilder::push_string
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_string(&old(self).inner(), None, key.spec_bytes(), value.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_string(&old(self).inner(), Some(e), key.spec_bytes(), value.spec_bytes()),
@fn ObjBuilder@ObjectBuilder::push_string
@fn ObjBuilder@ObjectRefBuilder::push_string
@fn ObjBuilder::push_number
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_number(&old(self).inner(), None, key.spec_bytes(), nv(*value)) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_number(&old(self).inner(), Some(e), key.spec_bytes(), nv(*value)),
@fn ObjBuilder@ObjectBuilder::push_number
@fn ObjBuilder@ObjectRefBuilder::push_number
@fn ObjBuilder::push_bool
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_bool(&old(self).inner(), None, key.spec_bytes(), value) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_bool(&old(self).inner(), Some(e), key.spec_bytes(), value),
@fn ObjBuilder@ObjectBuilder::push_bool
@fn ObjBuilder@ObjectRefBuilder::push_bool
@fn ObjBuilder::push_null
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_null(&old(self).inner(), None, key.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_null(&old(self).inner(), Some(e), key.spec_bytes()),
@fn ObjBuilder@ObjectBuilder::push_null
@fn ObjBuilder@ObjectRefBuilder::push_null
@fn ObjBuilder::push_object
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> final(self).inner().did_push_object(&old(self).inner(), b.0, key.spec_bytes(), element_count, key_sorted),
        r matches Err(e) ==> final(self).inner().not_opened(&old(self).inner(), e, key.spec_bytes()),
@fn ObjBuilder@ObjectBuilder::push_object
@fn ObjBuilder@ObjectRefBuilder::push_object
@fn ObjBuilder::push_array
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> final(self).inner().did_push_array(&old(self).inner(), b.0, key.spec_bytes(), element_count),
        r matches Err(e) ==> final(self).inner().not_opened(&old(self).inner(), e, key.spec_bytes()),
@fn ObjBuilder@ObjectBuilder::push_array
@fn ObjBuilder@ObjectRefBuilder::push_array
