@items
/// v with type t and word x in the value entry at ep.
pub open spec fn with_entry(v: Seq<u8>, ep: int, t: u8, x: int) -> Seq<u8> { put(v.update(ep, t), ep + 1, b32(x)) }
impl<'a, B: AsMutBytes> InnerArrayBuilder<'a, B> {
    pub open spec fn v(&self) -> Seq<u8> { self.bytes.v() }
    pub open spec fn c(&self) -> Seq<u8> { reg(self.v(), self.bytes_init_len as int) }
    pub open spec fn n(&self) -> int { self.element_count as int }
    pub open spec fn k(&self) -> int { self.value_count as int }
    pub open spec fn d(&self) -> int { self.total_nested_depth.d() as int }
    pub open spec fn off(&self) -> int { self.v().len() - self.start_pos }
    /// The values pushed so far.
    pub open spec fn elems(&self) -> Seq<SVal> { pelems(self.c(), self.k()) }
    pub open spec fn cons(&self) -> bool {
        1 <= self.current_depth <= 100 && self.start_pos == self.bytes_init_len + 5 && self.k() <= self.n()
            && self.value_entry_pos == self.bytes_init_len + 7 + 5 * self.k()
    }
    pub open spec fn inv(&self) -> bool {
        self.cons() && (self.d() == self.current_depth ==> self.bytes_init_len <= self.v().len() && parr(self.c(), self.n(), self.k()))
    }
    #[verifier::prophetic]
    pub open spec fn fixed(&self, o: &Self) -> bool {
        self.element_count == o.element_count && self.start_pos == o.start_pos && self.bytes_init_len == o.bytes_init_len
            && self.current_depth == o.current_depth && self.bytes.fin() == o.bytes.fin()
            && self.total_nested_depth.fin() == o.total_nested_depth.fin() && self.total_nested_depth.lent() == o.total_nested_depth.lent()
    }
    #[verifier::prophetic]
    pub open spec fn same_but_bytes(&self, o: &Self) -> bool {
        self.fixed(o) && self.d() == o.d() && self.value_count == o.value_count && self.value_entry_pos == o.value_entry_pos
    }
    #[verifier::prophetic]
    pub open spec fn same(&self, o: &Self) -> bool { self.same_but_bytes(o) && self.v() == o.v() }
    /// Why the next push is refused, whatever its argument.
    pub open spec fn reject(&self) -> Option<BuildError> {
        if self.d() != self.current_depth { Some(BuildError::InnerUncompletedError) }
        else if self.k() >= self.n() {
            Some(BuildError::InconsistentElementCount { expected: self.element_count, actual: if self.k() == 65535 { 65535 } else { (self.k() + 1) as u16 } })
        }
        else if self.off() > 0x7fff_ffff { Some(BuildError::DocumentTooLong(self.off() as usize)) }
        else { None }
    }
    /// o after pushing x.
    #[verifier::prophetic]
    pub open spec fn pushed(&self, o: &Self, x: SVal) -> bool {
        self.fixed(o) && self.inv() && self.d() == o.d() && self.k() == o.k() + 1 && self.elems() == o.elems().push(x)
            && self.value_entry_pos == o.value_entry_pos + 5
            && self.v().len() >= o.v().len() && agree(o.v(), self.v(), 0, o.bytes_init_len as int)
    }
    /// o waiting for the nested value t opened by a push at its end.
    #[verifier::prophetic]
    pub open spec fn opened(&self, o: &Self) -> bool {
        self.fixed(o) && self.cons() && self.k() == o.k() + 1 && self.value_entry_pos == o.value_entry_pos + 5
    }
    /// What each push does, e being the error it returned.
    #[verifier::prophetic]
    pub open spec fn did_string(&self, o: &Self, e: Option<BuildError>, s: Seq<u8>) -> bool {
        if s.len() > 268435455 { e == Some(BuildError::StringTooLong(s.len() as usize)) && self.same(o) }
        else if o.reject() is Some { e == o.reject() && self.same(o) }
        else if e is Some { e->0 is TryReserveError && self.same_but_bytes(o) }
        else { self.pushed(o, SVal::Str(s)) && self.v() == with_entry(o.v(), o.value_entry_pos as int, 3, o.off()) + enc_str(s) }
    }
    #[verifier::prophetic]
    pub open spec fn did_number(&self, o: &Self, e: Option<BuildError>, n: NumV) -> bool {
        if o.reject() is Some { e == o.reject() && self.same(o) }
        else if e is Some { e->0 is TryReserveError && self.same_but_bytes(o) }
        else { self.pushed(o, SVal::Num(n)) && self.v() == with_entry(o.v(), o.value_entry_pos as int, 4, o.off()) + enc_number(n) }
    }
    #[verifier::prophetic]
    pub open spec fn did_bool(&self, o: &Self, e: Option<BuildError>, x: bool) -> bool {
        e == o.reject()
            && (if e is Some { self.same(o) } else { self.pushed(o, SVal::Bool(x)) && self.v() == with_entry(o.v(), o.value_entry_pos as int, 5, x as int) })
    }
    #[verifier::prophetic]
    pub open spec fn did_null(&self, o: &Self, e: Option<BuildError>) -> bool {
        e == o.reject()
            && (if e is Some { self.same(o) } else { self.pushed(o, SVal::Null) && self.v() == with_entry(o.v(), o.value_entry_pos as int, 6, 0) })
    }
    #[verifier::prophetic]
    pub open spec fn did_container(&self, o: &Self, e: Option<BuildError>, s: Seq<u8>) -> bool {
        if o.reject() is Some { e == o.reject() && self.same(o) }
        else if e is Some { e->0 is TryReserveError && self.same_but_bytes(o) }
        else { self.pushed(o, val(s)) && self.v() == with_entry(o.v(), o.value_entry_pos as int, s[0], o.off()) + s }
    }
    #[verifier::prophetic]
    pub open spec fn did_finish(&self, o: &Self, e: Option<BuildError>) -> bool {
        if o.d() != o.current_depth { e == Some(BuildError::InnerUncompletedError) && self.same(o) }
        else if o.k() != o.n() { e == Some(BuildError::InconsistentElementCount { expected: o.element_count, actual: o.value_count }) && self.same(o) }
        else if o.off() > 0x7fff_ffff { e == Some(BuildError::DocumentTooLong(o.off() as usize)) && self.same(o) }
        else { e is None && self.fixed(o) && self.d() == o.d() - 1 && self.v() == o.finished() }
    }
    /// The bytes once the size is filled in.
    pub open spec fn finished(&self) -> Seq<u8> { put(self.v(), self.bytes_init_len + 1, b32(self.off())) }
    /// What a builder finished successfully leaves behind.
    pub proof fn lemma_finished(&self)
        requires self.inv(), self.d() == self.current_depth, self.k() == self.n(), self.off() <= 0x7fff_ffff
        ensures ({ let c = reg(self.finished(), self.bytes_init_len as int); arr_ok(c) && cont(c) == SVal::Arr(self.elems()) && c.len() == self.c().len() && doc(c) }),
            agree(self.v(), self.finished(), 0, self.bytes_init_len as int), self.finished().len() == self.v().len(),
    {
        lemma_arr_finish(self.c(), self.n());
        let c = reg(self.finished(), self.bytes_init_len as int);
        assert(c =~= put(self.c(), 1, b32(self.c().len() - 5)));
        lemma_whole(c);
    }
    /// An embedded array was opened: child is its builder.
    #[verifier::prophetic]
    pub open spec fn did_push_array<C: AsMutBytes>(&self, o: &Self, child: InnerArrayBuilder<'_, C>, n: u16) -> bool {
        o.reject() is None && o.current_depth < 100 && self.opened(o) && child.inv() && child.element_count == n && child.value_count == 0
            && child.elems() == Seq::<SVal>::empty() && child.bytes_init_len == o.v().len() && child.current_depth == o.current_depth + 1 && child.d() == child.current_depth
            && child.v() == with_entry(o.v(), o.value_entry_pos as int, 2, o.off()) + arr_hdr(n as int)
            && child.bytes.fin() == self.v() && child.total_nested_depth.fin() == self.d() && child.total_nested_depth.lent()
    }
    #[verifier::prophetic]
    pub open spec fn did_push_object<C: AsMutBytes>(&self, o: &Self, child: crate::builder::object::InnerObjectBuilder<'_, C>, n: u16, key_sorted: bool) -> bool {
        o.reject() is None && o.current_depth < 100 && self.opened(o) && child.inv() && child.element_count == n && child.value_count == 0 && child.key_sorted == key_sorted
            && child.mem() == Seq::<(Seq<u8>, SVal)>::empty() && child.bytes_init_len == o.v().len() && child.current_depth == o.current_depth + 1 && child.d() == child.current_depth
            && child.v() == with_entry(o.v(), o.value_entry_pos as int, 1, o.off()) + obj_hdr(n as int)
            && child.bytes.fin() == self.v() && child.total_nested_depth.fin() == self.d() && child.total_nested_depth.lent()
    }
    #[verifier::prophetic]
    pub open spec fn not_opened(&self, o: &Self, e: BuildError) -> bool {
        if o.current_depth >= 100 { e == BuildError::NestedTooDeeply && self.same(o) }
        else if o.reject() is Some { Some(e) == o.reject() && self.same(o) }
        else { e is TryReserveError }
    }
    /// C03: an embedded container that was finished is the element pushed.
    pub proof fn lemma_child(&self, o: &Self, t: u8)
        requires
            o.inv(), o.reject() is None, self.opened(o), self.d() == self.current_depth, t == 1 || t == 2,
            self.v().len() >= o.v().len(), agree(with_entry(o.v(), o.value_entry_pos as int, t, o.off()), self.v(), 0, o.v().len() as int),
            ({ let s = reg(self.v(), o.v().len() as int); wf_c(s) && s[0] == t }),
        ensures self.inv(), self.elems() == o.elems().push(cont(reg(self.v(), o.v().len() as int))), agree(o.v(), self.v(), 0, o.bytes_init_len as int)
    {
        let s = reg(self.v(), o.v().len() as int);
        let w = with_entry(o.v(), o.value_entry_pos as int, t, o.off());
        assert(self.v() =~= w + s);
        lemma_entry(o.v(), o.bytes_init_len as int, o.k(), t, o.off(), s);
        lemma_whole(s);
        lemma_sub_at(self.c(), o.c().len() as int, s);
        self.lemma_pushed(o, t, o.off(), s, cont(s));
    }
    pub proof fn lemma_pushed(&self, o: &Self, t: u8, x: int, tail: Seq<u8>, y: SVal)
        requires
            o.inv(), o.reject() is None, self.cons(), self.start_pos == o.start_pos, self.bytes_init_len == o.bytes_init_len, self.element_count == o.element_count,
            self.k() == o.k() + 1, 0 <= x < 0x1_0000_0000,
            self.v() == with_entry(o.v(), o.value_entry_pos as int, t, x) + tail,
            ({ let e = ent(o.k()); pent(self.c(), self.n(), e) && ent_at(self.c(), e) == y }),
        ensures
            parr(self.c(), self.n(), self.k()), self.elems() == o.elems().push(y), agree(o.v(), self.v(), 0, o.bytes_init_len as int),
    {
        let (c, c2) = (o.c(), self.c());
        assert(o.value_entry_pos + 5 <= o.v().len());
        lemma_arr_push(c, c2, o.n(), o.k());
    }
}
/// The entry just written, in terms of the region.
pub proof fn lemma_entry(v: Seq<u8>, i0: int, k: int, t: u8, x: int, tail: Seq<u8>)
    requires 0 <= i0, i0 + ent(k) + 5 <= v.len(), k >= 0, 0 <= x < 0x1_0000_0000
    ensures ({
        let c = reg(with_entry(v, i0 + ent(k), t, x) + tail, i0);
        c[ent(k)] == t && le32(c, ent(k) + 1) == x && c.len() == v.len() - i0 + tail.len()
            && (forall|j: int| 0 <= j < tail.len() ==> c[v.len() - i0 + j] == #[trigger] tail[j])
    })
{
    let ep = i0 + ent(k);
    let w = with_entry(v, ep, t, x);
    lemma_b32_put(v.update(ep, t), ep + 1, x);
    let c = reg(w + tail, i0);
    assert(c[ent(k)] == w[ep]);
    assert(c[ent(k) + 1] == w[ep + 1] && c[ent(k) + 2] == w[ep + 2] && c[ent(k) + 3] == w[ep + 3] && c[ent(k) + 4] == w[ep + 4]);
    assert forall|j: int| 0 <= j < tail.len() implies c[v.len() - i0 + j] == #[trigger] tail[j] by { assert(c[v.len() - i0 + j] == (w + tail)[v.len() + j]); }
}
@end
@fn InnerArrayBuilder::try_new
%ret r
%opt conv=try_reserve
%spec
    ensures
        total_depth.d() >= 100 ==> r == Err::<Self, BuildError>(BuildError::NestedTooDeeply),
        total_depth.d() < 100 ==> (r matches Ok(b) ==> (
            b.inv() && b.v() == bytes.v() + arr_hdr(element_count as int) && b.element_count == element_count && b.value_count == 0
            && b.bytes_init_len == bytes.v().len() && b.d() == total_depth.d() + 1 && b.total_nested_depth.lent() == total_depth.lent() && b.current_depth == b.d()
            && b.elems() == Seq::<SVal>::empty() && b.bytes.fin() == bytes.fin() && b.total_nested_depth.fin() == total_depth.fin())),
        total_depth.d() < 100 ==> (r matches Err(e) ==> e is TryReserveError),
%hint start
    let ghost v0 = bytes.v();
    proof { lemma_arr_new(element_count as int); }
%hint after let bytes_init_len
    proof { axiom_vec_len(bs); }
%hint end
    proof {
        assert(bytes.v() =~= v0 + arr_hdr(element_count as int));
        assert(reg(bytes.v(), v0.len() as int) =~= arr_hdr(element_count as int));
    }
@fn InnerArrayBuilder::finish
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_finish(old(self), err_of(r)), r matches Ok(n) ==> n == old(self).bytes_init_len,
@fn InnerArrayBuilder::push_value
%ret r
%spec
    requires
        old(self).inv(),
        forall|b: &mut Vec<u8>| old(self).reject() is None && (*b)@ == old(self).v().update(old(self).value_entry_pos as int, tag(data_type))
            ==> #[trigger] f.requires((b, old(self).off() as u32, old(self).value_entry_pos)),
    ensures
        final(self).fixed(old(self)),
        old(self).reject() matches Some(e) ==> r == Err::<(), BuildError>(e) && final(self).same(old(self)),
        old(self).reject() is None ==> (
            (exists|b: &mut Vec<u8>| #[trigger] f.ensures((b, old(self).off() as u32, old(self).value_entry_pos), r)
                && (*b)@ == old(self).v().update(old(self).value_entry_pos as int, tag(data_type)) && (*final(b))@ == final(self).v())
            && final(self).d() == old(self).d()
            && (r is Ok ==> final(self).value_count == old(self).value_count + 1 && final(self).value_entry_pos == old(self).value_entry_pos + 5)
            && (r is Err ==> final(self).same_but_bytes(old(self)))),
%hint after let bytes
    proof { axiom_vec_len(bytes); }
@fn InnerArrayBuilder::push_string
%ret r
%opt conv=try_reserve
%spec
    requires old(self).inv(),
    ensures final(self).did_string(old(self), err_of(r), value.spec_bytes()),
%closure 0 bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    requires value_entry_pos + 5 <= old(bytes)@.len(),
    ensures
        cr matches Err(e) ==> e is TryReserveError,
        cr is Ok ==> final(bytes)@ =~= put(old(bytes)@, value_entry_pos + 1, b32(offset as int)) + enc_str(value.spec_bytes()),
%hint closure 0 start
    proof { axiom_vec_len(bytes); }
%hint after call push_value 0
    proof {
        if old(self).reject() is None && vx_r is Ok {
            let (o, e) = (old(self), enc_str(value.spec_bytes()));
            lemma_entry(o.v(), o.bytes_init_len as int, o.k(), 3, o.off(), e);
            lemma_str_bytes(value);
            lemma_str_at(self.c(), o.c().len() as int, value.spec_bytes());
            self.lemma_pushed(o, 3, o.off(), e, SVal::Str(value.spec_bytes()));
        }
    }
@fn InnerArrayBuilder::push_number
%ret r
%opt conv=try_reserve
%spec
    requires old(self).inv(),
    ensures final(self).did_number(old(self), err_of(r), nv(*value)),
%closure 0 bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    requires value_entry_pos + 5 <= old(bytes)@.len(),
    ensures
        cr matches Err(e) ==> e is TryReserveError,
        cr is Ok ==> final(bytes)@ =~= put(old(bytes)@, value_entry_pos + 1, b32(offset as int)) + enc_number(nv(*value)),
%hint closure 0 start
    proof { axiom_vec_len(bytes); }
%hint after call push_value 0
    proof {
        if old(self).reject() is None && vx_r is Ok {
            let (o, e) = (old(self), enc_number(nv(*value)));
            axiom_num(nv(*value));
            lemma_entry(o.v(), o.bytes_init_len as int, o.k(), 4, o.off(), e);
            lemma_num_at(self.c(), o.c().len() as int, nv(*value));
            self.lemma_pushed(o, 4, o.off(), e, SVal::Num(nv(*value)));
        }
    }
@fn InnerArrayBuilder::push_bool
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_bool(old(self), err_of(r), value),
%closure 0 bytes: &mut Vec<u8>, _offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    requires value_entry_pos + 5 <= old(bytes)@.len(),
    ensures cr is Ok, final(bytes)@ =~= put(old(bytes)@, value_entry_pos + 1, b32(value as int)),
%hint closure 0 start
    proof { axiom_vec_len(bytes); }
%hint after call push_value 0
    proof {
        if old(self).reject() is None && vx_r is Ok {
            let (o, e) = (old(self), Seq::<u8>::empty());
            lemma_entry(o.v(), o.bytes_init_len as int, o.k(), 5, value as int, e);
            assert(self.v() =~= with_entry(o.v(), o.value_entry_pos as int, 5, value as int) + e);
            self.lemma_pushed(o, 5, value as int, e, SVal::Bool(value));
        }
    }
@fn InnerArrayBuilder::push_null
%ret r
%spec
    requires old(self).inv(),
    ensures final(self).did_null(old(self), err_of(r)),
%closure 0 bytes: &mut Vec<u8>, _offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    ensures cr is Ok, final(bytes)@ == old(bytes)@,
%hint after call push_value 0
    proof {
        if old(self).reject() is None && vx_r is Ok {
            let (o, e) = (old(self), Seq::<u8>::empty());
            lemma_entry(o.v(), o.bytes_init_len as int, o.k(), 6, 0, e);
            assert(o.c()[ent(o.k())] == 0 && o.c()[ent(o.k()) + 1] == 0 && o.c()[ent(o.k()) + 2] == 0 && o.c()[ent(o.k()) + 3] == 0 && o.c()[ent(o.k()) + 4] == 0);
            assert(self.v() =~= with_entry(o.v(), o.value_entry_pos as int, 6, 0) + e);
            self.lemma_pushed(o, 6, 0, e, SVal::Null);
        }
    }
@fn InnerArrayBuilder::push_object_or_array
%ret r
%opt conv=try_reserve
%spec
    requires old(self).inv(), doc(yason.bytes@), yason.bytes@[0] == tag(data_type), yason.bytes@[0] <= 2,
    ensures final(self).did_container(old(self), err_of(r), yason.bytes@),
%closure 0 bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    requires value_entry_pos + 5 <= old(bytes)@.len(),
    ensures
        cr matches Err(e) ==> e is TryReserveError,
        cr is Ok ==> final(bytes)@ =~= put(old(bytes)@, value_entry_pos + 1, b32(offset as int)) + yason.bytes@,
%hint closure 0 start
    proof { axiom_vec_len(bytes); }
%hint after call push_value 0
    proof {
        if old(self).reject() is None && vx_r is Ok {
            let (o, e) = (old(self), yason.bytes@);
            lemma_doc(e);
            lemma_entry(o.v(), o.bytes_init_len as int, o.k(), tag(data_type), o.off(), e);
            lemma_sub_at(self.c(), o.c().len() as int, e);
            self.lemma_pushed(o, tag(data_type), o.off(), e, val(e));
        }
    }
@fn InnerArrayBuilder::push_array
%ret r
%opt conv=try_reserve
%spec
    requires old(self).inv(),
    ensures
        r matches Ok(b) ==> final(self).did_push_array(old(self), b, element_count),
        r matches Err(e) ==> final(self).not_opened(old(self), e),
%closure 0 bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    requires value_entry_pos + 5 <= old(bytes)@.len(),
    ensures cr is Ok, final(bytes)@ =~= put(old(bytes)@, value_entry_pos + 1, b32(offset as int)),
%hint closure 0 start
    proof { axiom_vec_len(bytes); }
@fn InnerArrayBuilder::push_object
%ret r
%opt conv=try_reserve
%spec
    requires old(self).inv(),
    ensures
        r matches Ok(b) ==> final(self).did_push_object(old(self), b, element_count, key_sorted),
        r matches Err(e) ==> final(self).not_opened(old(self), e),
%closure 0 bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize
    -> (cr: BuildResult<()>)
    requires value_entry_pos + 5 <= old(bytes)@.len(),
    ensures cr is Ok, final(bytes)@ =~= put(old(bytes)@, value_entry_pos + 1, b32(offset as int)),
%hint closure 0 start
    proof { axiom_vec_len(bytes); }
@fn ArrayBuilder::try_new
%ret r
%opt conv=try_with_capacity
%spec
    ensures
        r matches Ok(b) ==> b.0.inv() && b.0.element_count == element_count && b.0.value_count == 0 && b.0.elems() == Seq::<SVal>::empty()
            && b.0.bytes_init_len == 0 && b.0.v() == arr_hdr(element_count as int) && b.0.current_depth == 1 && b.0.d() == 1,
        r matches Err(e) ==> e is TryReserveError,
%hint end
    assert(builder.v() =~= arr_hdr(element_count as int));
@fn ArrayBuilder::finish
%ret r
%spec
    requires self.0.inv(), self.0.bytes_init_len == 0,
    ensures
        r matches Ok(y) ==> y.bytes@ == self.0.finished() && arr_ok(y.bytes@) && val(y.bytes@) == SVal::Arr(self.0.elems()) && doc(y.bytes@)
            && self.0.d() == self.0.current_depth && self.0.k() == self.0.n() && self.0.off() <= 0x7fff_ffff,
        r matches Err(e) ==> self.0.did_finish(&self.0, Some(e)),
%hint start
    proof { if self.0.d() == self.0.current_depth && self.0.k() == self.0.n() && self.0.off() <= 0x7fff_ffff {
        self.0.lemma_finished(); assert(reg(self.0.finished(), 0) =~= self.0.finished()); lemma_whole(self.0.finished()); } }
@fn ArrayRefBuilder::try_new
%ret r
%spec
    ensures
        r matches Ok(b) ==> b.0.inv() && b.0.element_count == element_count && b.0.value_count == 0 && b.0.elems() == Seq::<SVal>::empty()
            && b.0.bytes_init_len == old(bytes)@.len() && b.0.v() == old(bytes)@ + arr_hdr(element_count as int) && b.0.current_depth == 1 && b.0.d() == 1
            && b.0.bytes.fin() == final(bytes)@,
        r matches Err(e) ==> e is TryReserveError,
@fn ArrayRefBuilder::finish
%ret r
%spec
    requires self.0.inv(),
    ensures
        r matches Ok(y) ==> y.bytes@ == reg(self.0.finished(), self.0.bytes_init_len as int)
            && arr_ok(y.bytes@) && val(y.bytes@) == SVal::Arr(self.0.elems()) && doc(y.bytes@)
            && self.0.bytes.fin() == self.0.finished() && (self.0.total_nested_depth.lent() ==> self.0.total_nested_depth.fin() == self.0.d() - 1)
            && self.0.d() == self.0.current_depth && self.0.k() == self.0.n() && self.0.off() <= 0x7fff_ffff,
        r matches Err(e) ==> self.0.did_finish(&self.0, Some(e)) && self.0.bytes.fin() == self.0.v() && (self.0.total_nested_depth.lent() ==> self.0.total_nested_depth.fin() == self.0.d()),
%hint start
    proof { if self.0.d() == self.0.current_depth && self.0.k() == self.0.n() && self.0.off() <= 0x7fff_ffff {
        self.0.lemma_finished(); lemma_whole(reg(self.0.finished(), self.0.bytes_init_len as int)); } }
@fn ArrayRefBuilder::push_object_or_array
%ret r
%spec
    requires old(self).0.inv(), doc(yason.bytes@), yason.bytes@[0] == tag(data_type), yason.bytes@[0] <= 2,
    ensures
        r matches Ok(b) ==> (*b).0.did_container(&old(self).0, None, yason.bytes@) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_container(&old(self).0, Some(e), yason.bytes@),
@fn ArrayBuilder::push_string
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_string(&old(self).0, None, value.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_string(&old(self).0, Some(e), value.spec_bytes()),
@fn ArrayBuilder::push_number
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_number(&old(self).0, None, nv(*value)) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_number(&old(self).0, Some(e), nv(*value)),
@fn ArrayBuilder::push_bool
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_bool(&old(self).0, None, value) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_bool(&old(self).0, Some(e), value),
@fn ArrayBuilder::push_null
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_null(&old(self).0, None) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_null(&old(self).0, Some(e)),
@fn ArrayBuilder::push_object
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_object(&old(self).0, b.0, element_count, key_sorted),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e),
@fn ArrayBuilder::push_array
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_array(&old(self).0, b.0, element_count),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e),
@fn ArrayRefBuilder::push_string
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_string(&old(self).0, None, value.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_string(&old(self).0, Some(e), value.spec_bytes()),
@fn ArrayRefBuilder::push_number
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_number(&old(self).0, None, nv(*value)) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_number(&old(self).0, Some(e), nv(*value)),
@fn ArrayRefBuilder::push_bool
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_bool(&old(self).0, None, value) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_bool(&old(self).0, Some(e), value),
@fn ArrayRefBuilder::push_null
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> (*b).0.did_null(&old(self).0, None) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).0.did_null(&old(self).0, Some(e)),
@fn ArrayRefBuilder::push_object
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_object(&old(self).0, b.0, element_count, key_sorted),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e),
@fn ArrayRefBuilder::push_array
%ret r
%spec
    requires old(self).0.inv(),
    ensures
        r matches Ok(b) ==> final(self).0.did_push_array(&old(self).0, b.0, element_count),
        r matches Err(e) ==> final(self).0.not_opened(&old(self).0, e),
@keep trait ArrBuilder
@fn ArrBuilder::@spec
%spec
    type B: AsMutBytes;
    spec fn inner(&self) -> InnerArrayBuilder<'static, Self::B>;
@keep impl ArrBuilder for ArrayBuilder
@fn ArrBuilder@ArrayBuilder::@spec
%spec
    type B = Vec<u8>;
    open spec fn inner(&self) -> InnerArrayBuilder<'static, Self::B> { self.0 }
@keep impl ArrBuilder for ArrayRefBuilder
@fn ArrBuilder@ArrayRefBuilder::@spec
%spec
    type B = &'vx mut Vec<u8>;
    open spec fn inner(&self) -> InnerArrayBuilder<'static, Self::B> { self.0 }
@fn ArrBuilder::push_string
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_string(&old(self).inner(), None, value.spec_bytes()) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_string(&old(self).inner(), Some(e), value.spec_bytes()),
@fn ArrBuilder@ArrayBuilder::push_string
@fn ArrBuilder@ArrayRefBuilder::push_string
@fn ArrBuilder::push_number
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_number(&old(self).inner(), None, nv(*value)) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_number(&old(self).inner(), Some(e), nv(*value)),
@fn ArrBuilder@ArrayBuilder::push_number
@fn ArrBuilder@ArrayRefBuilder::push_number
@fn ArrBuilder::push_bool
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_bool(&old(self).inner(), None, value) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_bool(&old(self).inner(), Some(e), value),
@fn ArrBuilder@ArrayBuilder::push_bool
@fn ArrBuilder@ArrayRefBuilder::push_bool
@fn ArrBuilder::push_null
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> (*b).inner().did_null(&old(self).inner(), None) && *final(b) == *final(self),
        r matches Err(e) ==> final(self).inner().did_null(&old(self).inner(), Some(e)),
@fn ArrBuilder@ArrayBuilder::push_null
@fn ArrBuilder@ArrayRefBuilder::push_null
@fn ArrBuilder::push_object
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> final(self).inner().did_push_object(&old(self).inner(), b.0, element_count, key_sorted),
        r matches Err(e) ==> final(self).inner().not_opened(&old(self).inner(), e),
@fn ArrBuilder@ArrayBuilder::push_object
@fn ArrBuilder@ArrayRefBuilder::push_object
@fn ArrBuilder::push_array
%ret r
%spec
    requires old(self).inner().inv(),
    ensures
        r matches Ok(b) ==> final(self).inner().did_push_array(&old(self).inner(), b.0, element_count),
        r matches Err(e) ==> final(self).inner().not_opened(&old(self).inner(), e),
@fn ArrBuilder@ArrayBuilder::push_array
@fn ArrBuilder@ArrayRefBuilder::push_array
