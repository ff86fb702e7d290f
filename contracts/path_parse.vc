@items
impl<'a> PathParser<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.input@ }
    pub open spec fn at(&self) -> int { self.pos as int }
    pub open spec fn ok(&self) -> bool { self.pos <= self.input@.len() }
    /// Only the position moved.
    pub open spec fn moved(&self, o: &Self) -> bool { self.ok() && self.input == o.input && self.path == o.path && o.pos <= self.pos }
    /// A failure to read x: reported inside the text, and only if x is not there.
    pub open spec fn refused(&self, e: PathParseError, absent: bool) -> bool { blamed(self.b(), e, absent) }
    /// What reading the step x does.
    pub open spec fn did(&self, o: &Self, r: PathParseResult<()>, x: Option<(SStep, int)>) -> bool {
        self.ok() && self.input == o.input && o.pos <= self.pos && match r {
            Ok(_) => x matches Some(y) && self.pos == y.1 && self.path@ == o.path@.push(self.path@.last())
                && sstep(self.path@.last()) == y.0,
            Err(e) => self.refused(e, x is None),
        }
    }
    /// The steps so far: the root first, a method only at the end of the text.
    pub open spec fn so_far(&self) -> bool {
        let s = self.path@;
        s.len() > 0 && s[0] is Root && (forall|i: int| 1 <= i < s.len() ==> !(#[trigger] s[i] is Root))
            && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] is Func ==> i == s.len() - 1 && self.pos == self.b().len()))
    }
}
/// The error for the text b is reported inside of it; it has another reason than memory only if the text is wrong.
pub open spec fn blamed(b: Seq<u8>, e: PathParseError, wrong: bool) -> bool { e.pos <= b.len() && (wrong || e.kind is TryReserveError) }
@end
@fn PathParseError::new
%ret r
%spec
    ensures r.kind == kind, r.pos == pos,
@fn PathParser::new
%ret r
%spec
    ensures r.input == input, r.pos == 0, r.path@ == Seq::<Step>::empty(),
@fn PathParser::parse
%ret r
%spec
    requires self.ok(), self.pos == 0, self.path@.len() == 0,
    ensures
        r matches Ok(p) ==> p_path(self.b()) == Some(ssteps(p.0@)) && steps_ok(p.0@),
        r matches Err(e) ==> self.refused(e, p_path(self.b()) is None),
%hint start
    let ghost b = self.b();
%loop 0
    invariant
        vx_self.ok(), vx_self.b() == b, vx_self.input == self.input, vx_self.so_far(),
        p_path(b) == p_steps(b, vx_self.at(), ssteps(vx_self.path@)),
    decreases b.len() - vx_self.pos,
%hint after call skip 0
    proof { lemma_span_is(b, 0, |c: u8| c == 32, vx_self.at()); }
%hint before call skip 1
    let ghost i1 = vx_self.at();
%hint after call skip 1
    proof {
        lemma_span_is(b, i1, |c: u8| c == 32, vx_self.at());
        assert(ssteps(vx_self.path@) =~= seq![SStep::Root]);
    }
%hint loop 0 start
    let ghost o = vx_self;
    proof { lemma_p_step(b, o.at()); }
%hint loop 0 end
    proof {
        let y = p_step(b, o.at())->0;
        lemma_ws(b, y.1);
        assert(ssteps(vx_self.path@) =~= ssteps(o.path@).push(y.0));
    }
%closure 0 i: u8
    -> (cr: bool) ensures cr == (i == 32),
%closure 1 i: u8
    -> (cr: bool) ensures cr == (i == 32),
@fn PathParser::parse_array_step
%ret r
%spec
    requires old(self).ok(),
    ensures final(self).did(old(self), r, p_array(old(self).b(), old(self).at())),
@fn PathParser::parse_array_cell
%ret r
%spec
    requires old(self).ok(), old(steps)@.len() == 0,
    ensures
        final(self).moved(old(self)),
        r is Ok ==> p_list(old(self).b(), old(self).at(), old(steps)@) == Some((final(steps)@, final(self).at())) && final(steps)@.len() > 0,
        r matches Err(e) ==> final(self).refused(e, p_list(old(self).b(), old(self).at(), old(steps)@) is None),
%loop 0
    invariant
        self.moved(old(self)), p_list(self.b(), old(self).at(), old(steps)@) == p_list(self.b(), self.at(), steps@),
    decreases self.b().len() - self.pos,
@fn PathParser::parse_last_or_index
%ret r
%spec
    requires old(self).ok(),
    ensures
        final(self).moved(old(self)),
        r matches Ok(x) ==> p_single(old(self).b(), old(self).at()) == Some((x, final(self).at())) && final(self).pos > old(self).pos,
        r matches Err(e) ==> final(self).refused(e, p_single(old(self).b(), old(self).at()) is None),
@fn PathParser::parse_array_last
%ret r
%spec
    requires old(self).ok(), word(old(self).b(), old(self).at(), w_last()),
    ensures
        final(self).moved(old(self)),
        r matches Ok(x) ==> p_single(old(self).b(), old(self).at()) == Some((x, final(self).at())) && final(self).pos > old(self).pos,
        r matches Err(e) ==> final(self).refused(e, p_single(old(self).b(), old(self).at()) is None),
@fn PathParser::parse_array_index
%ret r
%spec
    requires old(self).ok(),
    ensures
        final(self).moved(old(self)),
        r matches Ok(x) ==> (p_index(old(self).b(), old(self).at()) matches Some(y) && x == SingleIndex::Index(y.0 as usize) && y.1 == final(self).at()) && final(self).pos > old(self).pos,
        r matches Err(e) ==> final(self).refused(e, p_index(old(self).b(), old(self).at()) is None),
@fn PathParser::has_keyword
%opt sliceeq=&bytes[0..len]
%ret r
%spec
    requires self.ok(), keyword@.len() > 0,
    ensures r == word(self.b(), self.at(), keyword@),
%hint start
    proof {
        if self.pos + keyword@.len() <= self.b().len() {
            assert(reg(self.b(), self.at()).subrange(0, keyword@.len() as int) =~= self.b().subrange(self.at(), self.at() + keyword@.len()));
        }
    }
@fn PathParser::parse_index
%ret r
%spec
    requires old(self).ok(), old(self).pos < old(self).b().len(), is_dig(old(self).b()[old(self).at()]),
    ensures
        final(self).moved(old(self)),
        r matches Ok(x) ==> p_index(old(self).b(), old(self).at()) == Some((x as int, final(self).at())) && final(self).pos > old(self).pos,
        r matches Err(e) ==> final(self).refused(e, p_index(old(self).b(), old(self).at()) is None),
%closure 0 i: u8
    -> (cr: bool) ensures cr == is_dig(i),
%hint start
    let ghost b = self.b();
    let ghost i0 = self.at();
    proof { lemma_span(b, i0, |c: u8| is_dig(c)); }
%hint after call skip 0
    proof { lemma_span_is(b, i0, |c: u8| is_dig(c), self.at()); lemma_number(b, i0, i0 + 1, self.at()); }
%loop 0
    invariant
        vs0@ == b.subrange(i0, self.at()), self.ok(), self.b() == b, 0 <= i0 < self.pos, vi0 <= vs0@.len(),
        res == number(b, i0, i0 + vi0), res <= 0x7fff_ffff, forall|k: int| i0 <= k < self.pos ==> is_dig(#[trigger] b[k]),
        old(self).b() == b, i0 == old(self).at(), digs(b, i0) == self.pos, *self == s1, s1.moved(old(self)),
    decreases vs0@.len() - vi0,
%hint loop 0 start
    proof { assert(is_dig(b[i0 + vi0])); assert(vs0@[vi0 as int] == b[i0 + vi0]); lemma_number(b, i0, i0 + vi0 + 1, self.at()); }
%hint before loop 0
    let ghost s1 = *self;
@fn PathParser::parse_object_step
%ret r
%spec
    requires old(self).ok(),
    ensures final(self).did(old(self), r, p_member(old(self).b(), old(self).at())),
@fn PathParser::parse_quoted_field_name
%ret r
%spec
    requires old(self).ok(), on(old(self).b(), old(self).at(), 34),
    ensures
        final(self).did(old(self), r, (match p_quoted(old(self).b(), old(self).at() + 1) {
            Some(x) => Some((if DESCENDENT { SStep::Descendent(x.0) } else { SStep::Member(x.0) }, x.1)),
            None => None })),
%hint start
    let ghost b = self.b();
    let ghost i0 = self.at() + 1;
%loop 0
    invariant_except_break
        end is None, closing(b, i0) == closing(b, self.at()),
    invariant
        self.moved(old(self)), self.b() == b, old(self).b() == b, i0 <= self.pos, begin == i0, i0 == old(self).at() + 1,
    ensures
        closed(b, i0, end, self.at()),
    decreases b.len() - self.pos,
@fn PathParser::parse_unquoted_field_name
%ret r
%spec
    requires old(self).ok(),
    ensures
        final(self).did(old(self), r, (if DESCENDENT {
            match p_name(old(self).b(), ws(old(self).b(), old(self).at())) { Some(x) => Some((SStep::Descendent(x.0), x.1)), None => None }
        } else { p_unquoted(old(self).b(), ws(old(self).b(), old(self).at())) })),
%closure 0 i: u8
    -> (cr: bool) ensures cr == is_alnum(i),
%hint start
    let ghost b = self.b();
    let ghost j0 = ws(b, self.at());
    proof { lemma_ws(b, self.at()); }
%hint after call skip 0
    proof {
        lemma_span_is(b, j0, |c: u8| is_alnum(c), self.at());
        let s = b.subrange(j0, self.at());
        assert forall|i: int| 0 <= i < s.len() implies is_alnum(#[trigger] s[i]) by { assert(s[i] == b[j0 + i]); }
        lemma_alnum(s);
    }
@fn PathParser::parse_item_method
%ret r
%spec
    requires old(self).ok(), on(old(self).b(), old(self).at(), 40),
    ensures
        final(self).did(old(self), r, ({
            let b = old(self).b();
            let k = ws(b, old(self).at() + 1);
            let e = ws(b, k + 1);
            if !on(b, k, 41) || e < b.len() { None } else { match p_func(field_name@) { Some(f) => Some((SStep::Func(f), e)), None => None } }
        })),
@fn PathParser::parse_descendent_step
%ret r
%spec
    requires old(self).ok(), on(old(self).b(), old(self).at(), 46),
    ensures final(self).did(old(self), r, p_descendent(old(self).b(), old(self).at() + 1)),
@fn PathParser::remain
%ret r
%spec
    ensures
        self.pos >= self.b().len() ==> r is None,
        self.pos < self.b().len() ==> (r matches Some(s) && s@ == reg(self.b(), self.at())),
@fn PathParser::eat_whitespaces
%ret r
%spec
    requires old(self).ok(),
    ensures
        final(self).moved(old(self)), final(self).pos == ws(old(self).b(), old(self).at()),
        ws(old(self).b(), final(self).at()) == final(self).at(),
%closure 1 i: &&u8
    -> (cr: bool) ensures cr == is_gap(**i),
%hint start
    let ghost b = self.b();
    let ghost i0 = self.at();
    proof { lemma_ws(b, i0); }
%hint after call advance 0
    proof {
        assert forall|k: int| i0 <= k < self.pos implies is_gap(#[trigger] b[k]) by { assert(reg(b, i0)[k - i0] == b[k]); }
        if self.pos < b.len() { assert(reg(b, i0)[self.pos - i0] == b[self.at()]); }
        lemma_span_is(b, i0, |c: u8| is_gap(c), self.at());
    }
@fn PathParser::exhausted
%ret r
%spec
    ensures r == (self.pos >= self.b().len()),
@fn PathParser::pop
%ret r
%spec
    requires old(self).ok(),
    ensures
        final(self).moved(old(self)),
        old(self).pos >= old(self).b().len() ==> r is None && final(self).pos == old(self).pos,
        old(self).pos < old(self).b().len() ==> r == Some(old(self).b()[old(self).at()]) && final(self).pos == old(self).pos + 1,
@fn PathParser::peek
%ret r
%spec
    requires self.ok(),
    ensures r == (if self.pos < self.b().len() { Some(self.b()[self.at()]) } else { None }),
@fn PathParser::advance
%spec
    requires old(self).ok(), old(self).pos + step <= old(self).b().len(),
    ensures final(self).moved(old(self)), final(self).pos == old(self).pos + step,
%hint start
    proof { assert(self.input.len() == self.input@.len()); }
@fn PathParser::skip
%spec
    requires old(self).ok(), forall|c: u8| f.requires((c,)),
    ensures
        final(self).moved(old(self)),
        forall|j: int| old(self).pos <= j < final(self).pos ==> f.ensures((#[trigger] old(self).b()[j],), true),
        final(self).pos < old(self).b().len() ==> f.ensures((old(self).b()[final(self).at()],), false),
%closure 1 i: &&u8
    -> (cr: bool) ensures f.ensures((**i,), cr),
%hint start
    let ghost b = self.b();
    let ghost i0 = self.at();
%hint after call advance 0
    proof {
        assert forall|k: int| i0 <= k < self.pos implies f.ensures((#[trigger] b[k],), true) by { assert(reg(b, i0)[k - i0] == b[k]); }
        if self.pos < b.len() { assert(reg(b, i0)[self.pos - i0] == b[self.at()]); }
    }
@fn PathParser::push_step
%ret r
%spec
    requires old(self).ok(),
    ensures
        final(self).ok(), final(self).input == old(self).input, final(self).pos == old(self).pos,
        r is Ok ==> final(self).path@ == old(self).path@.push(step),
        r matches Err(e) ==> e.kind is TryReserveError && e.pos == old(self).pos && final(self).path@ == old(self).path@,
@fn PathParser::create_key
%ret r
%spec
    requires self.ok(), begin <= end <= self.b().len(), !CHECK_UTF8 ==> vstd::utf8::valid_utf8(self.b().subrange(begin as int, end as int)),
    ensures
        r matches Ok(k) ==> skey(k) == self.b().subrange(begin as int, end as int) && vstd::utf8::valid_utf8(self.b().subrange(begin as int, end as int)),
        r matches Err(e) ==> self.refused(e, !vstd::utf8::valid_utf8(self.b().subrange(begin as int, end as int))),
