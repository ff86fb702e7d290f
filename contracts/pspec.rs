// What a path expression selects, as specification functions.
pub mod pspec {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::path::parse::{Step, ObjectStep, ArrayStep, SingleStep, SingleIndex, FuncStep};

    /// The bytes of a key written in a path.
    pub open spec fn skey(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }

    // ------------------------------------------------------------ C17: positions
    /// The position an end names in an array of length n (negative: before the array).
    pub open spec fn end_pos(s: SingleIndex, n: int) -> int { match s { SingleIndex::Index(i) => i as int, SingleIndex::Last(k) => n - 1 - k } }
    pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
    pub open spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }
    /// The positions of an array of length n from a to b inclusive, whichever comes first, in increasing order.
    pub open spec fn rng(a: int, b: int, n: int) -> Seq<int> {
        let lo = imax(imin(a, b), 0);
        let hi = imin(imax(a, b), n - 1);
        if lo <= hi { Seq::new((hi - lo + 1) as nat, |j: int| lo + j) } else { Seq::empty() }
    }
    pub open spec fn single_pos(s: SingleStep, n: int) -> Seq<int> {
        match s {
            SingleStep::Single(x) => rng(end_pos(x, n), end_pos(x, n), n),
            SingleStep::Range(a, b) => rng(end_pos(a, n), end_pos(b, n), n),
        }
    }
    /// The first k subscripts of a list, one after the other.
    pub open spec fn multi_pos(s: Seq<SingleStep>, k: int, n: int) -> Seq<int> decreases k {
        if k <= 0 || k > s.len() { Seq::empty() } else { multi_pos(s, k - 1, n) + single_pos(s[k - 1], n) }
    }
    pub open spec fn positions(s: ArrayStep, n: int) -> Seq<int> {
        match s {
            ArrayStep::Index(i) => rng(i as int, i as int, n),
            ArrayStep::Last(k) => rng(n - 1 - k, n - 1 - k, n),
            ArrayStep::Range(a, b) => rng(end_pos(a, n), end_pos(b, n), n),
            ArrayStep::Multiple(m) => multi_pos(m@, m@.len() as int, n),
            ArrayStep::Wildcard => every(n),
        }
    }
    pub open spec fn every(n: int) -> Seq<int> { Seq::new(n as nat, |j: int| j) }
    /// Exactly the positions inside the array and between the ends, each once, in increasing order.
    pub proof fn lemma_rng(a: int, b: int, n: int)
        ensures
            forall|p: int| rng(a, b, n).contains(p) == (0 <= p < n && (a <= p <= b || b <= p <= a)),
            forall|i: int, j: int| 0 <= i < j < rng(a, b, n).len() ==> rng(a, b, n)[i] < rng(a, b, n)[j],
    {
        let lo = imax(imin(a, b), 0);
        assert forall|p: int| (0 <= p < n && (a <= p <= b || b <= p <= a)) implies rng(a, b, n).contains(p) by {
            assert(rng(a, b, n)[p - lo] == p);
        }
    }
    /// One position named: [i], [last - k].
    pub proof fn lemma_rng_one(p: int, n: int)
        ensures rng(p, p, n) == (if 0 <= p < n { seq![p] } else { Seq::<int>::empty() })
    {
        if 0 <= p < n { assert(rng(p, p, n) =~= seq![p]); }
    }
    pub proof fn lemma_multi(s: Seq<SingleStep>, k: int, n: int, p: int)
        requires 0 <= k <= s.len()
        ensures multi_pos(s, k, n).contains(p) == (exists|j: int| 0 <= j < k && (#[trigger] single_pos(s[j], n)).contains(p))
        decreases k
    {
        if k > 0 {
            lemma_multi(s, k - 1, n, p);
            let (a, b) = (multi_pos(s, k - 1, n), single_pos(s[k - 1], n));
            if (a + b).contains(p) {
                let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == p;
                if i < a.len() { assert(a[i] == p); } else { assert(b[i - a.len()] == p); }
            }
            if a.contains(p) { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert((a + b)[i] == p); }
            if b.contains(p) { let i = choose|i: int| 0 <= i < b.len() && b[i] == p; assert((a + b)[a.len() + i] == p); }
        }
    }
    /// Every position selected is inside the array, the empty array included.
    pub proof fn lemma_positions(s: ArrayStep, n: int)
        requires n >= 0
        ensures forall|j: int| 0 <= j < positions(s, n).len() ==> 0 <= #[trigger] positions(s, n)[j] < n
    {
        match s {
            ArrayStep::Multiple(m) => {
                assert forall|j: int| 0 <= j < positions(s, n).len() implies 0 <= #[trigger] positions(s, n)[j] < n by {
                    let p = positions(s, n)[j];
                    assert(positions(s, n).contains(p));
                    lemma_multi(m@, m@.len() as int, n, p);
                    let i = choose|i: int| 0 <= i < m@.len() && (#[trigger] single_pos(m@[i], n)).contains(p);
                    match m@[i] { SingleStep::Single(x) => lemma_rng(end_pos(x, n), end_pos(x, n), n), SingleStep::Range(a, b) => lemma_rng(end_pos(a, n), end_pos(b, n), n) }
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ C18: selection
    /// The steps of a path as the parser makes them: the root first and only there, a method only last.
    pub open spec fn steps_ok(s: Seq<Step>) -> bool {
        s.len() > 0 && s[0] is Root && (forall|i: int| 1 <= i < s.len() ==> !(#[trigger] s[i] is Root))
            && (forall|i: int| 0 <= i < s.len() - 1 ==> !(#[trigger] s[i] is Func))
    }
    pub open spec fn method(s: Seq<Step>) -> bool { s.len() > 1 && s.last() is Func }
    /// The value of a method for one match; count is settled at the end.
    pub open spec fn fval(f: FuncStep, v: SVal) -> SVal {
        match f {
            FuncStep::Count => SVal::Null,
            FuncStep::Size => SVal::Num(num_usize(if v is Arr { v->Arr_0.len() as int } else { 1 })),
            FuncStep::Type => SVal::Str(tname(v)),
        }
    }
    pub open spec fn tname(v: SVal) -> Seq<u8> { vstd::utf8::encode_utf8(type_name(of_tag(stag(v)))) }
    pub open spec fn has_member(m: Seq<(Seq<u8>, SVal)>, k: Seq<u8>) -> bool { exists|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == k }
    pub open spec fn member_idx(m: Seq<(Seq<u8>, SVal)>, k: Seq<u8>) -> int { choose|j: int| 0 <= j < m.len() && (#[trigger] m[j]).0 == k }
    /// The values that steps i, i + 1, .. reach from v, in document order.
    pub open spec fn sel(v: SVal, s: Seq<Step>, i: int) -> Seq<SVal> decreases v, s.len() - i {
        if i < 0 || i >= s.len() { seq![v] }
        else {
            match s[i] {
                Step::Root => Seq::empty(),
                Step::Object(ObjectStep::Key(k)) => match v {
                    SVal::Obj(m) => sel_key(m, skey(k), s, i + 1),
                    SVal::Arr(a) => sel_at(a, every(a.len() as int), a.len() as int, s, i),
                    _ => Seq::empty(),
                },
                Step::Object(ObjectStep::Wildcard) => match v {
                    SVal::Obj(m) => sel_mem(m, m.len() as int, s, i + 1),
                    SVal::Arr(a) => sel_at(a, every(a.len() as int), a.len() as int, s, i),
                    _ => Seq::empty(),
                },
                Step::Array(t) => match v {
                    SVal::Arr(a) => sel_at(a, positions(t, a.len() as int), positions(t, a.len() as int).len() as int, s, i + 1),
                    _ => if positions(t, 1).len() > 0 { sel(v, s, i + 1) } else { Seq::empty() },
                },
                Step::Descendent(k) => match v {
                    SVal::Obj(m) => sel_key(m, skey(k), s, i + 1) + sel_mem(m, m.len() as int, s, i),
                    SVal::Arr(a) => sel_at(a, every(a.len() as int), a.len() as int, s, i),
                    _ => Seq::empty(),
                },
                Step::Func(f) => seq![fval(f, v)],
            }
        }
    }
    /// One step of it.
    pub open spec fn sel_step(v: SVal, s: Seq<Step>, i: int) -> Seq<SVal> {
        match s[i] {
            Step::Root => Seq::empty(),
            Step::Object(ObjectStep::Key(k)) => match v {
                SVal::Obj(m) => sel_key(m, skey(k), s, i + 1),
                SVal::Arr(a) => sel_at(a, every(a.len() as int), a.len() as int, s, i),
                _ => Seq::empty(),
            },
            Step::Object(ObjectStep::Wildcard) => match v {
                SVal::Obj(m) => sel_mem(m, m.len() as int, s, i + 1),
                SVal::Arr(a) => sel_at(a, every(a.len() as int), a.len() as int, s, i),
                _ => Seq::empty(),
            },
            Step::Array(t) => match v {
                SVal::Arr(a) => sel_at(a, positions(t, a.len() as int), positions(t, a.len() as int).len() as int, s, i + 1),
                _ => if positions(t, 1).len() > 0 { sel(v, s, i + 1) } else { Seq::empty() },
            },
            Step::Descendent(k) => match v {
                SVal::Obj(m) => sel_key(m, skey(k), s, i + 1) + sel_mem(m, m.len() as int, s, i),
                SVal::Arr(a) => sel_at(a, every(a.len() as int), a.len() as int, s, i),
                _ => Seq::empty(),
            },
            Step::Func(f) => seq![fval(f, v)],
        }
    }
    pub proof fn lemma_sel(v: SVal, s: Seq<Step>, i: int)
        requires 0 <= i <= s.len()
        ensures sel(v, s, i) == (if i == s.len() { seq![v] } else { sel_step(v, s, i) })
    {}
    /// One more position.
    pub proof fn lemma_at_next(a: Seq<SVal>, ps: Seq<int>, k: int, s: Seq<Step>, i: int)
        requires 0 <= k < ps.len(), 0 <= ps[k] < a.len()
        ensures
            sel_at(a, ps, k + 1, s, i) == sel_at(a, ps, k, s, i) + sel(a[ps[k]], s, i),
            sel_at(a, ps, k + 1, s, i).len() <= sel_at(a, ps, ps.len() as int, s, i).len(),
    {
        lemma_at_mono(a, ps, k + 1, ps.len() as int, s, i);
    }
    pub proof fn lemma_at_zero(a: Seq<SVal>, ps: Seq<int>, s: Seq<Step>, i: int)
        ensures sel_at(a, ps, 0, s, i) == Seq::<SVal>::empty()
    {}
    /// One more member.
    pub proof fn lemma_mem_next(m: Seq<(Seq<u8>, SVal)>, k: int, s: Seq<Step>, i: int)
        requires 0 <= k < m.len()
        ensures
            sel_mem(m, k + 1, s, i) == sel_mem(m, k, s, i) + sel(m[k].1, s, i),
            sel_mem(m, k + 1, s, i).len() <= sel_mem(m, m.len() as int, s, i).len(),
    {
        lemma_mem_mono(m, k + 1, m.len() as int, s, i);
    }
    pub proof fn lemma_mem_zero(m: Seq<(Seq<u8>, SVal)>, s: Seq<Step>, i: int)
        ensures sel_mem(m, 0, s, i) == Seq::<SVal>::empty()
    {}
    pub proof fn lemma_add(b: Seq<SVal>, x: Seq<SVal>, y: Seq<SVal>)
        ensures b + (x + y) == (b + x) + y, b + Seq::<SVal>::empty() == b, x + Seq::<SVal>::empty() == x
    {
        assert(b + (x + y) =~= (b + x) + y); assert(b + Seq::<SVal>::empty() =~= b); assert(x + Seq::<SVal>::empty() =~= x);
    }
    /// One more subscript of a list.
    pub proof fn lemma_multi_next(a: Seq<SVal>, m: Seq<SingleStep>, k: int, n: int, s: Seq<Step>, i: int)
        requires 0 <= k < m.len(), n == a.len()
        ensures
            sel_multi(a, m, k + 1, s, i) == sel_multi(a, m, k, s, i) + sel_at(a, single_pos(m[k], n), single_pos(m[k], n).len() as int, s, i),
            sel_multi(a, m, k + 1, s, i).len() <= sel_multi(a, m, m.len() as int, s, i).len(),
    {
        let q = single_pos(m[k], n);
        lemma_at_split(a, multi_pos(m, k, n), q, q.len() as int, s, i);
        lemma_multi_prefix(a, m, k + 1, m.len() as int, n, s, i);
    }
    /// From the first k subscripts of a list.
    pub open spec fn sel_multi(a: Seq<SVal>, m: Seq<SingleStep>, k: int, s: Seq<Step>, i: int) -> Seq<SVal> {
        let ps = multi_pos(m, k, a.len() as int);
        sel_at(a, ps, ps.len() as int, s, i)
    }
    pub proof fn lemma_multi_view(a: Seq<SVal>, m: Seq<SingleStep>, s: Seq<Step>, i: int)
        ensures sel_multi(a, m, m.len() as int, s, i) == ({ let ps = multi_pos(m, m.len() as int, a.len() as int); sel_at(a, ps, ps.len() as int, s, i) })
    {}
    pub proof fn lemma_multi_zero(a: Seq<SVal>, m: Seq<SingleStep>, s: Seq<Step>, i: int)
        ensures sel_multi(a, m, 0, s, i) == Seq::<SVal>::empty()
    {
        assert(multi_pos(m, 0, a.len() as int) == Seq::<int>::empty());
    }
    /// One position named: [i], [last - k].
    pub proof fn lemma_at_pos(a: Seq<SVal>, p: int, s: Seq<Step>, i: int)
        ensures
            ({ let ps = rng(p, p, a.len() as int);
               sel_at(a, ps, ps.len() as int, s, i) == (if 0 <= p < a.len() { sel(a[p], s, i) } else { Seq::<SVal>::empty() }) }),
    {
        lemma_rng_one(p, a.len() as int);
        if 0 <= p < a.len() { lemma_at_one(a, p, s, i); }
    }
    /// From the member with key k, if there is one.
    pub open spec fn sel_key(m: Seq<(Seq<u8>, SVal)>, k: Seq<u8>, s: Seq<Step>, i: int) -> Seq<SVal> decreases m, 0int {
        let j = member_idx(m, k);
        if has_member(m, k) && 0 <= j < m.len() { sel(m[j].1, s, i) } else { Seq::empty() }
    }
    /// From the elements at the first k of the positions ps.
    pub open spec fn sel_at(a: Seq<SVal>, ps: Seq<int>, k: int, s: Seq<Step>, i: int) -> Seq<SVal> decreases a, k {
        if k <= 0 || k > ps.len() { Seq::empty() }
        else { sel_at(a, ps, k - 1, s, i) + (if 0 <= ps[k - 1] < a.len() { sel(a[ps[k - 1]], s, i) } else { Seq::empty() }) }
    }
    /// From the first k members.
    pub open spec fn sel_mem(m: Seq<(Seq<u8>, SVal)>, k: int, s: Seq<Step>, i: int) -> Seq<SVal> decreases m, k {
        if k <= 0 || k > m.len() { Seq::empty() } else { sel_mem(m, k - 1, s, i) + sel(m[k - 1].1, s, i) }
    }
    pub proof fn lemma_at_mono(a: Seq<SVal>, ps: Seq<int>, j: int, k: int, s: Seq<Step>, i: int)
        requires 0 <= j <= k <= ps.len()
        ensures sel_at(a, ps, j, s, i).len() <= sel_at(a, ps, k, s, i).len()
        decreases k - j
    {
        if j < k { lemma_at_mono(a, ps, j, k - 1, s, i); }
    }
    pub proof fn lemma_mem_mono(m: Seq<(Seq<u8>, SVal)>, j: int, k: int, s: Seq<Step>, i: int)
        requires 0 <= j <= k <= m.len()
        ensures sel_mem(m, j, s, i).len() <= sel_mem(m, k, s, i).len()
        decreases k - j
    {
        if j < k { lemma_mem_mono(m, j, k - 1, s, i); }
    }
    /// Positions listed in two parts.
    pub proof fn lemma_at_split(a: Seq<SVal>, p: Seq<int>, q: Seq<int>, k: int, s: Seq<Step>, i: int)
        requires 0 <= k <= q.len()
        ensures sel_at(a, p + q, p.len() + k, s, i) == sel_at(a, p, p.len() as int, s, i) + sel_at(a, q, k, s, i)
        decreases k
    {
        if k > 0 {
            lemma_at_split(a, p, q, k - 1, s, i);
            assert((p + q)[p.len() + k - 1] == q[k - 1]);
            let x = if 0 <= q[k - 1] < a.len() { sel(a[q[k - 1]], s, i) } else { Seq::<SVal>::empty() };
            assert(sel_at(a, p, p.len() as int, s, i) + sel_at(a, q, k - 1, s, i) + x =~= sel_at(a, p, p.len() as int, s, i) + (sel_at(a, q, k - 1, s, i) + x));
        } else {
            lemma_at_prefix(a, p, q, p.len() as int, s, i);
            assert(sel_at(a, p, p.len() as int, s, i) + Seq::<SVal>::empty() =~= sel_at(a, p, p.len() as int, s, i));
        }
    }
    pub proof fn lemma_at_prefix(a: Seq<SVal>, p: Seq<int>, q: Seq<int>, k: int, s: Seq<Step>, i: int)
        requires 0 <= k <= p.len()
        ensures sel_at(a, p + q, k, s, i) == sel_at(a, p, k, s, i)
        decreases k
    {
        if k > 0 {
            lemma_at_prefix(a, p, q, k - 1, s, i);
            assert((p + q)[k - 1] == p[k - 1]);
        }
    }
    /// The member a lookup finds is the one the specification names.
    pub proof fn lemma_sel_key(c: Seq<u8>, k: Seq<u8>, s: Seq<Step>, i: int)
        requires obj_ok(c)
        ensures sel_key(members(c), k, s, i) == (if has_key(c, k) { sel(member(c, k), s, i) } else { Seq::empty() })
    {
        let m = members(c);
        if has_key(c, k) {
            lemma_found(c, k);
            let x = key_idx(c, k);
            lemma_member(c, x);
            assert(m[x].0 == k);
            let j = member_idx(m, k);
            assert(0 <= j < m.len() && m[j].0 == k);
            lemma_member(c, j);
            lemma_key_unique(c, x, j);
        } else if has_member(m, k) {
            let j = member_idx(m, k);
            assert(0 <= j < m.len() && m[j].0 == k);
            lemma_member(c, j);
            assert(key_of(c, j) == k);
        }
    }
    /// C20: what a query yields with wrapper.
    pub open spec fn results(v: SVal, s: Seq<Step>) -> Seq<SVal> {
        let r = sel(v, s, 1);
        if method(s) && s.last() == Step::Func(FuncStep::Count) { seq![SVal::Num(num_usize(r.len() as int))] } else { r }
    }

    pub proof fn lemma_at_one(a: Seq<SVal>, p: int, s: Seq<Step>, i: int)
        requires 0 <= p < a.len()
        ensures sel_at(a, seq![p], 1, s, i) == sel(a[p], s, i)
    {
        assert(sel_at(a, seq![p], 0, s, i) + sel(a[p], s, i) =~= sel(a[p], s, i));
        assert(sel_at(a, seq![p], 0, s, i) =~= Seq::<SVal>::empty());
    }
    pub proof fn lemma_multi_len(s: Seq<SingleStep>, j: int, k: int, n: int)
        requires 0 <= j <= k <= s.len()
        ensures multi_pos(s, j, n).len() <= multi_pos(s, k, n).len()
        decreases k - j
    {
        if j < k { lemma_multi_len(s, j, k - 1, n); }
    }
    /// Fewer subscripts select no more.
    pub proof fn lemma_multi_prefix(a: Seq<SVal>, m: Seq<SingleStep>, j: int, k: int, n: int, s: Seq<Step>, i: int)
        requires 0 <= j <= k <= m.len()
        ensures
            sel_at(a, multi_pos(m, j, n), multi_pos(m, j, n).len() as int, s, i).len() <= sel_at(a, multi_pos(m, k, n), multi_pos(m, k, n).len() as int, s, i).len(),
        decreases k - j
    {
        if j < k {
            lemma_multi_prefix(a, m, j, k - 1, n, s, i);
            let q = single_pos(m[k - 1], n);
            lemma_at_split(a, multi_pos(m, k - 1, n), q, q.len() as int, s, i);
        }
    }
    pub proof fn lemma_arr_view(c: Seq<u8>, v: SVal)
        requires arr_ok(c), cont(c) == v
        ensures hdr_ok(c), v is Arr, v->Arr_0 == elems(c), elems(c).len() == cnt(c)
    {}
    pub proof fn lemma_obj_view(c: Seq<u8>, v: SVal)
        requires obj_ok(c), cont(c) == v
        ensures hdr_ok(c), v is Obj, v->Obj_0 == members(c), members(c).len() == cnt(c)
    {}
}
