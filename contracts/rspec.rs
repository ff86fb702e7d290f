// Round trips: a document written as JSON text and parsed again (C14, C24).
pub mod rspec {
    use vstd::prelude::*;
    use crate::prelude::*;

    pub open spec fn max(a: nat, b: nat) -> nat { if a < b { b } else { a } }
    /// How deep containers nest.
    pub open spec fn nest(v: SVal) -> nat decreases v, 0int {
        match v {
            SVal::Obj(m) => 1 + nest_mem(m, m.len() as int),
            SVal::Arr(a) => 1 + nest_elm(a, a.len() as int),
            _ => 0,
        }
    }
    pub open spec fn nest_mem(m: Seq<(Seq<u8>, SVal)>, n: int) -> nat decreases m, n {
        if n <= 0 || n > m.len() { 0 } else { max(nest_mem(m, n - 1), nest(m[n - 1].1)) }
    }
    pub open spec fn nest_elm(a: Seq<SVal>, n: int) -> nat decreases a, n {
        if n <= 0 || n > a.len() { 0 } else { max(nest_elm(a, n - 1), nest(a[n - 1])) }
    }
    /// The key serde_json keeps for itself (feature arbitrary_precision): "$serde_json::private::Number".
    pub open spec fn reserved(k: Seq<u8>) -> bool { k == vstd::utf8::encode_utf8("$serde_json::private::Number"@) }
    /// Everywhere: the members of an object are in strictly increasing order, and none has the reserved key.
    pub open spec fn ordered(v: SVal) -> bool decreases v {
        match v {
            SVal::Obj(m) => increasing(m) && forall|i: int| 0 <= i < m.len() ==> ordered((#[trigger] m[i]).1),
            SVal::Arr(a) => forall|i: int| 0 <= i < a.len() ==> ordered(#[trigger] a[i]),
            _ => true,
        }
    }
    pub open spec fn free_keys(v: SVal) -> bool decreases v {
        match v {
            SVal::Obj(m) => forall|i: int| 0 <= i < m.len() ==> !reserved((#[trigger] m[i]).0) && free_keys(m[i].1),
            SVal::Arr(a) => forall|i: int| 0 <= i < a.len() ==> free_keys(#[trigger] a[i]),
            _ => true,
        }
    }
    /// No object repeats a key.
    pub open spec fn unique_keys(v: SVal) -> bool decreases v {
        match v {
            SVal::Obj(m) => distinct_keys(m) && forall|i: int| 0 <= i < m.len() ==> unique_keys((#[trigger] m[i]).1),
            SVal::Arr(a) => forall|i: int| 0 <= i < a.len() ==> unique_keys(#[trigger] a[i]),
            _ => true,
        }
    }
    /// The JSON value j is v: the same members in whatever order.
    pub open spec fn denotes(j: JVal, v: SVal) -> bool decreases v {
        match (j, v) {
            (JVal::Null, SVal::Null) => true,
            (JVal::Bool(a), SVal::Bool(b)) => a == b,
            (JVal::Number(n), SVal::Num(x)) => jnum(n) == Some(x),
            (JVal::String(s), SVal::Str(b)) => nstr(s) == b,
            (JVal::Array(s), SVal::Arr(a)) => s@.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> denotes(s@[i], #[trigger] a[i]),
            (JVal::Object(o), SVal::Obj(m)) => nsize(o) == m.len()
                && forall|i: int| 0 <= i < m.len() ==> exists|k: int| 0 <= k < nsize(o) && #[trigger] nkey(o, k) == (#[trigger] m[i]).0 && denotes(o.entries@[k].1, m[i].1),
            _ => false,
        }
    }
    /// Assumed of serde_json: it reads a JSON text (as the reader of jspec does, which reads fewer) as the value written,
    /// unless that nests too deep, repeats a key or uses the reserved key.
    #[verifier::external_body]
    pub proof fn axiom_json_reads(s: Seq<char>, v: SVal, rest: Seq<u8>)
        requires
            rval(vstd::utf8::encode_utf8(s)) == Some((v, rest)), skipws(rest).len() == 0,
            nest(v) <= 127, unique_keys(v), free_keys(v),
        ensures json_of(s) matches Some(j) && denotes(j, v)
    { unimplemented!() }

    /// What serde_json read is stored as that value, with its members in the one possible order.
    pub proof fn lemma_denotes(j: JVal, v: SVal)
        requires denotes(j, v), ordered(v)
        ensures jval(j) == v
        decreases v
    {
        match (j, v) {
            (JVal::Array(s), SVal::Arr(a)) => {
                lemma_elems(s@, s@.len());
                assert forall|i: int| 0 <= i < a.len() implies jval(s@[i]) == #[trigger] a[i] by { lemma_denotes(s@[i], a[i]); }
                assert(jelems(s@, s@.len()) =~= a);
            }
            (JVal::Object(o), SVal::Obj(m)) => {
                let r = jmems(o, nsize(o));
                lemma_members(o);
                lemma_mem_keys(o, nsize(o));
                lemma_strict(r);
                // every member of v is stored
                assert forall|i: int| 0 <= i < m.len() implies has_pair(r, (#[trigger] m[i]).0, m[i].1) by {
                    let k = choose|k: int| 0 <= k < nsize(o) && #[trigger] nkey(o, k) == m[i].0 && denotes(o.entries@[k].1, m[i].1);
                    assert(decreases_to!(v => m[i].1));
                    lemma_denotes(o.entries@[k].1, m[i].1);
                    assert(has_pair(r, nkey(o, k), jval(o.entries@[k].1)));
                }
                lemma_same_size(m, r);
            }
            _ => {}
        }
    }
    pub proof fn lemma_strict(m: Seq<(Seq<u8>, SVal)>)
        requires nondecreasing(m), distinct_keys(m)
        ensures increasing(m)
    {
        assert forall|i: int, j: int| 0 <= i < j < m.len() implies key_lt(#[trigger] m[i].0, #[trigger] m[j].0) by {
            assert(!key_lt(m[j].0, m[i].0));
            lemma_key_total(m[i].0, m[j].0);
            assert(m[j].0 != m[i].0);
        }
    }
    /// Two sorted lists of the same length, one within the other, are the same.
    pub proof fn lemma_same_size(m: Seq<(Seq<u8>, SVal)>, r: Seq<(Seq<u8>, SVal)>)
        requires increasing(m), increasing(r), m.len() == r.len(), forall|i: int| 0 <= i < m.len() ==> has_pair(r, (#[trigger] m[i]).0, m[i].1)
        ensures m == r
    {
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] r[i] == m[i] by { lemma_at_least(m, r, i); lemma_at_most(m, r, i); }
        assert(m =~= r);
    }
    /// m[i] is not found before position i.
    proof fn lemma_at_least(m: Seq<(Seq<u8>, SVal)>, r: Seq<(Seq<u8>, SVal)>, i: int)
        requires increasing(m), increasing(r), m.len() == r.len(), forall|i: int| 0 <= i < m.len() ==> has_pair(r, (#[trigger] m[i]).0, m[i].1), 0 <= i < m.len()
        ensures exists|k: int| i <= k < r.len() && #[trigger] r[k] == m[i]
        decreases i
    {
        let k = choose|k: int| 0 <= k < r.len() && r[k] == (m[i].0, m[i].1);
        assert(r[k] == m[i]);
        if i > 0 {
            lemma_at_least(m, r, i - 1);
            let p = choose|p: int| i - 1 <= p < r.len() && #[trigger] r[p] == m[i - 1];
            assert(key_lt(m[i - 1].0, m[i].0));
            if k <= p {
                if k < p { assert(key_lt(r[k].0, r[p].0)); lemma_key_asym(r[k].0, r[p].0); } else { lemma_key_irrefl(m[i].0); }
            }
        }
    }
    /// m[i] is not found after position i.
    proof fn lemma_at_most(m: Seq<(Seq<u8>, SVal)>, r: Seq<(Seq<u8>, SVal)>, i: int)
        requires increasing(m), increasing(r), m.len() == r.len(), forall|i: int| 0 <= i < m.len() ==> has_pair(r, (#[trigger] m[i]).0, m[i].1), 0 <= i < m.len()
        ensures r[i] == m[i]
        decreases m.len() - i
    {
        lemma_at_least(m, r, i);
        let k = choose|k: int| i <= k < r.len() && #[trigger] r[k] == m[i];
        if i + 1 < m.len() && k > i {
            lemma_at_most(m, r, i + 1);
            assert(key_lt(m[i].0, m[i + 1].0));
            if k > i + 1 { assert(key_lt(r[i + 1].0, r[k].0)); lemma_key_asym(r[k].0, m[i + 1].0); } else { lemma_key_irrefl(m[i].0); }
        }
    }
    pub proof fn lemma_unique(v: SVal)
        requires ordered(v)
        ensures unique_keys(v)
        decreases v
    {
        match v {
            SVal::Obj(m) => {
                assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] m[j].0 != #[trigger] m[i].0 by { lemma_key_asym(m[i].0, m[j].0); }
                assert forall|i: int| 0 <= i < m.len() implies unique_keys((#[trigger] m[i]).1) by { assert(decreases_to!(v => m[i].1)); lemma_unique(m[i].1); }
            }
            SVal::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies unique_keys(#[trigger] a[i]) by { lemma_unique(a[i]); } }
            _ => {}
        }
    }
    /// Numbers apart, what is read back has the same shape.
    pub proof fn lemma_back_shape(v: SVal)
        ensures ordered(v) ==> ordered(back(v)), free_keys(v) ==> free_keys(back(v)), nest(back(v)) == nest(v)
        decreases v, 0int
    {
        match v {
            SVal::Obj(m) => {
                let b = back(v)->Obj_0;
                assert forall|i: int| 0 <= i < m.len() implies (#[trigger] b[i]).0 == m[i].0 && b[i].1 == back(m[i].1)
                    && (ordered(m[i].1) ==> ordered(b[i].1)) && (free_keys(m[i].1) ==> free_keys(b[i].1)) && nest(b[i].1) == nest(m[i].1) by {
                    assert(decreases_to!(v => m[i].1));
                    lemma_back_shape(m[i].1);
                }
                lemma_nest_mem(m, b, m.len() as int);
                if increasing(m) {
                    assert forall|i: int, j: int| 0 <= i < j < b.len() implies key_lt(#[trigger] b[i].0, #[trigger] b[j].0) by { assert(key_lt(m[i].0, m[j].0)); }
                }
            }
            SVal::Arr(a) => {
                let b = back(v)->Arr_0;
                assert forall|i: int| 0 <= i < a.len() implies (#[trigger] b[i]) == back(a[i])
                    && (ordered(a[i]) ==> ordered(b[i])) && (free_keys(a[i]) ==> free_keys(b[i])) && nest(b[i]) == nest(a[i]) by { lemma_back_shape(a[i]); }
                lemma_nest_elm(a, b, a.len() as int);
            }
            _ => {}
        }
    }
    proof fn lemma_nest_mem(m: Seq<(Seq<u8>, SVal)>, b: Seq<(Seq<u8>, SVal)>, n: int)
        requires m.len() == b.len(), forall|i: int| 0 <= i < m.len() ==> nest((#[trigger] b[i]).1) == nest(m[i].1)
        ensures nest_mem(b, n) == nest_mem(m, n)
        decreases n
    { if 0 < n <= m.len() { lemma_nest_mem(m, b, n - 1); assert(nest(b[n - 1].1) == nest(m[n - 1].1)); } }
    proof fn lemma_nest_elm(m: Seq<SVal>, b: Seq<SVal>, n: int)
        requires m.len() == b.len(), forall|i: int| 0 <= i < m.len() ==> nest(#[trigger] b[i]) == nest(m[i])
        ensures nest_elm(b, n) == nest_elm(m, n)
        decreases n
    { if 0 < n <= m.len() { lemma_nest_elm(m, b, n - 1); assert(nest(b[n - 1]) == nest(m[n - 1])); } }
    /// What a well-formed document denotes has its members in order.
    pub proof fn lemma_ordered(b: Seq<u8>)
        requires doc(b)
        ensures ordered(val(b))
    {
        lemma_doc(b);
        if b[0] <= 2 { lemma_whole_is(b); lemma_ordered_c(b); }
    }
    proof fn lemma_whole_is(b: Seq<u8>)
        requires doc(b), b[0] <= 2
        ensures wf_c(b), val(b) == cont(b)
    { assert(subc(b, 0) =~= b); }
    proof fn lemma_ordered_c(c: Seq<u8>)
        requires wf_c(c)
        ensures ordered(cont(c))
        decreases c.len()
    {
        let v = cont(c);
        if c[0] == 1 {
            let m = v->Obj_0;
            assert forall|i: int, j: int| 0 <= i < j < m.len() implies key_lt(#[trigger] m[i].0, #[trigger] m[j].0) by { assert(key_lt(key_of(c, i), key_of(c, j))); }
            assert forall|i: int| 0 <= i < m.len() implies ordered((#[trigger] m[i]).1) by {
                lemma_member(c, i);
                let p = vpos(c, i);
                if c[p] == 1 || c[p] == 2 { lemma_sub(c, p); lemma_ordered_c(subc(c, p)); }
            }
        } else {
            let a = v->Arr_0;
            assert forall|i: int| 0 <= i < a.len() implies ordered(#[trigger] a[i]) by {
                lemma_elem(c, i);
                let e = ent(i);
                if c[e] == 1 || c[e] == 2 { lemma_sub(c, ent_pos(c, e)); lemma_ordered_c(subc(c, ent_pos(c, e))); }
            }
        }
    }
    /// C14, C24: serde_json reads the text of a document, and a parse of it that yields a document yields an equal value.
    pub proof fn lemma_reparse(b: Seq<u8>, t: Seq<char>)
        requires doc(b), vstd::utf8::encode_utf8(t) == compact(val(b)), nest(val(b)) <= 127, free_keys(val(b))
        ensures json_of(t) matches Some(j) && sval_eq(jval(j), val(b))
    {
        let v = val(b);
        lemma_read(v, Seq::empty());
        assert(compact(v) + Seq::<u8>::empty() =~= compact(v));
        lemma_ordered(b);
        lemma_back_shape(v);
        lemma_unique(back(v));
        axiom_json_reads(t, back(v), Seq::empty());
        lemma_denotes(json_of(t)->0, back(v));
        lemma_back(v);
    }
    /// a is v with its members in some other order.
    pub open spec fn reordered(a: SVal, v: SVal) -> bool decreases v {
        match (a, v) {
            (SVal::Obj(x), SVal::Obj(m)) => x.len() == m.len() && increasing(x)
                && forall|i: int| 0 <= i < m.len() ==> exists|k: int| 0 <= k < x.len() && (#[trigger] x[k]).0 == (#[trigger] m[i]).0 && reordered(x[k].1, m[i].1),
            (SVal::Arr(x), SVal::Arr(m)) => x.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> reordered(x[i], #[trigger] m[i]),
            _ => a == v,
        }
    }
    pub proof fn lemma_reordered(j: JVal, v: SVal)
        requires denotes(j, v)
        ensures reordered(jval(j), v)
        decreases v
    {
        match (j, v) {
            (JVal::Array(s), SVal::Arr(a)) => {
                lemma_elems(s@, s@.len());
                assert forall|i: int| 0 <= i < a.len() implies reordered(jelems(s@, s@.len())[i], #[trigger] a[i]) by { lemma_reordered(s@[i], a[i]); }
            }
            (JVal::Object(o), SVal::Obj(m)) => {
                let r = jmems(o, nsize(o));
                lemma_members(o);
                lemma_mem_keys(o, nsize(o));
                lemma_strict(r);
                assert forall|i: int| 0 <= i < m.len() implies exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 == (#[trigger] m[i]).0 && reordered(r[k].1, m[i].1) by {
                    let k = choose|k: int| 0 <= k < nsize(o) && #[trigger] nkey(o, k) == m[i].0 && denotes(o.entries@[k].1, m[i].1);
                    assert(decreases_to!(v => m[i].1));
                    lemma_reordered(o.entries@[k].1, m[i].1);
                    assert(has_pair(r, nkey(o, k), jval(o.entries@[k].1)));
                    let q = choose|q: int| 0 <= q < r.len() && r[q] == (nkey(o, k), jval(o.entries@[k].1));
                    assert(r[q].0 == m[i].0 && reordered(r[q].1, m[i].1));
                }
            }
            _ => {}
        }
    }
    /// C12: a JSON text is parsed as the value written, members in key order.
    pub proof fn lemma_parse_text(t: Seq<char>, v: SVal, rest: Seq<u8>)
        requires
            rval(vstd::utf8::encode_utf8(t)) == Some((v, rest)), skipws(rest).len() == 0,
            nest(v) <= 127, unique_keys(v), free_keys(v),
        ensures json_of(t) matches Some(j) && reordered(jval(j), v)
    {
        axiom_json_reads(t, v, rest);
        lemma_reordered(json_of(t)->0, v);
    }
}
