// The abstract JSON value and the documented binary format, as specification
// functions over byte sequences.
pub mod spec {
    use vstd::prelude::*;
    use crate::prelude::*;

    /// The value a Yason denotes.
    pub enum SVal {
        Obj(Seq<(Seq<u8>, SVal)>),
        Arr(Seq<SVal>),
        Str(Seq<u8>),
        Num(NumV),
        Bool(bool),
        Null,
    }
    pub open spec fn stag(v: SVal) -> u8 {
        match v {
            SVal::Obj(_) => 1u8,
            SVal::Arr(_) => 2u8,
            SVal::Str(_) => 3u8,
            SVal::Num(_) => 4u8,
            SVal::Bool(_) => 5u8,
            SVal::Null => 6u8,
        }
    }

    // ---------------------------------------------------- strings, numbers
    /// A length-prefixed string at p.
    pub open spec fn str_fits(b: Seq<u8>, p: int) -> bool {
        var_ok(b, p) && p + var_n(b, p) + var_v(b, p) <= b.len()
    }
    pub open spec fn str_of(b: Seq<u8>, p: int) -> Seq<u8> {
        b.subrange(p + var_n(b, p), p + var_n(b, p) + var_v(b, p))
    }
    pub open spec fn str_ok(b: Seq<u8>, p: int) -> bool {
        str_fits(b, p) && vstd::utf8::valid_utf8(str_of(b, p))
    }
    /// A length-prefixed number at p.
    pub open spec fn num_fits(b: Seq<u8>, p: int) -> bool {
        0 <= p < b.len() && p + 1 + b[p] as int <= b.len()
    }
    pub open spec fn num_bytes(b: Seq<u8>, p: int) -> Seq<u8> { b.subrange(p + 1, p + 1 + b[p] as int) }
    pub open spec fn num_ok(b: Seq<u8>, p: int) -> bool { num_fits(b, p) && b[p] >= 1 }
    pub open spec fn num_of(b: Seq<u8>, p: int) -> NumV { dec_num(num_bytes(b, p)) }

    // ---------------------------------------------------- containers
    /// Number of elements of container c.
    pub open spec fn cnt(c: Seq<u8>) -> int { le16(c, 5) }
    /// The container whose type byte is at p.
    pub open spec fn subc(b: Seq<u8>, p: int) -> Seq<u8> { b.subrange(p, p + 5 + le32(b, p + 1)) }
    pub open spec fn sub_ok(b: Seq<u8>, p: int) -> bool {
        0 <= p && p + 7 <= b.len() && le32(b, p + 1) <= 0x7fff_ffff && p + 5 + le32(b, p + 1) <= b.len()
    }
    /// Array element i: position of its entry, of its value.
    pub open spec fn ent(i: int) -> int { 7 + 5 * i }
    pub open spec fn ent_pos(c: Seq<u8>, e: int) -> int { 5 + le32(c, e + 1) }
    /// Object member i: position of its key, the key, the position of its value.
    pub open spec fn koff(i: int) -> int { 7 + 4 * i }
    pub open spec fn kpos(c: Seq<u8>, i: int) -> int { 5 + le32(c, koff(i)) }
    pub open spec fn klen(c: Seq<u8>, i: int) -> int { le16(c, kpos(c, i)) }
    pub open spec fn key_of(c: Seq<u8>, i: int) -> Seq<u8> { c.subrange(kpos(c, i) + 2, kpos(c, i) + 2 + klen(c, i)) }
    pub open spec fn vpos(c: Seq<u8>, i: int) -> int { kpos(c, i) + 2 + klen(c, i) }
    pub open spec fn key_ok(c: Seq<u8>, i: int) -> bool {
        koff(i) + 4 <= c.len() && kpos(c, i) >= 7 && kpos(c, i) + 2 <= c.len() && vpos(c, i) <= c.len()
            && vstd::utf8::valid_utf8(key_of(c, i))
    }
    pub open spec fn hdr_ok(c: Seq<u8>) -> bool {
        c.len() >= 7 && le32(c, 1) <= 0x7fff_ffff && c.len() == 5 + le32(c, 1)
    }
    pub open spec fn sorted(c: Seq<u8>) -> bool {
        forall|i: int, j: int| 0 <= i < j < cnt(c) ==> key_lt(#[trigger] key_of(c, i), #[trigger] key_of(c, j))
    }

    // ---------------------------------------------------- well-formedness
    /// c is exactly one well-formed object or array.
    pub open spec fn wf_c(c: Seq<u8>) -> bool decreases c.len(), 1int {
        hdr_ok(c) && (
            if c[0] == 1 {
                7 + 4 * cnt(c) <= c.len() && sorted(c)
                    && (forall|i: int| 0 <= i < cnt(c) ==> #[trigger] key_ok(c, i))
                    && (forall|i: int| 0 <= i < cnt(c) ==> #[trigger] vpos(c, i) > 0 && wf_v(c, vpos(c, i)))
            } else if c[0] == 2 {
                7 + 5 * cnt(c) <= c.len()
                    && (forall|i: int| 0 <= i < cnt(c) ==> wf_e(c, #[trigger] ent(i)))
            } else {
                false
            })
    }
    /// A value with its type byte at p.
    pub open spec fn wf_v(b: Seq<u8>, p: int) -> bool decreases b.len(), (if p > 0 { 0int } else { 2int }) {
        0 <= p < b.len() && (
            if b[p] == 1 || b[p] == 2 { sub_ok(b, p) && wf_c(subc(b, p)) }
            else if b[p] == 3 { str_ok(b, p + 1) }
            else if b[p] == 4 { num_ok(b, p + 1) }
            else if b[p] == 5 { p + 1 < b.len() }
            else { b[p] == 6 })
    }
    /// An array entry at e.
    pub open spec fn wf_e(b: Seq<u8>, e: int) -> bool decreases b.len(), 0int {
        7 <= e && e + 5 <= b.len() && (
            if b[e] == 1 || b[e] == 2 {
                sub_ok(b, ent_pos(b, e)) && b[ent_pos(b, e)] == b[e] && ent_pos(b, e) > 0 && wf_c(subc(b, ent_pos(b, e)))
            }
            else if b[e] == 3 { str_ok(b, ent_pos(b, e)) }
            else if b[e] == 4 { num_ok(b, ent_pos(b, e)) }
            else { b[e] == 5 || b[e] == 6 })
    }
    /// b is a well-formed Yason: a container and nothing else, or a scalar.
    pub open spec fn doc(b: Seq<u8>) -> bool {
        wf_v(b, 0) && (b[0] <= 2 ==> b.len() == 5 + le32(b, 1))
    }
    pub open spec fn obj_ok(c: Seq<u8>) -> bool { wf_c(c) && c[0] == 1 }
    pub open spec fn arr_ok(c: Seq<u8>) -> bool { wf_c(c) && c[0] == 2 }

    // ---------------------------------------------------- denotation
    pub open spec fn cont(c: Seq<u8>) -> SVal decreases c.len(), 1int {
        if c[0] == 1 {
            SVal::Obj(Seq::new(cnt(c) as nat, |i: int| (key_of(c, i), if vpos(c, i) > 0 { val_at(c, vpos(c, i)) } else { SVal::Null })))
        } else {
            SVal::Arr(Seq::new(cnt(c) as nat, |i: int| ent_at(c, ent(i))))
        }
    }
    pub open spec fn val_at(b: Seq<u8>, p: int) -> SVal decreases b.len(), (if p > 0 { 0int } else { 2int }) {
        if b[p] == 1 || b[p] == 2 {
            if 0 <= p && p + 5 + le32(b, p + 1) <= b.len() { cont(subc(b, p)) } else { SVal::Null }
        } else if b[p] == 3 { SVal::Str(str_of(b, p + 1)) }
        else if b[p] == 4 { SVal::Num(num_of(b, p + 1)) }
        else if b[p] == 5 { SVal::Bool(b[p + 1] == 1) }
        else { SVal::Null }
    }
    pub open spec fn ent_at(b: Seq<u8>, e: int) -> SVal decreases b.len(), 0int {
        if b[e] == 1 || b[e] == 2 {
            let p = ent_pos(b, e);
            if 0 < p && p + 5 + le32(b, p + 1) <= b.len() { cont(subc(b, p)) } else { SVal::Null }
        } else if b[e] == 3 { SVal::Str(str_of(b, ent_pos(b, e))) }
        else if b[e] == 4 { SVal::Num(num_of(b, ent_pos(b, e))) }
        else if b[e] == 5 { SVal::Bool(le32(b, e + 1) == 1) }
        else { SVal::Null }
    }
    /// What a Yason denotes.
    pub open spec fn val(b: Seq<u8>) -> SVal { val_at(b, 0) }

    pub open spec fn members(c: Seq<u8>) -> Seq<(Seq<u8>, SVal)> { cont(c)->Obj_0 }
    pub open spec fn elems(c: Seq<u8>) -> Seq<SVal> { cont(c)->Arr_0 }
    pub open spec fn has_key(c: Seq<u8>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < cnt(c) && key_of(c, i) == k }
    pub open spec fn key_idx(c: Seq<u8>, k: Seq<u8>) -> int { choose|i: int| 0 <= i < cnt(c) && key_of(c, i) == k }

    /// A whole container is the container at position 0.
    pub proof fn lemma_whole(c: Seq<u8>)
        requires wf_c(c)
        ensures subc(c, 0) == c, sub_ok(c, 0), wf_v(c, 0), doc(c), val_at(c, 0) == cont(c), c[0] == 1 || c[0] == 2
    {
        assert(subc(c, 0) =~= c);
    }
    pub proof fn lemma_doc(b: Seq<u8>)
        requires doc(b)
        ensures b.len() > 0, is_tag(b[0]), stag(val(b)) == b[0],
            b[0] <= 2 ==> wf_c(b) && val(b) == cont(b) && b.len() >= 7,
    {
        if b[0] <= 2 { assert(subc(b, 0) =~= b); }
    }
    pub proof fn lemma_sub(b: Seq<u8>, p: int)
        requires sub_ok(b, p)
        ensures subc(b, p).len() == 5 + le32(b, p + 1), forall|j: int| 0 <= j < subc(b, p).len() ==> #[trigger] subc(b, p)[j] == b[p + j]
    {}
    pub proof fn lemma_elem(c: Seq<u8>, i: int)
        requires arr_ok(c), 0 <= i < cnt(c)
        ensures wf_e(c, ent(i)), elems(c)[i] == ent_at(c, ent(i)), elems(c).len() == cnt(c),
            stag(elems(c)[i]) == c[ent(i)], is_tag(c[ent(i)]), ent(i) + 5 <= c.len(), cnt(c) <= 65535,
    {
        assert(wf_e(c, ent(i)));
        let e = ent(i);
        if c[e] == 1 || c[e] == 2 { lemma_sub(c, ent_pos(c, e)); assert(subc(c, ent_pos(c, e))[0] == c[e]); }
    }
    pub proof fn lemma_member(c: Seq<u8>, i: int)
        requires obj_ok(c), 0 <= i < cnt(c)
        ensures
            key_ok(c, i), wf_v(c, vpos(c, i)), members(c).len() == cnt(c),
            members(c)[i].0 == key_of(c, i), members(c)[i].1 == val_at(c, vpos(c, i)),
            stag(members(c)[i].1) == c[vpos(c, i)], is_tag(c[vpos(c, i)]), cnt(c) <= 65535,
            vpos(c, i) >= 9,
    {
        assert(key_ok(c, i));
        assert(vpos(c, i) > 0);
        let p = vpos(c, i);
        if c[p] == 1 || c[p] == 2 { lemma_sub(c, p); assert(subc(c, p)[0] == c[p]); }
    }
    /// C04: a key names one member.
    pub proof fn lemma_key_unique(c: Seq<u8>, i: int, j: int)
        requires obj_ok(c), 0 <= i < cnt(c), 0 <= j < cnt(c), key_of(c, i) == key_of(c, j)
        ensures i == j
    {
        if i < j { lemma_key_irrefl(key_of(c, i)); }
        if j < i { lemma_key_irrefl(key_of(c, i)); }
    }
    pub proof fn lemma_key_idx(c: Seq<u8>, i: int)
        requires obj_ok(c), 0 <= i < cnt(c)
        ensures has_key(c, key_of(c, i)), key_idx(c, key_of(c, i)) == i
    {
        let k = key_of(c, i);
        assert(0 <= i < cnt(c) && key_of(c, i) == k);
        lemma_key_unique(c, i, key_idx(c, k));
    }

    // ---------------------------------------------------- equality of values
    /// The same JSON value: numbers compared numerically, members pairwise in stored order.
    pub open spec fn sval_eq(a: SVal, b: SVal) -> bool decreases a {
        match (a, b) {
            (SVal::Obj(x), SVal::Obj(y)) => x.len() == y.len()
                && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).0 == y[i].0 && sval_eq(x[i].1, y[i].1),
            (SVal::Arr(x), SVal::Arr(y)) => x.len() == y.len()
                && forall|i: int| 0 <= i < x.len() ==> sval_eq(#[trigger] x[i], y[i]),
            (SVal::Str(x), SVal::Str(y)) => x == y,
            (SVal::Num(x), SVal::Num(y)) => num_eq(x, y),
            (SVal::Bool(x), SVal::Bool(y)) => x == y,
            (SVal::Null, SVal::Null) => true,
            _ => false,
        }
    }
    /// A value equals itself.
    pub proof fn lemma_eq_refl(a: SVal)
        ensures sval_eq(a, a)
        decreases a
    {
        match a {
            SVal::Obj(x) => { assert forall|i: int| 0 <= i < x.len() implies sval_eq((#[trigger] x[i]).1, x[i].1) by { lemma_eq_refl(x[i].1); } }
            SVal::Arr(x) => { assert forall|i: int| 0 <= i < x.len() implies sval_eq(#[trigger] x[i], x[i]) by { lemma_eq_refl(x[i]); } }
            SVal::Num(n) => axiom_num(n),
            _ => {}
        }
    }
    /// Values of different types are never equal.
    pub proof fn lemma_eq_tags(a: SVal, b: SVal)
        ensures sval_eq(a, b) ==> stag(a) == stag(b)
    {}
    /// Equality of containers is decided by the first difference.
    pub proof fn lemma_eq_arr(a: SVal, b: SVal, i: int)
        requires a is Arr, b is Arr, a->Arr_0.len() == b->Arr_0.len(), 0 <= i < a->Arr_0.len()
        ensures !sval_eq(a->Arr_0[i], b->Arr_0[i]) ==> !sval_eq(a, b)
    {}
    pub proof fn lemma_eq_obj(a: SVal, b: SVal, i: int)
        requires a is Obj, b is Obj, a->Obj_0.len() == b->Obj_0.len(), 0 <= i < a->Obj_0.len()
        ensures !(a->Obj_0[i].0 == b->Obj_0[i].0 && sval_eq(a->Obj_0[i].1, b->Obj_0[i].1)) ==> !sval_eq(a, b)
    {
        assert(a->Obj_0[i] == a->Obj_0[i]);
    }
    pub proof fn lemma_arr_smaller(c: Seq<u8>, i: int)
        requires arr_ok(c), 0 <= i < cnt(c)
        ensures cont(c) is Arr, decreases_to!(cont(c) => elems(c)[i])
    {
        let v = cont(c);
        assert(decreases_to!(v->Arr_0 => v->Arr_0[i]));
        assert(decreases_to!(v => v->Arr_0));
    }
    pub proof fn lemma_obj_smaller(c: Seq<u8>, i: int)
        requires obj_ok(c), 0 <= i < cnt(c)
        ensures cont(c) is Obj, decreases_to!(cont(c) => members(c)[i].1)
    {
        let v = cont(c);
        assert(decreases_to!(v->Obj_0 => v->Obj_0[i]));
        assert(decreases_to!(v => v->Obj_0));
    }
}
