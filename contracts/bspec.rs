// Partly built containers: the bytes of a builder's region while elements are being pushed.
pub mod bspec {
    use vstd::prelude::*;
    use crate::prelude::*;

    /// The part of the buffer a builder owns.
    pub open spec fn reg(v: Seq<u8>, i0: int) -> Seq<u8> { v.subrange(i0, v.len() as int) }
    pub open spec fn agree(b: Seq<u8>, b2: Seq<u8>, from: int, to: int) -> bool {
        b2.len() >= to && b.len() >= to && forall|j: int| from <= j < to ==> #[trigger] b2[j] == b[j]
    }

    /// A well-formed array entry whose value lies behind the n entries.
    pub open spec fn pent(c: Seq<u8>, n: int, e: int) -> bool {
        wf_e(c, e) && (c[e] <= 4 ==> ent_pos(c, e) >= 7 + 5 * n)
            && (c[e] == 5 ==> le32(c, e + 1) <= 1) && (c[e] == 6 ==> le32(c, e + 1) == 0)
    }
    /// c holds an array of n declared elements of which k were pushed; what was not written yet is zero.
    pub open spec fn parr(c: Seq<u8>, n: int, k: int) -> bool {
        0 <= k <= n <= 65535 && c.len() >= 7 + 5 * n && c[0] == 2 && cnt(c) == n
            && (forall|j: int| 0 <= j < k ==> pent(c, n, #[trigger] ent(j)))
            && (forall|j: int| 1 <= j < 5 || ent(k) <= j < ent(n) ==> #[trigger] c[j] == 0)
    }
    pub open spec fn pelems(c: Seq<u8>, k: int) -> Seq<SVal> { Seq::new(k as nat, |j: int| ent_at(c, ent(j))) }

    /// A well-formed member whose key lies behind the n key offsets.
    pub open spec fn pkey(c: Seq<u8>, n: int, j: int) -> bool {
        key_ok(c, j) && kpos(c, j) >= 7 + 4 * n && wf_v(c, vpos(c, j))
    }
    pub open spec fn pobj(c: Seq<u8>, n: int, k: int) -> bool {
        0 <= k <= n <= 65535 && c.len() >= 7 + 4 * n && c[0] == 1 && cnt(c) == n
            && (forall|j: int| 0 <= j < k ==> #[trigger] pkey(c, n, j))
            && (forall|j: int| 1 <= j < 5 || koff(k) <= j < koff(n) ==> #[trigger] c[j] == 0)
    }
    pub open spec fn pmem(c: Seq<u8>, k: int) -> Seq<(Seq<u8>, SVal)> { Seq::new(k as nat, |j: int| (key_of(c, j), val_at(c, vpos(c, j)))) }
    /// No key is smaller than an earlier one.
    pub open spec fn nondecreasing(m: Seq<(Seq<u8>, SVal)>) -> bool {
        forall|i: int, j: int| 0 <= i < j < m.len() ==> !key_lt(#[trigger] m[j].0, #[trigger] m[i].0)
    }
    pub open spec fn distinct_keys(m: Seq<(Seq<u8>, SVal)>) -> bool {
        forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[j].0 != #[trigger] m[i].0
    }
    /// Every member pushed is there, and nothing else: what an insertion does to the pairs held.
    pub open spec fn has_pair(m: Seq<(Seq<u8>, SVal)>, k: Seq<u8>, v: SVal) -> bool { exists|i: int| 0 <= i < m.len() && m[i] == (k, v) }

    /// Where a member with this key goes among the stored ones.
    pub open spec fn slot_ok(m: Seq<(Seq<u8>, SVal)>, key: Seq<u8>, pos: int) -> bool {
        0 <= pos <= m.len() && (forall|j: int| 0 <= j < pos ==> !key_lt(key, #[trigger] m[j].0))
            && (forall|j: int| pos <= j < m.len() ==> !key_lt(#[trigger] m[j].0, key))
    }
    pub proof fn lemma_slot(m: Seq<(Seq<u8>, SVal)>, key: Seq<u8>, pos: int, x: SVal)
        requires nondecreasing(m), slot_ok(m, key, pos)
        ensures nondecreasing(m.insert(pos, (key, x)))
    {
        let m2 = m.insert(pos, (key, x));
        assert forall|i: int, j: int| 0 <= i < j < m2.len() implies !key_lt(#[trigger] m2[j].0, #[trigger] m2[i].0) by {
            let a = if i < pos { m[i].0 } else if i == pos { key } else { m[i - 1].0 };
            let b = if j < pos { m[j].0 } else if j == pos { key } else { m[j - 1].0 };
            assert(m2[i].0 == a && m2[j].0 == b);
            if i == pos { assert(!key_lt(m[j - 1].0, key)); }
            else if j == pos { assert(!key_lt(key, m[i].0)); }
        }
    }
    /// Neighbours in order: all in order.
    pub proof fn lemma_adjacent(m: Seq<(Seq<u8>, SVal)>)
        requires forall|j: int| 0 <= j < m.len() - 1 ==> !key_lt(#[trigger] m[j + 1].0, m[j].0)
        ensures nondecreasing(m)
        decreases m.len()
    {
        if m.len() > 1 {
            let p = m.drop_last();
            assert forall|j: int| 0 <= j < p.len() - 1 implies !key_lt(#[trigger] p[j + 1].0, p[j].0) by { assert(!key_lt(m[j + 1].0, m[j].0)); }
            lemma_adjacent(p);
            let n = m.len() as int;
            assert(!key_lt(m[(n - 2) + 1].0, m[n - 2].0));
            assert forall|i: int, j: int| 0 <= i < j < m.len() implies !key_lt(#[trigger] m[j].0, #[trigger] m[i].0) by {
                if j < n - 1 { assert(!key_lt(p[j].0, p[i].0)); }
                else if i < n - 2 {
                    assert(!key_lt(p[n - 2].0, p[i].0));
                    // m[i] <= m[n-2] <= m[n-1]
                    if key_lt(m[n - 1].0, m[i].0) {
                        lemma_key_total(m[n - 1].0, m[n - 2].0);
                        if m[n - 1].0 != m[n - 2].0 { lemma_key_trans(m[n - 2].0, m[n - 1].0, m[i].0); }
                    }
                }
            }
        }
    }
    /// With distinct keys there is one such place, whatever was pushed before (C06: bytes depend on the pushes only).
    pub proof fn lemma_slot_unique(m: Seq<(Seq<u8>, SVal)>, key: Seq<u8>, p: int, q: int)
        requires slot_ok(m, key, p), slot_ok(m, key, q), forall|j: int| 0 <= j < m.len() ==> #[trigger] m[j].0 != key
        ensures p == q
    {
        if p < q { assert(!key_lt(m[p].0, key) && !key_lt(key, m[p].0)); lemma_key_total(m[p].0, key); }
        if q < p { assert(!key_lt(m[q].0, key) && !key_lt(key, m[q].0)); lemma_key_total(m[q].0, key); }
    }
    /// v (whose object begins at i0 and has k members) after a member with this key got slot pos.
    pub open spec fn with_key(v: Seq<u8>, i0: int, k: int, pos: int, off: int, key: Seq<u8>) -> Seq<u8> {
        Seq::new(v.len(), |i: int|
            if i0 + koff(pos) <= i < i0 + koff(pos) + 4 { b32(off)[i - i0 - koff(pos)] }
            else if i0 + koff(pos) + 4 <= i < i0 + koff(k) + 4 { v[i - 4] }
            else { v[i] }) + b16(key.len() as int) + key
    }
    /// The slot of a member appended in the right place, whatever value follows the key.
    pub proof fn lemma_with_key(v: Seq<u8>, i0: int, n: int, k: int, pos: int, key: Seq<u8>, tail: Seq<u8>)
        requires
            0 <= i0 <= v.len(), pobj(reg(v, i0), n, k), k < n, 0 <= pos <= k, key.len() <= 65535, vstd::utf8::valid_utf8(key),
            v.len() - i0 - 5 <= 0x7fff_ffff, tail.len() > 0,
            wf_v(reg(with_key(v, i0, k, pos, v.len() - i0 - 5, key) + tail, i0), v.len() - i0 + 2 + key.len()),
        ensures
            ({ let c2 = reg(with_key(v, i0, k, pos, v.len() - i0 - 5, key) + tail, i0);
               pobj(c2, n, k + 1) && pmem(c2, k + 1) == pmem(reg(v, i0), k).insert(pos, (key, val_at(c2, v.len() - i0 + 2 + key.len())))
                && agree(v, with_key(v, i0, k, pos, v.len() - i0 - 5, key) + tail, 0, i0) }),
    {
        let c = reg(v, i0);
        let off = v.len() - i0 - 5;
        let w = with_key(v, i0, k, pos, off, key) + tail;
        let c2 = reg(w, i0);
        let p = c.len() as int;
        lemma_b32(off);
        lemma_b16(key.len() as int);
        assert forall|j: int| 0 <= j < c.len() implies #[trigger] c2[j] == w[i0 + j] by {}
        assert(c2[koff(pos)] == b32(off)[0] && c2[koff(pos) + 1] == b32(off)[1] && c2[koff(pos) + 2] == b32(off)[2] && c2[koff(pos) + 3] == b32(off)[3]);
        assert(kpos(c2, pos) == p);
        assert(c2[p] == b16(key.len() as int)[0] && c2[p + 1] == b16(key.len() as int)[1]);
        assert(klen(c2, pos) == key.len());
        assert(key_of(c2, pos) =~= key) by {
            assert forall|j: int| 0 <= j < key.len() implies #[trigger] key_of(c2, pos)[j] == key[j] by { assert(c2[p + 2 + j] == w[i0 + p + 2 + j]); }
        }
        assert(pkey(c2, n, pos));
        assert(agree(c, c2, 0, koff(pos)));
        assert(agree(c, c2, koff(k) + 4, c.len() as int));
        assert forall|t: int| koff(pos) + 4 <= t < koff(k) + 4 implies #[trigger] c2[t] == c[t - 4] by { assert(w[i0 + t] == v[i0 + t - 4]); }
        lemma_obj_push(c, c2, n, k, pos);
    }

    pub open spec fn err_of<T>(r: BuildResult<T>) -> Option<BuildError> { match r { Ok(_) => None, Err(e) => Some(e) } }

    // ------------------------------------------------------- framing
    pub proof fn lemma_frame_str(b: Seq<u8>, b2: Seq<u8>, p: int)
        requires str_ok(b, p), b2.len() >= b.len(), agree(b, b2, p, b.len() as int)
        ensures str_ok(b2, p), str_of(b2, p) == str_of(b, p)
    {
        let n = var_n(b, p);
        assert(b2[p] == b[p]);
        if n >= 2 { assert(b2[p + 1] == b[p + 1]); }
        if n >= 3 { assert(b2[p + 2] == b[p + 2]); }
        if n >= 4 { assert(b2[p + 3] == b[p + 3]); }
        assert(forall|k: int| 0 <= k < n ==> b2[p + k] == #[trigger] b[p + k]);
        lemma_var_local(b, p, b2, p);
        assert(str_of(b2, p) =~= str_of(b, p));
    }
    pub proof fn lemma_frame_num(b: Seq<u8>, b2: Seq<u8>, p: int)
        requires num_ok(b, p), b2.len() >= b.len(), agree(b, b2, p, b.len() as int)
        ensures num_ok(b2, p), num_of(b2, p) == num_of(b, p)
    {
        assert(b2[p] == b[p]);
        assert(num_bytes(b2, p) =~= num_bytes(b, p));
    }
    pub proof fn lemma_frame_sub(b: Seq<u8>, b2: Seq<u8>, p: int)
        requires sub_ok(b, p), b2.len() >= b.len(), agree(b, b2, p, b.len() as int)
        ensures sub_ok(b2, p), subc(b2, p) == subc(b, p), le32(b2, p + 1) == le32(b, p + 1), b2[p] == b[p]
    {
        assert(b2[p + 1] == b[p + 1] && b2[p + 2] == b[p + 2] && b2[p + 3] == b[p + 3] && b2[p + 4] == b[p + 4] && b2[p] == b[p]);
        assert(subc(b2, p) =~= subc(b, p));
    }
    /// A value stays what it is when bytes before it change and bytes are appended.
    pub proof fn lemma_frame_v(b: Seq<u8>, b2: Seq<u8>, p: int)
        requires wf_v(b, p), p > 0, b2.len() >= b.len(), agree(b, b2, p, b.len() as int)
        ensures wf_v(b2, p), val_at(b2, p) == val_at(b, p)
    {
        assert(b2[p] == b[p]);
        if b[p] == 1 || b[p] == 2 { lemma_frame_sub(b, b2, p); }
        else if b[p] == 3 { lemma_frame_str(b, b2, p + 1); }
        else if b[p] == 4 { lemma_frame_num(b, b2, p + 1); }
        else if b[p] == 5 { assert(b2[p + 1] == b[p + 1]); }
    }
    pub proof fn lemma_frame_e(b: Seq<u8>, b2: Seq<u8>, n: int, e: int)
        requires pent(b, n, e), n >= 0, b2.len() >= b.len(), agree(b, b2, e, e + 5), agree(b, b2, 7 + 5 * n, b.len() as int)
        ensures pent(b2, n, e), ent_at(b2, e) == ent_at(b, e)
    {
        assert(b2[e] == b[e] && b2[e + 1] == b[e + 1] && b2[e + 2] == b[e + 2] && b2[e + 3] == b[e + 3] && b2[e + 4] == b[e + 4]);
        let p = ent_pos(b, e);
        assert(ent_pos(b2, e) == p);
        if b[e] == 1 || b[e] == 2 { lemma_frame_sub(b, b2, p); }
        else if b[e] == 3 { lemma_frame_str(b, b2, p); }
        else if b[e] == 4 { lemma_frame_num(b, b2, p); }
    }

    /// An encoded string found at p, up to the end.
    pub proof fn lemma_str_at(c: Seq<u8>, p: int, s: Seq<u8>)
        requires
            0 <= p, p + enc_str(s).len() <= c.len(), s.len() <= 268435455, vstd::utf8::valid_utf8(s),
            forall|j: int| 0 <= j < enc_str(s).len() ==> c[p + j] == #[trigger] enc_str(s)[j],
        ensures str_ok(c, p), str_of(c, p) == s, enc_str(s).len() >= 1
    {
        let n = s.len() as int;
        lemma_var_roundtrip(Seq::<u8>::empty(), n, s);
        let b = Seq::<u8>::empty() + enc_var(n) + s;
        assert(b =~= enc_str(s));
        lemma_var_local(b, 0, c, p);
        assert(str_of(c, p) =~= s) by {
            assert forall|j: int| 0 <= j < s.len() implies #[trigger] str_of(c, p)[j] == s[j] by {
                assert(c[p + (enc_var(n).len() + j)] == enc_str(s)[enc_var(n).len() + j]);
            }
        }
    }
    pub proof fn lemma_num_at(c: Seq<u8>, p: int, n: NumV)
        requires
            0 <= p, p + enc_number(n).len() <= c.len(),
            forall|j: int| 0 <= j < enc_number(n).len() ==> c[p + j] == #[trigger] enc_number(n)[j],
        ensures num_ok(c, p), num_of(c, p) == n, enc_number(n).len() >= 2
    {
        axiom_num(n);
        assert(c[p + 0] == enc_number(n)[0]);
        assert forall|j: int| 0 <= j < enc_num(n).len() implies #[trigger] num_bytes(c, p)[j] == enc_num(n)[j] by {
            assert(c[p + (1 + j)] == enc_number(n)[1 + j]);
        }
        assert(num_bytes(c, p) =~= enc_num(n));
    }

    /// A whole container found at p.
    pub proof fn lemma_sub_at(c: Seq<u8>, p: int, s: Seq<u8>)
        requires 0 <= p, p + s.len() <= c.len(), wf_c(s), forall|j: int| 0 <= j < s.len() ==> c[p + j] == #[trigger] s[j],
        ensures sub_ok(c, p), subc(c, p) == s, c[p] == s[0]
    {
        assert(c[p + 0] == s[0] && c[p + 1] == s[1] && c[p + 2] == s[2] && c[p + 3] == s[3] && c[p + 4] == s[4]);
        assert(subc(c, p) =~= s);
    }

    pub open spec fn found(c: Seq<u8>, p: int, pl: Seq<u8>) -> bool {
        0 <= p && p + pl.len() <= c.len() && forall|j: int| 0 <= j < pl.len() ==> c[p + j] == #[trigger] pl[j]
    }
    /// pl is the encoding of x: type byte and data.
    pub open spec fn enc_of(pl: Seq<u8>, x: SVal) -> bool {
        pl.len() > 0 && forall|c: Seq<u8>, p: int| #[trigger] found(c, p, pl) ==> wf_v(c, p) && val_at(c, p) == x
    }
    pub proof fn lemma_pl_str(s: Seq<u8>)
        requires s.len() <= 268435455, vstd::utf8::valid_utf8(s)
        ensures enc_of(seq![3u8] + enc_str(s), SVal::Str(s))
    {
        let (e, pl) = (enc_str(s), seq![3u8] + enc_str(s));
        assert forall|c: Seq<u8>, p: int| #[trigger] found(c, p, pl) implies wf_v(c, p) && val_at(c, p) == SVal::Str(s) by {
            assert(c[p + 0] == pl[0]);
            assert forall|j: int| 0 <= j < e.len() implies c[p + 1 + j] == #[trigger] e[j] by { assert(c[p + (1 + j)] == pl[1 + j]); }
            lemma_str_at(c, p + 1, s);
        }
    }
    pub proof fn lemma_pl_num(n: NumV)
        ensures enc_of(seq![4u8] + enc_number(n), SVal::Num(n))
    {
        let (e, pl) = (enc_number(n), seq![4u8] + enc_number(n));
        assert forall|c: Seq<u8>, p: int| #[trigger] found(c, p, pl) implies wf_v(c, p) && val_at(c, p) == SVal::Num(n) by {
            assert(c[p + 0] == pl[0]);
            assert forall|j: int| 0 <= j < e.len() implies c[p + 1 + j] == #[trigger] e[j] by { assert(c[p + (1 + j)] == pl[1 + j]); }
            lemma_num_at(c, p + 1, n);
        }
    }
    pub proof fn lemma_pl_small(x: bool)
        ensures enc_of(seq![5u8, if x { 1u8 } else { 0u8 }], SVal::Bool(x)), enc_of(seq![6u8], SVal::Null)
    {
        let (pl, pn) = (seq![5u8, if x { 1u8 } else { 0u8 }], seq![6u8]);
        assert forall|c: Seq<u8>, p: int| #[trigger] found(c, p, pl) implies wf_v(c, p) && val_at(c, p) == SVal::Bool(x) by {
            assert(c[p + 0] == pl[0] && c[p + 1] == pl[1]);
        }
        assert forall|c: Seq<u8>, p: int| #[trigger] found(c, p, pn) implies wf_v(c, p) && val_at(c, p) == SVal::Null by {
            assert(c[p + 0] == pn[0]);
        }
    }

    // ------------------------------------------------------- arrays
    pub open spec fn arr_hdr(n: int) -> Seq<u8> { seq![2u8] + zeros(4) + b16(n) + zeros(5 * n) }
    pub proof fn lemma_arr_new(n: int)
        requires 0 <= n <= 65535
        ensures parr(arr_hdr(n), n, 0), pelems(arr_hdr(n), 0) == Seq::<SVal>::empty(), arr_hdr(n).len() == 7 + 5 * n
    {
        lemma_b16(n);
        let c = arr_hdr(n);
        assert(c[5] == b16(n)[0] && c[6] == b16(n)[1]);
        assert(pelems(c, 0) =~= Seq::<SVal>::empty());
    }
    pub proof fn lemma_arr_push(c: Seq<u8>, c2: Seq<u8>, n: int, k: int)
        requires
            parr(c, n, k), k < n, c2.len() >= c.len(), agree(c, c2, 0, ent(k)), agree(c, c2, ent(k) + 5, c.len() as int),
            pent(c2, n, ent(k)),
        ensures parr(c2, n, k + 1), pelems(c2, k + 1) == pelems(c, k).push(ent_at(c2, ent(k)))
    {
        assert(c2[0] == c[0] && c2[5] == c[5] && c2[6] == c[6]);
        assert forall|j: int| 0 <= j < k implies pent(c2, n, #[trigger] ent(j)) && ent_at(c2, ent(j)) == ent_at(c, ent(j)) by {
            assert(pent(c, n, ent(j)));
            assert(ent(j) + 5 <= ent(k));
            lemma_frame_e(c, c2, n, ent(j));
        }
        assert forall|j: int| 0 <= j < k + 1 implies pent(c2, n, #[trigger] ent(j)) by { if j == k {} }
        assert forall|j: int| 1 <= j < 5 || ent(k + 1) <= j < ent(n) implies #[trigger] c2[j] == 0 by { assert(c2[j] == c[j]); }
        assert(pelems(c2, k + 1) =~= pelems(c, k).push(ent_at(c2, ent(k))));
    }
    pub proof fn lemma_arr_finish(c: Seq<u8>, n: int)
        requires parr(c, n, n), c.len() - 5 <= 0x7fff_ffff
        ensures
            ({ let c2 = put(c, 1, b32(c.len() - 5)); arr_ok(c2) && cont(c2) == SVal::Arr(pelems(c, n)) && c2.len() == c.len() })
    {
        let c2 = put(c, 1, b32(c.len() - 5));
        lemma_b32_put(c, 1, c.len() - 5);
        assert(c2[0] == c[0] && c2[5] == c[5] && c2[6] == c[6]);
        assert forall|j: int| 0 <= j < n implies pent(c2, n, #[trigger] ent(j)) && ent_at(c2, ent(j)) == ent_at(c, ent(j)) by {
            assert(pent(c, n, ent(j)));
            lemma_frame_e(c, c2, n, ent(j));
        }
        assert(wf_c(c2));
        assert(elems(c2) =~= pelems(c, n));
    }

    // ------------------------------------------------------- objects
    pub open spec fn obj_hdr(n: int) -> Seq<u8> { seq![1u8] + zeros(4) + b16(n) + zeros(4 * n) }
    pub proof fn lemma_obj_new(n: int)
        requires 0 <= n <= 65535
        ensures pobj(obj_hdr(n), n, 0), pmem(obj_hdr(n), 0) == Seq::<(Seq<u8>, SVal)>::empty(), obj_hdr(n).len() == 7 + 4 * n
    {
        lemma_b16(n);
        let c = obj_hdr(n);
        assert(c[5] == b16(n)[0] && c[6] == b16(n)[1]);
        assert(pmem(c, 0) =~= Seq::<(Seq<u8>, SVal)>::empty());
    }
    /// A key slot j of c2 holds the offset slot i of c holds.
    pub proof fn lemma_key_moved(c: Seq<u8>, i: int, c2: Seq<u8>, j: int, n: int)
        requires
            pkey(c, n, i), 0 <= i < n, 0 <= j < n, c2.len() >= c.len(), agree(c, c2, 7 + 4 * n, c.len() as int),
            forall|t: int| 0 <= t < 4 ==> c2[koff(j) + t] == #[trigger] c[koff(i) + t],
        ensures pkey(c2, n, j), key_of(c2, j) == key_of(c, i), val_at(c2, vpos(c2, j)) == val_at(c, vpos(c, i))
    {
        assert(c2[koff(j) + 0] == c[koff(i) + 0] && c2[koff(j) + 1] == c[koff(i) + 1] && c2[koff(j) + 2] == c[koff(i) + 2] && c2[koff(j) + 3] == c[koff(i) + 3]);
        let p = kpos(c, i);
        assert(kpos(c2, j) == p);
        assert(c2[p] == c[p] && c2[p + 1] == c[p + 1]);
        assert(key_of(c2, j) =~= key_of(c, i));
        lemma_frame_v(c, c2, vpos(c, i));
    }
    /// The new member went to slot pos, the later ones moved up by one.
    pub proof fn lemma_obj_push(c: Seq<u8>, c2: Seq<u8>, n: int, k: int, pos: int)
        requires
            pobj(c, n, k), k < n, 0 <= pos <= k, c2.len() >= c.len(),
            agree(c, c2, 0, koff(pos)), agree(c, c2, koff(k) + 4, c.len() as int),
            forall|t: int| koff(pos) + 4 <= t < koff(k) + 4 ==> #[trigger] c2[t] == c[t - 4],
            pkey(c2, n, pos),
        ensures
            pobj(c2, n, k + 1),
            pmem(c2, k + 1) == pmem(c, k).insert(pos, (key_of(c2, pos), val_at(c2, vpos(c2, pos)))),
    {
        hide(wf_v); hide(val_at); hide(key_ok);
        assert(c2[0] == c[0] && c2[5] == c[5] && c2[6] == c[6]);
        assert forall|j: int| 0 <= j < pos implies #[trigger] pkey(c2, n, j) && key_of(c2, j) == key_of(c, j) && val_at(c2, vpos(c2, j)) == val_at(c, vpos(c, j)) by {
            assert(pkey(c, n, j));
            assert forall|t: int| 0 <= t < 4 implies c2[koff(j) + t] == #[trigger] c[koff(j) + t] by { assert(koff(j) + t < koff(pos)); }
            lemma_key_moved(c, j, c2, j, n);
        }
        assert forall|j: int| pos < j < k + 1 implies #[trigger] pkey(c2, n, j) && key_of(c2, j) == key_of(c, j - 1) && val_at(c2, vpos(c2, j)) == val_at(c, vpos(c, j - 1)) by {
            assert(pkey(c, n, j - 1));
            assert forall|t: int| 0 <= t < 4 implies c2[koff(j) + t] == #[trigger] c[koff(j - 1) + t] by { assert(c2[koff(j) + t] == c[koff(j) + t - 4]); }
            lemma_key_moved(c, j - 1, c2, j, n);
        }
        assert forall|j: int| 0 <= j < k + 1 implies #[trigger] pkey(c2, n, j) by { if j == pos {} }
        assert forall|j: int| 1 <= j < 5 || koff(k + 1) <= j < koff(n) implies #[trigger] c2[j] == 0 by { assert(c2[j] == c[j]); }
        let m = pmem(c, k).insert(pos, (key_of(c2, pos), val_at(c2, vpos(c2, pos))));
        assert forall|j: int| 0 <= j < k + 1 implies #[trigger] pmem(c2, k + 1)[j] == m[j] by { assert(pkey(c2, n, j)); }
        assert(pmem(c2, k + 1) =~= pmem(c, k).insert(pos, (key_of(c2, pos), val_at(c2, vpos(c2, pos)))));
    }
    pub proof fn lemma_obj_finish(c: Seq<u8>, n: int)
        requires pobj(c, n, n), c.len() - 5 <= 0x7fff_ffff, nondecreasing(pmem(c, n)), distinct_keys(pmem(c, n))
        ensures
            ({ let c2 = put(c, 1, b32(c.len() - 5)); obj_ok(c2) && cont(c2) == SVal::Obj(pmem(c, n)) && c2.len() == c.len() })
    {
        let c2 = put(c, 1, b32(c.len() - 5));
        lemma_b32_put(c, 1, c.len() - 5);
        assert(c2[0] == c[0] && c2[5] == c[5] && c2[6] == c[6]);
        assert forall|j: int| 0 <= j < n implies #[trigger] pkey(c2, n, j) && key_of(c2, j) == key_of(c, j) && val_at(c2, vpos(c2, j)) == val_at(c, vpos(c, j)) by {
            assert(pkey(c, n, j));
            assert forall|t: int| 0 <= t < 4 implies c2[koff(j) + t] == #[trigger] c[koff(j) + t] by {}
            lemma_key_moved(c, j, c2, j, n);
        }
        assert forall|i: int, j: int| 0 <= i < j < cnt(c2) implies key_lt(#[trigger] key_of(c2, i), #[trigger] key_of(c2, j)) by {
            assert(pkey(c2, n, i) && pkey(c2, n, j));
            assert(pmem(c, n)[i].0 == key_of(c, i) && pmem(c, n)[j].0 == key_of(c, j));
            lemma_key_total(key_of(c, i), key_of(c, j));
        }
        assert forall|i: int| 0 <= i < cnt(c2) implies #[trigger] key_ok(c2, i) by { assert(pkey(c2, n, i)); }
        assert forall|i: int| 0 <= i < cnt(c2) implies #[trigger] vpos(c2, i) > 0 && wf_v(c2, vpos(c2, i)) by { assert(pkey(c2, n, i)); }
        assert(wf_c(c2));
        assert forall|i: int| 0 <= i < n implies #[trigger] members(c2)[i] == pmem(c, n)[i] by { assert(pkey(c2, n, i)); }
        assert(members(c2) =~= pmem(c, n));
    }
    /// C04: an insertion keeps every pair held, adds the new one, and nothing else.
    pub proof fn lemma_insert_pairs(m: Seq<(Seq<u8>, SVal)>, pos: int, k: Seq<u8>, v: SVal)
        requires 0 <= pos <= m.len()
        ensures forall|k2: Seq<u8>, v2: SVal| #[trigger] has_pair(m.insert(pos, (k, v)), k2, v2) == (has_pair(m, k2, v2) || (k2 == k && v2 == v)),
    {
        let m2 = m.insert(pos, (k, v));
        assert forall|k2: Seq<u8>, v2: SVal| #[trigger] has_pair(m2, k2, v2) == (has_pair(m, k2, v2) || (k2 == k && v2 == v)) by {
            if has_pair(m2, k2, v2) {
                let i = choose|i: int| 0 <= i < m2.len() && m2[i] == (k2, v2);
                if i < pos { assert(m[i] == (k2, v2)); } else if i > pos { assert(m[i - 1] == (k2, v2)); }
            }
            if has_pair(m, k2, v2) {
                let i = choose|i: int| 0 <= i < m.len() && m[i] == (k2, v2);
                if i < pos { assert(m2[i] == (k2, v2)); } else { assert(m2[i + 1] == (k2, v2)); }
            }
            if k2 == k && v2 == v { assert(m2[pos] == (k2, v2)); }
        }
    }
    /// C05: the order of the members is determined by the set of pairs, not by the order of the pushes.
    pub open spec fn increasing(m: Seq<(Seq<u8>, SVal)>) -> bool {
        forall|i: int, j: int| 0 <= i < j < m.len() ==> key_lt(#[trigger] m[i].0, #[trigger] m[j].0)
    }
    pub proof fn lemma_order_unique(m: Seq<(Seq<u8>, SVal)>, m2: Seq<(Seq<u8>, SVal)>)
        requires increasing(m), increasing(m2), forall|k: Seq<u8>, v: SVal| has_pair(m, k, v) == has_pair(m2, k, v)
        ensures m == m2
        decreases m.len()
    {
        if m.len() == 0 {
            if m2.len() > 0 { assert(m2[0] == (m2[0].0, m2[0].1)); assert(has_pair(m2, m2[0].0, m2[0].1)); assert(has_pair(m, m2[0].0, m2[0].1)); }
            assert(m =~= m2);
        } else {
            let a = m.last();
            assert(m[m.len() - 1] == (a.0, a.1)); assert(has_pair(m, a.0, a.1)); assert(has_pair(m2, a.0, a.1));
            let i = choose|i: int| 0 <= i < m2.len() && m2[i] == (a.0, a.1);
            let b = m2.last();
            assert(m2[m2.len() - 1] == (b.0, b.1)); assert(has_pair(m2, b.0, b.1)); assert(has_pair(m, b.0, b.1));
            let j = choose|j: int| 0 <= j < m.len() && m[j] == (b.0, b.1);
            if i < m2.len() - 1 {
                assert(key_lt(m2[i].0, m2[m2.len() - 1].0));
                if j < m.len() - 1 { assert(key_lt(m[j].0, m[m.len() - 1].0)); lemma_key_asym(a.0, b.0); } else { lemma_key_irrefl(a.0); }
            }
            assert(b == a);
            let (p, p2) = (m.drop_last(), m2.drop_last());
            assert forall|k: Seq<u8>, v: SVal| has_pair(p, k, v) == has_pair(p2, k, v) by {
                if has_pair(p, k, v) {
                    let x = choose|x: int| 0 <= x < p.len() && p[x] == (k, v);
                    assert(m[x] == (k, v)); assert(has_pair(m, k, v)); assert(has_pair(m2, k, v));
                    let y = choose|y: int| 0 <= y < m2.len() && m2[y] == (k, v);
                    assert(key_lt(m[x].0, m[m.len() - 1].0)); lemma_key_irrefl(k);
                    assert(y < m2.len() - 1); assert(p2[y] == (k, v));
                }
                if has_pair(p2, k, v) {
                    let x = choose|x: int| 0 <= x < p2.len() && p2[x] == (k, v);
                    assert(m2[x] == (k, v)); assert(has_pair(m2, k, v)); assert(has_pair(m, k, v));
                    let y = choose|y: int| 0 <= y < m.len() && m[y] == (k, v);
                    assert(key_lt(m2[x].0, m2[m2.len() - 1].0)); lemma_key_irrefl(k);
                    assert(y < m.len() - 1); assert(p[y] == (k, v));
                }
            }
            lemma_order_unique(p, p2);
            assert(m =~= p.push(a)); assert(m2 =~= p2.push(a));
        }
    }
}
