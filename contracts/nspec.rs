// What a parsed JSON value becomes: the value it denotes, the bytes it is encoded
// as, and the first reason why it cannot be encoded.
pub mod nspec {
    use vstd::prelude::*;
    use crate::prelude::*;
    pub use crate::serde_json::{Value as JVal, Map as JMap, Number as JNum, num_text, json_of, axiom_num_text, axiom_map_keys};
    use crate::builder::NumberError;
    use crate::builder::array::with_entry;
    use crate::decimal_rs::DecimalParseError;

    pub type JObj = JMap<std::string::String, JVal>;

    /// The number written as a literal: the decimal nearest to it, zero when too small, none when too large.
    pub open spec fn jnum(n: JNum) -> Option<NumV> {
        match dec_parse(num_text(n)) {
            Ok(x) => Some(x),
            Err(DecimalParseError::Underflow) => Some(num_zero()),
            Err(_) => None,
        }
    }
    pub open spec fn nstr(s: std::string::String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
    pub open spec fn nkey(m: JObj, i: int) -> Seq<u8> { nstr(m.entries@[i].0) }
    pub open spec fn nsize(m: JObj) -> nat { m.entries@.len() }
    /// Where a member goes among those already there.
    pub open spec fn jslot(s: Seq<(Seq<u8>, SVal)>, key: Seq<u8>) -> int { choose|p: int| slot_ok(s, key, p) }

    // ------------------------------------------------------------ value
    pub open spec fn jval(v: JVal) -> SVal
        decreases v, 0nat via jval_dec
    {
        match v {
            JVal::Null => SVal::Null,
            JVal::Bool(b) => SVal::Bool(b),
            JVal::Number(n) => SVal::Num(jnum(n)->0),
            JVal::String(s) => SVal::Str(nstr(s)),
            JVal::Array(a) => SVal::Arr(jelems(a@, a@.len())),
            JVal::Object(m) => SVal::Obj(jmems(m, nsize(m))),
        }
    }
    #[via_fn]
    proof fn jval_dec(v: JVal) {
        match v { JVal::Array(a) => { broadcast use vstd::std_specs::vec::axiom_vec_decreases_to_view; } _ => {} }
    }
    /// The first k elements.
    pub open spec fn jelems(s: Seq<JVal>, k: nat) -> Seq<SVal>
        decreases s, k
    {
        if k == 0 || k > s.len() { Seq::empty() } else { jelems(s, (k - 1) as nat).push(jval(s[k - 1])) }
    }
    /// The first k members, in stored order.
    pub open spec fn jmems(m: JObj, k: nat) -> Seq<(Seq<u8>, SVal)>
        decreases m, k via jmems_dec
    {
        if k == 0 || k > nsize(m) { Seq::empty() }
        else {
            let s = jmems(m, (k - 1) as nat);
            s.insert(jslot(s, nkey(m, k - 1)), (nkey(m, k - 1), jval(m.entries@[k - 1].1)))
        }
    }
    #[via_fn]
    proof fn jmems_dec(m: JObj, k: nat) { if !(k == 0 || k > nsize(m)) { lemma_map_dec(m, k - 1); } }
    pub proof fn lemma_map_dec(m: JObj, i: int)
        requires 0 <= i < nsize(m)
        ensures decreases_to!(m => m.entries@[i].1)
    {
        broadcast use vstd::std_specs::vec::axiom_vec_decreases_to_view;
        assert(decreases_to!(m => m.entries));
        assert(decreases_to!(m.entries => m.entries@));
        assert(decreases_to!(m.entries@ => m.entries@[i]));
        assert(decreases_to!(m.entries@[i] => m.entries@[i].1));
    }

    // ------------------------------------------------------------ bytes
    /// The bytes a value is encoded as.
    pub open spec fn npay(v: JVal) -> Seq<u8>
        decreases v, 0nat via npay_dec
    {
        match v {
            JVal::Null => seq![6u8],
            JVal::Bool(b) => seq![5u8, if b { 1u8 } else { 0u8 }],
            JVal::Number(n) => seq![4u8] + enc_number(jnum(n)->0),
            JVal::String(s) => seq![3u8] + enc_str(nstr(s)),
            JVal::Array(a) => sized(narr(a@, a@.len())),
            JVal::Object(m) => sized(nobj(m, nsize(m))),
        }
    }
    #[via_fn]
    proof fn npay_dec(v: JVal) {
        match v { JVal::Array(a) => { broadcast use vstd::std_specs::vec::axiom_vec_decreases_to_view; } _ => {} }
    }
    /// A container with its size filled in.
    pub open spec fn sized(c: Seq<u8>) -> Seq<u8> { put(c, 1, b32(c.len() - 5)) }
    /// The array entry at ep with what it refers to appended: p is the encoding of the element.
    pub open spec fn aentry(v: Seq<u8>, ep: int, off: int, p: Seq<u8>) -> Seq<u8> {
        if p[0] == 6 { with_entry(v, ep, 6, 0) }
        else if p[0] == 5 { with_entry(v, ep, 5, p[1] as int) }
        else if p[0] == 1 || p[0] == 2 { with_entry(v, ep, p[0], off) + p }
        else { with_entry(v, ep, p[0], off) + p.drop_first() }
    }
    /// The array after k elements.
    pub open spec fn narr(s: Seq<JVal>, k: nat) -> Seq<u8>
        decreases s, k
    {
        if k == 0 || k > s.len() { arr_hdr(s.len() as int) }
        else { let c = narr(s, (k - 1) as nat); aentry(c, ent(k - 1), c.len() - 5, npay(s[k - 1])) }
    }
    /// The object after k members.
    pub open spec fn nobj(m: JObj, k: nat) -> Seq<u8>
        decreases m, k via nobj_dec
    {
        if k == 0 || k > nsize(m) { obj_hdr(nsize(m) as int) }
        else {
            let c = nobj(m, (k - 1) as nat);
            with_key(c, 0, k - 1, jslot(jmems(m, (k - 1) as nat), nkey(m, k - 1)), c.len() - 5, nkey(m, k - 1)) + npay(m.entries@[k - 1].1)
        }
    }
    #[via_fn]
    proof fn nobj_dec(m: JObj, k: nat) { if !(k == 0 || k > nsize(m)) { lemma_map_dec(m, k - 1); } }

    // ------------------------------------------------------------ limits
    /// Why the value cannot be encoded inside d containers, before anything is written.
    pub open spec fn npre(v: JVal, d: int) -> Option<BuildError> {
        match v {
            JVal::Number(n) => if jnum(n) is None { Some(BuildError::NumberError(NumberError::Overflow)) } else { None },
            JVal::String(s) => if nstr(s).len() > 268435455 { Some(BuildError::StringTooLong(nstr(s).len() as usize)) } else { None },
            JVal::Array(a) => if a@.len() > 65535 { Some(BuildError::TooManyElements(a@.len() as usize)) } else if d >= 100 { Some(BuildError::NestedTooDeeply) } else { None },
            JVal::Object(m) => if nsize(m) > 65535 { Some(BuildError::TooManyElements(nsize(m) as usize)) } else if d >= 100 { Some(BuildError::NestedTooDeeply) } else { None },
            _ => None,
        }
    }
    pub open spec fn noff(c: Seq<u8>) -> Option<BuildError> {
        if c.len() - 5 > 0x7fff_ffff { Some(BuildError::DocumentTooLong((c.len() - 5) as usize)) } else { None }
    }
    pub open spec fn or(a: Option<BuildError>, b: Option<BuildError>) -> Option<BuildError> { if a is Some { a } else { b } }
    /// The same, for what the value contains.
    pub open spec fn nin(v: JVal, d: int) -> Option<BuildError>
        decreases v, 0nat via nin_dec
    {
        match v {
            JVal::Array(a) => or(narr_fail(a@, d + 1, a@.len()), noff(narr(a@, a@.len()))),
            JVal::Object(m) => or(nobj_fail(m, d + 1, nsize(m)), noff(nobj(m, nsize(m)))),
            _ => None,
        }
    }
    #[via_fn]
    proof fn nin_dec(v: JVal, d: int) {
        match v { JVal::Array(a) => { broadcast use vstd::std_specs::vec::axiom_vec_decreases_to_view; } _ => {} }
    }
    /// The first failure among the first k elements of an array at depth d.
    pub open spec fn narr_fail(s: Seq<JVal>, d: int, k: nat) -> Option<BuildError>
        decreases s, k
    {
        if k == 0 || k > s.len() { None }
        else { or(narr_fail(s, d, (k - 1) as nat), or(npre(s[k - 1], d), or(noff(narr(s, (k - 1) as nat)), nin(s[k - 1], d)))) }
    }
    pub open spec fn nkey_fail(key: Seq<u8>) -> Option<BuildError> {
        if key.len() > 65535 { Some(BuildError::StringTooLong(key.len() as usize)) } else { None }
    }
    pub open spec fn nobj_fail(m: JObj, d: int, k: nat) -> Option<BuildError>
        decreases m, k via nobj_fail_dec
    {
        if k == 0 || k > nsize(m) { None }
        else {
            or(nobj_fail(m, d, (k - 1) as nat), or(npre(m.entries@[k - 1].1, d), or(nkey_fail(nkey(m, k - 1)), or(noff(nobj(m, (k - 1) as nat)), nin(m.entries@[k - 1].1, d)))))
        }
    }
    #[via_fn]
    proof fn nobj_fail_dec(m: JObj, d: int, k: nat) { if !(k == 0 || k > nsize(m)) { lemma_map_dec(m, k - 1); } }
    /// Why the value cannot be encoded.
    pub open spec fn nfail(v: JVal) -> Option<BuildError> { or(npre(v, 0), nin(v, 0)) }

    // ------------------------------------------------------------ lemmas
    /// A failure is not undone by what follows.
    pub proof fn lemma_arr_fail(s: Seq<JVal>, d: int, k: nat, n: nat)
        requires k <= n <= s.len(), narr_fail(s, d, k) is Some
        ensures narr_fail(s, d, n) == narr_fail(s, d, k)
        decreases n
    { if k < n { lemma_arr_fail(s, d, k, (n - 1) as nat); } }
    pub proof fn lemma_obj_fail(m: JObj, d: int, k: nat, n: nat)
        requires k <= n <= nsize(m), nobj_fail(m, d, k) is Some
        ensures nobj_fail(m, d, n) == nobj_fail(m, d, k)
        decreases n
    { if k < n { lemma_obj_fail(m, d, k, (n - 1) as nat); } }
    /// Element k of a buffer whose array begins at i0.
    pub proof fn lemma_reg_aentry(v: Seq<u8>, i0: int, e: int, off: int, p: Seq<u8>)
        requires 0 <= i0, 0 <= e, i0 + e + 5 <= v.len(), p.len() > 0
        ensures reg(aentry(v, i0 + e, off, p), i0) == aentry(reg(v, i0), e, off, p), aentry(v, i0 + e, off, p).len() >= v.len(),
            aentry(reg(v, i0), e, off, p).len() >= v.len() - i0,
    {
        assert forall|t: u8, x: int| 0 <= x < 0x1_0000_0000 implies reg(#[trigger] with_entry(v, i0 + e, t, x), i0) == with_entry(reg(v, i0), e, t, x) by {
            assert(reg(with_entry(v, i0 + e, t, x), i0) =~= with_entry(reg(v, i0), e, t, x));
        }
        assert(reg(aentry(v, i0 + e, off, p), i0) =~= aentry(reg(v, i0), e, off, p));
    }
    pub proof fn lemma_reg_with_key(v: Seq<u8>, i0: int, k: int, pos: int, off: int, key: Seq<u8>, p: Seq<u8>)
        requires 0 <= i0, 0 <= pos <= k, i0 + koff(k) + 4 <= v.len()
        ensures reg(with_key(v, i0, k, pos, off, key) + p, i0) == with_key(reg(v, i0), 0, k, pos, off, key) + p
    {
        assert(reg(with_key(v, i0, k, pos, off, key) + p, i0) =~= with_key(reg(v, i0), 0, k, pos, off, key) + p);
    }
    /// The keys stored are keys of the map.
    pub proof fn lemma_mem_keys(m: JObj, k: nat)
        requires k <= nsize(m)
        ensures
            jmems(m, k).len() == k,
            forall|j: int| 0 <= j < k ==> exists|i: int| 0 <= i < k && (#[trigger] jmems(m, k)[j]).0 == #[trigger] nkey(m, i),
            nondecreasing(jmems(m, k)), distinct_keys(jmems(m, k)),
            k < nsize(m) ==> slot_ok(jmems(m, k), nkey(m, k as int), jslot(jmems(m, k), nkey(m, k as int))),
            k < nsize(m) ==> forall|j: int| 0 <= j < k ==> (#[trigger] jmems(m, k)[j]).0 != nkey(m, k as int),
        decreases k
    {
        let s = jmems(m, k);
        axiom_map_keys(m);
        if k > 0 {
            let q = (k - 1) as nat;
            lemma_mem_keys(m, q);
            let (t, key) = (jmems(m, q), nkey(m, q as int));
            let p = jslot(t, key);
            lemma_slot(t, key, p, jval(m.entries@[q as int].1));
            assert forall|j: int| 0 <= j < k implies exists|i: int| 0 <= i < k && (#[trigger] s[j]).0 == #[trigger] nkey(m, i) by {
                if j < p { assert(s[j] == t[j]); let i = choose|i: int| 0 <= i < q && t[j].0 == #[trigger] nkey(m, i); assert(s[j].0 == nkey(m, i)); }
                else if j == p { assert(s[j].0 == nkey(m, q as int)); }
                else { assert(s[j] == t[j - 1]); let i = choose|i: int| 0 <= i < q && t[j - 1].0 == #[trigger] nkey(m, i); assert(s[j].0 == nkey(m, i)); }
            }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[j].0 != #[trigger] s[i].0 by {
                let a = if i < p { t[i].0 } else if i == p { key } else { t[i - 1].0 };
                let b = if j < p { t[j].0 } else if j == p { key } else { t[j - 1].0 };
                assert(s[i].0 == a && s[j].0 == b);
            }
        }
        if k < nsize(m) {
            let key = nkey(m, k as int);
            assert forall|j: int| 0 <= j < k implies (#[trigger] s[j]).0 != key by {
                let i = choose|i: int| 0 <= i < k && s[j].0 == #[trigger] nkey(m, i);
                vstd::utf8::encode_utf8_decode_utf8(m.entries@[i].0@);
                vstd::utf8::encode_utf8_decode_utf8(m.entries@[k as int].0@);
            }
            lemma_slot_exists(s, key);
        }
    }
    pub proof fn lemma_slot_exists(s: Seq<(Seq<u8>, SVal)>, key: Seq<u8>)
        requires nondecreasing(s)
        ensures exists|p: int| slot_ok(s, key, p)
        decreases s.len()
    {
        if s.len() == 0 { assert(slot_ok(s, key, 0)); }
        else {
            let l = s.last().0;
            if !key_lt(key, l) {
                assert forall|j: int| 0 <= j < s.len() implies !key_lt(key, #[trigger] s[j].0) by {
                    if j < s.len() - 1 && key_lt(key, s[j].0) {
                        assert(!key_lt(s[s.len() - 1].0, s[j].0));
                        lemma_key_total(l, s[j].0);
                        if l != s[j].0 { lemma_key_trans(key, s[j].0, l); }
                    }
                }
                assert(slot_ok(s, key, s.len() as int));
            } else {
                let t = s.drop_last();
                assert forall|i: int, j: int| 0 <= i < j < t.len() implies !key_lt(#[trigger] t[j].0, #[trigger] t[i].0) by { assert(!key_lt(s[j].0, s[i].0)); }
                lemma_slot_exists(t, key);
                let p = choose|p: int| slot_ok(t, key, p);
                lemma_key_asym(key, l);
                assert forall|j: int| 0 <= j < p implies !key_lt(key, #[trigger] s[j].0) by { assert(!key_lt(key, t[j].0)); }
                assert forall|j: int| p <= j < s.len() implies !key_lt(#[trigger] s[j].0, key) by { if j < t.len() { assert(!key_lt(t[j].0, key)); } }
                assert(slot_ok(s, key, p));
            }
        }
    }
    /// Nothing is lost and nothing is made up: the members stored are those of the map, each once, sorted.
    pub proof fn lemma_members(m: JObj)
        ensures
            jmems(m, nsize(m)).len() == nsize(m), nondecreasing(jmems(m, nsize(m))), distinct_keys(jmems(m, nsize(m))),
            forall|i: int| 0 <= i < nsize(m) ==> has_pair(jmems(m, nsize(m)), #[trigger] nkey(m, i), jval(m.entries@[i].1)),
    {
        lemma_mem_keys(m, nsize(m));
        assert forall|i: int| 0 <= i < nsize(m) implies has_pair(jmems(m, nsize(m)), #[trigger] nkey(m, i), jval(m.entries@[i].1)) by { lemma_has(m, nsize(m), i); }
    }
    pub proof fn lemma_has(m: JObj, k: nat, i: int)
        requires 0 <= i < k <= nsize(m)
        ensures has_pair(jmems(m, k), nkey(m, i), jval(m.entries@[i].1))
        decreases k
    {
        let q = (k - 1) as nat;
        lemma_mem_keys(m, q);
        let (t, p) = (jmems(m, q), jslot(jmems(m, q), nkey(m, q as int)));
        let x = (nkey(m, i), jval(m.entries@[i].1));
        if i == q { assert(jmems(m, k)[p] == x); }
        else {
            lemma_has(m, q, i);
            let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
            assert(jmems(m, k)[if j < p { j } else { j + 1 }] == x);
        }
    }
    pub proof fn lemma_elems(s: Seq<JVal>, k: nat)
        requires k <= s.len()
        ensures jelems(s, k).len() == k, forall|i: int| 0 <= i < k ==> #[trigger] jelems(s, k)[i] == jval(s[i])
        decreases k
    { if k > 0 { lemma_elems(s, (k - 1) as nat); } }
}
