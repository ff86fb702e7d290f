// What the formatted text means: white space outside strings (C15), and reading the text as JSON (C14).
pub mod jspec {
    use vstd::prelude::*;
    use crate::prelude::*;

    pub open spec fn is_ws(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
    /// A character of a JSON number.
    pub open spec fn numch(c: u8) -> bool { 48 <= c <= 57 || c == 43 || c == 45 || c == 46 || c == 69 || c == 101 }
    pub open spec fn jdigit(c: u8) -> bool { 48 <= c <= 57 }
    /// The length of the run of digits at the start of t.
    pub open spec fn jdigs(t: Seq<u8>) -> int decreases t.len() {
        if t.len() > 0 && jdigit(t[0]) { 1 + jdigs(t.skip(1)) } else { 0 }
    }
    /// An exponent, or nothing (RFC 8259).
    pub open spec fn exp_ok(t: Seq<u8>) -> bool {
        t.len() == 0 || ((t[0] == 69 || t[0] == 101) && ({
            let u = if t.len() > 1 && (t[1] == 43 || t[1] == 45) { t.skip(2) } else { t.skip(1) };
            u.len() > 0 && jdigs(u) == u.len()
        }))
    }
    /// A fraction and an exponent, each if there is one.
    pub open spec fn frac_ok(t: Seq<u8>) -> bool {
        if t.len() > 0 && t[0] == 46 { jdigs(t.skip(1)) > 0 && exp_ok(t.skip(1).skip(jdigs(t.skip(1)))) } else { exp_ok(t) }
    }
    /// A JSON number.
    pub open spec fn num_ok_text(t: Seq<u8>) -> bool {
        let u = if t.len() > 0 && t[0] == 45 { t.skip(1) } else { t };
        u.len() > 0 && jdigit(u[0]) && (if u[0] == 48 { frac_ok(u.skip(1)) } else { frac_ok(u.skip(jdigs(u))) })
    }
    /// The number a JSON number literal denotes: the decimal nearest to it, zero when too small, none when too large.
    #[verifier::opaque]
    pub open spec fn num_read(t: Seq<u8>) -> Option<NumV> {
        if !num_ok_text(t) { None }
        else {
            match dec_parse(vstd::utf8::decode_utf8(t)) {
                Ok(x) => Some(x),
                Err(crate::decimal_rs::DecimalParseError::Underflow) => Some(num_zero()),
                Err(_) => None,
            }
        }
    }
    /// Assumed of decimal-rs: the text of a number is a JSON number denoting it.
    #[verifier::external_body]
    pub proof fn axiom_num_json(n: NumV)
        ensures
            num_json(n).len() > 0, forall|i: int| 0 <= i < num_json(n).len() ==> numch(#[trigger] num_json(n)[i]),
            num_read(num_json(n)) is Some, num_eq(num_read(num_json(n))->Some_0, n),
    { unimplemented!() }

    // ------------------------------------------------------------ white space
    /// Outside a string (0), inside (1), after a backslash inside (2).
    pub open spec fn step(q: int, c: u8) -> int {
        if q == 0 { if c == 34 { 1 } else { 0 } }
        else if q == 1 { if c == 34 { 0 } else if c == 92 { 2 } else { 1 } }
        else { 1 }
    }
    pub open spec fn qend(t: Seq<u8>, q: int) -> int decreases t.len() {
        if t.len() == 0 { q } else { qend(t.skip(1), step(q, t[0])) }
    }
    /// The text without the white space outside its strings.
    pub open spec fn strip(t: Seq<u8>, q: int) -> Seq<u8> decreases t.len() {
        if t.len() == 0 { Seq::empty() }
        else { (if q == 0 && is_ws(t[0]) { Seq::empty() } else { seq![t[0]] }) + strip(t.skip(1), step(q, t[0])) }
    }
    pub proof fn lemma_strip_cat(a: Seq<u8>, b: Seq<u8>, q: int)
        ensures strip(a + b, q) == strip(a, q) + strip(b, qend(a, q)), qend(a + b, q) == qend(b, qend(a, q))
        decreases a.len()
    {
        if a.len() == 0 {
            assert(a + b =~= b);
            assert(strip(a, q) + strip(b, q) =~= strip(b, q));
        } else {
            assert((a + b).skip(1) =~= a.skip(1) + b);
            lemma_strip_cat(a.skip(1), b, step(q, a[0]));
            let h = if q == 0 && is_ws(a[0]) { Seq::<u8>::empty() } else { seq![a[0]] };
            assert(h + (strip(a.skip(1), step(q, a[0])) + strip(b, qend(a, q))) =~= (h + strip(a.skip(1), step(q, a[0]))) + strip(b, qend(a, q)));
        }
    }
    /// a reads as s outside strings.
    pub open spec fn sees(a: Seq<u8>, s: Seq<u8>) -> bool { strip(a, 0) == s && qend(a, 0) == 0 }
    pub proof fn lemma_sees_cat(a: Seq<u8>, s: Seq<u8>, b: Seq<u8>, t: Seq<u8>)
        requires sees(a, s), sees(b, t)
        ensures sees(a + b, s + t)
    {
        lemma_strip_cat(a, b, 0);
    }
    pub proof fn lemma_sees_chars(a: Seq<u8>)
        requires forall|i: int| 0 <= i < a.len() ==> a[i] != 34 && !is_ws(#[trigger] a[i])
        ensures sees(a, a)
        decreases a.len()
    {
        if a.len() > 0 {
            assert(forall|i: int| 0 <= i < a.skip(1).len() ==> (#[trigger] a.skip(1)[i]) == a[i + 1]);
            lemma_sees_chars(a.skip(1));
            assert(!is_ws(a[0]));
            assert(seq![a[0]] + a.skip(1) =~= a);
        } else { assert(a =~= Seq::<u8>::empty()); }
    }
    pub proof fn lemma_sees_ws(a: Seq<u8>)
        requires forall|i: int| 0 <= i < a.len() ==> is_ws(#[trigger] a[i])
        ensures sees(a, Seq::empty())
        decreases a.len()
    {
        if a.len() > 0 {
            assert(forall|i: int| 0 <= i < a.skip(1).len() ==> (#[trigger] a.skip(1)[i]) == a[i + 1]);
            lemma_sees_ws(a.skip(1));
            assert(a[0] != 34);
            assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty());
        }
    }
    pub proof fn lemma_sees_esc(b: u8)
        ensures strip(esc(b), 1) == esc(b), qend(esc(b), 1) == 1
    {
        let e = esc(b);
        reveal_with_fuel(strip, 8);
        reveal_with_fuel(qend, 8);
        if e.len() == 1 {
            assert(strip(e, 1) =~= e);
        } else if e.len() == 2 {
            assert(strip(e, 1) =~= e);
        } else {
            assert(e.len() == 6);
            assert(e.skip(1)[0] == e[1]);
            assert(e.skip(1).skip(1)[0] == e[2]);
            assert(e.skip(1).skip(1).skip(1)[0] == e[3]);
            assert(e.skip(1).skip(1).skip(1).skip(1)[0] == e[4]);
            assert(e.skip(1).skip(1).skip(1).skip(1).skip(1)[0] == e[5]);
            assert(strip(e, 1) =~= e);
        }
    }
    pub proof fn lemma_sees_escs(s: Seq<u8>)
        ensures strip(escs(s), 1) == escs(s), qend(escs(s), 1) == 1
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_sees_escs(s.drop_last());
            lemma_sees_esc(s.last());
            lemma_strip_cat(escs(s.drop_last()), esc(s.last()), 1);
        }
    }
    pub proof fn lemma_sees_jstr(s: Seq<u8>)
        ensures sees(jstr(s), jstr(s))
    {
        let o = seq![34u8];
        lemma_sees_escs(s);
        lemma_strip_cat(o, escs(s) + o, 0);
        lemma_strip_cat(escs(s), o, 1);
        assert(o.skip(1) =~= Seq::<u8>::empty());
        assert(strip(o, 0) =~= o) by { reveal_with_fuel(strip, 2); }
        assert(strip(o, 1) =~= o) by { reveal_with_fuel(strip, 2); }
        assert(qend(o, 0) == 1 && qend(o, 1) == 0) by { reveal_with_fuel(qend, 2); }
        assert(jstr(s) =~= o + (escs(s) + o));
    }
    /// The leaves: no white space outside strings.
    pub proof fn lemma_sees_leaf(v: SVal)
        requires !(v is Obj), !(v is Arr)
        ensures sees(compact(v), compact(v))
    {
        match v {
            SVal::Str(s) => lemma_sees_jstr(s),
            SVal::Num(n) => { axiom_num_json(n); lemma_sees_chars(num_json(n)); }
            SVal::Bool(b) => lemma_sees_chars(lit(b)),
            _ => lemma_sees_chars(nul()),
        }
    }
    pub proof fn lemma_sees_nl(l: int)
        ensures sees(nl(l), Seq::empty())
    {
        lemma_sees_ws(nl(l));
    }
    pub proof fn lemma_sees_comma(f: bool)
        ensures sees(comma(f), comma(f))
    {
        lemma_sees_chars(comma(f));
    }
    /// The compact format has no white space outside strings.
    pub proof fn lemma_compact_dense(v: SVal)
        ensures sees(compact(v), compact(v))
        decreases v, 0int
    {
        match v {
            SVal::Obj(m) => {
                lemma_dense_mem(m, m.len() as int);
                lemma_sees_chars(seq![123u8]);
                lemma_sees_chars(seq![125u8]);
                lemma_sees_cat(seq![123u8], seq![123u8], cmem(m, m.len() as int), cmem(m, m.len() as int));
                lemma_sees_cat(seq![123u8] + cmem(m, m.len() as int), seq![123u8] + cmem(m, m.len() as int), seq![125u8], seq![125u8]);
            }
            SVal::Arr(a) => {
                lemma_dense_elm(a, a.len() as int);
                lemma_sees_chars(seq![91u8]);
                lemma_sees_chars(seq![93u8]);
                lemma_sees_cat(seq![91u8], seq![91u8], celm(a, a.len() as int), celm(a, a.len() as int));
                lemma_sees_cat(seq![91u8] + celm(a, a.len() as int), seq![91u8] + celm(a, a.len() as int), seq![93u8], seq![93u8]);
            }
            _ => lemma_sees_leaf(v),
        }
    }
    proof fn lemma_dense_mem(m: Seq<(Seq<u8>, SVal)>, n: int)
        ensures sees(cmem(m, n), cmem(m, n))
        decreases m, n
    {
        if n <= 0 || n > m.len() { lemma_sees_chars(Seq::empty()); }
        else {
            lemma_dense_mem(m, n - 1);
            let (k, v) = m[n - 1];
            assert(decreases_to!(m => m[n - 1]));
            lemma_compact_dense(m[n - 1].1);
            lemma_sees_comma(n == 1);
            lemma_sees_jstr(k);
            lemma_sees_chars(seq![58u8]);
            let a = comma(n == 1);
            lemma_sees_cat(a, a, jstr(k), jstr(k));
            let a = a + jstr(k);
            lemma_sees_cat(a, a, seq![58u8], seq![58u8]);
            let a = a + seq![58u8];
            lemma_sees_cat(a, a, compact(v), compact(v));
            let a = a + compact(v);
            lemma_sees_cat(cmem(m, n - 1), cmem(m, n - 1), a, a);
        }
    }
    proof fn lemma_dense_elm(m: Seq<SVal>, n: int)
        ensures sees(celm(m, n), celm(m, n))
        decreases m, n
    {
        if n <= 0 || n > m.len() { lemma_sees_chars(Seq::empty()); }
        else {
            lemma_dense_elm(m, n - 1);
            lemma_compact_dense(m[n - 1]);
            lemma_sees_comma(n == 1);
            let a = comma(n == 1);
            let c = compact(m[n - 1]);
            lemma_sees_cat(a, a, c, c);
            lemma_sees_cat(celm(m, n - 1), celm(m, n - 1), a + c, a + c);
        }
    }
    /// C15: without the white space outside strings, the pretty format is the compact format.
    pub proof fn lemma_pretty_compact(v: SVal, l: int)
        ensures sees(pretty(v, l), compact(v))
        decreases v, 0int
    {
        let e = Seq::<u8>::empty();
        match v {
            SVal::Obj(m) => {
                let n = m.len() as int;
                lemma_pretty_mem(m, n, l + 1);
                lemma_sees_chars(seq![123u8]);
                lemma_sees_chars(seq![125u8]);
                lemma_sees_nl(l);
                lemma_sees_cat(seq![123u8], seq![123u8], prmem(m, n, l + 1), cmem(m, n));
                lemma_sees_cat(seq![123u8] + prmem(m, n, l + 1), seq![123u8] + cmem(m, n), nl(l), e);
                lemma_sees_cat(seq![123u8] + prmem(m, n, l + 1) + nl(l), seq![123u8] + cmem(m, n) + e, seq![125u8], seq![125u8]);
                assert(seq![123u8] + cmem(m, n) + e + seq![125u8] =~= compact(v));
            }
            SVal::Arr(a) => {
                let n = a.len() as int;
                lemma_pretty_elm(a, n, l + 1);
                lemma_sees_chars(seq![91u8]);
                lemma_sees_chars(seq![93u8]);
                lemma_sees_nl(l);
                lemma_sees_cat(seq![91u8], seq![91u8], prelm(a, n, l + 1), celm(a, n));
                lemma_sees_cat(seq![91u8] + prelm(a, n, l + 1), seq![91u8] + celm(a, n), nl(l), e);
                lemma_sees_cat(seq![91u8] + prelm(a, n, l + 1) + nl(l), seq![91u8] + celm(a, n) + e, seq![93u8], seq![93u8]);
                assert(seq![91u8] + celm(a, n) + e + seq![93u8] =~= compact(v));
            }
            _ => lemma_sees_leaf(v),
        }
    }
    proof fn lemma_pretty_mem(m: Seq<(Seq<u8>, SVal)>, n: int, l: int)
        ensures sees(prmem(m, n, l), cmem(m, n))
        decreases m, n
    {
        let e = Seq::<u8>::empty();
        if n <= 0 || n > m.len() { lemma_sees_chars(e); }
        else {
            lemma_pretty_mem(m, n - 1, l);
            let (k, v) = m[n - 1];
            assert(decreases_to!(m => m[n - 1]));
            lemma_pretty_compact(m[n - 1].1, l);
            lemma_sees_comma(n == 1);
            lemma_sees_nl(l);
            lemma_sees_jstr(k);
            lemma_sees_chars(seq![58u8]);
            lemma_sees_ws(seq![32u8]);
            let sp = seq![32u8];
            let cl = seq![58u8];
            lemma_sees_cat(sp, e, cl, cl);
            lemma_sees_cat(sp + cl, e + cl, sp, e);
            let d = seq![32u8, 58u8, 32u8];
            assert(sp + cl + sp =~= d);
            assert(e + cl + e =~= cl);
            let c = comma(n == 1);
            let (a, s) = (c, c);
            lemma_sees_cat(a, s, nl(l), e);
            let (a, s) = (a + nl(l), s + e);
            lemma_sees_cat(a, s, jstr(k), jstr(k));
            let (a, s) = (a + jstr(k), s + jstr(k));
            lemma_sees_cat(a, s, d, cl);
            let (a, s) = (a + d, s + cl);
            if !(v is Obj || v is Arr) { lemma_sees_chars(e); }
            lemma_sees_cat(a, s, nested(v, l), e);
            let (a, s) = (a + nested(v, l), s + e);
            lemma_sees_cat(a, s, pretty(v, l), compact(v));
            let (a, s) = (a + pretty(v, l), s + compact(v));
            lemma_sees_cat(prmem(m, n - 1, l), cmem(m, n - 1), a, s);
            assert(s =~= c + jstr(k) + cl + compact(v));
        }
    }
    proof fn lemma_pretty_elm(m: Seq<SVal>, n: int, l: int)
        ensures sees(prelm(m, n, l), celm(m, n))
        decreases m, n
    {
        let e = Seq::<u8>::empty();
        if n <= 0 || n > m.len() { lemma_sees_chars(e); }
        else {
            lemma_pretty_elm(m, n - 1, l);
            lemma_pretty_compact(m[n - 1], l);
            lemma_sees_comma(n == 1);
            lemma_sees_nl(l);
            let c = comma(n == 1);
            lemma_sees_cat(c, c, nl(l), e);
            lemma_sees_cat(c + nl(l), c + e, pretty(m[n - 1], l), compact(m[n - 1]));
            lemma_sees_cat(prelm(m, n - 1, l), celm(m, n - 1), c + nl(l) + pretty(m[n - 1], l), c + e + compact(m[n - 1]));
            assert(c + e + compact(m[n - 1]) =~= c + compact(m[n - 1]));
        }
    }

    // ------------------------------------------------------------ reading the text back
    // A reader of JSON texts (RFC 8259; escapes \u0080 and up are never written and not read).
    pub open spec fn skipws(t: Seq<u8>) -> Seq<u8> decreases t.len() {
        if t.len() > 0 && is_ws(t[0]) { skipws(t.skip(1)) } else { t }
    }
    /// The rest of a string literal after its opening quote: the bytes it denotes and the text after it.
    pub open spec fn rstr(t: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases t.len() {
        if t.len() == 0 || t[0] < 32 { None }
        else if t[0] == 34 { Some((Seq::empty(), t.skip(1))) }
        else if t[0] != 92 { rcons(t[0], rstr(t.skip(1))) }
        else if t.len() < 2 { None }
        else if t[1] == 98 { rcons(8, rstr(t.skip(2))) }
        else if t[1] == 116 { rcons(9, rstr(t.skip(2))) }
        else if t[1] == 110 { rcons(10, rstr(t.skip(2))) }
        else if t[1] == 102 { rcons(12, rstr(t.skip(2))) }
        else if t[1] == 114 { rcons(13, rstr(t.skip(2))) }
        else if t[1] == 34 || t[1] == 47 || t[1] == 92 { rcons(t[1], rstr(t.skip(2))) }
        else if t[1] != 117 || t.len() < 6 { None }
        else if !(t[2] == 48 && t[3] == 48 && is_hex(t[4]) && is_hex(t[5]) && hexv(t[4]) < 8) { None }
        else { rcons((hexv(t[4]) * 16 + hexv(t[5])) as u8, rstr(t.skip(6))) }
    }
    pub open spec fn is_hex(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 || 65 <= c <= 70 }
    pub open spec fn hexv(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
    pub open spec fn rcons(b: u8, r: Option<(Seq<u8>, Seq<u8>)>) -> Option<(Seq<u8>, Seq<u8>)> {
        match r { Some((s, u)) => Some((seq![b] + s, u)), None => None }
    }
    /// The length of the number at the start of t.
    pub open spec fn nlen(t: Seq<u8>) -> int decreases t.len() {
        if t.len() > 0 && numch(t[0]) { 1 + nlen(t.skip(1)) } else { 0 }
    }
    pub open spec fn starts(t: Seq<u8>, p: Seq<u8>) -> bool { t.len() >= p.len() && t.take(p.len() as int) == p }
    /// A value at the start of t, and the text after it.
    pub open spec fn rval(t0: Seq<u8>) -> Option<(SVal, Seq<u8>)> decreases t0.len(), 0int {
        let t = skipws(t0);
        if t.len() == 0 || t.len() > t0.len() { None }
        else if t[0] == 123 {
            let u = skipws(t.skip(1));
            if u.len() > 0 && u[0] == 125 { Some((SVal::Obj(Seq::empty()), u.skip(1))) }
            else { match rmem(t.skip(1)) { Some((m, r)) => Some((SVal::Obj(m), r)), None => None } }
        } else if t[0] == 91 {
            let u = skipws(t.skip(1));
            if u.len() > 0 && u[0] == 93 { Some((SVal::Arr(Seq::empty()), u.skip(1))) }
            else { match relm(t.skip(1)) { Some((a, r)) => Some((SVal::Arr(a), r)), None => None } }
        } else if t[0] == 34 {
            match rstr(t.skip(1)) { Some((s, r)) => Some((SVal::Str(s), r)), None => None }
        } else if starts(t, lit(true)) { Some((SVal::Bool(true), t.skip(4))) }
        else if starts(t, lit(false)) { Some((SVal::Bool(false), t.skip(5))) }
        else if starts(t, nul()) { Some((SVal::Null, t.skip(4))) }
        else if 0 < nlen(t) <= t.len() {
            match num_read(t.take(nlen(t))) { Some(n) => Some((SVal::Num(n), t.skip(nlen(t)))), None => None }
        } else { None }
    }
    /// Elements up to and including the closing bracket.
    pub open spec fn relm(t: Seq<u8>) -> Option<(Seq<SVal>, Seq<u8>)> decreases t.len(), 1int {
        match rval(t) {
            None => None,
            Some((v, r0)) => {
                let r = skipws(r0);
                if r.len() == 0 || r.len() > t.len() { None }
                else if r[0] == 93 { Some((seq![v], r.skip(1))) }
                else if r[0] != 44 { None }
                else { match relm(r.skip(1)) { Some((a, u)) => Some((seq![v] + a, u)), None => None } }
            }
        }
    }
    /// Members up to and including the closing brace.
    pub open spec fn rmem(t0: Seq<u8>) -> Option<(Seq<(Seq<u8>, SVal)>, Seq<u8>)> decreases t0.len(), 1int {
        let t = skipws(t0);
        if t.len() == 0 || t.len() > t0.len() || t[0] != 34 { None }
        else {
            match rstr(t.skip(1)) {
                None => None,
                Some((k, c0)) => {
                    let c = skipws(c0);
                    if c.len() == 0 || c.len() > t0.len() || c[0] != 58 { None }
                    else {
                        match rval(c.skip(1)) {
                            None => None,
                            Some((v, r0)) => {
                                let r = skipws(r0);
                                if r.len() == 0 || r.len() > t0.len() { None }
                                else if r[0] == 125 { Some((seq![(k, v)], r.skip(1))) }
                                else if r[0] != 44 { None }
                                else { match rmem(r.skip(1)) { Some((m, u)) => Some((seq![(k, v)] + m, u)), None => None } }
                            }
                        }
                    }
                }
            }
        }
    }

    pub proof fn lemma_rstr_one(b: u8, t: Seq<u8>)
        ensures rstr(esc(b) + t) == rcons(b, rstr(t))
    {
        let e = esc(b);
        let w = e + t;
        assert(w.skip(e.len() as int) =~= t);
        assert(forall|i: int| 0 <= i < e.len() ==> w[i] == e[i]);
    }
    pub proof fn lemma_rstr(s: Seq<u8>, t: Seq<u8>)
        ensures rstr(escs(s) + t) == (match rstr(t) { Some((x, u)) => Some((s + x, u)), None => None })
        decreases s.len()
    {
        if s.len() == 0 {
            assert(escs(s) + t =~= t);
            if rstr(t) is Some { assert(s + rstr(t)->Some_0.0 =~= rstr(t)->Some_0.0); }
        } else {
            let l = s.last();
            lemma_rstr(s.drop_last(), esc(l) + t);
            lemma_rstr_one(l, t);
            assert(escs(s) + t =~= escs(s.drop_last()) + (esc(l) + t));
            if rstr(t) is Some { assert(s.drop_last() + (seq![l] + rstr(t)->Some_0.0) =~= s + rstr(t)->Some_0.0); }
        }
    }
    /// C13: a literal followed by any text denotes exactly the original text, and ends where it should.
    pub proof fn lemma_string_literal(s: Seq<u8>, t: Seq<u8>)
        ensures (jstr(s) + t)[0] == 34, rstr((jstr(s) + t).skip(1)) == Some((s, t))
    {
        lemma_rstr(s, seq![34u8] + t);
        assert((jstr(s) + t).skip(1) =~= escs(s) + (seq![34u8] + t));
        assert((seq![34u8] + t).skip(1) =~= t);
        assert(s + Seq::<u8>::empty() =~= s);
    }
    /// C13: inside the literal there is no control character, and a quote, slash or backslash only in an escape.
    pub proof fn lemma_esc_verbatim(b: u8)
        ensures plain(b) ==> esc(b) == seq![b], forall|i: int| 0 <= i < esc(b).len() ==> #[trigger] esc(b)[i] >= 32
    {
    }
    /// Numbers are replaced by what their text denotes.
    pub open spec fn back(v: SVal) -> SVal decreases v {
        match v {
            SVal::Num(n) => SVal::Num(num_read(num_json(n))->Some_0),
            SVal::Obj(m) => SVal::Obj(Seq::new(m.len(), |i: int| if 0 <= i < m.len() { (m[i].0, back(m[i].1)) } else { arbitrary() })),
            SVal::Arr(a) => SVal::Arr(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { back(a[i]) } else { arbitrary() })),
            _ => v,
        }
    }
    pub proof fn lemma_back(v: SVal)
        ensures sval_eq(back(v), v)
        decreases v
    {
        match v {
            SVal::Num(n) => axiom_num_json(n),
            SVal::Obj(m) => {
                let b = back(v)->Obj_0;
                assert forall|i: int| 0 <= i < m.len() implies (#[trigger] b[i]).0 == m[i].0 && sval_eq(b[i].1, m[i].1) by {
                    assert(decreases_to!(v => m[i].1));
                    lemma_back(m[i].1);
                }
            }
            SVal::Arr(a) => {
                let b = back(v)->Arr_0;
                assert forall|i: int| 0 <= i < a.len() implies sval_eq(#[trigger] b[i], a[i]) by { lemma_back(a[i]); }
            }
            _ => {}
        }
    }
    proof fn lemma_nlen(a: Seq<u8>, t: Seq<u8>)
        requires forall|i: int| 0 <= i < a.len() ==> numch(#[trigger] a[i]), t.len() == 0 || !numch(t[0])
        ensures nlen(a + t) == a.len()
        decreases a.len()
    {
        if a.len() == 0 { assert(a + t =~= t); }
        else {
            assert((a + t).skip(1) =~= a.skip(1) + t);
            assert(forall|i: int| 0 <= i < a.skip(1).len() ==> (#[trigger] a.skip(1)[i]) == a[i + 1]);
            assert(numch(a[0]));
            lemma_nlen(a.skip(1), t);
        }
    }
    /// The text from element k on.
    pub open spec fn etail(a: Seq<SVal>, k: int) -> Seq<u8> decreases a.len() - k {
        if k < 0 || k >= a.len() { Seq::empty() } else { comma(k == 0) + compact(a[k]) + etail(a, k + 1) }
    }
    pub open spec fn mtail(m: Seq<(Seq<u8>, SVal)>, k: int) -> Seq<u8> decreases m.len() - k {
        if k < 0 || k >= m.len() { Seq::empty() }
        else { comma(k == 0) + jstr(m[k].0) + seq![58u8] + compact(m[k].1) + mtail(m, k + 1) }
    }
    proof fn lemma_etail(a: Seq<SVal>, k: int)
        requires 0 <= k <= a.len()
        ensures celm(a, k) + etail(a, k) == celm(a, a.len() as int)
        decreases a.len() - k
    {
        if k < a.len() {
            lemma_etail(a, k + 1);
            assert(celm(a, k) + (comma(k == 0) + compact(a[k]) + etail(a, k + 1))
                =~= celm(a, k) + (comma(k == 0) + compact(a[k])) + etail(a, k + 1));
        } else {
            assert(celm(a, k) + Seq::<u8>::empty() =~= celm(a, k));
        }
    }
    proof fn lemma_mtail(m: Seq<(Seq<u8>, SVal)>, k: int)
        requires 0 <= k <= m.len()
        ensures cmem(m, k) + mtail(m, k) == cmem(m, m.len() as int)
        decreases m.len() - k
    {
        if k < m.len() {
            lemma_mtail(m, k + 1);
            assert(cmem(m, k) + (comma(k == 0) + jstr(m[k].0) + seq![58u8] + compact(m[k].1) + mtail(m, k + 1))
                =~= cmem(m, k) + (comma(k == 0) + jstr(m[k].0) + seq![58u8] + compact(m[k].1)) + mtail(m, k + 1));
        } else {
            assert(cmem(m, k) + Seq::<u8>::empty() =~= cmem(m, k));
        }
    }
    /// The first character of a value.
    proof fn lemma_head(v: SVal)
        ensures compact(v).len() > 0, !is_ws(compact(v)[0]), compact(v)[0] != 93, compact(v)[0] != 125,
    {
        match v { SVal::Num(n) => { axiom_num_json(n); assert(numch(num_json(n)[0])); } _ => {} }
    }
    /// C14: the compact format of v, followed by anything but more of a number, reads as v.
    pub proof fn lemma_read(v: SVal, t: Seq<u8>)
        requires t.len() == 0 || !numch(t[0])
        ensures rval(compact(v) + t) == Some((back(v), t))
        decreases v, 0int, 0int
    {
        let w = compact(v) + t;
        lemma_head(v);
        assert(w[0] == compact(v)[0]);
        assert(skipws(w) == w);
        match v {
            SVal::Obj(m) => {
                let n = m.len() as int;
                lemma_mtail(m, 0);
                assert(cmem(m, 0) + mtail(m, 0) =~= mtail(m, 0));
                assert(w.skip(1) =~= mtail(m, 0) + (seq![125u8] + t));
                if n == 0 {
                    let u = w.skip(1);
                    assert(u =~= seq![125u8] + t);
                    assert(skipws(u) == u);
                    assert(u.skip(1) =~= t);
                    assert(back(v)->Obj_0 =~= Seq::<(Seq<u8>, SVal)>::empty());
                } else {
                    lemma_read_mem(m, 0, t);
                    assert(w.skip(1) =~= mskip(m, 0) + (seq![125u8] + t));
                    assert(w.skip(1)[0] == 34);
                    assert(skipws(w.skip(1)) == w.skip(1));
                    assert(back(v)->Obj_0.skip(0) =~= back(v)->Obj_0);
                }
            }
            SVal::Arr(a) => {
                let n = a.len() as int;
                lemma_etail(a, 0);
                assert(celm(a, 0) + etail(a, 0) =~= etail(a, 0));
                assert(w.skip(1) =~= etail(a, 0) + (seq![93u8] + t));
                if n == 0 {
                    let u = w.skip(1);
                    assert(u =~= seq![93u8] + t);
                    assert(skipws(u) == u);
                    assert(u.skip(1) =~= t);
                    assert(back(v)->Arr_0 =~= Seq::<SVal>::empty());
                } else {
                    lemma_read_elm(a, 0, t);
                    lemma_head(a[0]);
                    assert(w.skip(1) =~= eskip(a, 0) + (seq![93u8] + t));
                    assert(w.skip(1)[0] == compact(a[0])[0]);
                    assert(skipws(w.skip(1)) == w.skip(1));
                    assert(back(v)->Arr_0.skip(0) =~= back(v)->Arr_0);
                }
            }
            SVal::Str(s) => lemma_string_literal(s, t),
            SVal::Num(n) => {
                axiom_num_json(n);
                lemma_nlen(num_json(n), t);
                assert(numch(num_json(n)[0]));
                assert(w.take(num_json(n).len() as int) =~= num_json(n));
                assert(w.skip(num_json(n).len() as int) =~= t);
                assert(lit(true) == w.take(4) ==> w.take(4)[0] == 116);
                assert(lit(false) == w.take(5) ==> w.take(5)[0] == 102);
                assert(nul() == w.take(4) ==> w.take(4)[0] == 110);
            }
            SVal::Bool(b) => {
                if b { assert(w.take(4) =~= lit(true)); assert(w.skip(4) =~= t); }
                else {
                    assert(w.take(5) =~= lit(false)); assert(w.skip(5) =~= t);
                    assert(lit(true) == w.take(4) ==> w.take(4)[0] == 116);
                }
            }
            SVal::Null => {
                assert(w.take(4) =~= nul()); assert(w.skip(4) =~= t);
                assert(lit(true) == w.take(4) ==> w.take(4)[0] == 116);
                assert(lit(false) == w.take(5) ==> w.take(5)[0] == 102);
            }
        }
    }
    /// From element k on, without its comma.
    pub open spec fn eskip(a: Seq<SVal>, k: int) -> Seq<u8> { compact(a[k]) + etail(a, k + 1) }
    pub open spec fn mskip(m: Seq<(Seq<u8>, SVal)>, k: int) -> Seq<u8> { jstr(m[k].0) + seq![58u8] + compact(m[k].1) + mtail(m, k + 1) }
    proof fn lemma_read_elm(a: Seq<SVal>, k: int, t: Seq<u8>)
        requires 0 <= k < a.len()
        ensures relm(eskip(a, k) + (seq![93u8] + t)) == Some((back(SVal::Arr(a))->Arr_0.skip(k), t))
        decreases a, 1int, a.len() - k
    {
        let b = back(SVal::Arr(a))->Arr_0;
        let w = eskip(a, k) + (seq![93u8] + t);
        let r = etail(a, k + 1) + (seq![93u8] + t);
        assert(w =~= compact(a[k]) + r);
        if k + 1 < a.len() {
            assert(r[0] == 44);
            lemma_read(a[k], r);
            lemma_read_elm(a, k + 1, t);
            assert(r.skip(1) =~= eskip(a, k + 1) + (seq![93u8] + t));
            assert(seq![b[k]] + b.skip(k + 1) =~= b.skip(k));
        } else {
            assert(r =~= seq![93u8] + t);
            assert(r[0] == 93);
            lemma_read(a[k], r);
            assert(r.skip(1) =~= t);
            assert(seq![b[k]] =~= b.skip(k));
        }
        assert(skipws(r) == r);
        assert(b[k] == back(a[k]));
    }
    proof fn lemma_read_mem(m: Seq<(Seq<u8>, SVal)>, k: int, t: Seq<u8>)
        requires 0 <= k < m.len()
        ensures rmem(mskip(m, k) + (seq![125u8] + t)) == Some((back(SVal::Obj(m))->Obj_0.skip(k), t))
        decreases m, 1int, m.len() - k
    {
        let b = back(SVal::Obj(m))->Obj_0;
        let w = mskip(m, k) + (seq![125u8] + t);
        let r = mtail(m, k + 1) + (seq![125u8] + t);
        let c = seq![58u8] + (compact(m[k].1) + r);
        assert(decreases_to!(m => m[k]));
        assert(w =~= jstr(m[k].0) + c);
        lemma_string_literal(m[k].0, c);
        assert(skipws(w) == w);
        assert(c[0] == 58);
        assert(skipws(c) == c);
        assert(c.skip(1) =~= compact(m[k].1) + r);
        if k + 1 < m.len() {
            assert(r[0] == 44);
            lemma_read(m[k].1, r);
            lemma_read_mem(m, k + 1, t);
            assert(r.skip(1) =~= mskip(m, k + 1) + (seq![125u8] + t));
            assert(seq![b[k]] + b.skip(k + 1) =~= b.skip(k));
        } else {
            assert(r =~= seq![125u8] + t);
            assert(r[0] == 125);
            lemma_read(m[k].1, r);
            assert(r.skip(1) =~= t);
            assert(seq![b[k]] =~= b.skip(k));
        }
        assert(skipws(r) == r);
        assert(b[k] == (m[k].0, back(m[k].1)));
    }
    /// C14: the whole compact text is read as a value equal to v.
    pub proof fn lemma_compact_reads(v: SVal)
        ensures rval(compact(v)) is Some, rval(compact(v))->Some_0.1.len() == 0, sval_eq(rval(compact(v))->Some_0.0, v)
    {
        lemma_read(v, Seq::empty());
        assert(compact(v) + Seq::<u8>::empty() =~= compact(v));
        lemma_back(v);
    }
}
