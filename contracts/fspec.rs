// JSON text: string literals, the compact and the pretty format, as specification functions.
pub mod fspec {
    use vstd::prelude::*;
    use crate::prelude::*;

    pub open spec fn hexd(x: int) -> u8 { if x < 10 { (48 + x) as u8 } else { (87 + x) as u8 } }
    /// The text of byte b inside a JSON string literal.
    pub open spec fn esc(b: u8) -> Seq<u8> {
        if b == 8 { seq![92u8, 98u8] }
        else if b == 9 { seq![92u8, 116u8] }
        else if b == 10 { seq![92u8, 110u8] }
        else if b == 12 { seq![92u8, 102u8] }
        else if b == 13 { seq![92u8, 114u8] }
        else if b == 34 { seq![92u8, 34u8] }
        else if b == 47 { seq![92u8, 47u8] }
        else if b == 92 { seq![92u8, 92u8] }
        else if b < 32 { seq![92u8, 117u8, 48u8, 48u8, hexd(b as int / 16), hexd(b as int % 16)] }
        else { seq![b] }
    }
    pub open spec fn plain(b: u8) -> bool { b >= 32 && b != 34 && b != 47 && b != 92 }
    pub open spec fn escs(s: Seq<u8>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { escs(s.drop_last()) + esc(s.last()) }
    }
    /// The JSON string literal for s.
    pub open spec fn jstr(s: Seq<u8>) -> Seq<u8> { seq![34u8] + escs(s) + seq![34u8] }
    pub proof fn lemma_escs_push(s: Seq<u8>, i: int)
        requires 0 <= i < s.len()
        ensures escs(s.subrange(0, i + 1)) == escs(s.subrange(0, i)) + esc(s[i])
    {
        assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    }
    /// Appending a run of plain bytes.
    pub proof fn lemma_escs_run(s: Seq<u8>, a: int, b: int)
        requires 0 <= a <= b <= s.len(), forall|j: int| a <= j < b ==> plain(#[trigger] s[j])
        ensures escs(s.subrange(0, b)) == escs(s.subrange(0, a)) + s.subrange(a, b)
        decreases b - a
    {
        if a < b {
            lemma_escs_run(s, a, b - 1);
            lemma_escs_push(s, b - 1);
            assert(plain(s[b - 1]));
            assert(s.subrange(a, b) =~= s.subrange(a, b - 1) + seq![s[b - 1]]);
        } else {
            assert(s.subrange(a, b) =~= Seq::<u8>::empty());
        }
    }

    /// Text can be cut before and after an ASCII byte.
    pub proof fn lemma_ascii_cut(s: Seq<u8>, i: int)
        requires vstd::utf8::valid_utf8(s), 0 <= i < s.len(), s[i] < 0x80
        ensures
            vstd::utf8::valid_utf8(s.subrange(0, i)), vstd::utf8::valid_utf8(s.subrange(i + 1, s.len() as int)),
            vstd::utf8::valid_utf8(s.subrange(i, s.len() as int)), vstd::utf8::valid_utf8(s.subrange(0, i + 1)),
    {
        vstd::utf8::is_char_boundary_iff_is_leading_byte(s, i);
        vstd::utf8::valid_utf8_split(s, i);
        let t = s.subrange(i, s.len() as int);
        assert(t[0] < 0x80);
        assert(vstd::utf8::valid_utf8(vstd::utf8::pop_first_scalar(t)));
        assert(vstd::utf8::pop_first_scalar(t) =~= s.subrange(i + 1, s.len() as int));
        let one = seq![s[i]];
        lemma_ascii(one);
        vstd::utf8::valid_utf8_concat(s.subrange(0, i), one);
        assert(s.subrange(0, i) + one =~= s.subrange(0, i + 1));
    }
    /// ASCII bytes are text.
    pub broadcast proof fn lemma_ascii(s: Seq<u8>)
        requires forall|i: int| 0 <= i < s.len() ==> s[i] < 0x80
        ensures #[trigger] vstd::utf8::valid_utf8(s)
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_ascii(s.skip(1));
            assert(s[0] < 0x80);
            assert(vstd::utf8::pop_first_scalar(s) =~= s.skip(1));
        }
    }

    pub proof fn lemma_lits()
        ensures "true".spec_bytes() == lit(true), "false".spec_bytes() == lit(false)
    {
        reveal_strlit("true");
        reveal_strlit("false");
        vstd::utf8::encode_utf8_decode_utf8("true"@);
        assert("true"@ =~= seq!['t', 'r', 'u', 'e']);
        assert("false"@ =~= seq!['f', 'a', 'l', 's', 'e']);
        vstd::utf8::is_ascii_chars_encode_utf8("true"@);
        vstd::utf8::is_ascii_chars_encode_utf8("false"@);
        assert("true".spec_bytes() =~= lit(true));
        assert("false".spec_bytes() =~= lit(false));
    }

    // ------------------------------------------------------------ compact
    pub open spec fn lit(b: bool) -> Seq<u8> { if b { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] } }
    pub open spec fn nul() -> Seq<u8> { seq![110u8, 117u8, 108u8, 108u8] }
    pub open spec fn comma(first: bool) -> Seq<u8> { if first { Seq::empty() } else { seq![44u8] } }
    pub open spec fn compact(v: SVal) -> Seq<u8> decreases v, 0int {
        match v {
            SVal::Obj(m) => seq![123u8] + cmem(m, m.len() as int) + seq![125u8],
            SVal::Arr(a) => seq![91u8] + celm(a, a.len() as int) + seq![93u8],
            SVal::Str(s) => jstr(s),
            SVal::Num(n) => num_json(n),
            SVal::Bool(b) => lit(b),
            SVal::Null => nul(),
        }
    }
    /// The first n members, elements.
    pub open spec fn cmem(m: Seq<(Seq<u8>, SVal)>, n: int) -> Seq<u8> decreases m, n {
        if n <= 0 || n > m.len() { Seq::empty() }
        else { cmem(m, n - 1) + (comma(n == 1) + jstr(m[n - 1].0) + seq![58u8] + compact(m[n - 1].1)) }
    }
    pub open spec fn celm(a: Seq<SVal>, n: int) -> Seq<u8> decreases a, n {
        if n <= 0 || n > a.len() { Seq::empty() } else { celm(a, n - 1) + (comma(n == 1) + compact(a[n - 1])) }
    }

    // ------------------------------------------------------------ pretty
    pub open spec fn spaces(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 32u8) }
    /// A line break and the indentation of a level.
    pub open spec fn nl(l: int) -> Seq<u8> { seq![10u8] + spaces(2 * l) }
    pub open spec fn pretty(v: SVal, l: int) -> Seq<u8> decreases v, 0int {
        match v {
            SVal::Obj(m) => seq![123u8] + prmem(m, m.len() as int, l + 1) + nl(l) + seq![125u8],
            SVal::Arr(a) => seq![91u8] + prelm(a, a.len() as int, l + 1) + nl(l) + seq![93u8],
            _ => compact(v),
        }
    }
    pub open spec fn nested(v: SVal, l: int) -> Seq<u8> { if v is Obj || v is Arr { nl(l) } else { Seq::empty() } }
    pub open spec fn prmem(m: Seq<(Seq<u8>, SVal)>, n: int, l: int) -> Seq<u8> decreases m, n {
        if n <= 0 || n > m.len() { Seq::empty() }
        else {
            prmem(m, n - 1, l) + (comma(n == 1) + nl(l) + jstr(m[n - 1].0) + seq![32u8, 58u8, 32u8]
                + nested(m[n - 1].1, l) + pretty(m[n - 1].1, l))
        }
    }
    pub open spec fn prelm(a: Seq<SVal>, n: int, l: int) -> Seq<u8> decreases a, n {
        if n <= 0 || n > a.len() { Seq::empty() } else { prelm(a, n - 1, l) + (comma(n == 1) + nl(l) + pretty(a[n - 1], l)) }
    }
    /// The text of v in the requested format.
    pub open spec fn text(v: SVal, pr: bool) -> Seq<u8> { if pr { pretty(v, 0) } else { compact(v) } }
}
