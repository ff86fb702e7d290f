// Shared specification vocabulary and the contracts assumed on the standard
// library and on dependencies.  Everything marked external_body or
// assume_specification is an assumption; `check` lists them in the evidence.
global size_of usize == 8;

pub mod prelude {
    use vstd::prelude::*;
    pub use vstd::string::*;
    use std::cmp::Ordering;
    // the specification vocabulary of every module
    pub use crate::decimal_rs::{nv, enc_num, dec_num, num_eq, num_json, num_usize, num_zero, dec_parse, axiom_num, NumV};
    pub use crate::data_type::{tag, of_tag, is_tag, type_name, lemma_tags};
    pub use crate::util::{var_n, var_v, var_ok, var_bad, enc_var, lemma_enc_var, lemma_var_roundtrip, lemma_var_fewest, lemma_var_local};
    pub use crate::spec::*;
    pub use crate::bspec::*;
    pub use crate::fspec::*;
    pub use crate::jspec::*;
    pub use crate::pspec::*;
    pub use crate::gspec::*;
    pub use crate::nspec::*;
    pub use crate::rspec::*;
    pub use crate::{data_type::DataType, yason::{YasonError, YasonResult, Yason, YasonBuf, Value, LazyValue, Array, Object}, builder::{BuildError, BuildResult}};
    pub use crate::binary::*;
    pub use crate::yason::{oob, mismatch, vv, vok, lv, lok, lemma_lok};
    pub use crate::yason::object::{member, lemma_found};
    pub use crate::vec::{zeros, put, enc_str, enc_number, lemma_b32_put};

    broadcast use vstd::utf8::group_utf8_lib;

    // ---------------------------------------------------------------- std
    #[verifier::external_body]
    pub fn vx_from_utf8_unchecked(b: &[u8]) -> (r: &str)
        requires vstd::utf8::valid_utf8(b@),
        ensures r.spec_bytes() == b@
    { unimplemented!() }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExUtf8Error(std::str::Utf8Error);
    pub assume_specification [std::str::from_utf8] (b: &[u8]) -> (r: std::result::Result<&str, std::str::Utf8Error>)
        ensures r is Ok == vstd::utf8::valid_utf8(b@), r is Ok ==> r->Ok_0.spec_bytes() == b@;
    pub assume_specification [std::string::String::try_reserve] (s: &mut std::string::String, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>)
        ensures final(s)@ == old(s)@;
    pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
    pub assume_specification [u8::is_ascii_whitespace] (c: &u8) -> (r: bool)
        ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
    pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool)
        ensures r == (65 <= *c <= 90 || 97 <= *c <= 122);
    pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>) ensures r@ == s@;
    pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
        ensures r == (match o { Some(x) => Some(*x), None => None });

    // A byte slice never spans more than isize::MAX bytes (guaranteed by Rust's allocation rules).
    #[verifier::external_body]
    pub proof fn axiom_slice_len(b: &[u8]) ensures b@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub proof fn axiom_vec_len(b: &Vec<u8>) ensures b@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub proof fn axiom_str_len(b: &str) ensures b.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }

    // ------------------------------------------------- integers in bytes
    pub open spec fn le16(b: Seq<u8>, i: int) -> int { b[i] as int + 256 * b[i + 1] as int }
    pub open spec fn le32(b: Seq<u8>, i: int) -> int {
        b[i] as int + 256 * b[i + 1] as int + 65536 * b[i + 2] as int + 16777216 * b[i + 3] as int
    }
    pub open spec fn b16(x: int) -> Seq<u8> { seq![(x % 256) as u8, ((x / 256) % 256) as u8] }
    pub open spec fn b32(x: int) -> Seq<u8> {
        seq![(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8, ((x / 16777216) % 256) as u8]
    }
    pub open spec fn i32_of(x: int) -> int { if x >= 0x8000_0000 { x - 0x1_0000_0000 } else { x } }
    pub proof fn lemma_b32(x: int)
        requires 0 <= x < 0x1_0000_0000
        ensures le32(b32(x), 0) == x, b32(x).len() == 4
    {
        assert(x == x % 256 + 256 * ((x / 256) % 256) + 65536 * ((x / 65536) % 256) + 16777216 * ((x / 16777216) % 256));
    }
    pub proof fn lemma_b16(x: int)
        requires 0 <= x < 65536
        ensures le16(b16(x), 0) == x, b16(x).len() == 2
    {
        assert(x == x % 256 + 256 * ((x / 256) % 256));
    }
    #[verifier::external_body]
    pub fn vx_u16_from_le_slice(b: &[u8]) -> (r: u16)
        requires b@.len() == 2
        ensures r as int == le16(b@, 0)
    { u16::from_le_bytes([b[0], b[1]]) }
    #[verifier::external_body]
    pub fn vx_u32_from_le_slice(b: &[u8]) -> (r: u32)
        requires b@.len() == 4
        ensures r as int == le32(b@, 0)
    { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
    #[verifier::external_body]
    pub fn vx_i32_from_le_slice(b: &[u8]) -> (r: i32)
        requires b@.len() == 4
        ensures r as int == i32_of(le32(b@, 0))
    { i32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
    pub trait VxLe<const N: usize>: Sized {
        spec fn le(self) -> Seq<u8>;
        spec fn le_ok(self) -> bool;
        fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures self.le_ok() ==> r@ == self.le();
        fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures self.le_ok() ==> r@ == self.le().reverse();
    }
    impl VxLe<2> for u16 {
        open spec fn le(self) -> Seq<u8> { b16(self as int) }
        open spec fn le_ok(self) -> bool { true }
        #[verifier::external_body]
        fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
        #[verifier::external_body]
        fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
    }
    impl VxLe<4> for u32 {
        open spec fn le(self) -> Seq<u8> { b32(self as int) }
        open spec fn le_ok(self) -> bool { true }
        #[verifier::external_body]
        fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
        #[verifier::external_body]
        fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    }
    impl VxLe<4> for i32 {
        open spec fn le(self) -> Seq<u8> { b32(self as int) }
        open spec fn le_ok(self) -> bool { self >= 0 }
        #[verifier::external_body]
        fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
        #[verifier::external_body]
        fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    }

    // ------------------------------------------------------- panics
    // A failed debug assertion is a panic in the builds users run in debug mode,
    // so every debug assertion is an obligation.
    #[verifier::external_body]
    pub fn vx_debug_assert_failed() requires false { panic!() }
    #[verifier::external_body]
    pub fn vx_unreachable<T>() -> (r: T) requires false { panic!() }
    #[verifier::external_body]
    pub fn vx_size_of_opaque() -> (r: usize) ensures r <= 0x1000 { 16 }

    // ------------------------------------------------------- strings
    pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
        if b.len() == 0 { false }
        else if a.len() == 0 { true }
        else if a[0] != b[0] { a[0] < b[0] }
        else { lex_lt(a.drop_first(), b.drop_first()) }
    }
    pub open spec fn key_lt(a: Seq<u8>, b: Seq<u8>) -> bool {
        a.len() < b.len() || (a.len() == b.len() && lex_lt(a, b))
    }
    pub proof fn lemma_lex_irrefl(a: Seq<u8>) ensures !lex_lt(a, a) decreases a.len() {
        if a.len() > 0 { lemma_lex_irrefl(a.drop_first()); }
    }
    pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        requires lex_lt(a, b), lex_lt(b, c) ensures lex_lt(a, c) decreases a.len()
    {
        if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
            lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first());
        }
    }
    pub proof fn lemma_lex_total(a: Seq<u8>, b: Seq<u8>)
        ensures lex_lt(a, b) || lex_lt(b, a) || a == b decreases a.len()
    {
        if a.len() > 0 && b.len() > 0 {
            if a[0] == b[0] {
                lemma_lex_total(a.drop_first(), b.drop_first());
                if a.drop_first() == b.drop_first() {
                    assert(a =~= seq![a[0]] + a.drop_first());
                    assert(b =~= seq![b[0]] + b.drop_first());
                }
            }
        } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    }
    pub proof fn lemma_key_irrefl(a: Seq<u8>) ensures !key_lt(a, a) { lemma_lex_irrefl(a); }
    pub proof fn lemma_key_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        requires key_lt(a, b), key_lt(b, c) ensures key_lt(a, c)
    {
        if a.len() == b.len() && b.len() == c.len() { lemma_lex_trans(a, b, c); }
    }
    pub proof fn lemma_key_total(a: Seq<u8>, b: Seq<u8>)
        ensures key_lt(a, b) || key_lt(b, a) || a == b
    { lemma_lex_total(a, b); }
    pub proof fn lemma_key_asym(a: Seq<u8>, b: Seq<u8>)
        requires key_lt(a, b) ensures !key_lt(b, a), a != b
    {
        if key_lt(b, a) { lemma_key_trans(a, b, a); }
        lemma_key_irrefl(a);
    }
    pub proof fn lemma_str_bytes(s: &str) ensures vstd::utf8::valid_utf8(s.spec_bytes()) {}
    pub proof fn lemma_str_eq(s: &str, t: &str) ensures (s.spec_bytes() == t.spec_bytes()) == (s@ == t@) {
        vstd::utf8::encode_utf8_decode_utf8(s@);
        vstd::utf8::encode_utf8_decode_utf8(t@);
    }

    #[verifier::external_body]
    pub fn vx_str_len(s: &str) -> (r: usize)
        ensures r == s.spec_bytes().len(), r <= 0x7fff_ffff_ffff_ffff
    { s.len() }
    #[verifier::external_body]
    pub fn vx_str_cmp(a: &str, b: &str) -> (r: Ordering)
        ensures
            r is Less == lex_lt(a.spec_bytes(), b.spec_bytes()),
            r is Equal == (a.spec_bytes() == b.spec_bytes()),
            r is Greater == lex_lt(b.spec_bytes(), a.spec_bytes()),
    { a.cmp(b) }
    pub fn vx_str_eq(a: &str, b: &str) -> (r: bool)
        ensures r == (a.spec_bytes() == b.spec_bytes())
    { proof { lemma_str_eq(a, b); } a == b }
    pub fn vx_str_ne(a: &str, b: &str) -> (r: bool)
        ensures r == (a.spec_bytes() != b.spec_bytes())
    { proof { lemma_str_eq(a, b); } !(a == b) }
    #[verifier::external_body]
    pub fn vx_str_lt(a: &str, b: &str) -> (r: bool)
        ensures r == lex_lt(a.spec_bytes(), b.spec_bytes())
    { a < b }
    #[verifier::external_body]
    pub fn vx_str_gt(a: &str, b: &str) -> (r: bool)
        ensures r == lex_lt(b.spec_bytes(), a.spec_bytes())
    { a > b }
    #[verifier::external_body]
    pub fn vx_str_le(a: &str, b: &str) -> (r: bool)
        ensures r == !lex_lt(b.spec_bytes(), a.spec_bytes())
    { a <= b }
    #[verifier::external_body]
    pub fn vx_str_ge(a: &str, b: &str) -> (r: bool)
        ensures r == !lex_lt(a.spec_bytes(), b.spec_bytes())
    { a >= b }
    pub fn vx_slice_eq(a: &[u8], b: &[u8]) -> (r: bool)
        ensures r == (a@ == b@)
    {
        if a.len() != b.len() { return false; }
        let mut i: usize = 0;
        while i < a.len()
            invariant i <= a@.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
            decreases a@.len() - i,
        {
            if a[i] != b[i] { return false; }
            i += 1;
        }
        assert(a@ =~= b@);
        true
    }
    #[verifier::external_body]
    pub fn vx_copy_within(v: &mut std::vec::Vec<u8>, a: usize, b: usize, d: usize)
        requires a <= b <= old(v)@.len(), d + (b - a) <= old(v)@.len(),
        ensures final(v)@ == Seq::new(old(v)@.len(), |i: int| if d <= i < d + (b - a) { old(v)@[a + (i - d)] } else { old(v)@[i] }),
    { v.copy_within(a..b, d) }
    /// `s.iter().take_while(f).count()`
    pub fn vx_count_while<F: Fn(&&u8) -> bool>(s: &[u8], f: F) -> (r: usize)
        requires forall|c: &&u8| f.requires((c,)),
        ensures
            r <= s@.len(),
            forall|j: int| 0 <= j < r ==> f.ensures((&&#[trigger] s@[j],), true),
            r < s@.len() ==> f.ensures((&&s@[r as int],), false),
    {
        let mut i: usize = 0;
        while i < s.len()
            invariant i <= s@.len(), forall|c: &&u8| f.requires((c,)),
                forall|j: int| 0 <= j < i ==> f.ensures((&&#[trigger] s@[j],), true),
            decreases s@.len() - i,
        {
            if !f(&&s[i]) { return i; }
            i += 1;
        }
        i
    }

    // ------------------------------------------------------- AsMut<Vec<u8>>
    // Stands for `AsMut<Vec<u8>>`; implemented for the two types the crate instantiates it with.
    pub trait AsMutBytes: Sized {
        spec fn v(&self) -> Seq<u8>;
        #[verifier::prophetic] spec fn fin(&self) -> Seq<u8>;
        fn as_mut(&mut self) -> (r: &mut Vec<u8>)
            ensures (*r)@ == old(self).v(), final(self).v() == (*final(r))@, final(self).fin() == old(self).fin();
    }
    impl AsMutBytes for Vec<u8> {
        open spec fn v(&self) -> Seq<u8> { self@ }
        #[verifier::prophetic] open spec fn fin(&self) -> Seq<u8> { Seq::empty() }
        fn as_mut(&mut self) -> (r: &mut Vec<u8>) { self }
    }
    impl<'b> AsMutBytes for &'b mut Vec<u8> {
        open spec fn v(&self) -> Seq<u8> { (**self)@ }
        #[verifier::prophetic] open spec fn fin(&self) -> Seq<u8> { (*final(*self))@ }
        fn as_mut(&mut self) -> (r: &mut Vec<u8>) { &mut **self }
    }

    // ------------------------------------------------------- std::fmt
    pub mod fmt {
        use vstd::prelude::*;
        use vstd::string::*;
        pub struct Error;
        pub type Result = std::result::Result<(), Error>;
        pub trait Write {
            /// Everything written so far.
            spec fn out(&self) -> Seq<u8>;
            /// A writer that never fails.
            spec fn total(&self) -> bool;
            fn write_str(&mut self, s: &str) -> (r: Result)
                ensures
                    r is Ok ==> final(self).out() == old(self).out() + s.spec_bytes(),
                    old(self).total() ==> r is Ok && final(self).total();
            fn write_char(&mut self, c: char) -> (r: Result)
                ensures
                    r is Ok ==> final(self).out() == old(self).out() + vstd::utf8::encode_utf8(seq![c]),
                    old(self).total() ==> r is Ok && final(self).total();
        }
        /// std::fmt::Formatter, as far as it is a Write.
        #[verifier::external_body]
        pub struct Formatter<'a> { p: std::marker::PhantomData<&'a u8> }
        pub uninterp spec fn fmt_out(f: Formatter) -> Seq<u8>;
        pub uninterp spec fn fmt_total(f: Formatter) -> bool;
        impl<'a> Write for Formatter<'a> {
            open spec fn out(&self) -> Seq<u8> { fmt_out(*self) }
            open spec fn total(&self) -> bool { fmt_total(*self) }
            #[verifier::external_body]
            fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
            #[verifier::external_body]
            fn write_char(&mut self, c: char) -> (r: Result) { unimplemented!() }
        }
        impl Write for std::string::String {
            open spec fn out(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
            open spec fn total(&self) -> bool { true }
            fn write_str(&mut self, s: &str) -> (r: Result) {
                proof { lemma_encode_cat(self@, s@); }
                self.push_str(s);
                Ok(())
            }
            fn write_char(&mut self, c: char) -> (r: Result) {
                proof { lemma_encode_cat(self@, seq![c]); assert(self@ + seq![c] =~= self@.push(c)); }
                self.push(c);
                Ok(())
            }
        }
        pub proof fn lemma_encode_cat(a: Seq<char>, b: Seq<char>)
            ensures vstd::utf8::encode_utf8(a + b) == vstd::utf8::encode_utf8(a) + vstd::utf8::encode_utf8(b)
            decreases a.len()
        {
            broadcast use vstd::utf8::group_utf8_lib;
            if a.len() == 0 { assert(a + b =~= b); assert(vstd::utf8::encode_utf8(a) =~= Seq::<u8>::empty()); assert(vstd::utf8::encode_utf8(a) + vstd::utf8::encode_utf8(b) =~= vstd::utf8::encode_utf8(b)); }
            else {
                lemma_encode_cat(a.drop_first(), b);
                assert((a + b).drop_first() =~= a.drop_first() + b);
                assert((a + b)[0] == a[0]);
                assert(vstd::utf8::encode_utf8(a + b) =~= vstd::utf8::encode_utf8(a) + vstd::utf8::encode_utf8(b));
            }
        }
    }
}

// Contracts assumed on the decimal-rs crate (differentially tested by the harness).
pub mod decimal_rs {
    use vstd::prelude::*;
    pub const MAX_BINARY_SIZE: usize = 18;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct DecimalFormatError {}
    pub enum DecimalParseError { Empty, Invalid, Overflow, Underflow }
    pub struct NumV { pub n: int }
    #[verifier::external_body]
    #[derive(Debug, Clone, Copy)]
    pub struct Decimal {}
    pub uninterp spec fn nv(d: Decimal) -> NumV;
    pub uninterp spec fn enc_num(n: NumV) -> Seq<u8>;
    pub uninterp spec fn dec_num(b: Seq<u8>) -> NumV;
    pub uninterp spec fn num_eq(a: NumV, b: NumV) -> bool;
    pub uninterp spec fn num_json(a: NumV) -> Seq<u8>;
    /// The number n.
    pub uninterp spec fn num_usize(n: int) -> NumV;
    pub uninterp spec fn num_zero() -> NumV;
    /// The decimal nearest to a literal, or why there is none.
    pub uninterp spec fn dec_parse(text: Seq<char>) -> Result<NumV, DecimalParseError>;
    #[verifier::external_body]
    pub proof fn axiom_num(n: NumV)
        ensures 1 <= enc_num(n).len() <= 18, dec_num(enc_num(n)) == n, num_eq(n, n) {}
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct EncodeError {}
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Decimal {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Decimal) -> bool { num_eq(nv(*self), nv(*o)) }
    }
    impl PartialEq for Decimal {
        #[verifier::external_body]
        fn eq(&self, o: &Decimal) -> (r: bool) { unimplemented!() }
    }
    impl Decimal {
        #[verifier::external_body]
        pub exec const ZERO: Decimal ensures nv(Decimal::ZERO) == num_zero() { Decimal {} }
        #[verifier::external_body]
        pub fn from_str(s: &str) -> (r: Result<Decimal, DecimalParseError>)
            ensures
                r is Ok == dec_parse(s@) is Ok,
                r matches Ok(d) ==> dec_parse(s@) == Ok::<NumV, DecimalParseError>(nv(d)),
                r matches Err(e) ==> dec_parse(s@) == Err::<NumV, DecimalParseError>(e),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn from(n: usize) -> (r: Decimal)
            ensures nv(r) == num_usize(n as int)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn compact_encode(&self, w: &mut [u8]) -> (r: Result<usize, EncodeError>)
            ensures
                old(w)@.len() >= 18 ==> r is Ok,
                final(w)@.len() == old(w)@.len(),
                r matches Ok(n) ==> n == enc_num(nv(*self)).len() && n <= old(w)@.len()
                    && final(w)@.subrange(0, n as int) == enc_num(nv(*self)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn decode(b: &[u8]) -> (r: Decimal)
            requires b@.len() > 0
            ensures nv(r) == dec_num(b@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn format_to_json<W: crate::prelude::fmt::Write>(&self, w: &mut W) -> (r: Result<(), DecimalFormatError>)
            ensures
                r is Ok ==> final(w).out() == old(w).out() + num_json(nv(*self)),
                old(w).total() ==> r is Ok && final(w).total(),
        { unimplemented!() }
    }
}

// Model of serde_json: what the crate sees of a parsed JSON text.  A number is its
// literal (feature arbitrary_precision); a map is the list of its members, with
// pairwise different keys, in the order in which it is iterated.
pub mod serde_json {
    use vstd::prelude::*;
    use vstd::string::*;
    pub enum Value {
        Null,
        Bool(bool),
        Number(Number),
        String(std::string::String),
        Array(std::vec::Vec<Value>),
        Object(Map<std::string::String, Value>),
    }
    #[verifier::external_body]
    pub struct Error {}
    #[verifier::external_body]
    pub struct Number {}
    pub uninterp spec fn num_text(n: Number) -> Seq<char>;
    /// The value a JSON text denotes, if it is one.
    pub uninterp spec fn json_of(text: Seq<char>) -> Option<Value>;
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Value, Error>)
        ensures r is Ok == json_of(s@) is Some, r matches Ok(v) ==> json_of(s@) == Some(v),
    { unimplemented!() }
    impl Number {
        #[verifier::external_body]
        pub fn vx_display(&self, w: &mut std::string::String) -> (r: crate::prelude::fmt::Result)
            ensures r is Ok, final(w)@ == old(w)@ + num_text(*self),
        { unimplemented!() }
    }
    /// A JSON number read as a decimal can only be out of range.
    #[verifier::external_body]
    pub proof fn axiom_num_text(n: Number)
        ensures !(crate::decimal_rs::dec_parse(num_text(n)) matches Err(e) && (e is Empty || e is Invalid)) {}
    pub struct Map<K, V> { pub entries: std::vec::Vec<(K, V)> }
    #[verifier::external_body]
    pub proof fn axiom_map_keys<V>(m: Map<std::string::String, V>)
        ensures forall|i: int, j: int| 0 <= i < j < m.entries@.len() ==> (#[trigger] m.entries@[i]).0@ != (#[trigger] m.entries@[j]).0@ {}
    impl<K, V> Map<K, V> {
        pub fn len(&self) -> (r: usize) ensures r == self.entries@.len() { self.entries.len() }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries@.len() == 0) { self.entries.len() == 0 }
        pub fn vx_iter(&self) -> (r: MapIter<'_, K, V>) ensures r.i == 0, r.m == self { MapIter { m: self, i: 0 } }
        pub fn iter(&self) -> (r: MapIter<'_, K, V>) ensures r.i == 0, r.m == self { MapIter { m: self, i: 0 } }
    }
    pub struct MapIter<'a, K, V> { pub m: &'a Map<K, V>, pub i: usize }
    impl<'a, K, V> MapIter<'a, K, V> {
        pub fn vx_iter(self) -> (r: Self) ensures r == self { self }
        pub fn iter_next(&mut self) -> (r: Option<(&'a K, &'a V)>)
            ensures
                final(self).m == old(self).m,
                old(self).i >= old(self).m.entries@.len() ==> r is None && final(self).i == old(self).i,
                old(self).i < old(self).m.entries@.len() ==> final(self).i == old(self).i + 1
                    && (r matches Some(p) && *p.0 == old(self).m.entries@[old(self).i as int].0 && *p.1 == old(self).m.entries@[old(self).i as int].1),
        {
            if self.i >= self.m.entries.len() { return None; }
            let m: &'a Map<K, V> = self.m;
            let e = &m.entries[self.i];
            self.i += 1;
            Some((&e.0, &e.1))
        }
    }
}

// Model of serde: what a format does with what it is given is its own matter
// (uninterpreted, for every format); what it is given, and what becomes of what it
// gives back, is what the contracts speak about.
pub mod vx_serde {
    use vstd::prelude::*;
    use vstd::string::*;
    /// A string or a byte string handed to a format, or by a format.
    pub enum Msg { Text(Seq<char>), Bytes(Seq<u8>) }
    pub mod ser {
        use vstd::prelude::*;
        use super::Msg;
        pub trait Error: Sized {
            spec fn says<T>(self, m: T) -> bool;
            fn custom<T>(m: T) -> (r: Self) ensures r.says(m);
        }
        pub trait Serializer: Sized {
            type Ok;
            type Error: Error;
            spec fn human(&self) -> bool;
            spec fn wrote(self, m: Msg, o: Self::Ok) -> bool;
            spec fn failed(self, m: Msg, e: Self::Error) -> bool;
            fn is_human_readable(&self) -> (r: bool) ensures r == self.human();
            fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
                ensures r matches Ok(o) ==> self.wrote(Msg::Text(v@), o), r matches Err(e) ==> self.failed(Msg::Text(v@), e);
            fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>)
                ensures r matches Ok(o) ==> self.wrote(Msg::Bytes(v@), o), r matches Err(e) ==> self.failed(Msg::Bytes(v@), e);
        }
    }
    /// serde's own implementations for strings.
    pub trait Serialize {
        spec fn shown(&self) -> Msg;
        fn serialize<S: ser::Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
            ensures r matches Ok(o) ==> serializer.wrote(self.shown(), o), r matches Err(e) ==> serializer.failed(self.shown(), e);
    }
    impl Serialize for std::string::String {
        open spec fn shown(&self) -> Msg { Msg::Text(self@) }
        fn serialize<S: ser::Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) { serializer.serialize_str(self.as_str()) }
    }
    impl Serialize for str {
        open spec fn shown(&self) -> Msg { Msg::Text(self@) }
        fn serialize<S: ser::Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) { serializer.serialize_str(self) }
    }
    pub mod de {
        use vstd::prelude::*;
        use super::Msg;
        pub trait Error: Sized {
            spec fn says<T>(self, m: T) -> bool;
            fn custom<T>(m: T) -> (r: Self) ensures r.says(m);
        }
        pub trait Visitor<'de>: Sized {
            type Value;
            /// What it may be given.
            spec fn accepts(self, m: Msg) -> bool;
            spec fn takes(self, m: Msg, v: Self::Value) -> bool;
            spec fn refuses<E: Error>(self, m: Msg, e: E) -> bool;
            fn expecting(&self, f: &mut crate::prelude::fmt::Formatter) -> (r: crate::prelude::fmt::Result);
            fn visit_str<E>(self, v: &str) -> (r: Result<Self::Value, E>) where E: Error
                requires self.accepts(Msg::Text(v@))
                ensures r matches Ok(o) ==> self.takes(Msg::Text(v@), o), r matches Err(e) ==> self.refuses(Msg::Text(v@), e);
            fn visit_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) where E: Error
                requires self.accepts(Msg::Bytes(v@))
                ensures r matches Ok(o) ==> self.takes(Msg::Bytes(v@), o), r matches Err(e) ==> self.refuses(Msg::Bytes(v@), e);
        }
        pub trait Deserializer<'de>: Sized {
            type Error: Error;
            spec fn human(&self) -> bool;
            /// What it may give when asked for a text, or for bytes.
            spec fn gives(self, text: bool, m: Msg) -> bool;
            spec fn broken(self, e: Self::Error) -> bool;
            fn is_human_readable(&self) -> (r: bool) ensures r == self.human();
            fn deserialize_str<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
                requires forall|m: Msg| #[trigger] self.gives(true, m) ==> v.accepts(m)
                ensures
                    r matches Ok(o) ==> exists|m: Msg| #[trigger] self.gives(true, m) && v.takes(m, o),
                    r matches Err(e) ==> self.broken(e) || exists|m: Msg| #[trigger] self.gives(true, m) && v.refuses(m, e);
            fn deserialize_string<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
                requires forall|m: Msg| #[trigger] self.gives(true, m) ==> v.accepts(m)
                ensures
                    r matches Ok(o) ==> exists|m: Msg| #[trigger] self.gives(true, m) && v.takes(m, o),
                    r matches Err(e) ==> self.broken(e) || exists|m: Msg| #[trigger] self.gives(true, m) && v.refuses(m, e);
            fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
                requires forall|m: Msg| #[trigger] self.gives(false, m) ==> v.accepts(m)
                ensures
                    r matches Ok(o) ==> exists|m: Msg| #[trigger] self.gives(false, m) && v.takes(m, o),
                    r matches Err(e) ==> self.broken(e) || exists|m: Msg| #[trigger] self.gives(false, m) && v.refuses(m, e);
            fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
                requires forall|m: Msg| #[trigger] self.gives(false, m) ==> v.accepts(m)
                ensures
                    r matches Ok(o) ==> exists|m: Msg| #[trigger] self.gives(false, m) && v.takes(m, o),
                    r matches Err(e) ==> self.broken(e) || exists|m: Msg| #[trigger] self.gives(false, m) && v.refuses(m, e);
        }
    }
}
