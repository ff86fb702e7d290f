//! The contracts that contracts/prelude.rs and contracts/std_spare.rs assume on the standard library,
//! discharged for the real library by Kani (CBMC): complete where the argument is of a fixed size,
//! bounded where it is not (names ending in `_bounded`; the bounds are the constants below).
#![cfg(kani)]
use std::cmp::Ordering;

fn le16(b: &[u8]) -> u32 { b[0] as u32 + 256 * b[1] as u32 }
fn le32(b: &[u8]) -> u64 { b[0] as u64 + 256 * b[1] as u64 + 65536 * b[2] as u64 + 16777216 * b[3] as u64 }
fn b32(x: u64) -> [u8; 4] { [(x % 256) as u8, ((x / 256) % 256) as u8, ((x / 65536) % 256) as u8, ((x / 16777216) % 256) as u8] }

// ---- complete: every value of the argument
#[kani::proof]
fn u16_from_le_slice() {
    let b: [u8; 2] = kani::any();
    let s: &[u8] = &b;
    let a: [u8; 2] = s.try_into().unwrap();
    assert!(u16::from_le_bytes(a) as u32 == le16(&b));
    assert!(u16::from_le_bytes([b[0], b[1]]) as u32 == le16(&b));
}
#[kani::proof]
fn u32_from_le_slice() {
    let b: [u8; 4] = kani::any();
    let s: &[u8] = &b;
    let a: [u8; 4] = s.try_into().unwrap();
    assert!(u32::from_le_bytes(a) as u64 == le32(&b));
}
#[kani::proof]
fn i32_from_le_slice() {
    let b: [u8; 4] = kani::any();
    let s: &[u8] = &b;
    let a: [u8; 4] = s.try_into().unwrap();
    let x = le32(&b) as i64;
    assert!(i32::from_le_bytes(a) as i64 == if x >= 0x8000_0000 { x - 0x1_0000_0000 } else { x });
}
#[kani::proof]
fn u16_to_bytes() {
    let x: u16 = kani::any();
    let l = [(x % 256) as u8, ((x / 256) % 256) as u8];
    assert!(x.to_le_bytes() == l && x.to_be_bytes() == [l[1], l[0]]);
}
#[kani::proof]
fn u32_to_bytes() {
    let x: u32 = kani::any();
    let l = b32(x as u64);
    assert!(x.to_le_bytes() == l && x.to_be_bytes() == [l[3], l[2], l[1], l[0]]);
}
#[kani::proof]
fn i32_to_bytes() {
    let x: i32 = kani::any();
    kani::assume(x >= 0);
    let l = b32(x as u64);
    assert!(x.to_le_bytes() == l && x.to_be_bytes() == [l[3], l[2], l[1], l[0]]);
}
#[kani::proof]
fn ascii_classes() {
    let c: u8 = kani::any();
    assert!(c.is_ascii_digit() == (48 <= c && c <= 57));
    assert!(c.is_ascii_whitespace() == (c == 32 || c == 9 || c == 10 || c == 12 || c == 13));
    assert!(c.is_ascii_alphabetic() == ((65 <= c && c <= 90) || (97 <= c && c <= 122)));
}
fn any_ord() -> Ordering {
    match kani::any::<u8>() % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater }
}
fn num(o: Ordering) -> i8 {
    match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 }
}
#[kani::proof]
fn ordering_methods() {
    let (a, b) = (any_ord(), any_ord());
    assert!((a == b) == (num(a) == num(b)));
    assert!(a.is_lt() == (num(a) == 0) && a.is_le() == (num(a) != 2) && a.is_gt() == (num(a) == 2));
    assert!(a.is_ge() == (num(a) != 0) && a.is_eq() == (num(a) == 1) && a.is_ne() == (num(a) != 1));
    assert!(num(a.reverse()) == 2 - num(a));
    assert!(num(a.then(b)) == if num(a) == 1 { num(b) } else { num(a) });
}
#[kani::proof]
fn small_conversions() {
    let b: bool = kani::any();
    assert!(u32::from(b) == if b { 1 } else { 0 });
    assert!(u8::from(b) == if b { 1 } else { 0 });
    let (x, y): (usize, usize) = (kani::any(), kani::any());
    assert!(x.abs_diff(y) == if x > y { x - y } else { y - x });
    let (mut p, q): (u64, u64) = (kani::any(), kani::any());
    let was = p;
    assert!(std::mem::replace(&mut p, q) == was && p == q);
    let o: Option<u8> = kani::any();
    assert!(o.as_ref().copied() == o);
}

/// `axiom_num`, `Decimal::compact_encode` and `Decimal::decode`: for every decimal there is.
#[kani::proof]
#[kani::unwind(20)]
fn decimal_round_trip() {
    use decimal_rs::{Decimal, MAX_BINARY_SIZE};
    let (int_val, scale, negative): (u128, i16, bool) = (kani::any(), kani::any(), kani::any());
    kani::assume(-255 <= scale && scale <= 255);
    let d = unsafe { Decimal::from_parts_unchecked(int_val, scale, negative) };
    let fill: u8 = kani::any();
    let mut w = [fill; MAX_BINARY_SIZE];
    assert!(MAX_BINARY_SIZE == 18);
    let n = d.compact_encode(&mut w[..]).unwrap();
    assert!(1 <= n && n <= 18);
    assert!(Decimal::decode(&w[..n]).into_parts() == d.into_parts());
    assert!(d == d);
}
/// The bytes of a number do not depend on what the buffer held.
#[kani::proof]
#[kani::unwind(20)]
fn decimal_bytes_are_its_own() {
    use decimal_rs::{Decimal, MAX_BINARY_SIZE};
    let (int_val, scale, negative): (u128, i16, bool) = (kani::any(), kani::any(), kani::any());
    kani::assume(-255 <= scale && scale <= 255);
    let d = unsafe { Decimal::from_parts_unchecked(int_val, scale, negative) };
    let (p, q): (u8, u8) = (kani::any(), kani::any());
    let (mut v, mut w) = ([p; MAX_BINARY_SIZE], [q; MAX_BINARY_SIZE]);
    let n = d.compact_encode(&mut v[..]).unwrap();
    let m = d.compact_encode(&mut w[..]).unwrap();
    assert!(n == m);
    let i: usize = kani::any();
    kani::assume(i < n);
    assert!(v[i] == w[i]);
}

// ---- bounded
const LEN: usize = 4;
fn lex_lt(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i < LEN + 1 {
        if i >= b.len() { return false; }
        if i >= a.len() { return true; }
        if a[i] != b[i] { return a[i] < b[i]; }
        i += 1;
    }
    false
}
#[kani::proof]
#[kani::unwind(7)]
fn str_order_bounded() {
    let (x, y): ([u8; LEN], [u8; LEN]) = (kani::any(), kani::any());
    let (n, m): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= LEN && m <= LEN);
    let (s, t) = (&x[..n], &y[..m]);
    // the order of `str` is the order of its bytes, whatever they are
    let (a, b) = unsafe { (std::str::from_utf8_unchecked(s), std::str::from_utf8_unchecked(t)) };
    assert!((a < b) == lex_lt(s, t) && (a > b) == lex_lt(t, s));
    assert!((a <= b) == !lex_lt(t, s) && (a >= b) == !lex_lt(s, t));
    match a.cmp(b) {
        Ordering::Less => assert!(lex_lt(s, t)),
        Ordering::Greater => assert!(lex_lt(t, s)),
        Ordering::Equal => assert!(!lex_lt(s, t) && !lex_lt(t, s) && n == m),
    }
    assert!(a.len() == n && a.as_bytes().len() == n);
}
#[kani::proof]
#[kani::unwind(7)]
fn copy_within_bounded() {
    const N: usize = 6;
    let x: [u8; N] = kani::any();
    let mut v = x;
    let (a, b, d): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(a <= b && b <= N && d <= N && d + (b - a) <= N);
    v[..].copy_within(a..b, d);
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(v[i] == if d <= i && i < d + (b - a) { x[a + (i - d)] } else { x[i] });
}
#[kani::proof]
#[kani::unwind(7)]
fn to_vec_bounded() {
    let x: [u8; LEN] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= LEN);
    let v = x[..n].to_vec();
    assert!(v.len() == n);
    let i: usize = kani::any();
    kani::assume(i < n);
    assert!(v[i] == x[i]);
}
/// Whether the bytes are UTF-8, as RFC 3629 has it.
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = if c < 0x80 { (1, 0, 0) }
            else if c < 0xc2 { return false }
            else if c < 0xe0 { (2, 0x80, 0xbf) }
            else if c == 0xe0 { (3, 0xa0, 0xbf) }
            else if c == 0xed { (3, 0x80, 0x9f) }
            else if c < 0xf0 { (3, 0x80, 0xbf) }
            else if c == 0xf0 { (4, 0x90, 0xbf) }
            else if c < 0xf4 { (4, 0x80, 0xbf) }
            else if c == 0xf4 { (4, 0x80, 0x8f) }
            else { return false };
        if i + n > b.len() { return false; }
        if n > 1 && (b[i + 1] < lo || b[i + 1] > hi) { return false; }
        if n > 2 && (b[i + 2] & 0xc0) != 0x80 { return false; }
        if n > 3 && (b[i + 3] & 0xc0) != 0x80 { return false; }
        i += n;
    }
    true
}
#[kani::proof]
#[kani::unwind(7)]
fn from_utf8_bounded() {
    let x: [u8; LEN] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= LEN);
    assert!(std::str::from_utf8(&x[..n]).is_ok() == utf8(&x[..n]));
}

// ---- the one function of the crate outside the verifier's reach: bounded
/// `Yason::new_unchecked` hands out the very bytes it is given (same place, same length).
#[kani::proof]
#[kani::unwind(4)]
fn yason_new_unchecked_bounded() {
    let x: [u8; 64] = kani::any();
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    kani::assume(a < b && b <= 64);
    let s: &[u8] = &x[a..b];
    let y = unsafe { yason::Yason::new_unchecked(s) };
    assert!(y.as_bytes().as_ptr() == s.as_ptr() && y.as_bytes().len() == s.len());
    let i: usize = kani::any();
    kani::assume(i < s.len());
    assert!(y.as_bytes()[i] == s[i]);
    let v: Vec<u8> = vec![x[0], x[1], x[2]];
    let z = unsafe { yason::Yason::new_unchecked(&v) };
    assert!(z.as_bytes().as_ptr() == v.as_ptr() && z.as_bytes().len() == 3);
    let w = unsafe { yason::YasonBuf::new_unchecked(v) };
    let w: &yason::Yason = w.as_ref();
    assert!(w.as_bytes()[0] == x[0] && w.as_bytes()[1] == x[1] && w.as_bytes()[2] == x[2] && w.as_bytes().len() == 3);
}

/// Whether the bytes are a number of the JSON grammar.
fn json_number(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    if i < n && b[i] == b'-' { i += 1; }
    if i >= n { return false; }
    if b[i] == b'0' { i += 1; } else {
        if !(b'1' <= b[i] && b[i] <= b'9') { return false; }
        while i < n && b'0' <= b[i] && b[i] <= b'9' { i += 1; }
    }
    if i < n && b[i] == b'.' {
        i += 1;
        let k = i;
        while i < n && b'0' <= b[i] && b[i] <= b'9' { i += 1; }
        if i == k { return false; }
    }
    if i < n && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < n && (b[i] == b'+' || b[i] == b'-') { i += 1; }
        let k = i;
        while i < n && b'0' <= b[i] && b[i] <= b'9' { i += 1; }
        if i == k { return false; }
    }
    i == n
}
/// `axiom_num_text`: a JSON number read as a decimal is at worst out of range.
#[kani::proof]
#[kani::unwind(10)]
fn number_text_bounded() {
    use decimal_rs::{Decimal, DecimalParseError};
    let x: [u8; 5] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 5);
    kani::assume(json_number(&x[..n]));
    let s = unsafe { std::str::from_utf8_unchecked(&x[..n]) };
    match s.parse::<Decimal>() {
        Err(DecimalParseError::Empty) | Err(DecimalParseError::Invalid) => assert!(false),
        _ => (),
    }
}
