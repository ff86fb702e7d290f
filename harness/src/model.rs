//! Reference model: JSON values, the documented encoding, the reference texts. Independent of the
//! code under test (only the number type itself comes from the dependency decimal-rs).
use std::cmp::Ordering;
use std::fmt::Write;
use std::str::FromStr;
pub use yason::Number;

#[derive(Clone, Debug)]
pub enum J { O(Vec<(String, J)>), A(Vec<J>), S(String), N(Number), B(bool), Z }
use J::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn p(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.n(i + 1); v.swap(i, j); } }
}

pub fn num(s: &str) -> Number { Number::from_str(s).unwrap() }

pub fn key_cmp(a: &str, b: &str) -> Ordering { a.len().cmp(&b.len()).then_with(|| a.as_bytes().cmp(b.as_bytes())) }

impl J {
    pub fn tag(&self) -> u8 { match self { O(_) => 1, A(_) => 2, S(_) => 3, N(_) => 4, B(_) => 5, Z => 6 } }
    pub fn type_name(&self) -> &'static str { ["", "object", "array", "string", "number", "bool", "null"][self.tag() as usize] }
    /// Members in stored order.
    pub fn stored(m: &[(String, J)]) -> Vec<&(String, J)> { let mut v: Vec<_> = m.iter().collect(); v.sort_by(|a, b| key_cmp(&a.0, &b.0)); v }
    pub fn size(&self) -> usize { match self { O(m) => 1 + m.iter().map(|x| x.1.size()).sum::<usize>(), A(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(), _ => 1 } }
}

/// The same JSON value.
pub fn j_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (O(x), O(y)) if x.len() > 32 => {
            let (p, q) = (J::stored(x), J::stored(y));
            p.len() == q.len() && p.into_iter().zip(q).all(|(v, w)| v.0 == w.0 && j_eq(&v.1, &w.1))
        }
        (O(x), O(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && j_eq(v, w))),
        (A(x), A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| j_eq(v, w)),
        (S(x), S(y)) => x == y,
        (N(x), N(y)) => canon(x) == canon(y),
        (B(x), B(y)) => x == y,
        (Z, Z) => true,
        _ => false,
    }
}
/// A number as (negative, digits without trailing zeros, exponent).
pub fn canon(n: &Number) -> (bool, String, i32) {
    let (i, scale, neg) = n.into_parts();
    let mut d = i.to_string();
    let mut e = -(scale as i32);
    if i == 0 { return (false, "0".into(), 0); }
    while d.ends_with('0') { d.pop(); e += 1; }
    (neg, d, e)
}

fn varint(mut n: usize, out: &mut Vec<u8>) {
    loop { let b = (n % 128) as u8; n /= 128; if n == 0 { out.push(b); return; } out.push(b | 0x80); }
}
fn enc_number(n: &Number, out: &mut Vec<u8>) {
    let mut b = Vec::new();
    n.compact_encode(&mut b).unwrap();
    out.push(b.len() as u8);
    out.extend(b);
}
/// The documented encoding of a stand-alone value; members of objects are laid out in the order given.
pub fn enc(j: &J) -> Vec<u8> { let mut o = Vec::new(); enc_to(j, &mut o); o }
pub fn enc_to(j: &J, out: &mut Vec<u8>) {
    out.push(j.tag());
    match j {
        Z => {}
        B(b) => out.push(*b as u8),
        N(n) => enc_number(n, out),
        S(s) => { varint(s.len(), out); out.extend(s.as_bytes()); }
        A(v) => {
            let mut body = Vec::new();
            body.extend((v.len() as u16).to_le_bytes());
            body.resize(2 + 5 * v.len(), 0);
            for (i, e) in v.iter().enumerate() {
                let mut val = body.len() as u32;
                match e {
                    Z => val = 0,
                    B(b) => val = *b as u32,
                    N(n) => enc_number(n, &mut body),
                    S(s) => { varint(s.len(), &mut body); body.extend(s.as_bytes()); }
                    _ => enc_to(e, &mut body),
                }
                body[2 + 5 * i] = e.tag();
                body[3 + 5 * i..7 + 5 * i].copy_from_slice(&val.to_le_bytes());
            }
            out.extend((body.len() as u32).to_le_bytes());
            out.extend(body);
        }
        O(m) => {
            let mut body = Vec::new();
            body.extend((m.len() as u16).to_le_bytes());
            body.resize(2 + 4 * m.len(), 0);
            let mut offs: Vec<(&str, u32)> = Vec::new();
            for (k, e) in m {
                offs.push((k, body.len() as u32));
                body.extend((k.len() as u16).to_le_bytes());
                body.extend(k.as_bytes());
                enc_to(e, &mut body);
            }
            offs.sort_by(|a, b| key_cmp(a.0, b.0));
            for (i, (_, o)) in offs.iter().enumerate() { body[2 + 4 * i..6 + 4 * i].copy_from_slice(&o.to_le_bytes()); }
            out.extend((body.len() as u32).to_le_bytes());
            out.extend(body);
        }
    }
}

/// A JSON string literal with exactly the escapes the property names.
pub fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '/' => o.push_str("\\/"),
            '\u{8}' => o.push_str("\\b"), '\t' => o.push_str("\\t"), '\n' => o.push_str("\\n"),
            '\u{c}' => o.push_str("\\f"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn num_text(n: &Number) -> String { let mut s = String::new(); n.format_to_json(&mut s).unwrap(); s }

pub fn compact(j: &J) -> String {
    let mut o = String::new();
    comp(j, &mut o);
    o
}
fn comp(j: &J, o: &mut String) {
    match j {
        Z => o.push_str("null"),
        B(b) => o.push_str(if *b { "true" } else { "false" }),
        N(n) => o.push_str(&num_text(n)),
        S(s) => o.push_str(&lit(s)),
        A(v) => { o.push('['); for (i, e) in v.iter().enumerate() { if i > 0 { o.push(',') } comp(e, o) } o.push(']') }
        O(m) => { o.push('{'); for (i, (k, e)) in J::stored(m).into_iter().enumerate() { if i > 0 { o.push(',') } o.push_str(&lit(k)); o.push(':'); comp(e, o) } o.push('}') }
    }
}
pub fn pretty(j: &J) -> String { let mut o = String::new(); pre(j, 0, &mut o); o }
fn nl(l: usize, o: &mut String) { o.push('\n'); for _ in 0..l { o.push_str("  ") } }
fn pre(j: &J, l: usize, o: &mut String) {
    match j {
        A(v) => { o.push('['); for (i, e) in v.iter().enumerate() { if i > 0 { o.push(',') } nl(l + 1, o); pre(e, l + 1, o) } nl(l, o); o.push(']') }
        O(m) => {
            o.push('{');
            for (i, (k, e)) in J::stored(m).into_iter().enumerate() {
                if i > 0 { o.push(',') }
                nl(l + 1, o);
                o.push_str(&lit(k));
                o.push_str(" : ");
                if matches!(e, A(_) | O(_)) { nl(l + 1, o) }
                pre(e, l + 1, o)
            }
            nl(l, o);
            o.push('}')
        }
        _ => comp(j, o),
    }
}

// ---- generators ----
/// Numbers and texts that the source of the tree has and the tree the contracts were written against has not.
pub static HINTS: std::sync::OnceLock<(Vec<u64>, Vec<String>)> = std::sync::OnceLock::new();
/// Now and then a number near a hint, at most `max`.
pub fn hint_n(r: &mut Rng, num: usize, den: usize, max: usize) -> Option<usize> {
    let (v, _) = HINTS.get()?;
    if v.is_empty() || !r.p(num, den) { return None; }
    let h = *r.pick(v);
    let x = match r.n(12) { 10 => h.wrapping_mul(1 + r.n(4) as u64).wrapping_add(if r.p(1, 2) { *r.pick(v) } else { r.n(12) as u64 }), 0 => h.wrapping_sub(1), 1 => h.wrapping_add(1), 2 => h.wrapping_mul(2), 3 => h.wrapping_add(2), 4 => h.wrapping_add(1 + r.n(20) as u64), 5 => r.n(h.min(1 << 40) as usize + 1) as u64, _ => h };
    if x > max as u64 || (x > 200_000 && !r.p(1, 10)) || (x > 2000 && !r.p(1, 3)) { return None; }
    Some(x as usize)
}
pub fn hint_s(r: &mut Rng, num: usize, den: usize) -> Option<String> {
    let (_, v) = HINTS.get()?;
    if v.is_empty() || !r.p(num, den) { return None; }
    Some(r.pick(v).clone())
}
const WORDS: &[&str] = &["", "a", "b", "c", "A", "aa", "ab", "ba", "bb", "abc", "key", "key1", "key2", "0", "é", "測", "a\u{0}", "\"", "\\", "/", "\n", "\u{1}", "\u{1f}", "\u{7f}", "z\t", "測試", "a b", "\u{10ffff}", "count", "type", "{}", "last"];
pub fn gen_str(r: &mut Rng) -> String {
    if let Some(n) = hint_n(r, 1, 12, 16_000) {
        let mut c: Vec<char> = vec![if r.p(1, 2) { 'x' } else { gen_char(r) }; n];
        for _ in 0..r.n(4) { if n > 0 { let i = match r.n(5) { 0 => 0, 1 => n - 1, 2 => hint_n(r, 1, 1, n - 1).unwrap_or(n - 1), _ => r.n(n) }; c[i] = gen_char(r) } }
        if r.p(1, 3) { let k = r.n(6); for _ in 0..k { c.push(gen_char(r)) } }
        return c.into_iter().collect();
    }
    if let Some(s) = hint_s(r, 1, 12) { return match r.n(5) { 0 => format!("{}{}", s, gen_str(r)), 1 => format!("{}{}", gen_str(r), s), 2 => sibling(&s, r), _ => s }; }
    match r.n(12) {
        0..=6 => r.pick(WORDS).to_string(),
        7..=9 => { let n = r.n(12); (0..n).map(|_| gen_char(r)).collect() }
        10 => { let n = *r.pick(&[126usize, 127, 128, 129, 200, 255, 256, 300]); "x".repeat(n) }
        11 if r.p(1, 2) => {
            // long runs with something special at some places, the ends among them
            let n = *r.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025]);
            let mut c: Vec<char> = vec!['x'; n];
            for _ in 0..1 + r.n(4) { let i = match r.n(4) { 0 => 0, 1 => n - 1, _ => r.n(n) }; c[i] = gen_char(r) }
            c.into_iter().collect()
        }
        _ => { let n = r.n(40); let mut s = String::new(); for _ in 0..n { s.push_str(r.pick(WORDS)); } s }
    }
}
pub fn gen_char(r: &mut Rng) -> char {
    if let Some(n) = hint_n(r, 1, 12, 0x10ffff) { if let Some(c) = char::from_u32(n as u32) { return c } }
    if let Some(s) = hint_s(r, 1, 12) { if let Some(c) = s.chars().next() { return c } }
    match r.n(8) {
        0 => (r.n(32) as u8) as char,
        1 => *r.pick(&['"', '\\', '/', '\u{7f}', ' ', '{', ',']),
        2 => char::from_u32(r.n(0x800) as u32).unwrap_or('x'),
        3 => char::from_u32(r.n(0x10ffff) as u32).unwrap_or('\u{2028}'),
        _ => (b'a' + r.n(26) as u8) as char,
    }
}
pub fn gen_num_text(r: &mut Rng) -> String {
    let sgn = if r.p(1, 3) { "-" } else { "" };
    if let Some(h) = hint_n(r, 1, 10, usize::MAX) {
        return match r.n(6) {
            0 if h < 38 => { let mut s = String::from(sgn); for _ in 0..h.max(1) { s.push((b'1' + r.n(9) as u8) as char) } s }
            1 if h < 120 => format!("{}{}e{}", sgn, r.n(1000), h),
            2 if h < 120 => format!("{}{}e-{}", sgn, r.n(1000), h),
            3 => format!("{}{}.{}", sgn, h, r.n(1000)),
            4 if h < 38 => { let mut s = format!("{}{}.", sgn, r.n(10)); for _ in 0..h.max(1) { s.push((b'1' + r.n(9) as u8) as char) } s }
            _ => format!("{}{}", sgn, h),
        };
    }
    match r.n(12) {
        0..=3 => format!("{}{}", sgn, r.n(20)),
        4 => format!("{}{}", sgn, *r.pick(&[255u64, 256, 257, 65535, 65536, 65537, 16777216, u32::MAX as u64, 1 << 53, i64::MAX as u64, u64::MAX])),
        5 => format!("{}{}.{}", sgn, r.n(1000), r.n(1000)),
        6 => format!("{}{}e{}", sgn, r.n(1000), r.n(120)),
        7 => format!("{}{}e-{}", sgn, r.n(1000), r.n(120)),
        8 => { let n = 1 + r.n(38); let mut s = String::from(sgn); s.push((b'1' + r.n(9) as u8) as char); for _ in 1..n { s.push((b'0' + r.n(10) as u8) as char) } s }
        9 => { let n = 1 + r.n(30); let mut s = format!("{}0.", sgn); for _ in 0..n { s.push((b'0' + r.n(10) as u8) as char) } s }
        10 => format!("{}{}{}", sgn, 1 + r.n(9), "0".repeat(r.n(30))),
        _ => format!("{}{}.{}0E+{}", sgn, r.n(10), r.n(100), r.n(20)),
    }
}
pub fn gen_num(r: &mut Rng) -> Number { num(&gen_num_text(r)) }
pub fn gen_scalar(r: &mut Rng) -> J { match r.n(8) { 0 | 1 => S(gen_str(r)), 2..=4 => N(gen_num(r)), 5 | 6 => B(r.p(1, 2)), _ => Z } }
pub fn gen(r: &mut Rng, depth: usize, width: usize) -> J {
    if depth == 0 || r.p(2, 5) { return gen_scalar(r); }
    if r.p(1, 2) { gen_arr(r, depth, width) } else { gen_obj(r, depth, width) }
}
pub fn gen_len(r: &mut Rng, width: usize) -> usize { if let Some(n) = hint_n(r, 1, 25, 20_000) { n } else if r.p(1, 600) { *r.pick(&[255usize, 256, 257, 300, 513, 600, 1025, 4097]) } else if r.p(1, 30) { *r.pick(&[51usize, 52, 64, 100, 130, 260]) } else { r.n(width + 1) } }
pub fn gen_arr(r: &mut Rng, depth: usize, width: usize) -> J {
    let n = gen_len(r, width);
    let d = if n > 50 { 0 } else { depth - 1 };
    let mut v: Vec<J> = (0..n).map(|_| gen(r, d, width)).collect();
    if r.p(1, rare()) { let i = r.n(v.len() + 1); v.insert(i, S(long(r))) }
    A(v)
}
fn rare() -> usize { if HINTS.get().is_some_and(|h| !h.0.is_empty()) { 40 } else { 150 } }
/// Long enough that positions behind it do not fit into two bytes.
fn long(r: &mut Rng) -> String {
    if let Some(n) = hint_n(r, 1, 2, 20_000_000) { return if r.p(1, 2) { "y".repeat(n) } else { mixed(n, n as u64) }; }
    if r.p(1, 2) { let n = *r.pick(&[3000usize, 4095, 4096, 4097, 8191, 8192, 9000, 16383, 16384, 16385, 20000]); return mixed(n, r.next()); }
    if r.p(1, 4) { let (n, s) = (65000 + r.n(70000), r.next()); return mixed(n, s); }
    let n = *r.pick(&[65400usize, 65536, 66000, 131100]);
    "y".repeat(n)
}
/// About n bytes, mostly plain, with something special here and there.
pub fn mixed(n: usize, seed: u64) -> String {
    let mut r = Rng::new(seed);
    let mut s = String::new();
    while s.len() < n { if r.p(1, 25) { s.push(gen_char(&mut r)) } else { for _ in 0..r.n(60) { s.push('x') } } }
    s
}
/// Values whose sizes lie beyond some power of two.
pub const CORNERS: u64 = 14;
pub fn corner(i: u64) -> J {
    let k = |c: &str, n: usize| c.repeat(n);
    match i {
        0..=3 => huge(i as usize),
        4 => O(vec![(k("k", 32768), N(num("5"))), (k("k", 65535), S("late".into())), ("a".into(), B(true)), (k("k", 256), A(vec![Z])), (k("l", 40000), O(vec![("x".into(), B(true))]))]),
        5 => S(k("y", 65537)),
        6 => S(mixed(70000, 6)),
        7 => A(vec![S(k("f", 3 << 19)), S("late".into()), N(num("7")), A(vec![B(true), Z])]),
        8 => O(vec![("a".into(), S(k("f", (1 << 21) - 1))), ("b".into(), Z), ("c".into(), S("late".into()))]),
        9 => S(mixed((1 << 20) + 5, 9)),
        10 => A([255usize, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 16384, 32768, 65536].iter().flat_map(|n| ["\n", "é\"", "x\"/"].map(|t| S(format!("{}{}tail\u{1}", k("x", *n), t)))).chain([S(mixed(5000, 1)), S(mixed(4096, 2)), S(mixed(4097, 3)), S(mixed(16384, 4)), S(k("/", 4096)), S(k("\n", 4097)), S(k("é", 4096))]).collect()),
        11 => O(vec![(mixed(5000, 5), S(mixed(9000, 6))), (k("\"", 4097), Z)]),
        12 => S(k("y", 65536)),
        _ => O(vec![("a".into(), S(k("f", (1 << 20) + 77))), ("b".into(), S("late".into())), ("c".into(), O(vec![("a".into(), A(vec![])), ("b".into(), N(num("-3")))]))]),
    }
}
pub fn corner_arr(i: u64) -> J { match corner(i) { A(v) => A(v), x => A(vec![x, Z, S("late".into())]) } }
pub fn corner_obj(i: u64) -> J { match corner(i) { O(m) => O(m), x => O(vec![("late".into(), S("z".into())), ("a".into(), x), ("".into(), Z)]) } }
/// Is it the turn of a corner?
pub fn turn(evals: u64) -> Option<u64> { if evals % 10 == 9 && evals / 10 < CORNERS { Some(evals / 10) } else { None } }
pub fn gen_obj(r: &mut Rng, depth: usize, width: usize) -> J {
    let n = gen_len(r, width);
    let d = if n > 50 { 0 } else { depth - 1 };
    let mut m: Vec<(String, J)> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let mut tries = 0;
    let fam = r.n(3);
    let pad = if n < 400 { hint_n(r, 1, 2, 2000) } else { None };
    while m.len() < n && tries < 4 * n + 20 {
        tries += 1;
        let k = if let Some(p) = pad.filter(|_| n > 8) {
            // keys around one length
            let p = if r.p(1, 8) { p + 1 } else { p };
            let s = r.n(20000).to_string();
            if s.len() >= p { s } else if r.p(1, 2) { format!("{:x<1$}", s, p) } else { format!("{:x>1$}", s, p) }
        } else if n > 20 {
            match fam { 0 => format!("k{}", r.n(20000)), 1 => format!("member_of_the_object_{:05}", r.n(20000)), _ => format!("{:05}_is_the_number", r.n(20000)) }
        } else if !m.is_empty() && r.p(1, 4) {
            let i = r.n(m.len());
            sibling(&m[i].0, r)
        } else {
            gen_str(r)
        };
        if seen.insert(k.clone()) { let v = gen(r, d, width); m.push((k, v)); }
    }
    if !m.is_empty() && r.p(1, rare()) { let i = r.n(m.len()); m[i].1 = S(long(r)) }
    if !m.is_empty() && r.p(1, rare()) {
        let i = r.n(m.len());
        let k = long_key(r);
        if seen.insert(k.clone()) { m[i].0 = k }
    }
    O(m)
}
/// Keys up to the longest there can be.
pub fn long_key(r: &mut Rng) -> String { let n = if let Some(n) = hint_n(r, 1, 2, 65535) { n.max(1) } else { *r.pick(&[4095usize, 4096, 5000, 16384, 32767, 32768, 40000, 65535]) }; let mut k = "k".repeat(n - 1); k.push(*r.pick(&['k', 'l'])); k }
/// Containers with more elements than a signed two-byte count can hold.
pub fn huge(i: usize) -> J {
    if i >= 2 {
        // few elements, the later ones more than 16 MiB away
        let v = vec![S("far ".repeat(17 << 18)), N(Number::from(7usize)), S("late".into()), A(vec![S("x".into()), Z, B(true)]), O(vec![("a".into(), N(Number::from(1usize)))]), B(true), Z];
        return if i == 2 { A(v) } else { O(v.into_iter().enumerate().map(|(k, x)| (format!("k{}", k), x)).collect()) };
    }
    let e = |k: usize| match k % 5 { 0 => Z, 1 => B(k % 2 == 0), 2 => N(Number::from(k)), 3 => S(format!("s{}", k % 7)), _ => A(vec![]) };
    if i == 0 { A((0..65535).map(e).collect()) } else { O((0..40000).map(|k| (format!("k{}", k), e(k))).collect()) }
}
/// A container with more elements than one byte can count, and one that differs from it in one late place only.
pub fn big_pair(r: &mut Rng) -> (J, J) {
    let n = if let Some(n) = hint_n(r, 1, 2, 65535) { n.max(2) } else if r.p(1, 8) { *r.pick(&[4097usize, 16385, 20000, 32768, 65535]) } else { *r.pick(&[256usize, 257, 258, 300, 513, 700]) };
    let e: Vec<J> = (0..n).map(|_| gen_scalar(r)).collect();
    let i = match r.n(3) { 0 => n - 1, 1 => n - 2, _ => r.n(n) };
    let mut f = e.clone();
    f[i] = mutate(&f[i], r);
    let o = |v: Vec<J>| O(v.into_iter().enumerate().map(|(k, x)| (format!("k{}", k), x)).collect());
    if r.p(1, 2) { (A(e), A(f)) } else { (o(e), o(f)) }
}
/// A string that resembles `s`: one character changed, added or taken away, at either end or inside.
pub fn sibling(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = if s.is_empty() { "identifier".chars().collect() } else { s.chars().collect() };
    let i = match r.n(3) { 0 => c.len() - 1, 1 => 0, _ => r.n(c.len()) };
    match r.n(6) {
        0..=2 => c[i] = if r.p(1, 2) { gen_char(r) } else if c[i] == 'a' { 'b' } else { 'a' },
        3 => { c.remove(i); }
        4 => c.insert(i, 'a'),
        _ if s.len() > 8000 => c.push('b'),
        _ => { let mut d = c.clone(); d.append(&mut c); c = d; }
    }
    c.into_iter().collect()
}
/// The same value written otherwise: members in another order, numbers with other digits.
pub fn disguise(j: &J, r: &mut Rng) -> J {
    match j {
        O(m) => { let mut v: Vec<_> = m.iter().map(|(k, x)| (k.clone(), disguise(x, r))).collect(); r.shuffle(&mut v); O(v) }
        A(v) => A(v.iter().map(|x| disguise(x, r)).collect()),
        N(n) => {
            let (neg, d, e) = canon(n);
            let z = if d.len() < 20 { r.n(12) } else { 0 };
            if d == "0" { return N(num(r.pick(&["0", "-0", "0.00", "0e5", "-0.0"]))); }
            let t = format!("{}{}{}e{}", if neg { "-" } else { "" }, d, "0".repeat(z), e - z as i32);
            N(Number::from_str(&t).unwrap_or(*n))
        }
        x => x.clone(),
    }
}
/// A value that differs in one place.
pub fn mutate(j: &J, r: &mut Rng) -> J {
    match j {
        O(m) if !m.is_empty() && r.p(3, 4) => {
            let mut m = m.clone();
            let i = r.n(m.len());
            match if m[i].0.len() > 65000 { 3 } else { r.n(4) } {
                0 => { m.remove(i); }
                1 => { let k = format!("{}x", m[i].0); if m.iter().all(|x| x.0 != k) { m[i].0 = k } else { m.remove(i); } }
                2 => { let k = flip(&m[i].0, r); if m.iter().all(|x| x.0 != k) { m[i].0 = k } else { m.remove(i); } }
                _ => { m[i].1 = mutate(&m[i].1, r) }
            }
            O(m)
        }
        A(v) if !v.is_empty() && r.p(3, 4) => {
            let mut v = v.clone();
            let i = r.n(v.len());
            match r.n(4) { 0 => { v.remove(i); } 1 => { let x = v[i].clone(); v.insert(i, x) } 2 if v.len() > 1 => { let j = r.n(v.len()); v.swap(i, j) } _ => v[i] = mutate(&v[i], r) }
            A(v)
        }
        S(s) => S(flip(s, r)),
        B(b) => if r.p(3, 4) { B(!b) } else { Z },
        N(n) => match r.n(4) {
            3 => { let (neg, d, e) = canon(n); let z = 38usize.saturating_sub(d.len()); let mut d = d.into_bytes(); d.resize(d.len() + z, b'0'); let l = d.len() - 1; d[l] = if d[l] == b'9' { b'8' } else { d[l] + 1 }; N(Number::from_str(&format!("{}{}e{}", if neg { "-" } else { "" }, String::from_utf8(d).unwrap(), e - z as i32)).unwrap_or(*n)) }
            0 => { let (neg, d, e) = canon(n); N(Number::from_str(&format!("{}{}e{}", if neg { "" } else { "-" }, d, e)).unwrap_or(*n)) }
            1 => { let (neg, d, e) = canon(n); N(Number::from_str(&format!("{}{}e{}", if neg { "-" } else { "" }, d, e + 1)).unwrap_or(*n)) }
            _ => { let (neg, d, e) = canon(n); let mut d = d.into_bytes(); let l = d.len() - 1; d[l] = if d[l] == b'9' { b'8' } else { d[l] + 1 }; N(Number::from_str(&format!("{}{}e{}", if neg { "-" } else { "" }, String::from_utf8(d).unwrap(), e)).unwrap_or(*n)) }
        },
        _ => gen_scalar(r),
    }
}
fn flip(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() { return "q".into(); }
    let i = r.n(c.len());
    let cased: Vec<usize> = (0..c.len()).filter(|&k| c[k].is_ascii_alphabetic()).collect();
    match r.n(4) { 3 if !cased.is_empty() => { let k = *r.pick(&cased); c[k] = ((c[k] as u8) ^ 0x20) as char } 0 => { c[i] = if c[i] == 'x' { 'y' } else { 'x' } } 1 => { c.pop(); } _ => { let l = c.len() - 1; c[l] = if c[l] == 'm' { 'n' } else { 'm' } } }
    c.into_iter().collect()
}

/// A JSON text of `j`, with random insignificant whitespace, escapes and number spellings.
pub fn text(j: &J, r: &mut Rng, o: &mut String) {
    fn ws(r: &mut Rng, o: &mut String) { while r.p(1, 6) { o.push(*r.pick(&[' ', '\n', '\t', '\r'])) } }
    ws(r, o);
    match j {
        Z => o.push_str("null"),
        B(b) => o.push_str(if *b { "true" } else { "false" }),
        N(n) => {
            if r.p(1, 2) { o.push_str(&num_text(n)) } else {
                let (neg, d, e) = canon(n);
                write!(o, "{}{}{}{}", if neg { "-" } else { "" }, d, r.pick(&["e", "E"]), e).unwrap();
            }
        }
        S(s) => strtext(s, r, o),
        A(v) => { o.push('['); for (i, e) in v.iter().enumerate() { if i > 0 { o.push(',') } text(e, r, o) } ws(r, o); o.push(']') }
        O(m) => { o.push('{'); for (i, (k, e)) in m.iter().enumerate() { if i > 0 { o.push(',') } ws(r, o); strtext(k, r, o); ws(r, o); o.push(':'); text(e, r, o) } ws(r, o); o.push('}') }
    }
    ws(r, o);
}
fn strtext(s: &str, r: &mut Rng, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        if r.p(1, 10) { let mut b = [0; 2]; for u in c.encode_utf16(&mut b) { write!(o, "\\u{:04X}", u).unwrap() } continue; }
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---- a strict JSON reader (the oracle of "is this text JSON, and what does it denote") ----
pub struct P<'a> { s: &'a [u8], i: usize, depth: usize }
/// None: not JSON. Numbers keep their literal text.
#[derive(Clone, Debug, PartialEq)]
pub enum T { O(Vec<(String, T)>), A(Vec<T>), S(String), N(String), B(bool), Z }
pub fn read_json(s: &str) -> Option<T> {
    let mut p = P { s: s.as_bytes(), i: 0, depth: 0 };
    let t = p.val()?;
    p.ws();
    if p.i == p.s.len() { Some(t) } else { None }
}
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') { self.i += 1 } }
    fn c(&self) -> Option<u8> { self.s.get(self.i).copied() }
    fn eat(&mut self, b: u8) -> Option<()> { if self.c() == Some(b) { self.i += 1; Some(()) } else { None } }
    fn word(&mut self, w: &str, t: T) -> Option<T> { if self.s[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Some(t) } else { None } }
    fn val(&mut self) -> Option<T> {
        self.ws();
        match self.c()? {
            b'n' => self.word("null", T::Z),
            b't' => self.word("true", T::B(true)),
            b'f' => self.word("false", T::B(false)),
            b'"' => Some(T::S(self.str()?)),
            b'[' => {
                self.i += 1; self.depth += 1; let mut v = vec![]; self.ws();
                if self.c()? == b']' { self.i += 1 } else { loop { v.push(self.val()?); self.ws(); if self.eat(b',').is_none() { self.eat(b']')?; break } } }
                self.depth -= 1; Some(T::A(v))
            }
            b'{' => {
                self.i += 1; self.depth += 1; let mut v = vec![]; self.ws();
                if self.c()? == b'}' { self.i += 1 } else { loop { self.ws(); let k = self.str()?; self.ws(); self.eat(b':')?; let x = self.val()?; v.push((k, x)); self.ws(); if self.eat(b',').is_none() { self.eat(b'}')?; break } } }
                self.depth -= 1; Some(T::O(v))
            }
            _ => self.num(),
        }
    }
    fn digits(&mut self) -> Option<()> { let b = self.i; while matches!(self.c(), Some(b'0'..=b'9')) { self.i += 1 } if self.i > b { Some(()) } else { None } }
    fn num(&mut self) -> Option<T> {
        let b = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_none() { self.digits()? }
        if self.eat(b'.').is_some() { self.digits()? }
        if matches!(self.c(), Some(b'e' | b'E')) { self.i += 1; if matches!(self.c(), Some(b'+' | b'-')) { self.i += 1 } self.digits()? }
        Some(T::N(String::from_utf8(self.s[b..self.i].to_vec()).unwrap()))
    }
    fn hex(&mut self) -> Option<u32> { let h = self.s.get(self.i..self.i + 4)?; if !h.iter().all(|c| c.is_ascii_hexdigit()) { return None } self.i += 4; u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok() }
    fn str(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = self.c()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).ok(),
                0..=31 => return None,
                b'\\' => {
                    let e = self.c()?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'b' => o.push(8), b'f' => o.push(12), b'n' => o.push(10), b'r' => o.push(13), b't' => o.push(9),
                        b'u' => {
                            let mut u = self.hex()?;
                            if (0xD800..0xDC00).contains(&u) { self.eat(b'\\')?; self.eat(b'u')?; let l = self.hex()?; if !(0xDC00..0xE000).contains(&l) { return None } u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); }
                            let mut b = [0; 4];
                            o.extend(char::from_u32(u)?.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return None,
                    }
                }
                c => o.push(c),
            }
        }
    }
}
/// What a number literal must read as.
pub enum Lit { Overflow, Zero, Near }
/// digits (no leading or trailing zeros) and decimal exponent of the first digit's place; None for 0.
pub fn lit_parts(t: &str) -> Option<(bool, String, i64)> {
    let (neg, t) = match t.strip_prefix('-') { Some(x) => (true, x), None => (false, t) };
    let (m, e) = match t.find(['e', 'E']) { Some(p) => (&t[..p], t[p + 1..].parse::<i128>().unwrap_or(if t[p + 1..].starts_with('-') { i64::MIN as i128 / 4 } else { i64::MAX as i128 / 4 })), None => (t, 0) };
    let e = e.clamp(i64::MIN as i128 / 4, i64::MAX as i128 / 4) as i64;
    let (ip, fp) = match m.find('.') { Some(p) => (&m[..p], &m[p + 1..]), None => (m, "") };
    let all = format!("{}{}", ip, fp);
    let lead = all.bytes().take_while(|b| *b == b'0').count();
    if lead == all.len() { return None; }
    let d = all[lead..].trim_end_matches('0').to_string();
    Some((neg, d, ip.len() as i64 - 1 - lead as i64 + e))
}
/// Does `n` equal the literal, rounded to at least 38 significant digits?
pub fn near(t: &str, n: &Number) -> bool {
    let Some((neg, d, top)) = lit_parts(t) else { return canon(n).1 == "0" };
    let (nn, nd, ne) = canon(n);
    if nd == "0" { return false; }
    let ntop = ne as i64 + nd.len() as i64 - 1;
    if nn != neg { return false; }
    // compare as digit strings aligned at place max(top, ntop) down to 60 digits below
    let hi = top.max(ntop);
    if (top - ntop).abs() > 1 { return false; }
    let w = 38 + 60;
    let al = |d: &str, t: i64| { let mut s = "0".repeat((hi - t) as usize); s.push_str(d); let mut cut: Vec<u8> = s.bytes().map(|b| b - b'0').collect(); cut.resize(cut.len().max(w), 0); cut.truncate(w); cut };
    let a = al(&d, top);
    let b = al(&nd, ntop);
    // |a - b| <= 5 at the place 38 below the literal's first digit
    let (x, y) = if a >= b { (a, b) } else { (b, a) };
    let mut diff = vec![0u8; w];
    let mut borrow = 0i8;
    for i in (0..w).rev() { let v = x[i] as i8 - y[i] as i8 - borrow; if v < 0 { diff[i] = (v + 10) as u8; borrow = 1 } else { diff[i] = v as u8; borrow = 0 } }
    let place = (hi - top) as usize + 38; // half a unit of the 38th digit is 5 at this index
    let mut lim = vec![0u8; w];
    lim[place] = 5;
    if d.len() <= 38 { return diff.iter().all(|x| *x == 0); }
    lim[w - 1] += 1; // digits cut off
    diff <= lim
}
pub fn lit_class(t: &str) -> Lit {
    match lit_parts(t) { None => Lit::Zero, Some((_, _, top)) => if top >= 126 { Lit::Overflow } else if top < -130 { Lit::Zero } else { Lit::Near } }
}
