use crate::model::{J::*, *};
use crate::path::*;
use crate::Ctx;
use yason::*;

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } } }

pub fn run(p: &str, c: &mut Ctx) {
    match p {
        "C01" => c01(c), "C02" => c02(c), "C03" => c03(c), "C04" => c04(c), "C05" => c05(c), "C06" => c06(c), "C07" => c07(c), "C08" => c08(c),
        "C09" => c09(c), "C10" => c10(c), "C11" => c11(c), "C12" => c12(c), "C13" => c13(c), "C14" => c14(c), "C15" => c15(c), "C16" => c16(c),
        "C17" => c17(c), "C18" => c18(c), "C19" => c19(c), "C20" => c20(c), "C21" => c21(c), "C22" => c22(c), "C23" => c23(c), "C24" => c24(c),
        // the inputs listed in known_findings.txt
        "K12" => { let t = r#"{"$serde_json::private::Number":"5"}"#; c.case(|| t.into(), true, || json_case(t, &mut Rng::new(1))) }
        "K14" => { let j = reserved(); c.case(|| order(&j), true, || c14_case(&j)) }
        "K24" => { let j = reserved(); c.case(|| order(&j), true, || c24_case(&j)) }
        _ => panic!("unknown property"),
    }
}
fn reserved() -> J { O(vec![("$serde_json::private::Number".into(), S("5".into()))]) }

fn y(b: &[u8]) -> &Yason { unsafe { Yason::new_unchecked(b) } }
/// A buffer whose spare capacity holds junk.
fn dirty(r: &mut Rng, keep: &[u8]) -> Vec<u8> {
    let mut v = keep.to_vec();
    let n = r.n(400);
    v.extend((0..n).map(|_| (r.next() as u8) | 1));
    v.truncate(keep.len());
    v
}
fn es<T: std::fmt::Debug, E: std::fmt::Debug>(r: &Result<T, E>) -> String { let mut s = format!("{:?}", r); s.truncate(s.char_indices().nth(300).map_or(s.len(), |x| x.0)); s }
fn dt(tag: u8) -> DataType { [DataType::Null, DataType::Object, DataType::Array, DataType::String, DataType::Number, DataType::Bool, DataType::Null][tag as usize] }

// ---- reading a value back through the API ----
fn back(v: &Value) -> Result<J, String> {
    Ok(match v {
        Value::Object(o) => back_obj(o)?,
        Value::Array(a) => back_arr(a)?,
        Value::String(s) => { std::str::from_utf8(s.as_bytes()).map_err(|e| e.to_string())?; S(s.to_string()) }
        Value::Number(n) => N(*n),
        Value::Bool(b) => B(*b),
        Value::Null => Z,
    })
}
fn back_arr(a: &Array) -> Result<J, String> {
    let n = a.len().map_err(|e| e.to_string())?;
    let mut v = vec![];
    for i in 0..n { v.push(back(&a.get(i).map_err(|e| format!("get({}): {}", i, e))?)?); }
    Ok(A(v))
}
fn back_obj(o: &Object) -> Result<J, String> {
    let mut m = vec![];
    for e in o.iter().map_err(|e| e.to_string())? { let (k, v) = e.map_err(|e| e.to_string())?; m.push((k.to_string(), back(&v)?)); }
    Ok(O(m))
}
fn back_y(y: &Yason) -> Result<J, String> { back(&Value::try_from(y).map_err(|e| e.to_string())?) }
fn same(got: &J, want: &J, what: &str) -> R { if j_eq(got, want) { Ok(()) } else { Err(format!("{}: got {} want {}", what, short(got), short(want))) } }
/// A nested object or array is a value of its own: its bytes are its encoding.
fn same_value(v: &Value, want: &J, what: &str) -> R {
    same(&back(v)?, want, what)?;
    match v {
        Value::Object(o) => ck!(o.yason().as_bytes() == &enc(want)[..], "{}: the bytes of the nested object", what),
        Value::Array(a) => ck!(a.yason().as_bytes() == &enc(want)[..], "{}: the bytes of the nested array", what),
        _ => {}
    }
    Ok(())
}
fn short(j: &J) -> String { let s = compact(j); s.chars().take(300).collect() }

// ---- building through the builders ----
macro_rules! fill_arr { ($b:expr, $v:expr) => { for e in $v {
    match e {
        Z => { $b.push_null().map_err(|e| e.to_string())?; }
        B(x) => { $b.push_bool(*x).map_err(|e| e.to_string())?; }
        N(x) => { $b.push_number(x).map_err(|e| e.to_string())?; }
        S(x) => { $b.push_string(x).map_err(|e| e.to_string())?; }
        A(x) => { let mut k = $b.push_array(x.len() as u16).map_err(|e| e.to_string())?; arr_ref(&mut k, x)?; k.finish().map_err(|e| e.to_string())?; }
        O(x) => { let (s, x) = sorted_for(x); let mut k = $b.push_object(x.len() as u16, s).map_err(|e| e.to_string())?; obj_ref(&mut k, &x)?; k.finish().map_err(|e| e.to_string())?; }
    } } } }
macro_rules! fill_obj { ($b:expr, $m:expr) => { for (key, e) in $m {
    match e {
        Z => { $b.push_null(key).map_err(|e| e.to_string())?; }
        B(x) => { $b.push_bool(key, *x).map_err(|e| e.to_string())?; }
        N(x) => { $b.push_number(key, x).map_err(|e| e.to_string())?; }
        S(x) => { $b.push_string(key, x).map_err(|e| e.to_string())?; }
        A(x) => { let mut k = $b.push_array(key, x.len() as u16).map_err(|e| e.to_string())?; arr_ref(&mut k, x)?; k.finish().map_err(|e| e.to_string())?; }
        O(x) => { let (s, x) = sorted_for(x); let mut k = $b.push_object(key, x.len() as u16, s).map_err(|e| e.to_string())?; obj_ref(&mut k, &x)?; k.finish().map_err(|e| e.to_string())?; }
    } } } }
// A third of the objects are built with the keys-are-sorted flag when their members happen to be in order.
fn sorted_for(m: &Vec<(String, J)>) -> (bool, Vec<(String, J)>) { (m.len() % 3 != 1 && m.windows(2).all(|w| key_cmp(&w[0].0, &w[1].0).is_lt()), m.clone()) }
fn arr_ref(b: &mut ArrayRefBuilder, v: &[J]) -> R { fill_arr!(b, v); Ok(()) }
fn obj_ref(b: &mut ObjectRefBuilder, m: &[(String, J)]) -> R { fill_obj!(b, m); Ok(()) }
fn build_owned(j: &J) -> Result<Vec<u8>, String> {
    Ok(match j {
        Z => Scalar::null().map_err(|e| e.to_string())?.as_bytes().to_vec(),
        B(x) => Scalar::bool(*x).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        N(x) => Scalar::number(x).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        S(x) => Scalar::string(x).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        A(v) => { let mut b = ArrayBuilder::try_new(v.len() as u16).map_err(|e| e.to_string())?; fill_arr!(b, v); b.finish().map_err(|e| e.to_string())?.as_bytes().to_vec() }
        O(m) => { let (s, m) = sorted_for(m); let mut b = ObjectBuilder::try_new(m.len() as u16, s).map_err(|e| e.to_string())?; fill_obj!(b, &m); b.finish().map_err(|e| e.to_string())?.as_bytes().to_vec() }
    })
}
/// Builds after `buf`'s contents; returns the view's bytes.
fn build_ref(j: &J, buf: &mut Vec<u8>) -> Result<Vec<u8>, String> {
    Ok(match j {
        Z => Scalar::null_with_vec(buf).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        B(x) => Scalar::bool_with_vec(*x, buf).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        N(x) => Scalar::number_with_vec(x, buf).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        S(x) => Scalar::string_with_vec(x, buf).map_err(|e| e.to_string())?.as_bytes().to_vec(),
        A(v) => { let mut b = ArrayRefBuilder::try_new(buf, v.len() as u16).map_err(|e| e.to_string())?; fill_arr!(b, v); b.finish().map_err(|e| e.to_string())?.as_bytes().to_vec() }
        O(m) => { let (s, m) = sorted_for(m); let mut b = ObjectRefBuilder::try_new(buf, m.len() as u16, s).map_err(|e| e.to_string())?; fill_obj!(b, &m); b.finish().map_err(|e| e.to_string())?.as_bytes().to_vec() }
    })
}
fn built_both(j: &J, r: &mut Rng, f: impl Fn(&[u8], &str) -> R) -> R {
    f(&build_owned(j)?, "owned")?;
    let n = r.n(9);
    let pre: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let mut buf = dirty(r, &pre);
    let v = build_ref(j, &mut buf)?;
    ck!(buf[..n] == pre[..], "the bytes before the value changed: {:?} -> {:?}", pre, &buf[..n]);
    ck!(buf[n..] == v[..], "the returned value does not cover exactly the appended bytes");
    f(&v, "appended")
}

// ---- C01 ----
fn mismatch<T: std::fmt::Debug>(r: YasonResult2<T>, exp: u8, act: u8) -> R {
    match r { Err(YasonError::UnexpectedType { expected, actual }) if expected == dt(exp) && actual == dt(act) => Ok(()), r => Err(format!("expected UnexpectedType {{ {:?}, {:?} }}, got {}", dt(exp), dt(act), es(&r))) }
}
type YasonResult2<T> = Result<T, YasonError>;
fn scalar_reads(yy: &Yason, j: &J) -> R {
    let t = j.tag();
    ck!(yy.data_type().ok() == Some(dt(t)), "data_type {}", es(&yy.data_type()));
    match j { S(s) => ck!(yy.string().ok() == Some(s.as_str()), "string() {}", es(&yy.string())), _ => mismatch(yy.string(), 3, t)? }
    match j { N(n) => ck!(yy.number().is_ok_and(|x| canon(&x) == canon(n)), "number() {}", es(&yy.number())), _ => mismatch(yy.number(), 4, t)? }
    match j { B(b) => ck!(yy.bool().ok() == Some(*b), "bool() {}", es(&yy.bool())), _ => mismatch(yy.bool(), 5, t)? }
    ck!(yy.is_null().ok() == Some(t == 6), "is_null() {}", es(&yy.is_null()));
    match j { O(_) => ck!(yy.object().is_ok(), "object()"), _ => mismatch(yy.object().map(|_| ()), 1, t)? }
    match j { A(_) => ck!(yy.array().is_ok(), "array()"), _ => mismatch(yy.array().map(|_| ()), 2, t)? }
    same(&back_y(yy)?, j, "Value::try_from")
}
fn c01(c: &mut Ctx) {
    let mut fixed = vec![Z, B(true), B(false)];
    for n in [0usize, 1, 127, 128, 16383, 16384, 65535, 65536, 2097151, 2097152] { fixed.push(S("s".repeat(n))) }
    for t in ["0", "-0", "1", "255", "256", "65535", "65536", "-1", "1e125", "-9.9e125", "1e-130", "99999999999999999999999999999999999999", "0.00000000000000000000000000000000000001"] { fixed.push(N(num(t))) }
    let mut i = 0;
    while i < fixed.len() || c.more(100) {
        let j = if i < fixed.len() { fixed[i].clone() } else { gen_scalar(&mut c.rng) };
        i += 1;
        let mut r = Rng::new(c.rng.next());
        c.case(|| format!("scalar {}", compact(&j)), true, || built_both(&j, &mut r, |b, how| scalar_reads(y(b), &j).map_err(|e| format!("{}: {}", how, e))));
        if c.failed() { return; }
    }
    // containers through the mismatching accessors
    while c.evals() < 40 { let j = gen(&mut c.rng, 2, 3); c.case(|| compact(&j), true, || scalar_reads(y(&enc(&j)), &j)); }
}

// ---- C02 ----
fn c02(c: &mut Ctx) {
    let mut lens: Vec<usize> = (0..300).collect();
    lens.extend((300..70000).step_by(if c.thorough { 1 } else { 37 }));
    for b in [1usize << 7, 1 << 14, 1 << 21] { for d in 0..5 { lens.push(b + d - 2) } }
    let mut r = Rng::new(c.rng.next());
    for _ in 0..12 { lens.push(70000 + r.n(3_000_000)) }
    for _ in 0..200 { if let Some(n) = hint_n(&mut r, 1, 1, (1 << 28) - 1) { lens.push(n) } }
    lens.push((1 << 28) - 1);
    let big = "v".repeat(1 << 28);
    for n in lens {
        let s = &big[..n];
        c.case(|| format!("string length {}", n), true, || {
            let mut buf = Vec::new();
            let v = Scalar::string_with_vec(s, &mut buf).map_err(|e| e.to_string())?.as_bytes();
            let w = if n < 128 { 1 } else if n < 16384 { 2 } else if n < 2097152 { 3 } else { 4 };
            ck!(v.len() == 1 + w + n, "{} bytes for the length, want {}", v.len() as i64 - 1 - n as i64, w);
            let mut got = 0usize;
            for i in 0..w { ck!((v[1 + i] & 0x80 != 0) == (i + 1 < w), "continuation bit of byte {} of {:?}", i, &v[1..1 + w]); got |= ((v[1 + i] & 0x7f) as usize) << (7 * i); }
            ck!(got == n, "encoded length reads {}", got);
            let total = v.len();
            let after = [0xffu8, 0x80, 0x01, 0x00][n % 4];
            buf.extend([after; 5]);
            let s2 = y(&buf).string().map_err(|e| e.to_string())?;
            ck!(s2.as_ptr() == buf[1 + w..].as_ptr() && s2.len() == n, "decoded a string of {} bytes at {}", s2.len(), s2.as_ptr() as isize - buf.as_ptr() as isize);
            buf.truncate(total);
            // truncated input
            let cuts: Vec<usize> = (2..w + 2).chain([total - 1]).filter(|k| *k >= 2 && *k < total).collect();
            for k in cuts {
                match y(&buf[..k]).string() { Err(YasonError::IndexOutOfBounds { len, index }) if len == k && (k > w || index == k) => {} r => return Err(format!("truncated to {} bytes: {}", k, es(&r))) }
            }
            Ok(())
        });
    }
    // the same inside arrays and objects
    for n in [0usize, 1, 127, 128, 16383, 16384, 20000] {
        let j = A(vec![S(big[..n].into()), O(vec![("k".into(), S(big[..n].into()))]), S("end".into())]);
        c.case(|| format!("array holding strings of length {}", n), true, || { let b = build_owned(&j)?; ck!(b == enc(&j), "bytes differ"); same(&back_y(y(&b))?, &j, "read back") });
    }
}

// ---- C03..C06 ----
fn c03(c: &mut Ctx) {
    while c.more(100) {
        let j = if c.evals() == 0 { A(vec![]) } else if c.evals() == 1 { A((0..65535).map(|i| if i % 2 == 0 { Z } else { B(i % 3 == 0) }).collect()) } else if let Some(i) = turn(c.evals()) { corner_arr(i) } else { gen_arr(&mut c.rng, 4, 6) };
        let mut r = Rng::new(c.rng.next());
        c.case(|| compact(&j), matches!(&j, A(v) if !v.is_empty()), || built_both(&j, &mut r, |b, how| {
            let A(v) = &j else { unreachable!() };
            let a = y(b).array().map_err(|e| format!("{}: {}", how, e))?;
            ck!(a.len().ok() == Some(v.len()) && a.is_empty().ok() == Some(v.is_empty()), "{}: len {}", how, es(&a.len()));
            same(&back_arr(&a)?, &j, how)?;
            let mut it = a.iter().map_err(|e| e.to_string())?;
            for (i, w) in v.iter().enumerate() { same_value(&it.next().ok_or(format!("iterator ends at {}", i))?.map_err(|e| e.to_string())?, w, "iterator")?; same_value(&a.get(i).map_err(|e| e.to_string())?, w, "get")? }
            ck!(it.next().is_none(), "iterator goes on");
            Ok(())
        }));
    }
}
fn near_keys(m: &[(String, J)], r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "zz".into(), "a".into()];
    for (k, _) in m.iter().take(20) {
        v.push(format!("{}a", k));
        let mut c: Vec<char> = k.chars().collect();
        if let Some(x) = c.last_mut() { *x = if *x == 'a' { 'b' } else { 'a' } }
        v.push(c.iter().collect());
        c.pop();
        v.push(c.iter().collect());
        v.push(k.to_uppercase());
        v.push(sibling(k, r));
    }
    v.push(gen_str(r));
    v.retain(|k| m.iter().all(|x| &x.0 != k));
    v
}
fn c04(c: &mut Ctx) {
    while c.more(100) {
        let j = if c.evals() == 0 { O(vec![]) } else if let Some(i) = turn(c.evals()) { corner_obj(i) } else { gen_obj(&mut c.rng, 3, 7) };
        let mut r = Rng::new(c.rng.next());
        c.case(|| format!("push order {}", order(&j)), matches!(&j, O(v) if v.len() > 1), || {
            let O(m) = &j else { unreachable!() };
            let absent = near_keys(m, &mut r);
            let look = |b: &[u8], how: &str| -> R {
                let o = y(b).object().map_err(|e| format!("{}: {}", how, e))?;
                ck!(o.len().ok() == Some(m.len()) && o.is_empty().ok() == Some(m.is_empty()), "{}: len {}", how, es(&o.len()));
                for (k, v) in m { ck!(o.contains_key(k).ok() == Some(true), "contains_key({:?})", k); match o.get(k) { Ok(Some(x)) => same_value(&x, v, &format!("{}: get({:?})", how, k))?, r => return Err(format!("{}: get({:?}) = {}", how, k, es(&r))) } }
                for k in &absent { match o.get(k) { Ok(None) => {} r => return Err(format!("{}: get({:?}) of an absent key = {}", how, k, es(&r))) } ck!(o.contains_key(k).ok() == Some(false), "contains_key({:?})", k); }
                same(&back_obj(&o)?, &j, how)
            };
            built_both(&j, &mut r, look)?;
            // never told sorted
            let mut b = ObjectBuilder::try_new(m.len() as u16, false).map_err(|e| e.to_string())?;
            fill_obj!(b, m);
            look(b.finish().map_err(|e| e.to_string())?.as_bytes(), "unsorted flag")?;
            // told sorted, pushed in order
            let mut s = m.clone();
            s.sort_by(|a, b| key_cmp(&a.0, &b.0));
            let mut b = ObjectBuilder::try_new(m.len() as u16, true).map_err(|e| e.to_string())?;
            fill_obj!(b, &s);
            look(b.finish().map_err(|e| e.to_string())?.as_bytes(), "sorted flag")
        });
    }
}
fn order(j: &J) -> String { match j { O(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", lit(k), order(v))).collect::<Vec<_>>().join(",")), A(v) => format!("[{}]", v.iter().map(order).collect::<Vec<_>>().join(",")), x => compact(x) } }
fn iter_ok(b: &[u8], m: &[(String, J)]) -> R {
    let o = y(b).object().map_err(|e| e.to_string())?;
    let st = J::stored(m);
    let es1: Vec<_> = o.iter().map_err(|e| e.to_string())?.collect::<Result<_, _>>().map_err(|e| e.to_string())?;
    let ks: Vec<_> = o.key_iter().map_err(|e| e.to_string())?.collect::<Result<Vec<&str>, _>>().map_err(|e| e.to_string())?;
    let vs: Vec<_> = o.value_iter().map_err(|e| e.to_string())?.collect::<Result<Vec<Value>, _>>().map_err(|e| e.to_string())?;
    ck!(es1.len() == st.len() && ks.len() == st.len() && vs.len() == st.len(), "{} entries, {} keys, {} values of {}", es1.len(), ks.len(), vs.len(), st.len());
    for (i, (k, v)) in st.into_iter().enumerate() {
        ck!(es1[i].0 == k && ks[i] == k, "position {}: entry key {:?}, key {:?}, want {:?}", i, es1[i].0, ks[i], k);
        same(&back(&es1[i].1)?, v, "entry value")?;
        same(&back(&vs[i])?, v, "value")?;
    }
    Ok(())
}
fn c05(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()) { corner_obj(i) } else { gen_obj(&mut c.rng, 2, 9) };
        let mut r = Rng::new(c.rng.next());
        c.case(|| format!("push order {}", order(&j)), matches!(&j, O(v) if v.len() > 1), || {
            let O(m) = &j else { unreachable!() };
            iter_ok(&enc(&j), m).map_err(|e| format!("reference bytes: {}", e))?;
            let mut p = m.clone();
            for _ in 0..2 { iter_ok(&build_owned(&O(p.clone()))?, m)?; r.shuffle(&mut p); }
            Ok(())
        });
    }
}
fn c06(c: &mut Ctx) {
    let big = S("s".repeat(70000));
    let mut fixed = vec![A(vec![big.clone(), Z, B(true)]), O(vec![("b".into(), big), ("".into(), Z), ("a".into(), A(vec![]))])];
    fixed.push(O(vec![("k".repeat(65535), Z), ("k".repeat(300), B(false))]));
    fixed.push(A((0..300).map(|i| N(num(&i.to_string()))).collect()));
    for i in 0..CORNERS { fixed.push(corner(i)) }
    fixed.push(O((0..300).map(|i| (format!("k{}", (i * 7) % 300), N(num(&i.to_string())))).collect()));
    let mut i = 0;
    while i < fixed.len() || c.more(100) {
        let j = if i < fixed.len() { fixed[i].clone() } else { gen(&mut c.rng, 4, 6) };
        i += 1;
        let mut r = Rng::new(c.rng.next());
        c.case(|| format!("push order {}", order(&j)), true, || {
            let want = enc(&j);
            built_both(&j, &mut r, |b, how| {
                let d = b.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len()));
                ck!(b == want, "{}: {} bytes, want {}; first difference at {}: {:?} want {:?}", how, b.len(), want.len(), d, &b[d..b.len().min(d + 12)], &want[d..want.len().min(d + 12)]);
                Ok(())
            })
        });
    }
}

// ---- C07 ----
fn count_err<T>(r: Result<T, BuildError>, e: u16, a: u16) -> R {
    match r { Err(BuildError::InconsistentElementCount { expected, actual }) if expected == e && actual == a => Ok(()), Err(x) => Err(format!("expected a count mismatch {} / {}, got {:?}", e, a, x)), Ok(_) => Err(format!("expected a count mismatch {} / {}, got success", e, a)) }
}
fn inner_err<T>(r: Result<T, BuildError>) -> R { match r { Err(BuildError::InnerUncompletedError) => Ok(()), Err(x) => Err(format!("expected the unfinished builder to be reported, got {:?}", x)), Ok(_) => Err("accepted although an embedded builder is unfinished".into()) } }
fn long_err<T>(r: Result<T, BuildError>, n: usize) -> R { match r { Err(BuildError::StringTooLong(m)) if m == n => Ok(()), Err(x) => Err(format!("expected StringTooLong({}), got {:?}", n, x)), Ok(_) => Err(format!("a text of {} bytes was accepted", n)) } }
fn zeros_str(n: usize) -> String { unsafe { String::from_utf8_unchecked(vec![0; n]) } }
fn s_err<T>(r: Result<T, BuildError>) -> Result<T, String> { r.map_err(|e| e.to_string()) }
/// Random sequences of allowed and refused calls, against a model of the builder.
macro_rules! drive { ($name:ident, $arr:ty) => {
    #[allow(unused)]
    fn $name(b: &mut $arr, n: usize, r: &mut Rng, depth: usize, big: &str, got: &mut Vec<J>) -> Result<bool, String> {
        // returns false if an embedded builder was left unfinished
        for _ in 0..(n + 3) {
            if got.len() == n {
                match r.n(4) { 0 => count_err(b.push_bool(true).map(|_| ()), n as u16, (n as u16).saturating_add(1))?, 1 => count_err(b.push_string("x").map(|_| ()), n as u16, n as u16 + 1)?, 2 => if depth < 5 { count_err(b.push_array(1).map(|_| ()), n as u16, n as u16 + 1)? }, _ => return Ok(true) }
                continue;
            }
            match r.n(10) {
                0 => { s_err(b.push_null())?; got.push(Z) }
                1 => { s_err(b.push_bool(true))?; got.push(B(true)) }
                2 => { let x = gen_num(r); s_err(b.push_number(&x))?; got.push(N(x)) }
                3 | 4 => { let x = gen_str(r); s_err(b.push_string(&x))?; got.push(S(x)) }
                5 => long_err(b.push_string(big).map(|_| ()), big.len())?,
                6 => if r.p(1, 12) { return Ok(true) },
                7 if depth < 5 => {
                    let m = r.n(4);
                    let mut k = s_err(b.push_array(m as u16))?;
                    let mut v = vec![];
                    let fin = drive_ref(&mut k, m, r, depth + 1, big, &mut v)?;
                    if fin && v.len() == m && !r.p(1, 10) { s_err(k.finish())?; got.push(A(v)) }
                    else { if fin && v.len() < m { count_err(k.finish().map(|_| ()), m as u16, v.len() as u16)? } else if !fin { inner_err(k.finish().map(|_| ()))? } else { drop(k) }
                        inner_err(b.push_null().map(|_| ()))?; inner_err(b.push_array(0).map(|_| ()))?; return Ok(false) }
                }
                _ if depth < 5 => {
                    let m = r.n(4);
                    let mut k = s_err(b.push_object(m as u16, false))?;
                    let mut v = vec![];
                    let fin = drive_obj(&mut k, m, r, depth + 1, big, &mut v)?;
                    if fin && v.len() == m && !r.p(1, 10) { s_err(k.finish())?; got.push(O(v)) }
                    else { if fin && v.len() < m { count_err(k.finish().map(|_| ()), m as u16, v.len() as u16)? } else if !fin { inner_err(k.finish().map(|_| ()))? } else { drop(k) }
                        inner_err(b.push_bool(true).map(|_| ()))?; inner_err(b.push_object(0, true).map(|_| ()))?; return Ok(false) }
                }
                _ => {}
            }
        }
        Ok(true)
    } } }
macro_rules! drive_o { ($name:ident, $obj:ty) => {
    #[allow(unused)]
    fn $name(b: &mut $obj, n: usize, r: &mut Rng, depth: usize, big: &str, got: &mut Vec<(String, J)>) -> Result<bool, String> {
        for _ in 0..(n + 3) {
            let mut key = gen_str(r);
            while got.iter().any(|x| x.0 == key) { key.push('k') }
            if got.len() == n {
                match r.n(4) { 0 => count_err(b.push_bool(&key, true).map(|_| ()), n as u16, n as u16 + 1)?, 1 => count_err(b.push_string(&key, "x").map(|_| ()), n as u16, n as u16 + 1)?, 2 => if depth < 5 { count_err(b.push_object(&key, 1, false).map(|_| ()), n as u16, n as u16 + 1)? }, _ => return Ok(true) }
                continue;
            }
            match r.n(11) {
                0 => { s_err(b.push_null(&key))?; got.push((key, Z)) }
                1 => { s_err(b.push_bool(&key, false))?; got.push((key, B(false))) }
                2 => { let x = gen_num(r); s_err(b.push_number(&key, &x))?; got.push((key, N(x))) }
                3 | 4 => { let x = gen_str(r); s_err(b.push_string(&key, &x))?; got.push((key, S(x))) }
                5 => long_err(b.push_string(&key, big).map(|_| ()), big.len())?,
                6 => long_err(b.push_bool(&big[..65536], true).map(|_| ()), 65536)?,
                7 => if r.p(1, 12) { return Ok(true) } else if depth < 5 { long_err(b.push_array(&big[..70000], 1).map(|_| ()), 70000)?; long_err(b.push_null(&big[..65536]).map(|_| ()), 65536)? },
                8 if depth < 5 => {
                    let m = r.n(4);
                    let mut k = s_err(b.push_array(&key, m as u16))?;
                    let mut v = vec![];
                    let fin = drive_ref(&mut k, m, r, depth + 1, big, &mut v)?;
                    if fin && v.len() == m && !r.p(1, 10) { s_err(k.finish())?; got.push((key, A(v))) }
                    else { if fin && v.len() < m { count_err(k.finish().map(|_| ()), m as u16, v.len() as u16)? } else if !fin { inner_err(k.finish().map(|_| ()))? } else { drop(k) }
                        key.push('k'); inner_err(b.push_null(&key).map(|_| ()))?; inner_err(b.push_array(&key, 0).map(|_| ()))?; return Ok(false) }
                }
                _ if depth < 5 => {
                    let m = r.n(4);
                    let mut k = s_err(b.push_object(&key, m as u16, false))?;
                    let mut v = vec![];
                    let fin = drive_obj(&mut k, m, r, depth + 1, big, &mut v)?;
                    if fin && v.len() == m && !r.p(1, 10) { s_err(k.finish())?; got.push((key, O(v))) }
                    else { if fin && v.len() < m { count_err(k.finish().map(|_| ()), m as u16, v.len() as u16)? } else if !fin { inner_err(k.finish().map(|_| ()))? } else { drop(k) }
                        key.push('k'); inner_err(b.push_number(&key, num("1")).map(|_| ()))?; inner_err(b.push_object(&key, 0, true).map(|_| ()))?; return Ok(false) }
                }
                _ => {}
            }
        }
        Ok(true)
    } } }
drive!(drive_own, ArrayBuilder);
drive!(drive_ref, ArrayRefBuilder);
drive_o!(drive_obj, ObjectRefBuilder);
drive_o!(drive_obj_own, ObjectBuilder);
fn c07(c: &mut Ctx) {
    let mut counts = vec![255u16, 256, 257, 32767, 32768, 65535];
    for _ in 0..12 { if let Some(n) = hint_n(&mut c.rng, 1, 1, 65534) { counts.push(n.max(1) as u16) } }
    for n in counts {
        for less in [0u16, 1, n / 2, n] {
            c.case(|| format!("{} elements declared, {} pushed", n, n - less), true, || {
                let k = n - less;
                let mut pre = vec![7u8; 3];
                let mut b = s_err(ArrayBuilder::try_new(n))?;
                for _ in 0..k { s_err(b.push_null())?; }
                let g = b.finish().map(|x| x.as_bytes().to_vec());
                if less > 0 { count_err(g, n, k)? } else { let g = s_err(g)?; ck!(g == enc(&A(vec![Z; n as usize])), "array"); }
                let mut b = s_err(ArrayRefBuilder::try_new(&mut pre, n))?;
                for _ in 0..k { s_err(b.push_null())?; }
                if less == 0 { ck!(b.push_bool(true).is_err(), "one element more than declared accepted") }
                let g = b.finish().map(|x| x.as_bytes().to_vec());
                if less > 0 { count_err(g, n, k)? } else { ck!(s_err(g)?.len() == 7 + 5 * n as usize, "array in a buffer"); }
                let keys: Vec<String> = (0..k).map(|i| format!("{:05}", i)).collect();
                let mut b = s_err(ObjectBuilder::try_new(n, true))?;
                for x in &keys { s_err(b.push_null(x))?; }
                let g = b.finish().map(|x| x.as_bytes().to_vec());
                if less > 0 { count_err(g, n, k)? } else { let g = s_err(g)?; ck!(g == enc(&O(keys.iter().map(|x| (x.clone(), Z)).collect())), "object"); }
                let mut b = s_err(ObjectRefBuilder::try_new(&mut pre, n, true))?;
                for x in &keys { s_err(b.push_null(x))?; }
                if less == 0 { ck!(b.push_bool("x", true).is_err(), "one member more than declared accepted") }
                let g = b.finish().map(|x| x.as_bytes().to_vec());
                if less > 0 { count_err(g, n, k)? } else { s_err(g)?; }
                Ok(())
            });
        }
    }
    for _ in 0..20 {
        let seed = c.rng.next();
        c.case(|| format!("100 levels, each with elements around the next level, seed {}", seed), true, || {
            let mut r = Rng::new(seed);
            let mut v = vec![];
            let mut b = s_err(ArrayRefBuilder::try_new(&mut v, 3))?;
            nest(&mut b, 1, 3, &mut r)?;
            back_y(s_err(b.finish())?).map(|_| ())
        });
    }
    let big = zeros_str((1 << 28) + 5);
    while c.more(100) {
        let seed = c.rng.next();
        let kind = c.evals() % 4;
        let n = if c.evals() < 8 { (c.evals() / 4) as usize } else if let Some(n) = hint_n(&mut c.rng, 1, 20, 65000) { n } else { c.rng.n(6) };
        c.case(|| format!("builder kind {} (0 array, 1 object, 2 array in a buffer, 3 object in a buffer), {} elements declared, call sequence seed {}", kind, n, seed), n > 0, || {
            let mut r = Rng::new(seed);
            let mut pre = vec![7u8; 3];
            let (bytes, got, fin): (Result<Vec<u8>, BuildError>, J, bool) = match kind {
                0 => { let mut b = s_err(ArrayBuilder::try_new(n as u16))?; let mut g = vec![]; let f = drive_own(&mut b, n, &mut r, 1, &big, &mut g)?; (b.finish().map(|x| x.as_bytes().to_vec()), A(g), f) }
                1 => { let mut b = s_err(ObjectBuilder::try_new(n as u16, false))?; let mut g = vec![]; let f = drive_obj_own(&mut b, n, &mut r, 1, &big, &mut g)?; (b.finish().map(|x| x.as_bytes().to_vec()), O(g), f) }
                2 => { let mut b = s_err(ArrayRefBuilder::try_new(&mut pre, n as u16))?; let mut g = vec![]; let f = drive_ref(&mut b, n, &mut r, 1, &big, &mut g)?; (b.finish().map(|x| x.as_bytes().to_vec()), A(g), f) }
                _ => { let mut b = s_err(ObjectRefBuilder::try_new(&mut pre, n as u16, false))?; let mut g = vec![]; let f = drive_obj(&mut b, n, &mut r, 1, &big, &mut g)?; (b.finish().map(|x| x.as_bytes().to_vec()), O(g), f) }
            };
            let k = match &got { A(v) => v.len(), O(m) => m.len(), _ => 0 };
            if !fin { return inner_err(bytes); }
            if k < n { return count_err(bytes, n as u16, k as u16); }
            let b = s_err(bytes)?;
            ck!(b == enc(&got), "after refused calls the value differs: {} want {}", short(&back_y(y(&b))?), short(&got));
            Ok(())
        });
    }
}

// ---- C08 ----
/// `w` elements, one of them the next level.
fn nest(b: &mut ArrayRefBuilder, d: usize, w: usize, r: &mut Rng) -> R {
    if d == 100 {
        match b.push_array(1) { Err(BuildError::NestedTooDeeply) => {} Err(e) => return Err(format!("{:?}", e)), Ok(_) => return Err("level 101 accepted".into()) }
        match b.push_object(1, false) { Err(BuildError::NestedTooDeeply) => {} Err(e) => return Err(format!("{:?}", e)), Ok(_) => return Err("level 101 accepted".into()) }
        for _ in 0..w { s_err(b.push_null())?; }
        return Ok(());
    }
    let (x, z) = (w / 2, w - 1 - w / 2);
    for _ in 0..x { s_err(b.push_bool(true))?; }
    let m = r.n(4).max(1);
    if r.p(1, 2) { let mut k = b.push_array(m as u16).map_err(|e| format!("level {}: {}", d + 1, e))?; nest(&mut k, d + 1, m, r)?; s_err(k.finish())?; }
    else { let mut k = b.push_object(m as u16, r.p(1, 2)).map_err(|e| format!("level {}: {}", d + 1, e))?; nest_o(&mut k, d + 1, m, r)?; s_err(k.finish())?; }
    for _ in 0..z { s_err(b.push_null().map_err(|e| e))?; }
    Ok(())
}
fn nest_o(b: &mut ObjectRefBuilder, d: usize, w: usize, r: &mut Rng) -> R {
    if d == 100 {
        match b.push_array("k", 1) { Err(BuildError::NestedTooDeeply) => {} Err(e) => return Err(format!("{:?}", e)), Ok(_) => return Err("level 101 accepted".into()) }
        match b.push_object("k", 1, false) { Err(BuildError::NestedTooDeeply) => {} Err(e) => return Err(format!("{:?}", e)), Ok(_) => return Err("level 101 accepted".into()) }
        for i in 0..w { s_err(b.push_null(["k", "l", "m"][i]))?; }
        return Ok(());
    }
    let (x, z) = (w / 2, w - 1 - w / 2);
    for i in 0..x { s_err(b.push_bool(["a", "b"][i], true))?; }
    let m = r.n(4).max(1);
    if r.p(1, 2) { let mut k = b.push_array("k", m as u16).map_err(|e| format!("level {}: {}", d + 1, e))?; nest(&mut k, d + 1, m, r)?; s_err(k.finish())?; }
    else { let mut k = b.push_object("k", m as u16, r.p(1, 2)).map_err(|e| format!("level {}: {}", d + 1, e))?; nest_o(&mut k, d + 1, m, r)?; s_err(k.finish())?; }
    for i in 0..z { s_err(b.push_null(["y", "z"][i]))?; }
    Ok(())
}
fn c08(c: &mut Ctx) {
    for i in 0..60u64 {
        let seed = c.rng.next();
        c.case(|| format!("100 levels of nesting and one more, seed {}", seed), true, || {
            let mut r = Rng::new(seed);
            let mut v = vec![];
            if i % 2 == 0 {
                let mut b = s_err(ArrayRefBuilder::try_new(&mut v, 1))?; nest(&mut b, 1, 1, &mut r)?; let x = s_err(b.finish())?; back_y(x)?;
            } else {
                let mut b = s_err(ObjectRefBuilder::try_new(&mut v, 1, false))?; nest_o(&mut b, 1, 1, &mut r)?; let x = s_err(b.finish())?; back_y(x)?;
            }
            Ok(())
        });
        // down to the last level twice, one after the other
        c.case(|| format!("two chains of 100 levels, seed {}", seed), true, || {
            let mut r = Rng::new(seed);
            let mut v = vec![];
            if i % 2 == 0 {
                let mut b = s_err(ArrayRefBuilder::try_new(&mut v, 3))?;
                for _ in 0..2 { let mut k = s_err(b.push_array(1))?; nest(&mut k, 2, 1, &mut r)?; s_err(k.finish())?; }
                s_err(b.push_null())?;
                back_y(s_err(b.finish())?)?;
            } else {
                let mut b = s_err(ObjectRefBuilder::try_new(&mut v, 3, false))?;
                for n in ["x", "w"] { let mut k = s_err(b.push_object(n, 1, true))?; nest_o(&mut k, 2, 1, &mut r)?; s_err(k.finish())?; }
                s_err(b.push_null("y"))?;
                back_y(s_err(b.finish())?)?;
            }
            Ok(())
        });
        // siblings at the deepest level do not add up
        c.case(|| format!("sibling containers, seed {}", seed), true, || {
            let mut v = vec![];
            let mut b = s_err(ArrayRefBuilder::try_new(&mut v, 300))?;
            for k in 0..300 { if k % 2 == 0 { s_err(s_err(b.push_array(0))?.finish())?; } else { s_err(s_err(b.push_object(0, true))?.finish())?; } }
            s_err(b.finish())?;
            Ok(())
        });
    }
    for (n, ok) in [(65534usize, true), (65535, true), (65536, false), (65537, false), (131072, false), (1 << 24, false)] {
        c.case(|| format!("key of {} bytes", n), true, || {
            let k = "k".repeat(n);
            for how in 0..6 {
                let mut b = s_err(ObjectBuilder::try_new(1, how % 2 == 0))?;
                let r = match how { 0 => b.push_null(&k).map(|_| ()), 1 => b.push_bool(&k, true).map(|_| ()), 2 => b.push_string(&k, "v").map(|_| ()), 3 => b.push_number(&k, num("5")).map(|_| ()), 4 => b.push_array(&k, 0).and_then(|x| x.finish().map(|_| ())), _ => b.push_object(&k, 0, true).and_then(|x| x.finish().map(|_| ())) };
                if ok { s_err(r)?; let x = s_err(b.finish())?; ck!(x.object().unwrap().contains_key(&k).ok() == Some(true), "key not found"); } else { long_err(r, n)? }
            }
            Ok(())
        });
    }
    for (n, ok) in [((1usize << 28) - 1, true), (1 << 28, false), ((1 << 28) + 1, false)] {
        c.case(|| format!("string of {} bytes", n), true, || {
            let s = zeros_str(n);
            if !ok {
                long_err(Scalar::string(&s).map(|_| ()), n)?;
                let mut b = s_err(ArrayBuilder::try_new(1))?; long_err(b.push_string(&s).map(|_| ()), n)?;
                let mut b = s_err(ObjectBuilder::try_new(1, true))?; long_err(b.push_string("k", &s).map(|_| ()), n)?;
                return Ok(());
            }
            let x = s_err(Scalar::string(&s))?; ck!(x.string().unwrap().len() == n, "scalar");
            let mut b = s_err(ArrayBuilder::try_new(1))?; s_err(b.push_string(&s))?; let x = s_err(b.finish())?; ck!(x.array().unwrap().string(0).unwrap().len() == n, "array");
            let mut b = s_err(ObjectBuilder::try_new(1, false))?; s_err(b.push_string("k", &s))?; let x = s_err(b.finish())?; ck!(x.object().unwrap().string("k").unwrap().unwrap().len() == n, "object");
            Ok(())
        });
    }
    for (n, ok) in [(65535usize, true), (65536, false), (65537, false), (131073, false)] {
        c.case(|| format!("JSON array and object of {} elements", n), true, || {
            let t = format!("[{}]", vec!["0"; n].join(","));
            let o = format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":null", i)).collect::<Vec<_>>().join(","));
            for (t, nested) in [(&t, false), (&o, false), (&t, true), (&o, true)] {
                let t = if nested { format!("[1,{}]", t) } else { t.clone() };
                let mut v = vec![];
                for r in [YasonBuf::parse(&t).map(|_| ()), Yason::parse_to(&mut v, &t).map(|_| ())] {
                    match r { Ok(()) if ok => {} Err(BuildError::TooManyElements(m)) if !ok && m == n => {} r => return Err(format!("{:?}", r)) }
                }
            }
            // as a query result
            let d = YasonBuf::parse(format!("[{}]", vec!["1"; n - 60000].join(","))).map_err(|e| e.to_string());
            if let Ok(d) = d {
                let p: PathExpression = format!("$[0 to last{}]", ",0".repeat(60000)).parse().map_err(|e: PathParseError| e.to_string())?;
                let mut rb = vec![];
                match p.query(&d, true, None, Some(&mut rb)) { Ok(QueriedValue::Yason(x)) if ok => ck!(x.array().unwrap().len().unwrap() == n, "{} results", n), Err(YasonError::BuildError(BuildError::TooManyElements(m))) if !ok && m == n => {} Ok(_) => return Err(format!("{} results accepted in a result buffer", n)), Err(e) => return Err(format!("{} results: {:?}", n, e)) };
            }
            Ok(())
        });
    }
    // total size: 8 strings of 2^28 - 11 - x bytes
    for over in [0usize, 1] {
        for obj in [false, true] {
            c.case(|| format!("{} of {} bytes in total", if obj { "object" } else { "array" }, (1usize << 31) - 1 + over), true, || {
                let per = 1usize << 28;
                let s = zeros_str(per - 1 - 4);
                let mut buf = Vec::with_capacity((1 << 31) + 4096);
                let want = (1usize << 31) - 1 + over;
                let r = if obj {
                    // count 2 + offsets 4*9 + per entry (key length 2 + key 1 + type 1 + length + string)
                    let mut b = s_err(ObjectRefBuilder::try_new(&mut buf, 9, true))?;
                    let mut total = 2 + 36;
                    for k in 0..7 { s_err(b.push_string(&k.to_string(), &s))?; total += 3 + 1 + 4 + s.len(); }
                    let rest = want - total - 4 - 8; // the last two entries: a string and a null
                    s_err(b.push_string("7", &s[..rest]))?;
                    s_err(b.push_null("8"))?;
                    b.finish().map(|x| x.as_bytes().len())
                } else {
                    let mut b = s_err(ArrayRefBuilder::try_new(&mut buf, 8))?;
                    let mut total = 2 + 40;
                    for _ in 0..7 { s_err(b.push_string(&s))?; total += 4 + s.len(); }
                    let rest = want - total - 4;
                    let l = zeros_str(rest);
                    s_err(b.push_string(&l))?;
                    b.finish().map(|x| x.as_bytes().len())
                };
                match r { Ok(n) if over == 0 => ck!(n == want + 5, "length {}", n), Err(BuildError::DocumentTooLong(n)) if over == 1 => ck!(n == want, "reported {}", n), r => return Err(format!("{:?}", r)) }
                Ok(())
            });
        }
    }
}

// ---- C09, C10 ----
macro_rules! typed { ($j:expr, $t:expr, $o:expr, $a:expr, $s:expr, $n:expr, $b:expr) => {{
    let (j, t): (&J, u8) = ($j, $t);
    match j { O(_) => same(&back_obj(&$o.map_err(|e| format!("object(): {}", e))?)?, j, "object()")?, _ => mismatch($o.map(|_| ()), 1, t)? }
    match j { A(_) => same(&back_arr(&$a.map_err(|e| format!("array(): {}", e))?)?, j, "array()")?, _ => mismatch($a.map(|_| ()), 2, t)? }
    match j { S(s) => ck!($s.map_err(|e| format!("string(): {}", e))? == s.as_str(), "string() differs"), _ => mismatch($s, 3, t)? }
    match j { N(n) => ck!(canon(&$n.map_err(|e| format!("number(): {}", e))?) == canon(n), "number() differs"), _ => mismatch($n, 4, t)? }
    match j { B(b) => ck!($b.map_err(|e| format!("bool(): {}", e))? == *b, "bool() differs"), _ => mismatch($b, 5, t)? }
}} }
fn c09(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()) { corner_arr(i) } else { gen_arr(&mut c.rng, 3, 8) };
        c.case(|| compact(&j), matches!(&j, A(v) if !v.is_empty()), || {
            let A(v) = &j else { unreachable!() };
            let bytes = enc(&j);
            let a = y(&bytes).array().map_err(|e| e.to_string())?;
            let n = v.len();
            ck!(a.len().ok() == Some(n), "len");
            for (i, e) in v.iter().enumerate() {
                let t = e.tag();
                let w = |e: String| format!("index {}: {}", i, e);
                (|| -> R {
                    same_value(&a.get(i).map_err(|e| e.to_string())?, e, "get")?;
                    same(&back(&unsafe { a.get_unchecked(i) }.map_err(|e| e.to_string())?)?, e, "get_unchecked")?;
                    ck!(a.type_of(i).ok() == Some(dt(t)), "type_of {}", es(&a.type_of(i)));
                    for k in 1..=6 { ck!(a.is_type(i, dt(k)).ok() == Some(k == t), "is_type {:?}: {}", dt(k), es(&a.is_type(i, dt(k)))); }
                    ck!(a.is_null(i).ok() == Some(t == 6), "is_null {}", es(&a.is_null(i)));
                    typed!(e, t, a.object(i), a.array(i), a.string(i), a.number(i), a.bool(i));
                    Ok(())
                })().map_err(w)?;
            }
            let mut it = a.iter().map_err(|e| e.to_string())?;
            for (i, e) in v.iter().enumerate() { same(&back(&it.next().ok_or("iterator too short")?.map_err(|e| e.to_string())?)?, e, &format!("iterator at {}", i))? }
            ck!(it.next().is_none() && it.next().is_none(), "iterator too long");
            for i in [n, n + 1, n + 2, 65535.max(n), 65536, usize::MAX / 5, usize::MAX / 5 + 1, usize::MAX - 1, usize::MAX] {
                macro_rules! oob { ($($f:expr),*) => { $( match $f { Err(YasonError::IndexOutOfBounds { len, index }) if len == n && index == i => {} r => return Err(format!("index {} of {}: {} = {}", i, n, stringify!($f), es(&r))) } )* } }
                oob!(a.get(i), a.type_of(i), a.is_type(i, DataType::Null), a.is_null(i), a.object(i).map(|_| ()), a.array(i).map(|_| ()), a.string(i), a.number(i), a.bool(i));
            }
            Ok(())
        });
    }
}
fn c10(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()) { corner_obj(i) } else { gen_obj(&mut c.rng, 3, 8) };
        let mut r = Rng::new(c.rng.next());
        c.case(|| format!("stored {}", order(&j)), matches!(&j, O(v) if !v.is_empty()), || {
            let O(m) = &j else { unreachable!() };
            let bytes = enc(&j);
            let o = y(&bytes).object().map_err(|e| e.to_string())?;
            ck!(o.len().ok() == Some(m.len()), "len");
            for (k, e) in m {
                let t = e.tag();
                (|| -> R {
                    same_value(&o.get(k).map_err(|e| e.to_string())?.ok_or("get: absent")?, e, "get")?;
                    ck!(matches!(o.type_of(k), Ok(Some(x)) if x == dt(t)), "type_of {}", es(&o.type_of(k)));
                    for q in 1..=6 { ck!(matches!(o.is_type(k, dt(q)), Ok(Some(x)) if x == (q == t)), "is_type {:?}: {}", dt(q), es(&o.is_type(k, dt(q)))); }
                    ck!(matches!(o.is_null(k), Ok(Some(x)) if x == (t == 6)), "is_null {}", es(&o.is_null(k)));
                    ck!(matches!(o.contains_key(k), Ok(true)), "contains_key");
                    typed!(e, t, o.object(k).map(|x| x.expect("object(): absent")), o.array(k).map(|x| x.expect("array(): absent")), o.string(k).map(|x| x.expect("string(): absent")), o.number(k).map(|x| x.expect("number(): absent")), o.bool(k).map(|x| x.expect("bool(): absent")));
                    Ok(())
                })().map_err(|e| format!("key {:?}: {}", k, e))?;
            }
            iter_ok(&bytes, m)?;
            for k in near_keys(m, &mut r) {
                macro_rules! none { ($($f:expr),*) => { $( match $f { Ok(None) => {} r => return Err(format!("absent key {:?}: {} = {}", k, stringify!($f), es(&r))) } )* } }
                none!(o.get(&k), o.type_of(&k), o.is_type(&k, DataType::Null), o.is_null(&k), o.object(&k).map(|x| x.map(|_| ())), o.array(&k).map(|x| x.map(|_| ())), o.string(&k), o.number(&k), o.bool(&k));
                ck!(matches!(o.contains_key(&k), Ok(false)), "absent key {:?}: contains_key", k);
            }
            Ok(())
        });
    }
}

// ---- C11 ----
fn c11(c: &mut Ctx) {
    while c.more(100) {
        let a = if let Some(i) = turn(c.evals()) { corner(i) } else if c.evals() % 5 == 0 { gen_scalar(&mut c.rng) } else { gen(&mut c.rng, 4, 5) };
        let b = match c.rng.n(4) { 0 | 1 => disguise(&a, &mut c.rng), 2 => { let m = mutate(&a, &mut c.rng); disguise(&m, &mut c.rng) } _ => if c.rng.p(1, 2) { gen(&mut c.rng, 2, 3) } else { mutate(&a, &mut c.rng) } };
        let (a, b) = if c.evals() % 40 == 13 { big_pair(&mut c.rng) } else { (a, b) };
        let want = j_eq(&a, &b);
        c.case(|| format!("{} == {}", order(&a), order(&b)), true, || {
            let (x, z) = (enc(&a), enc(&b));
            for (l, r, how) in [(&x, &z, "a == b"), (&z, &x, "b == a")] {
                let g = y(l).equals(y(r));
                ck!(matches!(g, Ok(v) if v == want), "{}: equals = {}, want {}", how, es(&g), want);
                ck!((y(l) == y(r)) == want, "{}: ==, want {}", how, want);
                ck!((y(l).to_owned() == y(r).to_owned()) == want, "{}: == of owned values, want {}", how, want);
            }
            ck!(matches!(y(&x).equals(y(&x)), Ok(true)), "not equal to itself");
            Ok(())
        });
    }
}

// ---- C12 ----
fn t_to_j(t: &T) -> Result<J, &'static str> {
    Ok(match t {
        T::Z => Z, T::B(b) => B(*b), T::S(s) => S(s.clone()),
        T::N(_) => unreachable!(),
        T::A(v) => A(v.iter().map(t_to_j).collect::<Result<_, _>>()?),
        T::O(v) => O(v.iter().map(|(k, x)| Ok((k.clone(), t_to_j(x)?))).collect::<Result<_, &'static str>>()?),
    })
}
fn t_matches(t: &T, j: &J) -> R {
    match (t, j) {
        (T::N(l), N(n)) => match lit_class(l) { Lit::Zero => ck!(canon(n).1 == "0" || near(l, n), "{} read as {}", l, num_text(n)), Lit::Overflow => return Err(format!("{} read as {}", l, num_text(n))), Lit::Near => ck!(near(l, n) || (l.contains("-1") && canon(n).1 == "0" && lit_parts(l).unwrap().2 <= -130 && lit_parts(l).unwrap().1.len() > 38), "{} read as {}", l, num_text(n)) },
        (T::A(v), A(w)) => { ck!(v.len() == w.len(), "{} elements, want {}", w.len(), v.len()); for (a, b) in v.iter().zip(w) { t_matches(a, b)? } }
        (T::O(v), O(m)) => {
            let mut last: Vec<(&String, &T)> = vec![];
            for (k, x) in v { last.retain(|e| e.0 != k); last.push((k, x)); }
            ck!(last.len() == m.len(), "{} members, want {}", m.len(), last.len());
            for (k, x) in last { match m.iter().find(|e| &e.0 == k) { Some((_, j)) => t_matches(x, j)?, None => return Err(format!("member {:?} is missing", k)) } }
        }
        (t, j) => same(j, &t_to_j(t)?, "parsed")?,
    }
    Ok(())
}
fn overflows(t: &T) -> bool {
    match t { T::N(l) => matches!(lit_class(l), Lit::Overflow), T::A(v) => v.iter().any(overflows), T::O(v) => { (0..v.len()).any(|i| overflows(&v[i].1) && v[i + 1..].iter().all(|e| e.0 != v[i].0)) } _ => false }
}
fn tdepth(t: &T) -> usize { match t { T::A(v) => 1 + v.iter().map(tdepth).max().unwrap_or(0), T::O(v) => 1 + v.iter().map(|e| tdepth(&e.1)).max().unwrap_or(0), _ => 0 } }
fn longest_key(t: &T) -> usize { match t { T::A(v) => v.iter().map(longest_key).max().unwrap_or(0), T::O(v) => v.iter().map(|e| e.0.len().max(longest_key(&e.1))).max().unwrap_or(0), _ => 0 } }
fn json_case(s: &str, r: &mut Rng) -> R {
    let t = read_json(s);
    let n = r.n(5);
    let pre: Vec<u8> = vec![9; n];
    let mut buf = dirty(r, &pre);
    let own = YasonBuf::parse(s);
    let app = Yason::parse_to(&mut buf, s).map(|x| x.as_bytes().to_vec());
    match (&own, &app) {
        (Ok(a), Ok(b)) => { ck!(a.as_bytes() == &b[..], "the two entry points give different bytes"); ck!(buf[..n] == pre[..] && buf[n..] == b[..], "buffer contents"); }
        (Err(_), Err(_)) => {}
        _ => return Err(format!("owned {} but appended {}", es(&own), es(&app))),
    }
    match (t, own) {
        (None, Err(BuildError::JsonError(_))) => Ok(()),
        (None, r) => Err(format!("not JSON, yet {}", es(&r))),
        (Some(t), Ok(v)) => { ck!(!overflows(&t), "too large a number accepted"); ck!(tdepth(&t) <= 100, "{} levels accepted", tdepth(&t)); t_matches(&t, &back_y(&v)?) }
        (Some(t), Err(BuildError::NumberError(NumberError::Overflow))) => { ck!(overflows(&t) || s.contains("e125") || s.contains("E125") || s.contains("99999"), "overflow reported"); Ok(()) }
        (Some(t), Err(BuildError::NestedTooDeeply)) => { ck!(tdepth(&t) > 100, "nesting of {} refused", tdepth(&t)); Ok(()) }
        (Some(t), Err(BuildError::StringTooLong(n))) => { ck!(n > 65535 && longest_key(&t) >= n, "a key of {} bytes refused", n); Ok(()) }
        (Some(t), Err(e)) => { ck!(tdepth(&t) > 100, "refused: {:?}", e); Ok(()) }
    }
}
fn c12(c: &mut Ctx) {
    let mut fixed: Vec<String> = ["", " ", "nul", "null", "[1,]", "{\"a\":1,}", "{\"a\":1,\"a\":2}", "{\"b\":[1],\"a\":{},\"b\":null}", "01", "-", "1.", ".5", "1e", "+1", "1e125", "1e126", "-1e126", "9.9e125", "1e-130", "1e-131", "0e999", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\x\"", "\"\u{1}\"", "[1 2]", "{1:2}", "true false", "tru", "[", "]", "{\"a\"}", "1e99999999999999999999", "0.0000000000e-5", "1e-99999999999999999999", "\"a\\/b\"", "\u{feff}1", "[[],{},[[]]]", "123456789012345678901234567890123456789012345678", "0.55555555555555555555555555555555555555555555", "555555555555555555555555.555555555555555555555e50", "-0", "-0.0", "1E+2", "1.50", "100e-2"].iter().map(|s| s.to_string()).collect();
    for d in [99usize, 100, 101, 102, 127, 128, 129, 5000] { fixed.push(format!("{}{}", "[".repeat(d), "]".repeat(d))); fixed.push(format!("{}1{}", "{\"k\":".repeat(d), "}".repeat(d))); }
    let mut i = 0;
    while i < fixed.len() || c.more(100) {
        let mut r = Rng::new(c.rng.next());
        let s = if i < fixed.len() { fixed[i].clone() } else {
            let j = gen(&mut r, 4, 5);
            let mut s = String::new();
            text(&j, &mut r, &mut s);
            match r.n(6) {
                0 => { let mut b: Vec<char> = s.chars().collect(); if !b.is_empty() { let k = r.n(b.len()); match r.n(3) { 0 => { b.remove(k); } 1 => b[k] = *r.pick(&['"', '[', ']', '{', '}', ',', ':', '0', 'e', '-', '\\', ' ', 't', '.']), _ => b.insert(k, *r.pick(&['"', ']', '}', ',', ':', '1', 'e', '-', '\\', '\u{2}'])) } } b.into_iter().collect() }
                1 => { let k = gen_num_text(&mut r); let z = "0".repeat(r.n(5)); format!("[{},{}{}]", k, k, if k.contains(['.', 'e', 'E']) { "" } else { &z }) }
                2 => { let k = hint_n(&mut r, 1, 4, 3000).unwrap_or(r.n(60)); let m: String = (0..1 + k).map(|q| if q == 0 { (b'1' + r.n(9) as u8) as char } else { (b'0' + r.n(10) as u8) as char }).collect(); let f: String = (0..1 + r.n(60)).map(|_| (b'0' + r.n(10) as u8) as char).collect(); format!("{}.{}e{}", m, f, r.n(200) as i64 - 120) }
                3 => format!("{{\"k\":{},\"k\":{},\"l\":{}}}", s, compact(&gen(&mut r, 1, 2)), r.n(9)),
                _ => s,
            }
        };
        i += 1;
        c.case(|| format!("{:?}", s), read_json(&s).is_some(), || json_case(&s, &mut r));
    }
}

// ---- C13, C14, C15 ----
fn fmt(yy: &Yason, p: bool) -> Result<String, String> {
    let a = yy.format(p).to_string();
    let mut b = String::new();
    yy.format_to(p, &mut b).map_err(|e| e.to_string())?;
    ck2(a == b, "format and format_to differ")?;
    ck2(a == format!("{:#}", yy.format(p)), "the alternate form differs")?;
    Ok(a)
}
fn ck2(c: bool, m: &str) -> R { if c { Ok(()) } else { Err(m.into()) } }
fn str_case(s: &str) -> R {
    let t = fmt(y(&enc(&S(s.into()))), false)?;
    ck!(read_json(&t) == Some(T::S(s.into())), "{:?} is formatted as {} which reads as {:?}", s, t, read_json(&t));
    ck!(t == lit(s), "{:?} is formatted as {}, want {}", s, t, lit(s));
    if s.len() > 65535 { return Ok(()); }
    let o = fmt(y(&enc(&O(vec![(s.into(), Z)]))), false)?;
    ck!(o == format!("{{{}:null}}", lit(s)), "key {:?} is formatted as {}", s, o);
    let a = fmt(y(&enc(&A(vec![S(s.into())]))), true)?;
    ck!(a == format!("[\n  {}\n]", lit(s)), "in an array {:?} is formatted as {}", s, a);
    Ok(())
}
fn c13(c: &mut Ctx) {
    let mut all: Vec<String> = (0..0x180u32).chain([0x2028, 0x2029, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]).filter_map(char::from_u32).map(|c| c.to_string()).collect();
    all.push((0..0x80u8).map(|c| c as char).collect());
    for i in 0..128u8 { all.push(format!("é{}測{}{}", i as char, i as char, i as char)); }
    for s in all { c.case(|| format!("{:?}", s), true, || str_case(&s)); }
    while c.more(100) {
        let s: String = match c.rng.n(4) {
            0 => gen_str(&mut c.rng),
            1 => {
                // long, with something special here and there, the ends among them
                let n = *c.rng.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097]);
                let n = hint_n(&mut c.rng, 1, 2, 300_000).unwrap_or(n).max(1);
                let mut v = vec!['x'; n];
                for _ in 0..c.rng.n(5) { let i = match c.rng.n(4) { 0 => 0, 1 => n - 1, 2 => n / 2, _ => c.rng.n(n) }; v[i] = gen_char(&mut c.rng) }
                v.into_iter().collect()
            }
            _ => { let n = c.rng.n(30); (0..n).map(|_| gen_char(&mut c.rng)).collect() }
        };
        c.case(|| format!("{:?}", s), !s.is_empty(), || str_case(&s));
    }
}
fn deep(d: usize, r: &mut Rng) -> J { let mut j = gen(r, 1, 2); for _ in 0..d { j = if r.p(1, 2) { A(if r.p(1, 2) { vec![j] } else { vec![Z, j, A(vec![])] }) } else { O(vec![("k".into(), j)]) } } j }
fn c14(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()) { corner(i) } else if c.evals() % 500 == 7 { let d = hint_n(&mut c.rng, 1, 2, 97).unwrap_or(c.rng.n(98)); deep(d, &mut c.rng) } else { gen(&mut c.rng, 4, 5) };
        c.case(|| order(&j), true, || c14_case(&j));
    }
}
fn c14_case(j: &J) -> R {
    let b = enc(j);
    let t = fmt(y(&b), false)?;
    ck!(t == compact(j), "formatted {} want {}", t, compact(j));
    ck!(read_json(&t).is_some(), "not JSON: {}", t);
    let back = YasonBuf::parse(&t).map_err(|e| format!("parsing {} again: {}", t, e))?;
    same(&back_y(&back)?, j, "parsed again")?;
    ck!(back.equals(y(&b)).map_err(|e| e.to_string())?, "parsed again: not equal");
    Ok(())
}
fn c15(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()).filter(|i| !matches!(i, 2 | 3)) { corner(i) } else if c.evals() % 100 == 7 { let d = hint_n(&mut c.rng, 1, 2, 99).unwrap_or(80 + c.rng.n(20)); deep(d, &mut c.rng) } else { gen(&mut c.rng, 4, 5) };
        c.case(|| order(&j), true, || {
            let b = enc(&j);
            let t = fmt(y(&b), true)?;
            ck!(t == pretty(&j), "formatted\n{}\nwant\n{}", t, pretty(&j));
            // as query results
            for (p, w) in &[("$", true), ("$", false), ("$[*]", true), ("$.*", true)][..if b.len() > 1 << 20 { 1 } else { 4 }] {
                let w = *w;
                let pe: PathExpression = p.parse().map_err(|e: PathParseError| e.to_string())?;
                let mut want = vec![];
                select(&j, &read_path(p).unwrap(), &mut want);
                let mut rb = vec![];
                for q in [pe.query(y(&b), w, None, None), pe.query(y(&b), w, None, Some(&mut rb))] {
                    let q = q.map_err(|e| e.to_string())?;
                    for pr in [true, false] {
                        let mut s = String::new();
                        q.format_to(pr, &mut s).map_err(|e| e.to_string())?;
                        let f = if pr { pretty } else { compact };
                        let want = if want.is_empty() { String::new() } else if w { f(&A(want.clone())) } else { f(&want[0]) };
                        ck!(s == want, "query {} formatted\n{}\nwant\n{}", p, s, want);
                    }
                }
            }
            Ok(())
        });
    }
}

// ---- C24 ----
fn c24(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()) { corner(i) } else if c.evals() % 500 == 7 { let d = hint_n(&mut c.rng, 1, 2, 97).unwrap_or(c.rng.n(98)); deep(d, &mut c.rng) } else { gen(&mut c.rng, 4, 5) };
        c.case(|| order(&j), true, || c24_case(&j));
    }
}
fn c24_case(j: &J) -> R {
    let b = enc(j);
    let v = y(&b).to_yason_buf().map_err(|e| e.to_string())?;
    // bytes
    let s = bincode::serialize(&v).map_err(|e| e.to_string())?;
    let mut want = (b.len() as u64).to_le_bytes().to_vec();
    want.extend_from_slice(&b);
    ck!(s == want, "serialized to bytes {:?}, want {:?}", s, want);
    let r: YasonBuf = bincode::deserialize(&s).map_err(|e| format!("from bytes: {}", e))?;
    ck!(r.as_bytes() == &b[..], "from bytes {:?}, want {:?}", r.as_bytes(), b);
    let r: YasonBuf = bincode::deserialize_from(&s[..]).map_err(|e| format!("from a byte stream: {}", e))?;
    ck!(r.as_bytes() == &b[..], "from a byte stream {:?}, want {:?}", r.as_bytes(), b);
    let two: Vec<YasonBuf> = bincode::deserialize(&bincode::serialize(&vec![v.clone(), r]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ck!(two.len() == 2 && two.iter().all(|x| x.as_bytes() == &b[..]), "two documents in one stream");
    // text
    let t = compact(j);
    let s = serde_json::to_value(&v).map_err(|e| e.to_string())?;
    ck!(s.as_str() == Some(&t[..]), "serialized to text {}, want a string holding {}", s, t);
    let r: YasonBuf = serde_json::from_value(s).map_err(|e| format!("from a text: {}", e))?;
    same(&back_y(&r)?, j, "from a text")?;
    let s = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    let r: YasonBuf = serde_json::from_str(&s).map_err(|e| format!("from {}: {}", s, e))?;
    same(&back_y(&r)?, j, "from a quoted text")?;
    let r: YasonBuf = serde_json::from_reader(s.as_bytes()).map_err(|e| format!("from {}: {}", s, e))?;
    same(&back_y(&r)?, j, "from a stream")?;
    ck!(r.equals(y(&b)).map_err(|e| e.to_string())?, "from a stream: not equal");
    Ok(())
}
// ---- C16 ----
fn path_case(s: &str) -> R {
    match (read_path(s), s.parse::<PathExpression>()) {
        (Some(v), Ok(p)) => { let g = format!("{:?}", p); ck!(g == shown(&v), "parsed as {} want {}", g, shown(&v)) }
        (None, Err(e)) => {
            let m = e.to_string();
            let pos: usize = m.rsplit(' ').next().and_then(|x| x.parse().ok()).ok_or(format!("no position in {:?}", m))?;
            ck!(pos <= s.len(), "{:?}: position {} in a text of {} bytes", m, pos, s.len());
        }
        (Some(v), Err(e)) => return Err(format!("refused ({}), want {}", e, shown(&v))),
        (None, Ok(p)) => return Err(format!("accepted as {:?}", p)),
    }
    Ok(())
}
fn c16(c: &mut Ctx) {
    let mut fixed: Vec<String> = ["", " ", "$", " $ ", "$ .a", "$\t.a", "$.", "$..", "$...a", "$.a .b", "$.a [0]", "$.a ", "$.count ()", "$.count( )", "$.count() ", "$.count().a", "$.x()", "$.type(a)", "$[", "$[]", "$[0", "$[0]", "$[00]", "$[last]", "$[last-]", "$[last-1]", "$[ last - 1 ]", "$[last 1]", "$[0 to 1]", "$[0to1]", "$[lasttolast]", "$[0 to]", "$[0,]", "$[0,1,]", "$[0,1 to 2 , ]", "$[,0]", "$[0,1 to 2,last]", "$[*]", "$[* ]", "$[*,0]", "$[-1]", "$[2147483647]", "$[2147483648]", "$[99999999999999999999999]", "$[last-99999999999999]", "$[last-2147483648]", "$.*", "$.* .a", "$.**", "$..*", "$..a", "$.. a", "$.. \"a\"", "$. .a", "$.\"a\"", "$.\"\"", "$.\"a", "$.\"a\\", "$.\"a\\\"", "$.\"a\\u0041\"", "$.\"a\\\"b\"", "$.\"é\"", "$.é", "$.a_b", "$.1", "$.a1", "$a", "a", "$$", "$.a()", "$.size()x", "$..size()", "$.a\u{c}.b", "$.\"a\"x", "$.\"測\\n\"", "$.\"\\測\"", "$[last+1]", "$[1-1]", "$[0 TO 1]", "$[LAST]", "$.count(", "$.count", "$[0]]", "$.a\u{a0}.b", "$.to", "$.last[last]", "$[1 2]"].iter().map(|s| s.to_string()).collect();
    fixed.push(format!("$[0{}]", ",0".repeat(20000)));
    fixed.push(format!("$[{}1]", "0".repeat(3000)));
    fixed.push(format!("${}", ".a".repeat(5000)));
    for e in [8u32, 16, 31, 32, 63, 64, 65] {
        for m in [1u128, 2, 3, 5, 10, 1 << 20] {
            for k in [-1i128, 0, 1, 7] {
                let n = ((m << e) as i128 + k) as u128;
                for z in ["", "0"] { for t in ["$[#]", "$[last-#]", "$[0 to #]", "$[#, 1]", "$[last - # to last].a"] { fixed.push(t.replace('#', &format!("{}{}", z, n))); } }
            }
        }
    }
    // every character at every kind of place
    let mut chars: Vec<char> = (0u8..128).map(|b| b as char).collect();
    chars.extend("\u{80}\u{85}\u{a0}é測\u{2028}\u{3000}\u{feff}".chars());
    for x in chars {
        for t in ["$.\"\\#\"", "$.\"a#b\"", "$..\"\\#\"", "$..\"#\".c", "$.a#b", "$.#", "$#.a", "$#", "#$.a", "$.a#.b", "$.a#", "$..a#", "$..#", "$.#a", "$..#a", "$[#]", "$[0#]", "$[0#1]", "$[#0]", "$[last#]", "$[last#1]", "$[last -#1]", "$[0 to#1]", "$[0#to 1]", "$[0,#1]", "$[0#,1]", "$[*#]", "$[#*]", "$[0]#", "$[0]#[1]", "$.size(#)", "$.size#()", "$.size()#", "$.type( )#", "$.*#", "$.*#.a", "$.\"a\"#", "$.\"a\"#.b", "$..\"a\"#[0]", "$.#\"a\"", "$.#*", "$.#count()"] { fixed.push(t.replace('#', &x.to_string())); }
    }
    // keywords in other cases, cut short, prolonged
    for w in ["last", "to", "count", "size", "type"] {
        let mut ws: Vec<String> = vec![w.to_uppercase(), format!("{}s", w), w[..w.len() - 1].into(), format!("{}0", w), format!("x{}", w), format!("{}{}", w, w)];
        for i in 0..w.len() { let mut b = w.as_bytes().to_vec(); b[i] ^= 0x20; ws.push(String::from_utf8(b.clone()).unwrap()); b[i] = b'x'; ws.push(String::from_utf8(b).unwrap()); }
        ws.push(w.into());
        for w in ws { for t in ["$[#]", "$[# - 1]", "$[0 # 1]", "$[1, # to 2]", "$[0 to #]", "$.#()", "$.#", "$..#", "$..#()", "$.a.#( )", "$.\"#\"()", "$.*.#()", "$[*].#()", "$[#", "$[0 #", "$.#("] { fixed.push(t.replace('#', &w)); } }
    }
    for s in fixed { c.case(|| format!("{:?}", s), read_path(&s).is_some(), || path_case(&s)); }
    const TOK: &[&str] = &["$", ".", "..", "[", "]", "*", "a", "key", "\"", "\\", "\"k\"", "last", "to", "-", ",", "0", "1", "12", " ", "\t", "count", "size", "type", "()", "(", ")", "é", "\\\"", "2147483647", "\n", "/", "u", "4294967297", "18446744073709551617"];
    while c.more(100) {
        let mut r = Rng::new(c.rng.next());
        let s = match r.n(4) {
            0 => { let n = r.n(9); let mut s = String::from(if r.p(9, 10) { "$" } else { "" }); for _ in 0..n { match hint_s(&mut r, 1, 4) { Some(h) => s.push_str(&h), None => s.push_str(r.pick(TOK)) } } s }
            1 if HINTS.get().is_some_and(|h| !h.1.is_empty()) && r.p(1, 2) => {
                let v = gsteps(&mut r, &["k".into()], false);
                let Some(s) = path_text(&v, &mut r) else { continue };
                let mut b: Vec<char> = s.chars().collect();
                let h = hint_s(&mut r, 1, 1).unwrap();
                let digits: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
                let i = if !digits.is_empty() && r.p(1, 2) { *r.pick(&digits) } else { r.n(b.len()) };
                if r.p(1, 2) { b.remove(i); }
                for (k, x) in h.chars().enumerate() { b.insert(i + k, x) }
                b.into_iter().collect()
            }
            k => {
                let fun = r.p(1, 4);
                let keys = vec!["é".to_string(), "a b".into(), "".into(), "a\\\"b".into()];
                let v = gsteps(&mut r, &keys, fun);
                let Some(s) = path_text(&v, &mut r) else { continue };
                if k == 1 { let mut b: Vec<char> = s.chars().collect(); let i = r.n(b.len()); match r.n(3) { 0 => { b.remove(i); } 1 => b.insert(i, r.pick(TOK).chars().next().unwrap()), _ => b[i] = r.pick(TOK).chars().next().unwrap() } b.into_iter().collect() } else { s }
            }
        };
        c.case(|| format!("{:?}", s), read_path(&s).is_some(), || path_case(&s));
    }
}

// ---- C17..C21 ----
fn pe(s: &str) -> Result<PathExpression, String> { s.parse::<PathExpression>().map_err(|e| format!("path {:?}: {}", s, e)) }
fn results(q: &QueriedValue) -> Result<Vec<J>, String> {
    Ok(match q {
        QueriedValue::None => vec![],
        QueriedValue::Value(v) => vec![back(v)?],
        QueriedValue::Values(v) => v.iter().map(back).collect::<Result<_, _>>()?,
        QueriedValue::ValuesRef(v) => v.iter().map(back).collect::<Result<_, _>>()?,
        QueriedValue::Yason(v) => match back_y(v)? { A(v) => v, x => return Err(format!("the result buffer holds {}", short(&x))) },
    })
}
/// A value made by a method compares as made; anything else by value, but the text must agree as well.
fn list_eq(got: &[J], want: &[J], what: &str) -> R {
    ck!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| j_eq(a, b) && compact(a) == compact(b)), "{}: got {} want {}", what, short(&A(got.to_vec())), short(&A(want.to_vec())));
    Ok(())
}
fn keys_of(j: &J, o: &mut Vec<String>) { match j { O(m) => for (k, v) in m { if o.len() < 30 { o.push(k.clone()) } keys_of(v, o) }, A(v) => for x in v { keys_of(x, o) }, _ => {} } }
/// Documents whose keys repeat at several levels.
fn qdoc(r: &mut Rng) -> J {
    // keys of lengths the source mentions
    let mut ks: Vec<String> = ["a", "b", "c", "key", "aa", "ab", "count", "é"].map(String::from).to_vec();
    for _ in 0..4 { if let Some(n) = hint_n(r, 1, 2, 300) { ks.push(["q", "Q", "k"][r.n(3)].repeat(n.max(1))) } if let Some(s) = hint_s(r, 1, 2) { ks.push(s) } }
    ks.sort();
    ks.dedup();
    fn gk(r: &mut Rng, d: usize, ks: &[String]) -> J {
        if d == 0 || r.p(1, 4) { return gen_scalar(r); }
        let n = if d < 3 { hint_n(r, 1, 30, 300).unwrap_or(r.n(5)) } else { r.n(5) };
        if r.p(1, 2) { A((0..n).map(|_| gk(r, d - 1, ks)).collect()) } else {
            let mut m: Vec<(String, J)> = vec![];
            for i in 0..n { let k = if i > 12 { format!("k{}", i) } else { r.pick(ks).to_string() }; if m.iter().all(|x| x.0 != k) { let v = gk(r, d - 1, ks); m.push((k, v)) } }
            O(m)
        }
    }
    let g = |r: &mut Rng, d: usize| gk(r, d, &ks);
    match if HINTS.get().is_some_and(|h| !h.0.is_empty()) && r.p(1, 6) { *r.pick(&[0usize, 0, 0, 1, 2, 23, 24]) } else { r.n(120) } {
        0 => {
            // many elements
            let n = if let Some(n) = hint_n(r, 1, 2, 20_000) { n } else { *r.pick(&[255usize, 256, 257, 300, 600]) };
            let d = r.n(2);
            if r.p(1, 2) { A((0..n).map(|_| g(r, d)).collect()) } else { O((0..n).map(|i| (format!("k{}", i), g(r, d))).collect()) }
        }
        1 => { let (k, l, v, w) = (long_key(r), gen_str(r), g(r, 2), g(r, 2)); if k == l { O(vec![(k, v)]) } else { O(vec![(k, v), (l, w)]) } }
        2 => { let n = hint_n(r, 1, 2, 97).unwrap_or(r.n(98)); deep(n, r) }
        3..=12 => gen(r, 3, 4),
        13..=22 => { fn t(r: &mut Rng, d: usize) -> J { match r.n(6) { 0 => A(vec![]), 1 => O(vec![]), 2 => B(true), 3 if d > 0 => A(vec![t(r, d - 1)]), 4 if d > 0 => O(vec![("a".into(), t(r, d - 1))]), _ => A(vec![Z, O(vec![("a".into(), A(vec![]))])]) } } t(r, 4) }
        23 => { let n = if let Some(n) = hint_n(r, 1, 2, 5000) { n } else { *r.pick(&[65usize, 129, 257, 300, 600]) }; let v = (0..n).map(|_| O(vec![("a".into(), g(r, 1))])).collect(); if r.p(1, 2) { A(v) } else { O(vec![("b".into(), A(v))]) } }
        24 => { let n = r.n(100) + 40; let mut j = A(vec![]); for i in 0..n.min(98) { j = if i % 2 == 0 { O(vec![("a".into(), j)]) } else { A(vec![j]) } } j }
        _ => { let d = 1 + r.n(5); g(r, d) }
    }
}
/// Every short path on every small document.
fn small_all(c: &mut Ctx, f: impl Fn(&J, &[St], &str, &[J], &mut Rng) -> R) {
    let one = || N(num("1"));
    let o = |k: &str, j: J| O(vec![(k.into(), j)]);
    let leaf = vec![A(vec![]), O(vec![]), one(), A(vec![one()]), o("a", one()), o("b", S("x".into()))];
    let mut docs = leaf.clone();
    for x in &leaf { docs.push(A(vec![x.clone()])); docs.push(o("a", x.clone())); }
    for x in &leaf[..5] { for z in &leaf[..5] { docs.push(A(vec![x.clone(), z.clone()])); docs.push(O(vec![("b".into(), x.clone()), ("a".into(), z.clone())])); } }
    let st = [".a", ".*", "[0]", "[*]", "[last]", "[1 to last]", "[0,1]", "..a", "[last to 0, 0]"];
    let mut paths: Vec<String> = vec!["$".into()];
    for a in st { paths.push(format!("${}", a)); for b in st { paths.push(format!("${}{}", a, b)); } }
    for p in ["$[*][*][*]", "$[0][0][*]", "$..a[*][0]", "$.a.a.a", "$.*.*[*]", "$..a..a", "$[0]..a[*]"] { paths.push(p.into()) }
    for p in paths { for j in &docs {
        let v = read_path(&p).unwrap();
        let mut want = vec![];
        select(j, &v, &mut want);
        let mut r = Rng::new(c.rng.next());
        c.case(|| format!("path {:?} on {}", p, order(j)), !want.is_empty(), || f(j, &v, &p, &want, &mut r));
    } }
}
fn qcase(c: &mut Ctx, fun: bool, arr_only: bool, f: impl Fn(&J, &[St], &str, &[J], &mut Rng) -> R) {
    if c.evals() == 200 {
        // as many elements as there can be
        for (i, paths) in [(0, &["$[*]", "$[65534]", "$[last-65534]", "$[65530 to last]", "$[0 to last]", "$[32768]", "$[last,0].size()", "$[65535]", "$.size()", "$.count()", "$[*].count()", "$[0 to last, 0 to last].count()", "$[last to 0, 65534].count()"][..]), (1, &["$.*", "$.k39999", "$..k39998", "$.k40000", "$[0].k300", "$.k256", "$.*.type()", "$.k", "$.*.count()", "$.size()", "$..k7.count()"][..]), (2, &["$[2]", "$[1 to last]", "$[3][2]", "$[4].a", "$[last]", "$[1,4].type()"][..]), (3, &["$.k2", "$.k3[0]", "$.k4.a", "$..a", "$.k5", "$.k1"][..])] {
            let j = huge(i);
            let mut r = Rng::new(c.rng.next());
            for p in paths {
                let v = read_path(p).unwrap();
                if !fun && matches!(v.last(), Some(St::Fun(_))) { continue; }
                let mut want = vec![];
                select(&j, &v, &mut want);
                c.case(|| format!("path {:?} on a document of many elements or far elements ({})", p, i), true, || f(&j, &v, p, &want, &mut r));
            }
        }
    }
    let mut r = Rng::new(c.rng.next());
    if let Some(n) = hint_n(&mut r, 1, 8, 3000) {
        // an array of that many elements, and subscripts the source mentions
        let a = A((0..n).map(|i| match i % 3 { 0 => N(num(&i.to_string())), 1 => S(i.to_string()), _ => B(i % 2 == 0) }).collect());
        let (j, mut v) = match r.n(4) { 0 => (A(vec![Z, a]), vec![St::Arr(vec![Sub::One(Ix::I(1))])]), 1 => (O(vec![("a".into(), a)]), vec![St::Key("a".into())]), _ => (a, vec![]) };
        let mut ix = |r: &mut Rng| { let k = hint_n(r, 2, 3, n + 1).unwrap_or(r.n(n + 2)); if r.p(1, 2) { Ix::I(k) } else { Ix::L(k) } };
        let k = 1 + r.n(2);
        v.push(St::Arr((0..k).map(|_| if r.p(2, 3) { Sub::One(ix(&mut r)) } else { Sub::Range(ix(&mut r), ix(&mut r)) }).collect()));
        let p = path_text(&v, &mut r);
        let mut want = vec![];
        if let Some(p) = p { if select_within(&j, &v, &mut want, 100_000) { c.case(|| format!("path {:?} on {}", p, order(&j)), !want.is_empty(), || f(&j, &v, &p, &want, &mut r)); } }
        return;
    }
    let j = qdoc(&mut r);
    let mut keys = vec![];
    keys_of(&j, &mut keys);
    let v = if arr_only { let n = 1 + r.n(3); (0..n).map(|_| if r.p(1, 4) { St::ArrAll } else { let k = if let Some(n) = hint_n(&mut r, 1, 8, 100) { n.max(1) } else if r.p(1, 2) { 1 } else if r.p(1, 8) { 1 + r.n(20) } else { 1 + r.n(4) }; St::Arr((0..k).map(|_| gsub(&mut r)).collect()) }).collect() } else if r.p(1, 2) { walk(&mut r, &j, fun) } else { gsteps(&mut r, &keys, fun) };
    let Some(p) = path_text(&v, &mut r) else { return };
    let mut want = vec![];
    if !select_within(&j, &v, &mut want, 100_000) { return }
    c.case(|| format!("path {:?} on {}", p, order(&j)), !want.is_empty(), || f(&j, &v, &p, &want, &mut r));
}
fn q_list(j: &J, p: &str, want: &[J]) -> R {
    let b = enc(j);
    let p = pe(p)?;
    let q = p.query(y(&b), true, None, None).map_err(|e| e.to_string())?;
    ck!(matches!(q, QueriedValue::None) == want.is_empty(), "no result reported: {}", matches!(q, QueriedValue::None));
    list_eq(&results(&q)?, want, "results")
}
fn c17(c: &mut Ctx) {
    // every small array and every small subscript
    for n in 0..5usize {
        let arr = A((0..n).map(|i| N(num(&i.to_string()))).collect());
        let mut ixs = vec![];
        for k in 0..6 { ixs.push(Ix::I(k)); ixs.push(Ix::L(k)); }
        ixs.push(Ix::I(2147483647)); ixs.push(Ix::L(2147483647));
        let mut subs: Vec<Vec<Sub>> = ixs.iter().map(|i| vec![Sub::One(i.clone())]).collect();
        for a in &ixs { for b in &ixs { subs.push(vec![Sub::Range(a.clone(), b.clone())]); subs.push(vec![Sub::One(b.clone()), Sub::Range(a.clone(), b.clone()), Sub::One(a.clone())]); } }
        for s in subs {
            for doc in [arr.clone(), B(true), O(vec![("a".into(), Z)])] {
                if n > 0 && !matches!(doc, A(_)) { continue; }
                let v = vec![St::Arr(s.clone())];
                let p = path_text(&v, &mut c.rng).unwrap();
                let mut want = vec![];
                select(&doc, &v, &mut want);
                c.case(|| format!("path {:?} on {}", p, compact(&doc)), !want.is_empty(), || q_list(&doc, &p, &want));
            }
        }
    }
    while c.more(100) { qcase(c, false, true, |j, _, p, want, _| q_list(j, p, want)); }
}
fn c18(c: &mut Ctx) {
    while c.evals() < 201 && c.more(100) { qcase(c, false, false, |j, _, p, want, _| q_list(j, p, want)); }
    small_all(c, |j, _, p, want, _| q_list(j, p, want));
    while c.more(100) { qcase(c, false, false, |j, _, p, want, _| q_list(j, p, want)); }
}
fn exists_ok(j: &J, v: &[St], p: &str, want: &[J]) -> R {
    let b = enc(j);
    let e = pe(p)?.exists(y(&b));
    if matches!(v.last(), Some(St::Fun(_))) { ck!(matches!(e, Err(YasonError::InvalidPathExpression)), "exists = {}", es(&e)); return Ok(()); }
    ck!(matches!(e, Ok(x) if x != want.is_empty()), "exists = {}, {} values", es(&e), want.len());
    Ok(())
}
fn c19(c: &mut Ctx) {
    while c.evals() < 201 && c.more(100) { let fun = c.rng.p(1, 8) || c.evals() == 200; qcase(c, fun, false, |j, v, p, want, _| exists_ok(j, v, p, want)); }
    small_all(c, |j, v, p, want, _| exists_ok(j, v, p, want));
    while c.more(100) {
        let fun = c.rng.p(1, 8);
        let arr = !fun && c.rng.p(1, 6);
        qcase(c, fun, arr, |j, v, p, want, _| exists_ok(j, v, p, want));
    }
}
/// A query buffer with the results of an earlier query.
fn stale(r: &mut Rng) -> Vec<Value<'static>> { let n = if let Some(n) = hint_n(r, 1, 10, 100_000) { n } else if r.p(1, 40) { r.n(6000) } else { r.n(5) }; (0..n).map(|i| match i % 3 { 0 => Value::Bool(true), 1 => Value::String("old"), _ => Value::Null }).collect() }
fn method_results(v: &[St], want: &[J]) -> Vec<J> { match v.last() { Some(St::Fun("count")) => vec![N(num(&want.len().to_string()))], _ => want.to_vec() } }
fn c20(c: &mut Ctx) {
    while c.more(100) {
        let fun = c.rng.p(1, 2) || c.evals() == 200;
        qcase(c, fun, false, |j, v, p, want, r| {
            let b = enc(j);
            let p = pe(p)?;
            let isf = matches!(v.last(), Some(St::Fun(_)));
            let mut qb = stale(r);
            let use_qb = r.p(1, 2);
            let q = p.query(y(&b), false, if use_qb { Some(&mut qb) } else { None }, None);
            match (&q, isf, want.len()) {
                (Err(YasonError::MultiValuesWithoutWrapper), true, _) => {}
                (Ok(QueriedValue::None), false, 0) => {}
                (Ok(QueriedValue::Value(x)), false, 1) => list_eq(&[back(x)?], want, "single result")?,
                (Err(YasonError::MultiValuesWithoutWrapper), false, 2..) => {}
                (Ok(_), _, n) => return Err(format!("without wrapper: {} values, method {}, got a result {:?}", n, isf, q.as_ref().ok().map(results))),
                (Err(e), _, n) => return Err(format!("without wrapper: {} values, method {}, got {:?}", n, isf, e)),
            }
            let want = method_results(v, want);
            let q = p.query(y(&b), true, None, None).map_err(|e| e.to_string())?;
            ck!(matches!(q, QueriedValue::None) == want.is_empty(), "with wrapper: no result reported: {}", matches!(q, QueriedValue::None));
            list_eq(&results(&q)?, &want, "with wrapper")
        });
    }
}
fn c21(c: &mut Ctx) {
    while c.more(100) {
        let fun = c.rng.p(1, 4) || c.evals() == 200;
        qcase(c, fun, false, |j, v, p, want, r| {
            let b = enc(j);
            let p = pe(p)?;
            let want = method_results(v, want);
            let mut qb = stale(r);
            let n = if let Some(n) = hint_n(r, 1, 10, 1_000_000) { n } else if r.p(1, 60) { r.n(100_000) } else { r.n(40) };
            let mut rb: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let (use_q, use_r) = (r.p(1, 2), r.p(3, 4));
            let q = p.query(y(&b), true, if use_q { Some(&mut qb) } else { None }, if use_r { Some(&mut rb) } else { None }).map_err(|e| e.to_string())?;
            ck!(matches!(q, QueriedValue::None) == want.is_empty(), "no result reported: {}", matches!(q, QueriedValue::None));
            list_eq(&results(&q)?, &want, "results")?;
            let (mut t, mut u) = (String::new(), String::new());
            q.format_to(false, &mut t).map_err(|e| e.to_string())?;
            q.format_to(true, &mut u).map_err(|e| e.to_string())?;
            if want.is_empty() { ck!(t.is_empty() && u.is_empty(), "text of no result"); return Ok(()); }
            ck!(t == compact(&A(want.clone())), "text {} want {}", t, compact(&A(want.clone())));
            ck!(u == pretty(&A(want.clone())), "pretty text {} want {}", u, pretty(&A(want.clone())));
            if use_r {
                let QueriedValue::Yason(x) = &q else { return Err("no result in the buffer".into()) };
                let x = x.as_bytes().to_vec();
                drop(q);
                ck!(rb == x, "the result buffer holds more than the result");
            } else if use_q { ck!(matches!(q, QueriedValue::ValuesRef(_)), "not in the query buffer"); }
            Ok(())
        });
    }
}

// ---- C22, C23 ----
fn c22(c: &mut Ctx) {
    for b in 0..=255u8 {
        c.case(|| format!("tag byte {}", b), true, || {
            match DataType::try_from(b) {
                Ok(t) => { ck!((1..=6).contains(&b), "accepted as {:?}", t); ck!(u8::from(t) == b, "converts back to {}", u8::from(t)); ck!(t == dt(b), "is {:?}", t); ck!(t.name() == ["object", "array", "string", "number", "bool", "null"][b as usize - 1], "name {:?}", t.name()); }
                Err(e) => { ck!(!(1..=6).contains(&b), "refused"); ck!(e.to_string().contains(&format!("'{}'", b)), "reported as {}", e); }
            }
            let v = [b, 1, 0, 0, 0, 0, 0];
            match y(&v).data_type() { Ok(t) => ck!((1..=6).contains(&b) && t == dt(b), "data_type {:?}", t), Err(YasonError::InvalidDataType(x)) => ck!(x == b && !(1..=6).contains(&b), "InvalidDataType({})", x), r => return Err(es(&r)) }
            match Value::try_from(y(&v)) { Err(YasonError::InvalidDataType(x)) => ck!(x == b && !(1..=6).contains(&b), "InvalidDataType({})", x), Ok(x) => ck!((1..=6).contains(&b) && x.data_type() == dt(b), "Value {:?}", x.data_type()), _ => ck!((1..=6).contains(&b), "refused") }
            Ok(())
        });
    }
    for t in 1..=6u8 { c.case(|| format!("type {:?}", dt(t)), true, || { ck!(u8::from(dt(t)) == t && DataType::try_from(t).ok() == Some(dt(t)), "tag {}", u8::from(dt(t))); Ok(()) }); }
    while c.more(10) { let j = gen(&mut c.rng, 2, 3); c.case(|| compact(&j), true, || { let b = enc(&j); ck!(y(&b).data_type().ok() == Some(dt(j.tag())), "data_type"); Ok(()) }); }
}
fn c23(c: &mut Ctx) {
    while c.more(100) {
        let j = if let Some(i) = turn(c.evals()) { corner(i) } else { gen(&mut c.rng, 4, 5) };
        let mut r = Rng::new(c.rng.next());
        c.case(|| order(&j), true, || {
            let b = enc(&j);
            let yy = y(&b);
            ck!(yy.to_owned().as_bytes() == &b[..], "to_owned");
            ck!(yy.to_yason_buf().map_err(|e| e.to_string())?.as_bytes() == &b[..], "to_yason_buf");
            // over another value, over an equal one with other bytes, over one that is longer, over itself
            let mut o = Scalar::string("something else").map_err(|e| e.to_string())?;
            for k in 0..6 {
                let old = match k { 0 => None, 1 => Some(disguise(&j, &mut r)), 2 => Some(mutate(&j, &mut r)), 3 => Some(A(vec![j.clone(), Z])), 4 => Some(gen(&mut r, 3, 4)), _ => Some(j.clone()) };
                if let Some(old) = &old { o = y(&enc(old)).to_owned() }
                o.clone_from_yason(yy);
                ck!(o.as_bytes() == &b[..], "clone_from_yason over {}", old.map(|x| short(&x)).unwrap_or_default());
            }
            ck!(o.clone().as_bytes() == &b[..], "clone");
            let (x, z, w): (&Yason, &Yason, &Yason) = (o.as_ref(), std::borrow::Borrow::borrow(&o), &o);
            ck!(x.as_bytes() == &b[..] && z.as_bytes() == &b[..] && w.as_bytes() == &b[..], "as_ref, borrow or deref");
            let x: &Yason = AsRef::<Yason>::as_ref(yy);
            ck!(x.as_bytes() == &b[..], "as_ref of a borrowed value");
            let v = Value::try_from(yy).map_err(|e| e.to_string())?;
            ck!(v.data_type() == dt(j.tag()), "Value::data_type");
            let n = r.n(6);
            let pre = vec![5u8; n];
            let mut buf = dirty(&mut r, &pre);
            let back = v.try_to_yason(&mut buf).map_err(|e| e.to_string())?;
            same(&back_y(back)?, &j, "try_to_yason")?;
            ck!(back == yy, "not equal after the round trip");
            Ok(())
        });
    }
}
