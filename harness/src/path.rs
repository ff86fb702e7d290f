//! Reference path grammar and reference selection.
use crate::model::{J, Rng};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ix { I(usize), L(usize) }
#[derive(Clone, Debug, PartialEq)]
pub enum Sub { One(Ix), Range(Ix, Ix) }
#[derive(Clone, Debug, PartialEq)]
pub enum St { Key(String), KeyAll, Arr(Vec<Sub>), ArrAll, Desc(String), Fun(&'static str) }

struct R<'a> { s: &'a [u8], i: usize }
fn ws(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\n' | b'\x0c' | b'\r') }
impl<'a> R<'a> {
    fn c(&self) -> Option<u8> { self.s.get(self.i).copied() }
    fn sp(&mut self) { while self.c().is_some_and(ws) { self.i += 1 } }
    fn eat(&mut self, w: &str) -> bool { if self.s[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); true } else { false } }
    fn int(&mut self) -> Option<usize> {
        let b = self.i;
        while self.c().is_some_and(|c| c.is_ascii_digit()) { self.i += 1 }
        let t = std::str::from_utf8(&self.s[b..self.i]).ok()?;
        if t.is_empty() { return None; }
        let t = t.trim_start_matches('0');
        if t.is_empty() { return Some(0); }
        if t.len() > 10 { return None; }
        let v: u64 = t.parse().ok()?;
        if v > i32::MAX as u64 { None } else { Some(v as usize) }
    }
    fn ix(&mut self) -> Option<Ix> {
        if self.eat("last") {
            self.sp();
            if self.eat("-") { self.sp(); return Some(Ix::L(self.int()?)); }
            return Some(Ix::L(0));
        }
        Some(Ix::I(self.int()?))
    }
    fn cell(&mut self) -> Option<Sub> {
        let a = self.ix()?;
        self.sp();
        if self.eat("to") { self.sp(); let b = self.ix()?; return Some(Sub::Range(a, b)); }
        Some(Sub::One(a))
    }
    fn name(&mut self) -> Option<String> {
        let b = self.i;
        if !self.c()?.is_ascii_alphabetic() { return None; }
        while self.c().is_some_and(|c| c.is_ascii_alphanumeric()) { self.i += 1 }
        Some(String::from_utf8(self.s[b..self.i].to_vec()).unwrap())
    }
    fn quoted(&mut self) -> Option<String> {
        let b = self.i;
        loop {
            let c = self.c()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(self.s[b..self.i - 1].to_vec()).ok(),
                b'\\' => { if !matches!(self.c()?, b'b' | b'f' | b'n' | b'r' | b't' | b'"' | b'/' | b'\\') { return None; } self.i += 1 }
                _ => {}
            }
        }
    }
    fn path(&mut self) -> Option<Vec<St>> {
        let mut o = vec![];
        while self.c() == Some(b' ') { self.i += 1 }
        if !self.eat("$") { return None; }
        while self.c() == Some(b' ') { self.i += 1 }
        while self.c().is_some() {
            if self.eat("[") {
                self.sp();
                if self.eat("*") { o.push(St::ArrAll) } else {
                    let mut v = vec![self.cell()?];
                    loop { self.sp(); if !self.eat(",") { break } self.sp(); v.push(self.cell()?) }
                    o.push(St::Arr(v));
                }
                self.sp();
                if !self.eat("]") { return None; }
            } else if self.eat("..") {
                self.sp();
                let k = if self.eat("\"") { self.quoted()? } else { self.name()? };
                o.push(St::Desc(k));
            } else if self.eat(".") {
                self.sp();
                if self.eat("*") { o.push(St::KeyAll) }
                else if self.eat("\"") { let k = self.quoted()?; o.push(St::Key(k)) }
                else {
                    let k = self.name()?;
                    self.sp();
                    if self.eat("(") {
                        self.sp();
                        if !self.eat(")") { return None; }
                        self.sp();
                        if self.c().is_some() { return None; }
                        o.push(St::Fun(match k.as_str() { "count" => "count", "size" => "size", "type" => "type", _ => return None }));
                    } else if matches!(self.c(), None | Some(b'.') | Some(b'[')) { o.push(St::Key(k)) } else { return None; }
                }
            } else { return None; }
            self.sp();
        }
        Some(o)
    }
}
pub fn read_path(s: &str) -> Option<Vec<St>> { R { s: s.as_bytes(), i: 0 }.path() }

fn dix(i: &Ix) -> String { match i { Ix::I(n) => format!("Index({})", n), Ix::L(n) => format!("Last({})", n) } }
fn dsub(s: &Sub, list: bool) -> String { match s { Sub::One(i) => if list { format!("Single({})", dix(i)) } else { dix(i) }, Sub::Range(a, b) => format!("Range({}, {})", dix(a), dix(b)) } }
/// The steps as the parsed expression prints itself.
pub fn shown(v: &[St]) -> String {
    let mut o = String::from("PathExpression([Root");
    for s in v {
        o.push_str(", ");
        match s {
            St::Key(k) => write!(o, "Object(Key({:?}))", k).unwrap(),
            St::KeyAll => o.push_str("Object(Wildcard)"),
            St::Arr(v) => if v.len() == 1 { write!(o, "Array({})", dsub(&v[0], false)).unwrap() } else { write!(o, "Array(Multiple([{}]))", v.iter().map(|x| dsub(x, true)).collect::<Vec<_>>().join(", ")).unwrap() },
            St::ArrAll => o.push_str("Array(Wildcard)"),
            St::Desc(k) => write!(o, "Descendent({:?})", k).unwrap(),
            St::Fun(f) => write!(o, "Func({})", match *f { "count" => "Count", "size" => "Size", _ => "Type" }).unwrap(),
        }
    }
    o.push_str("])");
    o
}

/// Positions a subscript names in an array of length n.
pub fn positions(s: &Sub, n: usize) -> Vec<usize> {
    let at = |i: &Ix| -> i128 { match i { Ix::I(i) => *i as i128, Ix::L(m) => n as i128 - 1 - *m as i128 } };
    let (a, b) = match s { Sub::One(i) => (at(i), at(i)), Sub::Range(a, b) => (at(a).min(at(b)), at(a).max(at(b))) };
    (a.max(0)..=b.min(n as i128 - 1)).map(|x| x as usize).collect()
}
pub fn select(v: &J, steps: &[St], out: &mut Vec<J>) { sel(v, steps, out, &mut u64::MAX.clone()) }
/// The same, unless that takes more than `fuel` steps.
pub fn select_within(v: &J, steps: &[St], out: &mut Vec<J>, mut fuel: u64) -> bool { sel(v, steps, out, &mut fuel); fuel > 0 }
/// The values the steps denote. `Err(j)` is a value made by a method.
fn sel(v: &J, steps: &[St], out: &mut Vec<J>, fuel: &mut u64) {
    if *fuel == 0 { return; }
    *fuel -= 1;
    let Some(st) = steps.first() else { out.push(v.clone()); return };
    let rest = &steps[1..];
    match st {
        St::Key(k) => match v {
            J::O(m) => if let Some((_, x)) = m.iter().find(|x| &x.0 == k) { sel(x, rest, out, fuel) },
            J::A(a) => for x in a { sel(x, steps, out, fuel) },
            _ => {}
        },
        St::KeyAll => match v {
            J::O(m) => for (_, x) in J::stored(m) { sel(x, rest, out, fuel) },
            J::A(a) => for x in a { sel(x, steps, out, fuel) },
            _ => {}
        },
        St::Arr(subs) => match v {
            J::A(a) => for s in subs { for p in positions(s, a.len()) { sel(&a[p], rest, out, fuel) } },
            _ => if subs.iter().any(|s| !positions(s, 1).is_empty()) { sel(v, rest, out, fuel) },
        },
        St::ArrAll => match v { J::A(a) => for x in a { sel(x, rest, out, fuel) }, _ => sel(v, rest, out, fuel) },
        St::Desc(k) => match v {
            J::O(m) => {
                if let Some((_, x)) = m.iter().find(|x| &x.0 == k) { sel(x, rest, out, fuel) }
                for (_, x) in J::stored(m) { sel(x, steps, out, fuel) }
            }
            J::A(a) => for x in a { sel(x, steps, out, fuel) },
            _ => {}
        },
        St::Fun(f) => out.push(match *f {
            "count" => J::Z,
            "size" => J::N(crate::model::num(&match v { J::A(a) => a.len(), _ => 1 }.to_string())),
            _ => J::S(v.type_name().into()),
        }),
    }
}

// ---- generators ----
fn gws(r: &mut Rng, o: &mut String) { while r.p(1, 7) { o.push(*r.pick(&[' ', ' ', '\t', '\n', '\r', '\x0c'])) } }
fn gint(r: &mut Rng) -> usize { if let Some(n) = crate::model::hint_n(r, 1, 8, i32::MAX as usize) { return n; } match r.n(12) { 0 => *r.pick(&[2147483646, 2147483647, 1000000, 65534, 65535, 65536, 254, 255, 256, 257, 299, 127, 128]), _ => r.n(8) } }
fn gix(r: &mut Rng) -> Ix { if r.p(1, 2) { Ix::I(gint(r)) } else if r.p(1, 3) { Ix::L(0) } else { Ix::L(gint(r)) } }
pub fn gsub(r: &mut Rng) -> Sub { if r.p(1, 2) { Sub::One(gix(r)) } else { Sub::Range(gix(r), gix(r)) } }
const KEYS: &[&str] = &["a", "b", "c", "key", "key1", "count", "last", "to", "aa", "ab", "A", "type", "size"];
pub fn gsteps(r: &mut Rng, keys: &[String], fun: bool) -> Vec<St> {
    let n = if let Some(n) = crate::model::hint_n(r, 1, 12, 60) { n } else if r.p(1, 12) { r.n(10) } else { r.n(5) };
    let mut v = vec![];
    for _ in 0..n {
        let key = if !keys.is_empty() && r.p(4, 5) { r.pick(keys).clone() } else if let Some(s) = crate::model::hint_s(r, 1, 2) { s } else { r.pick(KEYS).to_string() };
        v.push(match r.n(10) {
            0..=2 => St::Key(key),
            3 => St::KeyAll,
            4..=6 => { let k = if r.p(2, 3) { 1 } else if let Some(n) = crate::model::hint_n(r, 1, 4, 300) { n.max(1) } else if r.p(1, 10) { 1 + r.n(20) } else { 1 + r.n(4) }; St::Arr((0..k).map(|_| gsub(r)).collect()) }
            7 => St::ArrAll,
            _ => St::Desc(key),
        });
    }
    if fun { v.push(St::Fun(*r.pick(&["count", "size", "type"]))) }
    v
}
/// Steps along a random way through the document, so that something is found.
pub fn walk(r: &mut Rng, j: &J, fun: bool) -> Vec<St> {
    let n = if let Some(n) = crate::model::hint_n(r, 1, 6, 40) { n } else { let k = if r.p(1, 4) { 12 } else { 5 }; 1 + r.n(k) };
    let mut v = vec![];
    let mut at = j;
    while v.len() < n {
        match at {
            J::O(m) if !m.is_empty() => {
                let (k, x) = &m[r.n(m.len())];
                v.push(match r.n(8) { 0..=3 => St::Key(k.clone()), 4 => St::KeyAll, 5 => St::Desc(k.clone()), 6 => { v.push(if r.p(1, 2) { St::ArrAll } else { St::Arr(vec![Sub::One(if r.p(1, 2) { Ix::I(0) } else { Ix::L(0) })]) }); continue } _ => { if r.p(1, 2) { at = x; } continue } });
                at = x;
            }
            J::A(a) if !a.is_empty() => {
                let i = r.n(a.len());
                let ix = |r: &mut Rng, i: usize| if r.p(1, 2) { Ix::I(i) } else { Ix::L(a.len() - 1 - i) };
                let s = match r.n(8) {
                    0..=2 => St::Arr(vec![Sub::One(ix(r, i))]),
                    3 => St::ArrAll,
                    4 => { let k = r.n(a.len()); St::Arr(vec![Sub::Range(ix(r, i), ix(r, k))]) }
                    5 => { let c = if r.p(1, 4) { 2 + r.n(20) } else { 2 + r.n(3) }; St::Arr((0..c).map(|_| { let (k, l) = (r.n(a.len()), r.n(a.len())); if r.p(2, 3) { Sub::One(ix(r, k)) } else if c < 6 { Sub::Range(ix(r, k), ix(r, l)) } else { gsub(r) } }).collect()) }
                    _ => { at = &a[i]; if v.is_empty() || r.p(1, 2) { continue } St::ArrAll }
                };
                v.push(s);
                at = &a[i];
            }
            _ => { if r.p(1, 3) { break } v.push(match r.n(3) { 0 => St::ArrAll, 1 => St::Arr(vec![Sub::One(Ix::I(0))]), _ => St::Arr(vec![Sub::Range(gix(r), Ix::L(0)), Sub::One(Ix::L(0))]) }); }
        }
    }
    if fun { v.push(St::Fun(*r.pick(&["count", "size", "type"]))) }
    v
}
fn tix(i: &Ix, r: &mut Rng, o: &mut String) {
    match i {
        Ix::I(n) => { if r.p(1, 20) { o.push_str("00") } write!(o, "{}", n).unwrap() }
        Ix::L(0) if r.p(2, 3) => o.push_str("last"),
        Ix::L(m) => { o.push_str("last"); gws(r, o); o.push('-'); gws(r, o); write!(o, "{}", m).unwrap() }
    }
}
/// None if a key cannot be written.
pub fn path_text(v: &[St], r: &mut Rng) -> Option<String> {
    let mut o = String::new();
    while r.p(1, 8) { o.push(' ') }
    o.push('$');
    while r.p(1, 8) { o.push(' ') }
    for (n, s) in v.iter().enumerate() {
        let key = |k: &str, r: &mut Rng, o: &mut String| -> Option<()> {
            let plain = !k.is_empty() && k.as_bytes()[0].is_ascii_alphabetic() && k.bytes().all(|c| c.is_ascii_alphanumeric());
            if plain && r.p(3, 4) { o.push_str(k); return Some(()); }
            if (R { s: format!("{}\"", k).as_bytes(), i: 0 }).quoted() != Some(k.to_string()) { return None; }
            write!(o, "\"{}\"", k).unwrap();
            Some(())
        };
        match s {
            St::Key(k) => { o.push('.'); gws(r, &mut o); key(k, r, &mut o)? }
            St::KeyAll => { o.push('.'); gws(r, &mut o); o.push('*') }
            St::Desc(k) => { o.push_str(".."); gws(r, &mut o); key(k, r, &mut o)? }
            St::ArrAll => { o.push('['); gws(r, &mut o); o.push('*'); gws(r, &mut o); o.push(']') }
            St::Arr(v) => {
                o.push('[');
                for (i, s) in v.iter().enumerate() {
                    if i > 0 { gws(r, &mut o); o.push(',') }
                    gws(r, &mut o);
                    match s {
                        Sub::One(i) => tix(i, r, &mut o),
                        Sub::Range(a, b) => { tix(a, r, &mut o); if r.p(9, 10) { o.push(' ') } gws(r, &mut o); o.push_str("to"); if r.p(9, 10) { o.push(' ') } tix(b, r, &mut o) }
                    }
                }
                gws(r, &mut o);
                o.push(']')
            }
            St::Fun(f) => { o.push('.'); gws(r, &mut o); o.push_str(f); gws(r, &mut o); o.push('('); gws(r, &mut o); o.push(')') }
        }
        if n + 1 < v.len() || r.p(1, 6) { gws(r, &mut o) }
    }
    Some(o)
}
