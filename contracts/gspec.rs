// The grammar of path expressions, as specification functions (C16).
// Each reads the text b from position i and yields what is written there and the position behind it.
pub mod gspec {
    use vstd::prelude::*;
    use crate::prelude::*;
    use crate::path::parse::{Step, ObjectStep, ArrayStep, SingleStep, SingleIndex, FuncStep};

    /// A step as written.
    pub enum SStep { Root, Member(Seq<u8>), Members, Array(SArr), Descendent(Seq<u8>), Func(FuncStep) }
    pub enum SArr { One(SingleStep), List(Seq<SingleStep>), All }
    pub open spec fn sstep(s: Step) -> SStep {
        match s {
            Step::Root => SStep::Root,
            Step::Object(ObjectStep::Key(k)) => SStep::Member(skey(k)),
            Step::Object(ObjectStep::Wildcard) => SStep::Members,
            Step::Array(ArrayStep::Index(i)) => SStep::Array(SArr::One(SingleStep::Single(SingleIndex::Index(i)))),
            Step::Array(ArrayStep::Last(k)) => SStep::Array(SArr::One(SingleStep::Single(SingleIndex::Last(k)))),
            Step::Array(ArrayStep::Range(x, y)) => SStep::Array(SArr::One(SingleStep::Range(x, y))),
            Step::Array(ArrayStep::Multiple(m)) => SStep::Array(SArr::List(m@)),
            Step::Array(ArrayStep::Wildcard) => SStep::Array(SArr::All),
            Step::Descendent(k) => SStep::Descendent(skey(k)),
            Step::Func(f) => SStep::Func(f),
        }
    }
    pub open spec fn ssteps(s: Seq<Step>) -> Seq<SStep> { s.map_values(|x: Step| sstep(x)) }

    pub open spec fn is_gap(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
    pub open spec fn is_dig(c: u8) -> bool { 48 <= c <= 57 }
    pub open spec fn is_alpha(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 }
    pub open spec fn is_alnum(c: u8) -> bool { is_alpha(c) || is_dig(c) }
    pub open spec fn on(b: Seq<u8>, i: int, c: u8) -> bool { 0 <= i < b.len() && b[i] == c }
    pub open spec fn word(b: Seq<u8>, i: int, w: Seq<u8>) -> bool { 0 <= i && i + w.len() <= b.len() && b.subrange(i, i + w.len()) == w }
    pub open spec fn w_last() -> Seq<u8> { seq![108u8, 97u8, 115u8, 116u8] }
    pub open spec fn w_to() -> Seq<u8> { seq![116u8, 111u8] }
    /// The first position from i on that p does not hold of.
    pub open spec fn span(b: Seq<u8>, i: int, p: spec_fn(u8) -> bool) -> int decreases b.len() - i {
        if 0 <= i < b.len() && p(b[i]) { span(b, i + 1, p) } else { i }
    }
    pub open spec fn ws(b: Seq<u8>, i: int) -> int { span(b, i, |c: u8| is_gap(c)) }
    pub open spec fn blanks(b: Seq<u8>, i: int) -> int { span(b, i, |c: u8| c == 32) }
    pub open spec fn digs(b: Seq<u8>, i: int) -> int { span(b, i, |c: u8| is_dig(c)) }
    pub open spec fn alnums(b: Seq<u8>, i: int) -> int { span(b, i, |c: u8| is_alnum(c)) }
    pub proof fn lemma_span(b: Seq<u8>, i: int, p: spec_fn(u8) -> bool)
        requires 0 <= i <= b.len()
        ensures i <= span(b, i, p) <= b.len(),
            forall|k: int| i <= k < span(b, i, p) ==> p(#[trigger] b[k]),
            span(b, i, p) < b.len() ==> !p(b[span(b, i, p)]),
        decreases b.len() - i
    {
        if i < b.len() && p(b[i]) { lemma_span(b, i + 1, p); }
    }
    pub proof fn lemma_span_is(b: Seq<u8>, i: int, p: spec_fn(u8) -> bool, j: int)
        requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> p(#[trigger] b[k]), j < b.len() ==> !p(b[j])
        ensures span(b, i, p) == j
        decreases j - i
    {
        if i < j { lemma_span_is(b, i + 1, p, j); }
    }
    /// The number written in decimal in b[i..j].
    pub open spec fn number(b: Seq<u8>, i: int, j: int) -> int decreases j - i {
        if j <= i { 0 } else { number(b, i, j - 1) * 10 + (b[j - 1] - 48) }
    }
    pub proof fn lemma_number(b: Seq<u8>, i: int, j: int, k: int)
        requires 0 <= i <= j <= k <= b.len(), forall|x: int| i <= x < k ==> is_dig(#[trigger] b[x])
        ensures 0 <= number(b, i, j) <= number(b, i, k)
        decreases k
    {
        if j < k { lemma_number(b, i, j, k - 1); assert(is_dig(b[k - 1])); }
        else if i < j { lemma_number(b, i, j - 1, j - 1); assert(is_dig(b[j - 1])); }
    }

    // index: 12
    pub open spec fn p_index(b: Seq<u8>, i: int) -> Option<(int, int)> {
        let j = digs(b, i);
        if j > i && number(b, i, j) <= 0x7fff_ffff { Some((number(b, i, j), j)) } else { None }
    }
    // one end: 12, last, last - 12
    pub open spec fn p_single(b: Seq<u8>, i: int) -> Option<(SingleIndex, int)> {
        if word(b, i, w_last()) {
            let j = ws(b, i + 4);
            if on(b, j, 45) {
                match p_index(b, ws(b, j + 1)) { Some(x) => Some((SingleIndex::Last(x.0 as usize), x.1)), None => None }
            } else if j < b.len() { Some((SingleIndex::Last(0), j)) } else { None }
        } else {
            match p_index(b, i) { Some(x) => Some((SingleIndex::Index(x.0 as usize), x.1)), None => None }
        }
    }
    // one subscript: END or END to END
    pub open spec fn p_sub(b: Seq<u8>, i: int) -> Option<(SingleStep, int)> {
        match p_single(b, i) {
            None => None,
            Some(x) => {
                let j = ws(b, x.1);
                if word(b, j, w_to()) {
                    match p_single(b, ws(b, j + 2)) { Some(y) => Some((SingleStep::Range(x.0, y.0), y.1)), None => None }
                } else { Some((SingleStep::Single(x.0), j)) }
            }
        }
    }
    // subscripts separated by commas, after those in acc
    pub open spec fn p_list(b: Seq<u8>, i: int, acc: Seq<SingleStep>) -> Option<(Seq<SingleStep>, int)> decreases b.len() - i {
        match p_sub(b, i) {
            None => None,
            Some(x) => {
                let j = ws(b, x.1);
                let k = ws(b, j + 1);
                if !on(b, j, 44) { Some((acc.push(x.0), j)) } else if i < k <= b.len() { p_list(b, k, acc.push(x.0)) } else { None }
            }
        }
    }
    // array step, i behind the opening bracket
    pub open spec fn p_array(b: Seq<u8>, i: int) -> Option<(SStep, int)> {
        let j = ws(b, i);
        let x = if on(b, j, 42) { Some((SArr::All, j + 1)) } else {
            match p_list(b, j, Seq::empty()) { Some(l) => Some((if l.0.len() == 1 { SArr::One(l.0[0]) } else { SArr::List(l.0) }, l.1)), None => None }
        };
        match x { Some(y) if on(b, ws(b, y.1), 93) => Some((SStep::Array(y.0), ws(b, y.1) + 1)), _ => None }
    }
    pub open spec fn is_esc(c: u8) -> bool { c == 98 || c == 102 || c == 110 || c == 114 || c == 116 || c == 34 || c == 47 || c == 92 }
    // where a quoted key that goes on at i is closed
    pub open spec fn closing(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i {
        if i < 0 || i >= b.len() { None }
        else if b[i] == 34 { Some(i) }
        else if b[i] == 92 { if i + 1 < b.len() && is_esc(b[i + 1]) { closing(b, i + 2) } else { None } }
        else { closing(b, i + 1) }
    }
    pub open spec fn closed(b: Seq<u8>, i: int, end: Option<usize>, pos: int) -> bool {
        match end { Some(e) => closing(b, i) == Some(e as int) && pos == e + 1 && i <= e, None => closing(b, i) is None }
    }
    // quoted key, i behind the opening quote
    pub open spec fn p_quoted(b: Seq<u8>, i: int) -> Option<(Seq<u8>, int)> {
        match closing(b, i) { Some(e) if vstd::utf8::valid_utf8(b.subrange(i, e)) => Some((b.subrange(i, e), e + 1)), _ => None }
    }
    // unquoted key
    pub open spec fn p_name(b: Seq<u8>, i: int) -> Option<(Seq<u8>, int)> {
        if 0 <= i < b.len() && is_alpha(b[i]) { Some((b.subrange(i, alnums(b, i)), alnums(b, i))) } else { None }
    }
    pub open spec fn p_func(n: Seq<u8>) -> Option<FuncStep> {
        if n == seq![99u8, 111u8, 117u8, 110u8, 116u8] { Some(FuncStep::Count) }
        else if n == seq![115u8, 105u8, 122u8, 101u8] { Some(FuncStep::Size) }
        else if n == seq![116u8, 121u8, 112u8, 101u8] { Some(FuncStep::Type) }
        else { None }
    }
    // unquoted key or method: a method ends the path
    pub open spec fn p_unquoted(b: Seq<u8>, i: int) -> Option<(SStep, int)> {
        match p_name(b, i) {
            None => None,
            Some(x) => {
                let j = ws(b, x.1);
                if on(b, j, 40) {
                    let k = ws(b, j + 1);
                    let e = ws(b, k + 1);
                    if !on(b, k, 41) || e < b.len() { None } else { match p_func(x.0) { Some(f) => Some((SStep::Func(f), e)), None => None } }
                } else if j >= b.len() || b[j] == 46 || b[j] == 91 { Some((SStep::Member(x.0), j)) } else { None }
            }
        }
    }
    // step behind the dot
    pub open spec fn p_member(b: Seq<u8>, i: int) -> Option<(SStep, int)> {
        let j = ws(b, i);
        if on(b, j, 42) { Some((SStep::Members, j + 1)) }
        else if on(b, j, 34) { match p_quoted(b, j + 1) { Some(x) => Some((SStep::Member(x.0), x.1)), None => None } }
        else { p_unquoted(b, j) }
    }
    // step behind the second dot
    pub open spec fn p_descendent(b: Seq<u8>, i: int) -> Option<(SStep, int)> {
        let j = ws(b, i);
        match (if on(b, j, 34) { p_quoted(b, j + 1) } else { p_name(b, j) }) { Some(x) => Some((SStep::Descendent(x.0), x.1)), None => None }
    }
    pub open spec fn p_step(b: Seq<u8>, i: int) -> Option<(SStep, int)> {
        if on(b, i, 91) { p_array(b, i + 1) }
        else if on(b, i, 46) { if on(b, i + 1, 46) { p_descendent(b, i + 2) } else { p_member(b, i + 1) } }
        else { None }
    }
    // steps to the end of the text, after those in acc
    pub open spec fn p_steps(b: Seq<u8>, i: int, acc: Seq<SStep>) -> Option<Seq<SStep>> decreases b.len() - i {
        if i >= b.len() { Some(acc) }
        else { match p_step(b, i) { Some(x) if i < ws(b, x.1) <= b.len() => p_steps(b, ws(b, x.1), acc.push(x.0)), _ => None } }
    }
    /// The steps written in b, if b is a path expression.
    pub open spec fn p_path(b: Seq<u8>) -> Option<Seq<SStep>> {
        let i = blanks(b, 0);
        if on(b, i, 36) { p_steps(b, blanks(b, i + 1), seq![SStep::Root]) } else { None }
    }

    /// Letters and digits are text.
    pub proof fn lemma_alnum(s: Seq<u8>)
        requires forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i])
        ensures vstd::utf8::valid_utf8(s)
    {
        assert forall|i: int| 0 <= i < s.len() implies s[i] < 0x80 by { assert(is_alnum(s[i])); }
        crate::fspec::lemma_ascii(s);
    }
    // ------------------------------------------------------------ reading moves on
    pub proof fn lemma_ws(b: Seq<u8>, i: int)
        requires 0 <= i
        ensures i <= ws(b, i), i <= b.len() ==> ws(b, i) <= b.len(), i >= b.len() ==> ws(b, i) == i, ws(b, ws(b, i)) == ws(b, i)
    {
        if i <= b.len() {
            lemma_span(b, i, |c: u8| is_gap(c));
            lemma_span_is(b, ws(b, i), |c: u8| is_gap(c), ws(b, i));
        }
    }
    pub proof fn lemma_p_index(b: Seq<u8>, i: int)
        requires 0 <= i
        ensures p_index(b, i) matches Some(x) ==> i < x.1 <= b.len() && x.0 >= 0
    {
        if i <= b.len() {
            lemma_span(b, i, |c: u8| is_dig(c));
            lemma_number(b, i, digs(b, i), digs(b, i));
        }
    }
    pub proof fn lemma_p_single(b: Seq<u8>, i: int)
        requires 0 <= i
        ensures p_single(b, i) matches Some(x) ==> i < x.1 <= b.len()
    {
        lemma_p_index(b, i);
        if word(b, i, w_last()) {
            let j = ws(b, i + 4);
            lemma_ws(b, i + 4);
            if j < b.len() { lemma_ws(b, j + 1); }
            lemma_p_index(b, ws(b, j + 1));
        }
    }
    pub proof fn lemma_p_sub(b: Seq<u8>, i: int)
        requires 0 <= i
        ensures p_sub(b, i) matches Some(x) ==> i < x.1 <= b.len()
    {
        lemma_p_single(b, i);
        if p_single(b, i) is Some {
            let j = ws(b, (p_single(b, i)->0).1);
            lemma_ws(b, (p_single(b, i)->0).1);
            lemma_ws(b, j + 2);
            lemma_p_single(b, ws(b, j + 2));
        }
    }
    pub proof fn lemma_p_list(b: Seq<u8>, i: int, acc: Seq<SingleStep>)
        requires 0 <= i
        ensures p_list(b, i, acc) matches Some(x) ==> i < x.1 <= b.len()
        decreases b.len() - i
    {
        lemma_p_sub(b, i);
        if p_sub(b, i) is Some {
            let x = p_sub(b, i)->0;
            let j = ws(b, x.1);
            lemma_ws(b, x.1);
            lemma_ws(b, j + 1);
            if on(b, j, 44) { lemma_p_list(b, ws(b, j + 1), acc.push(x.0)); }
        }
    }
    pub proof fn lemma_closing(b: Seq<u8>, i: int)
        requires 0 <= i
        ensures closing(b, i) matches Some(x) ==> i <= x < b.len() && b[x] == 34
        decreases b.len() - i
    {
        if i < b.len() { if b[i] == 92 { if i + 1 < b.len() { lemma_closing(b, i + 2); } } else { lemma_closing(b, i + 1); } }
    }
    pub proof fn lemma_p_name(b: Seq<u8>, i: int)
        ensures p_name(b, i) matches Some(x) ==> i < x.1 <= b.len()
    {
        if 0 <= i < b.len() { lemma_span(b, i, |c: u8| is_alnum(c)); }
    }
    pub proof fn lemma_p_step(b: Seq<u8>, i: int)
        requires 0 <= i < b.len()
        ensures p_step(b, i) matches Some(x) ==> !(x.0 is Root) && i < x.1 <= b.len() && (x.0 is Func ==> x.1 == b.len())
    {
        if on(b, i, 91) {
            let j = ws(b, i + 1);
            lemma_ws(b, i + 1);
            lemma_p_list(b, j, Seq::empty());
            if on(b, j, 42) { lemma_ws(b, j + 1); }
            if p_list(b, j, Seq::empty()) is Some { lemma_ws(b, (p_list(b, j, Seq::empty())->0).1); }
        } else if on(b, i, 46) {
            let p = if on(b, i + 1, 46) { i + 2 } else { i + 1 };
            let j = ws(b, p);
            lemma_ws(b, p);
            lemma_closing(b, j + 1);
            lemma_p_name(b, j);
            if p_name(b, j) is Some {
                let x = p_name(b, j)->0;
                let k0 = ws(b, x.1);
                lemma_ws(b, x.1);
                lemma_ws(b, k0 + 1);
                lemma_ws(b, ws(b, k0 + 1) + 1);
            }
        }
    }
}
