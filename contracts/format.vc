@mono Formatter
@keep trait WriteExt
@keep impl WriteExt for W
@keep impl From<fmt::Error> for FormatError
@keep impl From<YasonError> for FormatError
@inherent impl fmt::Display for LazyFormat
@items
broadcast use lemma_ascii;
use crate::prelude::fmt::Write as _;
/// The array of some query results.
pub open spec fn vals_arr(values: Seq<Value<'_>>) -> SVal { SVal::Arr(values.map_values(|v: Value<'_>| vv(v))) }
@end
@fn WriteExt::write_bytes
%ret r
%spec
    requires vstd::utf8::valid_utf8(bytes@),
    ensures
        r is Ok ==> final(self).out() == old(self).out() + bytes@,
        old(self).total() ==> r is Ok && final(self).total(),
@fn CompactFormatter::format
%ret r
%spec
    requires doc(yason.bytes@),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + compact(val(yason.bytes@)),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::write_lazy_value
%ret r
%spec
    requires lok(*value),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + compact(lv(*value)),
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 5int } else { 1int }),
%hint start
    proof { lemma_lok(*value); }
@fn CompactFormatter::write_null
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + nul(),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::write_bool
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + lit(value),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { lemma_lits(); }
@fn CompactFormatter::write_number
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + num_json(nv(*value)),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::write_string
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + jstr(value.spec_bytes()),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::write_object
%opt noloopiso iternext=iter
%ret r
%spec
    requires obj_ok(value.b()),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + compact(cont(value.b())),
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.b().len(), 4int,
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost m = members(value.b());
    proof { if cnt(value.b()) > 0 { lemma_member(value.b(), 0); } }
%loop 0 iter
    invariant
        obj_ok(value.b()), m == members(value.b()), m.len() == cnt(value.b()),
        vit0.object.0 == value.0, vit0.len == cnt(value.b()), vit0.index <= vit0.len, vit0.index >= 1 || vit0.len == 0,
        writer.out() == o0 + seq![123u8] + cmem(m, vit0.index as int),
        t0 ==> writer.total(),
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof {
        assert(cmem(m, 0) =~= Seq::<u8>::empty());
        if m.len() == 0 { assert(o0 + seq![123u8] + cmem(m, 0) =~= o0 + seq![123u8]); }
        else { assert(writer.out() =~= o0 + seq![123u8] + cmem(m, 1)); }
    }
%hint loop 0 start
    proof { if vit0.index < cnt(value.b()) { lemma_member(value.b(), vit0.index as int); } }
@fn CompactFormatter::write_object_value
%ret r
%spec
    requires lok(*value),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + jstr(key.spec_bytes()) + seq![58u8] + compact(lv(*value))),
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 6int } else { 2int }),
@fn CompactFormatter::write_array
%opt noloopiso iternext=iter
%ret r
%spec
    requires arr_ok(value.b()),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + compact(cont(value.b())),
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.b().len(), 4int,
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost m = elems(value.b());
    proof { if cnt(value.b()) > 0 { lemma_elem(value.b(), 0); } }
%loop 0 iter
    invariant
        arr_ok(value.b()), m == elems(value.b()), m.len() == cnt(value.b()),
        vit0.array.0 == value.0, vit0.len == cnt(value.b()), vit0.index <= vit0.len, vit0.index >= 1 || vit0.len == 0,
        writer.out() == o0 + seq![91u8] + celm(m, vit0.index as int),
        t0 ==> writer.total(),
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof {
        assert(celm(m, 0) =~= Seq::<u8>::empty());
        if m.len() == 0 { assert(o0 + seq![91u8] + celm(m, 0) =~= o0 + seq![91u8]); }
        else { assert(writer.out() =~= o0 + seq![91u8] + celm(m, 1)); }
    }
%hint loop 0 start
    proof { if vit0.index < cnt(value.b()) { lemma_elem(value.b(), vit0.index as int); } }
@fn CompactFormatter::write_array_value
%ret r
%spec
    requires lok(*value),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + compact(lv(*value))),
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 6int } else { 2int }),
@fn CompactFormatter::begin_string
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![34u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::end_string
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![34u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::begin_array
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![91u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::end_array
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![93u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::begin_object
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![123u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::end_object
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![125u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::begin_object_value
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + seq![58u8],
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::begin_array_value
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + comma(first),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::begin_object_key
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + comma(first),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn CompactFormatter::end_array_value
%ret r
%spec
    ensures
        r is Ok ==> final(_writer).out() == old(_writer).out() + Seq::<u8>::empty(),
        old(_writer).total() ==> r is Ok && final(_writer).total(),
@fn CompactFormatter::end_object_key
%ret r
%spec
    ensures
        r is Ok ==> final(_writer).out() == old(_writer).out() + Seq::<u8>::empty(),
        old(_writer).total() ==> r is Ok && final(_writer).total(),
@fn CompactFormatter::end_object_value
%ret r
%spec
    ensures
        r is Ok ==> final(_writer).out() == old(_writer).out() + Seq::<u8>::empty(),
        old(_writer).total() ==> r is Ok && final(_writer).total(),
@fn CompactFormatter::write_value
%ret r
%spec
    requires vok(*value),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + compact(vv(*value))),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { match value { Value::Object(o) => lemma_whole(o.0.bytes@), Value::Array(a) => lemma_whole(a.0.bytes@), _ => {} } }
@fn format_escaped_str
%opt sliceeq=escape noloopiso
%loop 0
    invariant
        bytes@ == s, vs0@ == s, vi0 <= s.len(), start <= vi0,
        writer.out() == o0 + escs(s.subrange(0, start as int)),
        t0 ==> writer.total(),
        forall|j: int| start <= j < vi0 ==> plain(#[trigger] s[j]),
        vstd::utf8::valid_utf8(s.subrange(start as int, s.len() as int)),
    decreases s.len() - vi0,
%hint after let escape
    proof {
        if !plain(byte) {
            let t = s.subrange(start as int, s.len() as int);
            assert(t[i - start] == byte);
            lemma_ascii_cut(t, i - start);
            lemma_escs_run(s, start as int, i as int);
            lemma_escs_push(s, i as int);
            assert(t.subrange(0, i - start) =~= s.subrange(start as int, i as int));
            assert(t.subrange(i - start + 1, t.len() as int) =~= s.subrange(i + 1, s.len() as int));
            lemma_ascii(esc(byte));
            if start == i { assert(s.subrange(start as int, i as int) =~= Seq::<u8>::empty()); }
            assert(o0 + escs(s.subrange(0, start as int)) + s.subrange(start as int, i as int) + esc(byte)
                =~= o0 + escs(s.subrange(0, i + 1)));
        } else { assert(esc(byte) == seq![byte]); }
    }
%hint after loop 0
    proof {
        lemma_escs_run(s, start as int, s.len() as int);
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(o0 + escs(s.subrange(0, start as int)) + s.subrange(start as int, s.len() as int) =~= o0 + escs(s));
        if start == s.len() { assert(s.subrange(start as int, s.len() as int) =~= Seq::<u8>::empty()); assert(o0 + escs(s.subrange(0, start as int)) =~= o0 + escs(s)); }
    }
%ret r
%spec
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + escs(value.spec_bytes()),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost s = value.spec_bytes();
    proof { lemma_str_bytes(value); axiom_str_len(value); assert(s.subrange(0, s.len() as int) =~= s); assert(escs(s.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(o0 + Seq::<u8>::empty() =~= o0); }
@fn ESCAPE_at
%ret r
%spec
    requires i < 256,
    ensures plain(i as u8) ==> r@ == Seq::<u8>::empty(), !plain(i as u8) ==> r@ == esc(i as u8),
@fn CompactFormatter::write_values
%ret r
%opt noloopiso
%spec
    requires values@.len() > 0, forall|i: int| 0 <= i < values@.len() ==> vok(#[trigger] values@[i]),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + compact(vals_arr(values@)),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost m = values@.map_values(|v: Value<'_>| vv(v));
    proof { assert(celm(m, 0) =~= Seq::<u8>::empty()); }
%loop 0
    invariant
        vs0@ == values@, 1 <= vi0 <= vs0@.len(), m == values@.map_values(|v: Value<'_>| vv(v)),
        forall|i: int| 0 <= i < values@.len() ==> vok(#[trigger] values@[i]),
        writer.out() == o0 + seq![91u8] + celm(m, vi0 as int),
        t0 ==> writer.total(),
    decreases vs0@.len() - vi0,
%hint before loop 0
    proof { assert(writer.out() =~= o0 + seq![91u8] + celm(m, 1)); }
@fn CompactFormatter::new
@fn LazyFormat::new
%ret r
%spec
    ensures r.yason == yason, r.pretty == pretty,
@fn LazyFormat::fmt
%ret r
%spec
    requires doc(self.yason.bytes@),
    ensures
        r is Ok ==> final(f).out() == old(f).out() + text(val(self.yason.bytes@), self.pretty),
        old(f).total() ==> r is Ok && final(f).total(),
%hint start
    proof { axiom_slice_len(&self.yason.bytes); }
