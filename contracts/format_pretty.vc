@drop use Formatter
@items
use crate::{Number, Array, Object, Yason, Value};
use crate::format::{format_escaped_str, FormatError, vals_arr};
broadcast use lemma_ascii;
/// The options a pretty formatter is made with.
pub open spec fn fok(f: PrettyFormatter<'_>) -> bool {
    f.options.indent == 2 && f.options.newline_in_empty && f.options.newline_in_nested && f.options.kv_delimiter@ == seq![32u8, 58u8, 32u8]
}
/// The header limits the length of a container.
pub proof fn lemma_val_len(v: Value<'_>)
    requires vok(v)
    ensures match v { Value::Object(o) => o.0.bytes@.len() <= 0x8000_0004, Value::Array(a) => a.0.bytes@.len() <= 0x8000_0004, _ => true }
{
}
@end
@fn PrettyOptions::new
%ret r
%spec
    ensures r.indent == indent, r.newline_in_empty == newline_in_empty, r.newline_in_nested == newline_in_nested, r.kv_delimiter@ == kv_delimiter@,
@fn PrettyFormatter::new
%ret r
%spec
    ensures fok(r), r.cur_indent_level == 0,
@fn indent
%opt noloopiso
%loop 0
    invariant
        remaining <= 2 * level,
        writer.out() == o0 + spaces(2 * level - remaining), t0 ==> writer.total(),
    decreases remaining,
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
%ret r
%spec
    requires indent == 2, level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + spaces(2 * level),
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::format
%ret r
%spec
    requires fok(*old(self)), doc(yason.bytes@), old(self).cur_indent_level + yason.bytes@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (pretty(val(yason.bytes@), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::write_lazy_value
%ret r
%spec
    requires fok(*old(self)), lok(*value), old(self).cur_indent_level + value.yason.bytes@.len() <= 0x7fff_ffff_ffff_ffff + (if value.value_pos == 0 { 0int } else { 1int }),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (pretty(lv(*value), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 5int } else { 1int }),
%hint start
    proof { lemma_lok(*value); }
@fn PrettyFormatter::write_null
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (nul()),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::write_bool
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (lit(value)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { lemma_lits(); }
@fn PrettyFormatter::write_number
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (num_json(nv(*value))),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::write_string
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (jstr(value.spec_bytes())),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::write_object
%opt noloopiso iternext=iter
%ret r
%spec
    requires fok(*old(self)), obj_ok(value.b()), old(self).cur_indent_level + value.b().len() <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (pretty(cont(value.b()), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.b().len(), 4int,
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost l0 = self.cur_indent_level;
    let ghost m = members(value.b());
    proof { if cnt(value.b()) > 0 { lemma_member(value.b(), 0); } }
%loop 0 iter
    invariant
        obj_ok(value.b()), m == members(value.b()), m.len() == cnt(value.b()),
        vit0.object.0 == value.0, vit0.len == cnt(value.b()), vit0.index <= vit0.len, vit0.index >= 1 || vit0.len == 0,
        fok(*self), self.cur_indent_level == l0 + 1, l0 + value.b().len() <= 0x7fff_ffff_ffff_ffff,
        writer.out() == o0 + seq![123u8] + prmem(m, vit0.index as int, l0 + 1),
        t0 ==> writer.total(),
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof {
        assert(prmem(m, 0, l0 + 1) =~= Seq::<u8>::empty());
        if m.len() == 0 { assert(o0 + seq![123u8] + prmem(m, 0, l0 + 1) =~= o0 + seq![123u8]); }
        else { assert(writer.out() =~= o0 + seq![123u8] + prmem(m, 1, l0 + 1)); }
    }
%hint loop 0 start
    proof { if vit0.index < cnt(value.b()) { lemma_member(value.b(), vit0.index as int); } }
@fn PrettyFormatter::write_array
%opt noloopiso iternext=iter
%ret r
%spec
    requires fok(*old(self)), arr_ok(value.b()), old(self).cur_indent_level + value.b().len() <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (pretty(cont(value.b()), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.b().len(), 4int,
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost l0 = self.cur_indent_level;
    let ghost m = elems(value.b());
    proof { if cnt(value.b()) > 0 { lemma_elem(value.b(), 0); } }
%loop 0 iter
    invariant
        arr_ok(value.b()), m == elems(value.b()), m.len() == cnt(value.b()),
        vit0.array.0 == value.0, vit0.len == cnt(value.b()), vit0.index <= vit0.len, vit0.index >= 1 || vit0.len == 0,
        fok(*self), self.cur_indent_level == l0 + 1, l0 + value.b().len() <= 0x7fff_ffff_ffff_ffff,
        writer.out() == o0 + seq![91u8] + prelm(m, vit0.index as int, l0 + 1),
        t0 ==> writer.total(),
    decreases vit0.len - vit0.index,
%hint before loop 0
    proof {
        assert(prelm(m, 0, l0 + 1) =~= Seq::<u8>::empty());
        if m.len() == 0 { assert(o0 + seq![91u8] + prelm(m, 0, l0 + 1) =~= o0 + seq![91u8]); }
        else { assert(writer.out() =~= o0 + seq![91u8] + prelm(m, 1, l0 + 1)); }
    }
%hint loop 0 start
    proof { if vit0.index < cnt(value.b()) { lemma_elem(value.b(), vit0.index as int); } }
@fn PrettyFormatter::write_object_value
%ret r
%spec
    requires fok(*old(self)), lok(*value), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff, old(self).cur_indent_level + value.yason.bytes@.len() <= 0x7fff_ffff_ffff_ffff + (if value.value_pos == 0 { 0int } else { 1int }),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + nl(old(self).cur_indent_level as int) + jstr(key.spec_bytes()) + seq![32u8, 58u8, 32u8] + nested(lv(*value), old(self).cur_indent_level as int) + pretty(lv(*value), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 6int } else { 2int }),
%hint start
    proof { lemma_lok(*value); }
@fn PrettyFormatter::write_array_value
%ret r
%spec
    requires fok(*old(self)), lok(*value), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff, old(self).cur_indent_level + value.yason.bytes@.len() <= 0x7fff_ffff_ffff_ffff + (if value.value_pos == 0 { 0int } else { 1int }),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + nl(old(self).cur_indent_level as int) + pretty(lv(*value), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
    decreases value.yason.bytes@.len(), (if value.value_pos == 0 { 6int } else { 2int }),
@fn PrettyFormatter::begin_string
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (seq![34u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::end_string
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (seq![34u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::begin_array
%ret r
%spec
    requires fok(*old(self)), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (seq![91u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level + 1,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::end_array
%ret r
%spec
    requires fok(*old(self)), 1 <= old(self).cur_indent_level, old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (nl(old(self).cur_indent_level - 1) + seq![93u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level - 1,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::begin_object
%ret r
%spec
    requires fok(*old(self)), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (seq![123u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level + 1,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::end_object
%ret r
%spec
    requires fok(*old(self)), 1 <= old(self).cur_indent_level, old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (nl(old(self).cur_indent_level - 1) + seq![125u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level - 1,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::begin_object_value
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (seq![32u8, 58u8, 32u8]),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::begin_array_value
%ret r
%spec
    requires fok(*old(self)), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + nl(old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::begin_object_key
%ret r
%spec
    requires fok(*old(self)), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + nl(old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
@fn PrettyFormatter::end_array_value
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(_writer).out() == old(_writer).out() + (Seq::<u8>::empty()),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(_writer).total() ==> r is Ok && final(_writer).total(),
@fn PrettyFormatter::end_object_key
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(_writer).out() == old(_writer).out() + (Seq::<u8>::empty()),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(_writer).total() ==> r is Ok && final(_writer).total(),
@fn PrettyFormatter::end_object_value
%ret r
%spec
    requires fok(*old(self)),
    ensures
        r is Ok ==> final(_writer).out() == old(_writer).out() + (Seq::<u8>::empty()),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(_writer).total() ==> r is Ok && final(_writer).total(),
@fn PrettyFormatter::write_value
%ret r
%spec
    requires fok(*old(self)), vok(*value), old(self).cur_indent_level <= 0x7fff_ffff_ffff_ffff, match *value { Value::Object(o) => old(self).cur_indent_level + o.0.bytes@.len() <= 0x7fff_ffff_ffff_ffff, Value::Array(a) => old(self).cur_indent_level + a.0.bytes@.len() <= 0x7fff_ffff_ffff_ffff, _ => true },
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + (comma(first) + nl(old(self).cur_indent_level as int) + pretty(vv(*value), old(self).cur_indent_level as int)),
        r is Ok ==> fok(*final(self)) && final(self).cur_indent_level == old(self).cur_indent_level,
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    proof { match value { Value::Object(o) => lemma_whole(o.0.bytes@), Value::Array(a) => lemma_whole(a.0.bytes@), _ => {} } }
@fn PrettyFormatter::write_values
%opt noloopiso
%ret r
%spec
    requires values@.len() > 0, forall|i: int| 0 <= i < values@.len() ==> vok(#[trigger] values@[i]),
        fok(*old(self)), old(self).cur_indent_level == 0,
    ensures
        r is Ok ==> final(writer).out() == old(writer).out() + pretty(vals_arr(values@), 0),
        old(writer).total() ==> r is Ok && final(writer).total(),
%hint start
    let ghost o0 = writer.out();
    let ghost t0 = writer.total();
    let ghost m = values@.map_values(|v: Value<'_>| vv(v));
    proof { assert(prelm(m, 0, 1) =~= Seq::<u8>::empty()); lemma_val_len(values@[0]); }
%loop 0
    invariant
        vs0@ == values@, 1 <= vi0 <= vs0@.len(), m == values@.map_values(|v: Value<'_>| vv(v)),
        forall|i: int| 0 <= i < values@.len() ==> vok(#[trigger] values@[i]),
        fok(*self), self.cur_indent_level == 1,
        writer.out() == o0 + seq![91u8] + prelm(m, vi0 as int, 1),
        t0 ==> writer.total(),
    decreases vs0@.len() - vi0,
%hint loop 0 start
    proof { lemma_val_len(values@[vi0 as int]); }
%hint before loop 0
    proof { assert(writer.out() =~= o0 + seq![91u8] + prelm(m, 1, 1)); }
