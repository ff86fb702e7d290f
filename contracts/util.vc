@items
/// Number of bytes of the length encoded at `i` (5: no end within four bytes).
pub open spec fn var_n(b: Seq<u8>, i: int) -> int {
    if b[i] < 128 { 1 } else if b[i + 1] < 128 { 2 } else if b[i + 2] < 128 { 3 } else if b[i + 3] < 128 { 4 } else { 5 }
}
pub open spec fn var_v(b: Seq<u8>, i: int) -> int {
    let n = var_n(b, i);
    (b[i] as int % 128)
        + (if n >= 2 { 128 * (b[i + 1] as int % 128) } else { 0 })
        + (if n >= 3 { 16384 * (b[i + 2] as int % 128) } else { 0 })
        + (if n >= 4 { 2097152 * (b[i + 3] as int % 128) } else { 0 })
}
/// A complete length is present at `i`.
pub open spec fn var_ok(b: Seq<u8>, i: int) -> bool {
    0 <= i < b.len() && (
        b[i] < 128
        || (i + 1 < b.len() && (b[i + 1] < 128
        || (i + 2 < b.len() && (b[i + 2] < 128
        || (i + 3 < b.len() && b[i + 3] < 128))))))
}
/// Four continuation bytes: not produced by any encoder.
pub open spec fn var_bad(b: Seq<u8>, i: int) -> bool {
    i + 3 < b.len() && b[i] >= 128 && b[i + 1] >= 128 && b[i + 2] >= 128 && b[i + 3] >= 128
}
/// Little-endian groups of 7 bits, as few as possible, the high bit marking that more follow.
pub open spec fn enc_var(x: int) -> Seq<u8> decreases x {
    if x < 128 { seq![x as u8] } else { seq![(x % 128 + 128) as u8] + enc_var(x / 128) }
}
pub proof fn lemma_enc_var(x: int)
    requires 0 <= x <= 268435455
    ensures
        enc_var(x) == if x < 128 { seq![x as u8] }
            else if x < 16384 { seq![(x % 128 + 128) as u8, (x / 128) as u8] }
            else if x < 2097152 { seq![(x % 128 + 128) as u8, (x / 128 % 128 + 128) as u8, (x / 16384) as u8] }
            else { seq![(x % 128 + 128) as u8, (x / 128 % 128 + 128) as u8, (x / 16384 % 128 + 128) as u8, (x / 2097152) as u8] },
{
    reveal_with_fuel(enc_var, 4);
    assert(x / 128 / 128 == x / 16384);
    assert(x / 16384 / 128 == x / 2097152);
    if x < 128 { }
    else if x < 16384 { assert(enc_var(x) =~= seq![(x % 128 + 128) as u8, (x / 128) as u8]); }
    else if x < 2097152 {
        assert(enc_var(x) =~= seq![(x % 128 + 128) as u8, (x / 128 % 128 + 128) as u8, (x / 16384) as u8]);
    } else {
        assert(enc_var(x) =~= seq![(x % 128 + 128) as u8, (x / 128 % 128 + 128) as u8, (x / 16384 % 128 + 128) as u8, (x / 2097152) as u8]);
    }
}
/// C02: what was encoded is read back at that place, whatever surrounds it, in 1 to 4 bytes.
pub proof fn lemma_var_roundtrip(pre: Seq<u8>, x: int, post: Seq<u8>)
    requires 0 <= x <= 268435455
    ensures
        1 <= enc_var(x).len() <= 4,
        enc_var(x).len() == if x < 128 { 1int } else if x < 16384 { 2 } else if x < 2097152 { 3 } else { 4 },
        var_ok(pre + enc_var(x) + post, pre.len() as int),
        var_v(pre + enc_var(x) + post, pre.len() as int) == x,
        var_n(pre + enc_var(x) + post, pre.len() as int) == enc_var(x).len(),
{
    lemma_enc_var(x);
    let b = pre + enc_var(x) + post;
    let i = pre.len() as int;
    assert(b[i] == enc_var(x)[0]);
    if x >= 128 { assert(b[i + 1] == enc_var(x)[1]); }
    if x >= 16384 { assert(b[i + 2] == enc_var(x)[2]); }
    if x >= 2097152 { assert(b[i + 3] == enc_var(x)[3]); }
}
/// C02: fewest bytes: no shorter sequence decodes to x.
pub proof fn lemma_var_fewest(b: Seq<u8>, i: int)
    requires var_ok(b, i)
    ensures 0 <= var_v(b, i) <= 268435455, enc_var(var_v(b, i)).len() <= var_n(b, i) <= 4
{
    lemma_enc_var(var_v(b, i));
}
/// The length at `i` depends only on its own bytes.
pub proof fn lemma_var_local(b: Seq<u8>, i: int, c: Seq<u8>, j: int)
    requires
        var_ok(b, i), 0 <= j, j + var_n(b, i) <= c.len(),
        forall|k: int| 0 <= k < var_n(b, i) ==> c[j + k] == #[trigger] b[i + k],
    ensures var_ok(c, j), var_n(c, j) == var_n(b, i), var_v(c, j) == var_v(b, i)
{
    let n = var_n(b, i);
    assert(c[j + 0] == b[i + 0]);
    if n >= 2 { assert(c[j + 1] == b[i + 1]); }
    if n >= 3 { assert(c[j + 2] == b[i + 2]); }
    if n >= 4 { assert(c[j + 3] == b[i + 3]); }
}
/// x's 7-bit groups as the encoder accumulates them, high byte first.
pub open spec fn acc(x: u32, k: int) -> u32 {
    if k == 0 { 0 }
    else if k == 1 { ((x & 0x7f) | 0x80) << 24 }
    else if k == 2 { (((x & 0x7f) | 0x80) << 24) | ((((x >> 7) & 0x7f) | 0x80) << 16) }
    else { (((x & 0x7f) | 0x80) << 24) | ((((x >> 7) & 0x7f) | 0x80) << 16) | ((((x >> 14) & 0x7f) | 0x80) << 8) }
}
pub open spec fn acc_end(x: u32, k: int) -> u32 {
    if k == 2 { acc(x, 1) | (((x >> 7) & 0x7f) << 16) }
    else if k == 3 { acc(x, 2) | (((x >> 14) & 0x7f) << 8) }
    else { acc(x, 3) | ((x >> 21) & 0x7f) }
}
pub proof fn lemma_acc(x: u32, k: int)
    requires x < 0x1000_0000, x >= 128, k == if x < 16384 { 2int } else if x < 2097152 { 3 } else { 4 }
    ensures b32(acc_end(x, k) as int).reverse().subrange(0, k) == enc_var(x as int)
{
    lemma_enc_var(x as int);
    let r = acc_end(x, k);
    let e = enc_var(x as int);
    let s = b32(r as int).reverse();
    if k == 2 {
        assert(r == ((((x & 0x7f) | 0x80) << 24) | (((x >> 7) & 0x7f) << 16)));
        assert((r / 16777216) % 256 == x % 128 + 128 && (r / 65536) % 256 == x / 128) by (bit_vector)
            requires x < 16384u32, x >= 128u32, r == ((((x & 0x7f) | 0x80) << 24) | (((x >> 7) & 0x7f) << 16));
        assert(s.subrange(0, k) =~= e);
    } else if k == 3 {
        assert((r / 16777216) % 256 == x % 128 + 128 && (r / 65536) % 256 == (x / 128) % 128 + 128 && (r / 256) % 256 == x / 16384) by (bit_vector)
            requires x < 2097152u32, x >= 16384u32,
                r == ((((x & 0x7f) | 0x80) << 24) | ((((x >> 7) & 0x7f) | 0x80) << 16)) | (((x >> 14) & 0x7f) << 8);
        assert(s.subrange(0, k) =~= e);
    } else {
        assert((r / 16777216) % 256 == x % 128 + 128 && (r / 65536) % 256 == (x / 128) % 128 + 128
            && (r / 256) % 256 == (x / 16384) % 128 + 128 && r % 256 == x / 2097152) by (bit_vector)
            requires x < 268435456u32, x >= 2097152u32,
                r == ((((x & 0x7f) | 0x80) << 24) | ((((x >> 7) & 0x7f) | 0x80) << 16) | ((((x >> 14) & 0x7f) | 0x80) << 8)) | ((x >> 21) & 0x7f);
        assert(s.subrange(0, k) =~= e);
    }
}
@end
@fn cmp_key
%ret r
%spec
    ensures
        r is Less == key_lt(left.spec_bytes(), right.spec_bytes()),
        r is Equal == (left.spec_bytes() == right.spec_bytes()),
        r is Greater == key_lt(right.spec_bytes(), left.spec_bytes()),
@fn encode_varint
%opt derefshift=shift
%spec
    requires value <= 268435455,
    ensures final(buf)@ == old(buf)@ + enc_var(value as int),
%hint start
    let ghost v0 = value;
    proof { lemma_enc_var(value as int); }
%loop 0
    invariant_except_break
        vs0@ =~= seq![24u8, 16u8, 8u8, 0u8],
        128 <= v0 < 0x1000_0000,
        vi0 == 0 ==> value == v0,
        vi0 == 1 ==> value == v0 >> 7,
        vi0 == 2 ==> value == v0 >> 14,
        vi0 == 3 ==> value == v0 >> 21,
        vi0 < 4,
        value != 0,
        res == acc(v0, vi0 as int),
    ensures
        value == 0,
        2 <= len <= 4,
        len == (if v0 < 16384 { 2int } else if v0 < 2097152 { 3 } else { 4 }),
        res == acc_end(v0, len as int),
    decreases 4 - vi0
%hint loop 0 start
    assert(((v0 >> 7) >> 7) == v0 >> 14) by (bit_vector);
    assert(((v0 >> 14) >> 7) == v0 >> 21) by (bit_vector);
    assert(v0 < 0x1000_0000 ==> (v0 >> 21) >> 7 == 0) by (bit_vector);
    assert(v0 >= 128 ==> v0 >> 7 != 0) by (bit_vector);
    assert((v0 >> 14 == 0) == (v0 < 16384)) by (bit_vector);
    assert((v0 >> 21 == 0) == (v0 < 2097152)) by (bit_vector);
    assert(vs0@.len() == 4);
    {
        let v = value;
        let r = res;
        assert(0u32 | (((v & 0x7f) | 0x80) << 24) == (((v & 0x7f) | 0x80) << 24)) by (bit_vector);
        assert(((v & 0x7f) << 0) == (v & 0x7f)) by (bit_vector);
        assert(v >> 7 == 0 ==> v & 0x7f == v) by (bit_vector);
    }
%hint after loop 0
    proof { lemma_acc(v0, len as int); }
@fn decode_varint
%ret r
%spec
    requires index < buf@.len(), !var_bad(buf@, index as int),
    ensures
        r is Ok == var_ok(buf@, index as int),
        r matches Ok(p) ==> p.0 == var_v(buf@, index as int) && p.1 == var_n(buf@, index as int)
            && index + p.1 <= buf@.len() && p.0 <= 268435455,
        r matches Err(e) ==> e == (YasonError::IndexOutOfBounds { len: buf@.len() as usize, index: buf@.len() as usize }),
%hint start
    proof { axiom_slice_len(buf); }
    let ghost b = buf@;
    let ghost k = index as int;
%loop 0
    invariant
        MAX_DATA_LENGTH_SIZE == 4,
        b == buf@, k == index, k + i <= buf@.len(), buf@.len() <= 0x7fff_ffff_ffff_ffff,
        !var_bad(b, k), index < buf@.len(),
        forall|j: int| 0 <= j < i ==> #[trigger] b[k + j] >= 128,
        i >= 1 ==> b[k] >= 128,
        i >= 2 ==> b[k + 1] >= 128,
        i >= 3 ==> b[k + 2] >= 128,
        i >= 4 ==> b[k + 3] >= 128,
        i == 0 ==> data_length == 0,
        i == 1 ==> data_length == b[k] % 128,
        i == 2 ==> data_length == b[k] % 128 + 128 * (b[k + 1] % 128),
        i == 3 ==> data_length == b[k] % 128 + 128 * (b[k + 1] % 128) + 16384 * (b[k + 2] % 128),
%hint after let byte
    proof {
        assert(byte == b[k + i]);
        let d = data_length;
        let y = byte as u32;
        assert((y & 0x7f) << 0 == y % 128 && (0u32 | (y % 128)) == y % 128) by (bit_vector);
        assert(d < 128 && y < 256 ==> d | ((y & 0x7f) << 7) == d + 128 * (y % 128)) by (bit_vector);
        assert(d < 16384 && y < 256 ==> d | ((y & 0x7f) << 14) == d + 16384 * (y % 128)) by (bit_vector);
        assert(d < 2097152 && y < 256 ==> d | ((y & 0x7f) << 21) == d + 2097152 * (y % 128)) by (bit_vector);
        let z = byte;
        assert(((z & 0x80) == 0) == (z < 128)) by (bit_vector);
    }
