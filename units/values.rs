// Values: the variable-length integer prefix, text encoding and text order.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus!{
fn main(){}
global size_of usize == 8;
pub const MAX_VARINT_LEN: usize = 10;
pub enum SerializationError { InvalidVarIntPrefix, UnexpectedEof, Other }
pub enum TypeSystemError { SerializationError(SerializationError), Other }
#[verifier::external] impl From<SerializationError> for TypeSystemError { fn from(v: SerializationError) -> Self { Self::SerializationError(v) } }
pub type SerializationResult<T> = Result<T, SerializationError>;
pub type TypeSystemResult<T> = Result<T, TypeSystemError>;

// ------------------------------------------------------------------ std (assumed contracts)
/// two slices with the same address and length are the same bytes
#[verifier::external_body] pub fn same_address(a: &[u8], b: &[u8]) -> (r: bool) ensures r && a@.len() == b@.len() ==> a@ == b@ { unimplemented!() }
pub fn unreached() -> i64 requires false { 0 }

pub open spec fn be(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as int } }
pub open spec fn le(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { le(s.drop_first()) * 256 + s[0] as int } }
#[verifier::external_body] pub fn u64_be(s: &[u8]) -> (r: u64) requires s@.len() == 8 ensures r == be(s@) { unimplemented!() }
#[verifier::external_body] pub fn u64_le(s: &[u8]) -> (r: u64) requires s@.len() == 8 ensures r == le(s@) { unimplemented!() }
pub open spec fn ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub fn cmp_u64(a: u64, b: &u64) -> (r: Ordering) ensures r == ord(a as int, *b as int) { if a < *b { Ordering::Less } else if a > *b { Ordering::Greater } else { Ordering::Equal } }
pub fn cmp_u8(a: u8, b: &u8) -> (r: Ordering) ensures r == ord(a as int, *b as int) { if a < *b { Ordering::Less } else if a > *b { Ordering::Greater } else { Ordering::Equal } }
pub fn cmp_usize(a: usize, b: &usize) -> (r: Ordering) ensures r == ord(a as int, *b as int) { if a < *b { Ordering::Less } else if a > *b { Ordering::Greater } else { Ordering::Equal } }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
#[verifier::external_body] pub fn to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn append_slice(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn subslice(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn subarr(s: &[u8; 10], b: usize) -> (r: &[u8]) requires b <= 10 ensures r@ == s@.subrange(0, b as int) { unimplemented!() }
#[verifier::external_body] pub fn copy_at(w: &mut [u8], a: usize, b: usize, s: &[u8]) requires a <= b <= old(w)@.len(), b - a == s@.len()
    ensures final(w)@ == old(w)@.subrange(0, a as int) + s@ + old(w)@.subrange(b as int, old(w)@.len() as int) { unimplemented!() }

pub struct Blob(pub Vec<u8>);
#[derive(Clone, Copy)] pub struct BlobRef<'a>(pub &'a [u8]);
#[derive(Clone, Copy)] pub struct BlobComparator;
pub fn blob_ref<'a>(s: &'a [u8]) -> (r: BlobRef<'a>) ensures r.0@ == s@ { BlobRef(s) }
// ------------------------------------------------------------------ what the encoding is
/// the bytes are the stored form of some text of a size a slice can have
pub open spec fn is_text(s: Seq<u8>, d: Seq<u8>) -> bool { d.len() <= i64::MAX && s == enc(d) }
/// the text a stored form stands for
pub open spec fn text(s: Seq<u8>) -> Seq<u8> { choose|d: Seq<u8>| is_text(s, d) }
pub open spec fn stored(s: Seq<u8>) -> bool { exists|d: Seq<u8>| is_text(s, d) }
pub open spec fn zz(v: i64) -> u64 { if v >= 0 { (2 * v) as u64 } else { (-2 * v - 1) as u64 } }
/// base 128, least significant group first, a set high bit on every byte but the last
pub open spec fn vi(u: u64) -> Seq<u8> decreases u via vi_dec {
    if u < 128 { seq![u as u8] } else { seq![((u & 0x7F) as u8) | 0x80] + vi(u >> 7) }
}
#[via_fn] proof fn vi_dec(u: u64) { assert(u >= 128 ==> (u >> 7) < u) by (bit_vector); }
#[via_fn] proof fn vlen_dec(u: u64) { assert(u >= 128 ==> (u >> 7) < u) by (bit_vector); }
pub open spec fn vlen(u: u64) -> nat decreases u via vlen_dec { if u < 128 { 1 } else { 1 + vlen(u >> 7) } }
/// the value of a group sequence (whatever its canonicity)
pub open spec fn dec(s: Seq<u8>) -> u64 decreases s.len() {
    if s.len() == 0 { 0 } else if (s[0] & 0x80) == 0 { (s[0] & 0x7F) as u64 } else { ((s[0] & 0x7F) as u64) | (dec(s.drop_first()) << 7) }
}
/// a complete prefix: at most ten bytes, the last one and only the last one without the high bit
pub open spec fn prefix(s: Seq<u8>) -> bool {
    1 <= s.len() <= 10 && (s[s.len() - 1] & 0x80) == 0 && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] (s[i] & 0x80) != 0
}
/// the stored form of a text
pub open spec fn enc(d: Seq<u8>) -> Seq<u8> { vi(zz(d.len() as i64)) + d }
/// how texts compare: byte by byte, a prefix before what it prefixes
#[verifier::opaque]
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>, i: int) -> Ordering decreases a.len() - i {
    if i < 0 || i >= a.len() || i >= b.len() { ord(a.len() as int, b.len() as int) }
    else if a[i] < b[i] { Ordering::Less } else if a[i] > b[i] { Ordering::Greater } else { lex(a, b, i + 1) }
}
pub proof fn lemma_shr_lt(u: u64) requires u >= 128 ensures (u >> 7) < u { assert(u >= 128 ==> (u >> 7) < u) by (bit_vector); }
pub proof fn lemma_vi(u: u64, k: u64)
    requires k <= 9, k < 9 ==> u < (1u64 << ((7 * (k + 1)) as u64))
    ensures vi(u).len() == vlen(u), 1 <= vlen(u) <= k + 1, prefix(vi(u)), dec(vi(u)) == u
    decreases u
{
    if u < 128 {
        assert(u < 128 ==> ((u as u8) & 0x80) == 0 && ((u as u8) & 0x7F) as u64 == u) by (bit_vector);
    } else {
        lemma_shr_lt(u);
        if k == 0 { assert(u >= 128 && u < (1u64 << 7) ==> false) by (bit_vector); }
        let k1 = (k - 1) as u64;
        if k == 9 { assert((u >> 7) < (1u64 << 63)) by (bit_vector); assert(7 * (k1 + 1) == 63); }
        else { let e = (7 * (k + 1)) as u64; let e1 = (7 * (k1 + 1)) as u64; assert(e == e1 + 7);
            assert(u < (1u64 << e) && e == e1 + 7 && e <= 63 ==> (u >> 7) < (1u64 << e1)) by (bit_vector); }
        lemma_vi(u >> 7, k1);
        let h = ((u & 0x7F) as u8) | 0x80; let r = vi(u >> 7); let s = vi(u);
        assert(s =~= seq![h] + r); assert(s.drop_first() =~= r); assert(s[0] == h);
        assert((((u & 0x7F) as u8) | 0x80) & 0x80 != 0u8) by (bit_vector);
        assert(((((u & 0x7F) as u8) | 0x80) & 0x7F) as u64 | ((u >> 7) << 7) == u) by (bit_vector);
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] (s[i] & 0x80) != 0 by { if i > 0 { assert(s[i] == r[i - 1]); } }
        assert(s[s.len() - 1] == r[r.len() - 1]);
    }
}
pub proof fn lemma_vi_all(u: u64) ensures vi(u).len() == vlen(u), 1 <= vlen(u) <= 10, prefix(vi(u)), dec(vi(u)) == u { lemma_vi(u, 9); }
/// no prefix continues another
pub proof fn lemma_prefix_free(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>)
    requires prefix(a), prefix(b), a.is_prefix_of(s), b.is_prefix_of(s)
    ensures a == b
{
    if a.len() < b.len() { assert(a[a.len() - 1] == s[a.len() - 1] && b[a.len() - 1] == s[a.len() - 1]); }
    if b.len() < a.len() { assert(a[b.len() - 1] == s[b.len() - 1] && b[b.len() - 1] == s[b.len() - 1]); }
    assert(a =~= b);
}
pub open spec fn unzz(u: u64) -> i64 { if u % 2 == 0 { (u / 2) as i64 } else { (-1 - (u / 2)) as i64 } }
pub proof fn lemma_zz(v: i64) ensures unzz(zz(v)) == v { }
/// reading the stored form of a text finds its length and where it starts
pub proof fn lemma_enc(d: Seq<u8>, p: Seq<u8>, s: Seq<u8>)
    requires d.len() <= i64::MAX, prefix(p), p.is_prefix_of(s), enc(d).is_prefix_of(s)
    ensures p == vi(zz(d.len() as i64)), unzz(dec(p)) == d.len(), enc(d).len() == p.len() + d.len(), s.subrange(p.len() as int, (p.len() + d.len()) as int) =~= d
{
    let w = vi(zz(d.len() as i64));
    lemma_vi_all(zz(d.len() as i64)); lemma_zz(d.len() as i64);
    assert forall|i: int| 0 <= i < w.len() implies w[i] == s[i] by { assert(enc(d)[i] == s[i]); }
    assert(w.is_prefix_of(s)) by { assert(s.subrange(0, w.len() as int) =~= w); }
    lemma_prefix_free(p, w, s);
    assert forall|i: int| 0 <= i < d.len() implies s[p.len() + i] == d[i] by { assert(enc(d)[p.len() + i] == s[p.len() + i]); }
}
pub proof fn no_prefix(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), n >= 10 || n == s.len(), forall|j: int| 0 <= j < n ==> #[trigger] (s[j] & 0x80) != 0
    ensures forall|p: Seq<u8>| prefix(p) ==> !p.is_prefix_of(s)
{ assert forall|p: Seq<u8>| prefix(p) implies !p.is_prefix_of(s) by { if p.is_prefix_of(s) { assert(p[p.len() - 1] == s[p.len() - 1]); } } }
/// the stored form determines the text
pub proof fn thm_enc_injective(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= i64::MAX, b.len() <= i64::MAX
    ensures enc(a) == enc(b) <==> a == b
{
    if enc(a) == enc(b) {
        let s = enc(a); let p = vi(zz(a.len() as i64));
        lemma_vi_all(zz(a.len() as i64));
        assert(p.is_prefix_of(s)); assert(enc(a).is_prefix_of(s)); assert(enc(b).is_prefix_of(s));
        lemma_enc(a, p, s); lemma_enc(b, p, s);
        assert(a =~= b);
    }
}
pub proof fn lex_step(a: Seq<u8>, b: Seq<u8>, i: int) requires 0 <= i < a.len(), i < b.len()
    ensures a[i] == b[i] ==> lex(a, b, i) == lex(a, b, i + 1), a[i] != b[i] ==> lex(a, b, i) == ord(a[i] as int, b[i] as int) { reveal_with_fuel(lex, 2); }
pub proof fn lex_end(a: Seq<u8>, b: Seq<u8>, i: int) requires i >= a.len() || i >= b.len() ensures lex(a, b, i) == ord(a.len() as int, b.len() as int) { reveal_with_fuel(lex, 2); }
pub proof fn lemma_lex_eq(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j]
    ensures lex(a, b, i) == Ordering::Equal <==> a == b, lex(a, b, 0) == lex(a, b, i)
    decreases a.len() - i
{ reveal_with_fuel(lex, 2); 
    if i < a.len() && i < b.len() { if a[i] == b[i] { lemma_lex_eq(a, b, i + 1); } }
    else { if a.len() == b.len() { assert(a =~= b); } }
    lemma_lex_skip(a, b, i);
}
pub proof fn lemma_lex_skip(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j]
    ensures lex(a, b, 0) == lex(a, b, i)
    decreases i
{ reveal_with_fuel(lex, 2);  if i > 0 { lemma_lex_skip(a, b, i - 1); } }
pub proof fn lemma_text(d: Seq<u8>) requires d.len() <= i64::MAX ensures stored(enc(d)), text(enc(d)) == d
{ assert(is_text(enc(d), d)); let e = text(enc(d)); assert(is_text(enc(d), e)); thm_enc_injective(d, e); }
/// comparing texts is a total order whose ties are exactly the identical texts
pub proof fn thm_lex_total(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), i <= c.len()
    ensures
        lex(a, b, i) == Ordering::Less <==> lex(b, a, i) == Ordering::Greater,
        lex(a, b, i) == Ordering::Equal <==> lex(b, a, i) == Ordering::Equal,
        lex(a, b, i) != Ordering::Greater && lex(b, c, i) != Ordering::Greater ==> lex(a, c, i) != Ordering::Greater,
        lex(a, b, i) == Ordering::Less && lex(b, c, i) != Ordering::Greater ==> lex(a, c, i) == Ordering::Less,
        lex(a, b, i) != Ordering::Greater && lex(b, c, i) == Ordering::Less ==> lex(a, c, i) == Ordering::Less,
    decreases a.len() - i
{ reveal_with_fuel(lex, 2); 
    if i < a.len() && i < b.len() {
        if i < c.len() { thm_lex_total(a, b, c, i + 1); }
        else { thm_lex_total(a, b, b, i + 1); }
    }
}
pub proof fn thm_equal_texts_are_identical(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= i64::MAX, b.len() <= i64::MAX
    ensures lex(a, b, 0) == Ordering::Equal <==> enc(a) == enc(b)
{ lemma_lex_eq(a, b, 0); thm_enc_injective(a, b); }

/// eight bytes read as a big-endian number compare like the bytes
pub proof fn lemma_be8(s: Seq<u8>) requires s.len() == 8
    ensures be(s) == s[0] * 0x100000000000000 + s[1] * 0x1000000000000 + s[2] * 0x10000000000 + s[3] * 0x100000000 + s[4] * 0x1000000 + s[5] * 0x10000 + s[6] * 0x100 + s[7]
{
    reveal_with_fuel(be, 9);
    let s7 = s.drop_last(); let s6 = s7.drop_last(); let s5 = s6.drop_last(); let s4 = s5.drop_last(); let s3 = s4.drop_last(); let s2 = s3.drop_last(); let s1 = s2.drop_last();
    assert(s1.drop_last().len() == 0);
}
pub proof fn lemma_chunk(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k, k + 8 <= a.len(), k + 8 <= b.len()
    ensures ({ let x = be(a.subrange(k, k + 8)); let y = be(b.subrange(k, k + 8)); if x == y { (forall|j: int| k <= j < k + 8 ==> a[j] == b[j]) && lex(a, b, k) == lex(a, b, k + 8) } else { lex(a, b, k) == ord(x, y) } })
{
    let p = a.subrange(k, k + 8); let q = b.subrange(k, k + 8);
    lemma_be8(p); lemma_be8(q);
    reveal_with_fuel(lex, 9);
    assert(forall|j: int| 0 <= j < 8 ==> p[j] == a[k + j] && q[j] == b[k + j]);
    if a[k] == b[k] && a[k+1] == b[k+1] && a[k+2] == b[k+2] && a[k+3] == b[k+3] && a[k+4] == b[k+4] && a[k+5] == b[k+5] && a[k+6] == b[k+6] && a[k+7] == b[k+7] {
        assert forall|j: int| k <= j < k + 8 implies a[j] == b[j] by { let d = j - k; assert(d == 0 || d == 1 || d == 2 || d == 3 || d == 4 || d == 5 || d == 6 || d == 7); }
    }
}
#[derive(Clone, Copy)] pub struct VarInt<'a>(pub &'a [u8]);
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn encode_zigzag
//@ret r
//@spec
    ensures r == zz(value)
//@at start
assert(value >= 0 ==> ((value << 1) ^ (value >> 63)) as u64 == 2 * value) by (bit_vector);
assert(value < 0 ==> ((value << 1) ^ (value >> 63)) as u64 == -2 * value - 1) by (bit_vector);
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn decode_zigzag
//@ret r
//@spec
    ensures r == unzz(value)
//@at start
assert((value & 1) == 0 || (value & 1) == 1) by (bit_vector);
assert((value >> 1) == value / 2 && (value & 1) == value % 2) by (bit_vector);
assert((value & 1) == 0 ==> ((value >> 1) as i64) ^ ((-((value & 1) as i64)) as i64) == (value >> 1) as i64) by (bit_vector);
assert((value & 1) == 1 ==> ((value >> 1) as i64) ^ ((-((value & 1) as i64)) as i64) == -1 - ((value >> 1) as i64)) by (bit_vector);
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn encoded_size
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@spec
    ensures r == vi(zz(value)).len()
//@loop 0
    invariant_except_break size + vlen(v) == vlen(zz(value)), size < 10
    ensures size == vlen(zz(value))
    decreases v
//@at loop 0 body-start
proof { lemma_vi_all(v); if v >= 128 { lemma_shr_lt(v); lemma_vi_all(v >> 7); } assert(v < 128 <==> (v >> 7) == 0) by (bit_vector); }
//@at loop 0 before
proof { lemma_vi_all(zz(value)); }
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn encode
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite &buffer\[\.\.idx\] ==> subarr(buffer, idx)
//@ret r
//@spec
    ensures r@ == vi(zz(value))
//@loop 0
    invariant_except_break idx + vlen(encoded) == vlen(zz(value)), idx < 10, vi(zz(value)) =~= buffer@.subrange(0, idx as int) + vi(encoded)
    ensures idx == vlen(zz(value)), idx <= 10, vi(zz(value)) =~= buffer@.subrange(0, idx as int)
    decreases encoded
//@at loop 0 body-start
let ghost e0 = encoded; let ghost b0 = buffer@;
proof { lemma_vi_all(encoded); if encoded >= 128 { lemma_shr_lt(encoded); lemma_vi_all(encoded >> 7); } assert(encoded < 128 <==> (encoded >> 7) == 0) by (bit_vector); assert(encoded < 128 ==> (encoded & 0x7F) as u8 == encoded as u8) by (bit_vector); }
//@at after idx += 1 ;
proof { let n = (idx - 1) as int;
    assert(buffer@.subrange(0, n) =~= b0.subrange(0, n)); assert(buffer@.subrange(0, n + 1) =~= buffer@.subrange(0, n).push(buffer@[n]));
    if e0 < 128 { assert(vi(e0) == seq![buffer@[n]]); } else { assert(vi(e0) == seq![buffer@[n]] + vi(encoded)); } }
//@at loop 0 before
proof { lemma_vi_all(zz(value)); }
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn from_encoded_bytes
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite for \(i, &b\) in bytes\.iter\(\)\.enumerate\(\) ==> for i in 0..bytes.len()
//@rewrite &bytes\[\.\.bytes_read\] ==> subslice(bytes, 0, bytes_read)
//@rewrite bytes_read \+= 1; ==> bytes_read += 1; let b = bytes[i];
//@ret r
//@spec
    ensures
        r is Ok ==> (r->Ok_0).1 <= bytes@.len() && (r->Ok_0).0.0@ == bytes@.subrange(0, (r->Ok_0).1 as int) && prefix((r->Ok_0).0.0@),
        r is Err ==> forall|p: Seq<u8>| prefix(p) ==> !p.is_prefix_of(bytes@),
//@loop 0
    invariant bytes_read == i, i <= 10, forall|j: int| 0 <= j < i ==> #[trigger] (bytes@[j] & 0x80) != 0
//@at loop 0 body-start
proof { if i >= 10 { no_prefix(bytes@, i as int); } }
//@at loop 0 after
proof { no_prefix(bytes@, bytes@.len() as int); }
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn value
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite for &b in self\.0\.iter\(\) ==> for i in 0..self.0.len()
//@rewrite unreachable!\("Invalid varint bytes"\) ==> unreached()
//@rewrite result \|= ==> let b = self.0[i]; result |=
//@ret r
//@spec
    requires prefix(self.0@)
    ensures r == unzz(dec(self.0@))
//@loop 0
    invariant shift == 7 * i, i <= self.0@.len() <= 10, i == self.0@.len() ==> (self.0@[self.0@.len() - 1] & 0x80) != 0,
        i < self.0@.len() ==> dec(self.0@) == (result | (dec(self.0@.skip(i as int)) << (shift as u64)))
//@at loop 0 before
proof { assert(self.0@.skip(0) =~= self.0@); let d = dec(self.0@); assert(0u64 | (d << 0u64) == d) by (bit_vector); }
//@at loop 0 body-start
let ghost r0 = result; let ghost s0 = self.0@.skip(i as int);
proof { let b0 = self.0@[i as int]; assert(s0[0] == b0); assert(s0.drop_first() =~= self.0@.skip(i + 1)); 
    let x = (b0 & 0x7F) as u64; let d = dec(self.0@.skip(i + 1)); let sh = shift as u64;
    if i < 9 { assert(sh <= 56 ==> (r0 | ((x | (d << 7)) << sh)) == ((r0 | (x << sh)) | (d << ((sh + 7) as u64)))) by (bit_vector); } }
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn size
//@ret r
//@spec
    ensures r == self.0@.len()
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> VarInt<'a> / fn as_bytes
//@ret r
//@spec
    ensures r@ == self.0@
//@end
//@extract crates/axmos-db/src/types/varint.rs : impl<'a> From<VarInt<'a>> for usize / fn from
//@header impl<'a> VarInt<'a>
//@rename into_usize
//@rewrite -> Self ==> -> (r: usize)
//@spec
    requires prefix(value.0@)
    ensures r == unzz(dec(value.0@)) as usize
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Blob / fn from_unencoded_slice
//@rewrite vlen\.to_vec\(\) ==> to_vec(vlen)
//@rewrite blob_buffer\.extend_from_slice\(data\) ==> append_slice(&mut blob_buffer, data)
//@rewrite blob_buffer\.into_boxed_slice\(\) ==> blob_buffer
//@ret r
//@spec
    requires data@.len() <= i64::MAX
    ensures r.0@ == enc(data@), stored(r.0@), text(r.0@) == data@
//@at start
proof { lemma_text(data@); }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl AsRef<[u8]> for Blob / fn as_ref
//@header impl Blob
//@rewrite self\.0\.as_ref\(\) ==> self.0.as_slice()
//@ret r
//@spec
    ensures r@ == self.0@
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Blob / fn as_blob_ref
//@rewrite BlobRef::from\( ==> blob_ref(
//@ret r
//@spec
    ensures r.0@ == self.0@
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Blob / fn total_length
//@ret r
//@spec
    ensures r == self.0@.len()
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Blob / fn data_start
//@rewrite? VarInt::from_encoded_bytes\(self\.0\.as_ref\(\)\) ==> VarInt::from_encoded_bytes(self.0.as_slice())
//@ret r
//@spec
    requires stored(self.0@)
    ensures r is Ok, r->Ok_0 == vi(zz(text(self.0@).len() as i64)).len(), r->Ok_0 <= self.0@.len()
//@at start
proof { let d = text(self.0@); assert(is_text(self.0@, d)); lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(self.0@.subrange(0, w.len() as int) =~= w); assert(w.is_prefix_of(self.0@)); assert(enc(d).is_prefix_of(self.0@)); assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(self.0@) implies p == w && unzz(dec(p)) == d.len() && self.0@.len() == p.len() + d.len() && self.0@.subrange(p.len() as int, self.0@.len() as int) == d by { lemma_enc(d, p, self.0@); } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Blob / fn data_length
//@rewrite? VarInt::from_encoded_bytes\(self\.0\.as_ref\(\)\) ==> VarInt::from_encoded_bytes(self.0.as_slice())
//@rewrite? length\.into\(\) ==> VarInt::into_usize(length)
//@ret r
//@spec
    requires stored(self.0@)
    ensures r is Ok, r->Ok_0 == text(self.0@).len()
//@at start
proof { let d = text(self.0@); assert(is_text(self.0@, d)); lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(self.0@.subrange(0, w.len() as int) =~= w); assert(w.is_prefix_of(self.0@)); assert(enc(d).is_prefix_of(self.0@)); assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(self.0@) implies p == w && unzz(dec(p)) == d.len() && self.0@.len() == p.len() + d.len() && self.0@.subrange(p.len() as int, self.0@.len() as int) == d by { lemma_enc(d, p, self.0@); } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Blob / fn data
//@rewrite &self\.0\[offset\.\.\] ==> subslice(self.0.as_slice(), offset, self.0.len())
//@ret r
//@spec
    requires stored(self.0@)
    ensures r is Ok, (r->Ok_0)@ == text(self.0@)
//@at start
proof { let d = text(self.0@); assert(is_text(self.0@, d)); lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(self.0@.subrange(0, w.len() as int) =~= w); assert(w.is_prefix_of(self.0@)); assert(enc(d).is_prefix_of(self.0@)); assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(self.0@) implies p == w && unzz(dec(p)) == d.len() && self.0@.len() == p.len() + d.len() && self.0@.subrange(p.len() as int, self.0@.len() as int) == d by { lemma_enc(d, p, self.0@); } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> AsRef<[u8]> for BlobRef<'a> / fn as_ref
//@header impl<'a> BlobRef<'a>
//@ret r
//@spec
    ensures r@ == self.0@
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> BlobRef<'a> / fn to_blob
//@rewrite self\.0\.to_vec\(\)\.into_boxed_slice\(\) ==> to_vec(self.0)
//@ret r
//@spec
    ensures r.0@ == self.0@
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> BlobRef<'a> / fn total_length
//@ret r
//@spec
    ensures r == self.0@.len()
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> BlobRef<'a> / fn data_start
//@rewrite? VarInt::from_encoded_bytes\(self\.0\.as_ref\(\)\) ==> VarInt::from_encoded_bytes(self.0)
//@ret r
//@spec
    requires stored(self.0@)
    ensures r is Ok, r->Ok_0 == vi(zz(text(self.0@).len() as i64)).len(), r->Ok_0 <= self.0@.len()
//@at start
proof { let d = text(self.0@); assert(is_text(self.0@, d)); lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(self.0@.subrange(0, w.len() as int) =~= w); assert(w.is_prefix_of(self.0@)); assert(enc(d).is_prefix_of(self.0@)); assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(self.0@) implies p == w && unzz(dec(p)) == d.len() && self.0@.len() == p.len() + d.len() && self.0@.subrange(p.len() as int, self.0@.len() as int) == d by { lemma_enc(d, p, self.0@); } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> BlobRef<'a> / fn data_length
//@rewrite? VarInt::from_encoded_bytes\(self\.0\.as_ref\(\)\) ==> VarInt::from_encoded_bytes(self.0)
//@rewrite? length\.into\(\) ==> VarInt::into_usize(length)
//@ret r
//@spec
    requires stored(self.0@)
    ensures r is Ok, r->Ok_0 == text(self.0@).len()
//@at start
proof { let d = text(self.0@); assert(is_text(self.0@, d)); lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(self.0@.subrange(0, w.len() as int) =~= w); assert(w.is_prefix_of(self.0@)); assert(enc(d).is_prefix_of(self.0@)); assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(self.0@) implies p == w && unzz(dec(p)) == d.len() && self.0@.len() == p.len() + d.len() && self.0@.subrange(p.len() as int, self.0@.len() as int) == d by { lemma_enc(d, p, self.0@); } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> BlobRef<'a> / fn data
//@rewrite &self\.0\[offset\.\.\] ==> subslice(self.0, offset, self.0.len())
//@ret r
//@spec
    requires stored(self.0@)
    ensures r is Ok, (r->Ok_0)@ == text(self.0@)
//@at start
proof { let d = text(self.0@); assert(is_text(self.0@, d)); lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(self.0@.subrange(0, w.len() as int) =~= w); assert(w.is_prefix_of(self.0@)); assert(enc(d).is_prefix_of(self.0@)); assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(self.0@) implies p == w && unzz(dec(p)) == d.len() && self.0@.len() == p.len() + d.len() && self.0@.subrange(p.len() as int, self.0@.len() as int) == d by { lemma_enc(d, p, self.0@); } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl DeserializableType for Blob / fn reinterpret_cast
//@header impl Blob
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite Self::Ref<'_> ==> BlobRef<'_>
//@rewrite len_varint\.into\(\) ==> VarInt::into_usize(len_varint)
//@rewrite BlobRef::from\( ==> blob_ref(
//@rewrite &buffer\[\.\.total_size\] ==> subslice(buffer, 0, total_size)
//@ret r
//@spec
    requires exists|d: Seq<u8>| d.len() <= i64::MAX && #[trigger] enc(d).is_prefix_of(buffer@)
    ensures forall|d: Seq<u8>| d.len() <= i64::MAX && #[trigger] enc(d).is_prefix_of(buffer@) ==> r is Ok && (r->Ok_0).0.0@ == enc(d) && (r->Ok_0).1 == enc(d).len()
//@at start
proof { assert forall|d: Seq<u8>| d.len() <= i64::MAX && #[trigger] enc(d).is_prefix_of(buffer@) implies vi(zz(d.len() as i64)).is_prefix_of(buffer@) && prefix(vi(zz(d.len() as i64))) && (forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(buffer@) ==> unzz(dec(p)) == d.len() && enc(d).len() == p.len() + d.len()) by {
    lemma_vi_all(zz(d.len() as i64)); let w = vi(zz(d.len() as i64)); assert(enc(d).subrange(0, w.len() as int) =~= w);
    assert(w.is_prefix_of(buffer@)) by { assert forall|i: int| 0 <= i < w.len() implies w[i] == buffer@[i] by { assert(enc(d)[i] == buffer@[i]); } assert(buffer@.subrange(0, w.len() as int) =~= w); }
    assert forall|p: Seq<u8>| prefix(p) && p.is_prefix_of(buffer@) implies unzz(dec(p)) == d.len() && enc(d).len() == p.len() + d.len() by { lemma_enc(d, p, buffer@); } } }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl SerializableType for Blob / fn write_to
//@header impl Blob
//@rewrite writer\[cursor\.\.cursor \+ self\.runtime_size\(\)\]\s*\.copy_from_slice\(data_bytes\) ==> copy_at(writer, cursor, cursor + self.runtime_size(), data_bytes)
//@ret r
//@spec
    requires cursor + self.0@.len() <= old(writer)@.len() <= usize::MAX
    ensures r is Ok, r->Ok_0 == cursor + self.0@.len(), final(writer)@ == old(writer)@.subrange(0, cursor as int) + self.0@ + old(writer)@.subrange(cursor + self.0@.len(), old(writer)@.len() as int)
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl RuntimeSized for Blob / fn runtime_size
//@header impl Blob
//@ret r
//@spec
    ensures r == self.0@.len()
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> RuntimeSized for BlobRef<'a> / fn runtime_size
//@header impl<'a> BlobRef<'a>
//@ret r
//@spec
    ensures r == self.0@.len()
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl BlobComparator / fn partial_cmp_blobs
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite lhs\.as_ref\(\)\.as_ptr\(\) == rhs\.as_ref\(\)\.as_ptr\(\) ==> same_address(lhs.as_ref(), rhs.as_ref())
//@rewrite lhs\.len\(\) == rhs\.len\(\) ==> lhs.as_ref().len() == rhs.as_ref().len()
//@rewrite lhs\.data_length\(\)\.ok\(\)\? ==> (match lhs.data_length() { Ok(v) => v, Err(_) => return None })
//@rewrite rhs\.data_length\(\)\.ok\(\)\? ==> (match rhs.data_length() { Ok(v) => v, Err(_) => return None })
//@rewrite lhs\.data\(\)\.ok\(\)\? ==> (match lhs.data() { Ok(v) => v, Err(_) => return None })
//@rewrite rhs\.data\(\)\.ok\(\)\? ==> (match rhs.data() { Ok(v) => v, Err(_) => return None })
//@rewrite lhs_len\.min\(rhs_len\) ==> min_usize(lhs_len, rhs_len)
//@rewrite &left_data\[(.*?)\.\.(.*?)\]; ==> subslice(left_data, \1, \2);
//@rewrite &right_data\[(.*?)\.\.(.*?)\]; ==> subslice(right_data, \1, \2);
//@rewrite u64::from_(be|le)_bytes\((\w+)\.try_into\(\)\.unwrap\(\)\) ==> u64_\1(\2)
//@rewrite lhs_u64\.cmp\(&rhs_u64\) ==> cmp_u64(lhs_u64, &rhs_u64)
//@rewrite left_data\[i\]\.cmp\(&right_data\[i\]\) ==> cmp_u8(left_data[i], &right_data[i])
//@rewrite Ordering::Equal => continue,(\s*\w+ => return Some\(\w+\),\s*\}\s*\}) ==> Ordering::Equal => (),\1
//@rewrite lhs_len\.cmp\(&rhs_len\) ==> cmp_usize(lhs_len, &rhs_len)
//@ret r
//@spec
    requires stored(lhs.0@), stored(rhs.0@)
    ensures r == Some(lex(text(lhs.0@), text(rhs.0@), 0))
//@loop 0
    invariant left_data@ == ta, right_data@ == tb, lhs_len == ta.len(), rhs_len == tb.len(), min_len <= lhs_len, min_len <= rhs_len, chunk_count * 8 <= min_len, lex(ta, tb, 0) == lex(ta, tb, i * 8)
//@loop 1
    invariant left_data@ == ta, right_data@ == tb, lhs_len == ta.len(), rhs_len == tb.len(), min_len <= lhs_len, min_len <= rhs_len, lex(ta, tb, 0) == lex(ta, tb, i as int)
//@loop 2
    invariant left_data@ == ta, right_data@ == tb, lhs_len == ta.len(), rhs_len == tb.len(), min_len <= lhs_len, min_len <= rhs_len, lex(ta, tb, 0) == lex(ta, tb, i as int)
//@at loop 0 body-start
proof { assert((i + 1) * 8 <= chunk_count * 8) by (nonlinear_arith) requires i + 1 <= chunk_count; lemma_chunk(left_data@, right_data@, i * 8); }
//@at start
let ghost ta = text(lhs.0@); let ghost tb = text(rhs.0@);
proof { lemma_lex_eq(ta, tb, 0); assert(is_text(lhs.0@, ta)); assert(is_text(rhs.0@, tb)); }
//@at loop 1 body-start
proof { lex_step(ta, tb, i as int); }
//@at loop 2 body-start
proof { lex_step(ta, tb, i as int); }
//@at loop 1 after
proof { lex_end(ta, tb, min_len as int); }
//@at loop 2 after
proof { lex_end(ta, tb, min_len as int); }
//@at loop 1 before
proof { assert(min_len as int / 8 * 8 <= min_len); }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl PartialOrd for Blob / fn partial_cmp
//@header impl Blob
//@rename partial_cmp_
//@ret r
//@spec
    requires stored(self.0@), stored(other.0@)
    ensures r == Some(lex(text(self.0@), text(other.0@), 0))
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl PartialEq for Blob / fn eq
//@header impl Blob
//@rename eq_
//@rewrite self\.partial_cmp\(other\) ==> self.partial_cmp_(other)
//@ret r
//@spec
    requires stored(self.0@), stored(other.0@)
    ensures r == (text(self.0@) == text(other.0@)), r == (self.0@ == other.0@)
//@at start
proof { let a = text(self.0@); let b = text(other.0@); assert(is_text(self.0@, a)); assert(is_text(other.0@, b)); thm_equal_texts_are_identical(a, b); thm_enc_injective(a, b); }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl Ord for Blob / fn cmp
//@header impl Blob
//@rename cmp_
//@rewrite self\.partial_cmp\(other\) ==> self.partial_cmp_(other)
//@ret r
//@spec
    requires stored(self.0@), stored(other.0@)
    ensures r == lex(text(self.0@), text(other.0@), 0)
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> PartialOrd for BlobRef<'a> / fn partial_cmp
//@header impl<'a> BlobRef<'a>
//@rename partial_cmp_
//@ret r
//@spec
    requires stored(self.0@), stored(other.0@)
    ensures r == Some(lex(text(self.0@), text(other.0@), 0))
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> PartialEq for BlobRef<'a> / fn eq
//@header impl<'a> BlobRef<'a>
//@rename eq_
//@rewrite self\.partial_cmp\(other\) ==> self.partial_cmp_(other)
//@ret r
//@spec
    requires stored(self.0@), stored(other.0@)
    ensures r == (text(self.0@) == text(other.0@)), r == (self.0@ == other.0@)
//@at start
proof { let a = text(self.0@); let b = text(other.0@); assert(is_text(self.0@, a)); assert(is_text(other.0@, b)); thm_equal_texts_are_identical(a, b); thm_enc_injective(a, b); }
//@end
//@extract crates/axmos-db/src/types/blob.rs : impl<'a> Ord for BlobRef<'a> / fn cmp
//@header impl<'a> BlobRef<'a>
//@rename cmp_
//@rewrite self\.partial_cmp\(other\) ==> self.partial_cmp_(other)
//@ret r
//@spec
    requires stored(self.0@), stored(other.0@)
    ensures r == lex(text(self.0@), text(other.0@), 0)
//@end
} // verus!
