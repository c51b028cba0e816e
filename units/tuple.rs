// Row versions: parsing the newest version, walking the delta chain for a snapshot, trimming history.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens)]
use vstd::prelude::*;
verus!{
fn main(){}
global size_of usize == 8;
pub type TransactionId = u64;

// ------------------------------------------------------------------ std and dependencies (assumed contracts)
#[verifier::external_body] #[verifier::accept_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
#[verifier::external_body] pub fn shim_div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / b as int { unimplemented!() }
/// language guarantee: no object is larger than isize::MAX bytes
#[verifier::external_body] pub proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff { }
#[verifier::external_body] pub proof fn axiom_vec_len(s: Vec<u8>) ensures s@.len() <= 0x7fff_ffff_ffff_ffff { }
#[verifier::external_body] pub struct SchemaError {}
#[verifier::external_body] pub struct SerializationError {}
#[verifier::external_body] pub struct AllocError {}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct DataTypeKind { pub k: u8 }
pub struct DataTypeRef<'a> { pub p: &'a [u8] }
/// where the value of this type that starts at (or is aligned up from) `c` ends; None if it does not fit
pub uninterp spec fn de(k: DataTypeKind, d: Seq<u8>, c: int) -> Option<int>;
impl DataTypeKind {
    /// assumed contract of the value decoders (types/*): see `axiom_de`
    #[verifier::external_body]
    pub fn deserialize<'a>(&self, d: &'a [u8], c: usize) -> (r: Result<(DataTypeRef<'a>, usize), SerializationError>)
        ensures match r { Ok((_, e)) => de(*self, d@, c as int) == Some(e as int), Err(_) => de(*self, d@, c as int) is None } { unimplemented!() }
}
/// a value ends inside the buffer, and its extent depends only on the bytes before its end
#[verifier::external_body]
pub proof fn axiom_de(k: DataTypeKind, d: Seq<u8>, n: int, c: int)
    ensures de(k, d, c) is Some ==> c <= de(k, d, c)->0 <= d.len(),
        0 <= n <= d.len() && de(k, d, c) is Some && de(k, d, c)->0 <= n ==> de(k, d.take(n), c) == de(k, d, c),
{ }
/// `Schema`: its key columns and its value columns
pub struct Column { pub dt: DataTypeKind }
impl Column { pub fn datatype(&self) -> (r: DataTypeKind) ensures r == self.dt { self.dt } }
pub struct Schema { pub keys: Vec<Column>, pub vals: Vec<Column> }
impl Schema {
    pub fn num_values(&self) -> (r: usize) ensures r == self.vals@.len() { self.vals.len() }
    pub fn num_keys(&self) -> (r: usize) ensures r == self.keys@.len() { self.keys.len() }
    pub fn value(&self, i: usize) -> (r: Option<&Column>) ensures (r is Some) == (i < self.vals@.len()), r is Some ==> *r->0 == self.vals@[i as int] { if i < self.vals.len() { Some(&self.vals[i]) } else { None } }
    pub fn key(&self, i: usize) -> (r: Option<&Column>) ensures (r is Some) == (i < self.keys@.len()), r is Some ==> *r->0 == self.keys@[i as int] { if i < self.keys.len() { Some(&self.keys[i]) } else { None } }
}
/// `Payload`: an owned byte buffer; `realloc` to a smaller size keeps the first bytes, `shrink_to_fit` keeps all of them
pub struct Payload { pub b: Vec<u8> }
impl Payload {
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { self.b.len() }
    pub fn effective_data(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
    #[verifier::external_body] pub fn realloc(&mut self, n: usize) -> (r: Result<(), AllocError>)
        ensures r is Ok && n <= old(self).b@.len() ==> final(self).b@ == old(self).b@.take(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn shrink_to_fit(&mut self) -> (r: Result<(), AllocError>) ensures final(self).b@ == old(self).b@ { unimplemented!() }
}
pub struct Tuple { pub data: Payload }

// ------------------------------------------------------------------ snapshots (their construction is unit mvcc)
//@extract crates/axmos-db/src/multithreading/coordinator.rs : struct Snapshot
//@end
pub open spec fn seen(s: Snapshot, t: u64) -> bool {
    !(s.xmax is Some && s.xmax->0 < t) && !s.active_txs@.contains(t) && !s.aborted_txs@.contains(t)
}
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn is_committed_before_snapshot
//@ret r
//@spec
    ensures r == seen(*self, txid)
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn xid
//@ret r
//@spec
    ensures r == self.xid
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn xmin
//@ret r
//@spec
    ensures r == self.xmin
//@end

// ------------------------------------------------------------------ headers
//@extract crates/axmos-db/src/storage/tuple.rs : struct TupleHeader
//@attrs
#[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : struct DeltaHeader
//@attrs
#[derive(Clone, Copy)]
//@end
pub open spec fn up8(n: int) -> int { ((n + 7) / 8) * 8 }
/// the header bytes as values (bytemuck); 24 and 16 bytes, each at the next multiple of 8
pub uninterp spec fn th(b: Seq<u8>) -> TupleHeader;
pub uninterp spec fn dh(b: Seq<u8>) -> DeltaHeader;
impl TupleHeader {
    #[verifier::external_body] pub fn read_from(b: &[u8], o: usize) -> (r: (TupleHeader, usize))
        requires up8(o as int) + 24 <= b@.len() ensures r.0 == th(b@.subrange(up8(o as int), up8(o as int) + 24)), r.1 == up8(o as int) + 24 { unimplemented!() }
}
impl DeltaHeader {
    #[verifier::external_body] pub fn aligned_offset(o: usize) -> (r: usize) requires o <= usize::MAX - 7 ensures r == up8(o as int) { unimplemented!() }
    #[verifier::external_body] pub fn read_from(b: &[u8], o: usize) -> (r: (DeltaHeader, usize))
        requires up8(o as int) + 16 <= b@.len() ensures r.0 == dh(b@.subrange(up8(o as int), up8(o as int) + 16)), r.1 == up8(o as int) + 16 { unimplemented!() }
}
pub open spec fn xmax_of(h: TupleHeader) -> Option<u64> { if h.xmax < 0 { None } else { Some(h.xmax as u64) } }
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleHeader / fn new
//@rewrite xmax\.map\(\|v\| v as i64\)\.unwrap_or\(-1\) ==> match xmax { Some(v) => v as i64, None => -1 }
//@ret r
//@spec
    requires xmax is Some ==> xmax->0 <= i64::MAX as u64
    ensures r.xmin == xmin, r.version == version, xmax_of(r) == xmax
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleHeader / fn xmax
//@ret r
//@spec
    ensures r == xmax_of(*self)
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleHeader / fn version
//@ret r
//@spec
    ensures r == self.version
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleHeader / fn xmin
//@ret r
//@spec
    ensures r == self.xmin
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl DeltaHeader / fn new
//@ret r
//@spec
    ensures r.xmin == xmin, r.version == version
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl DeltaHeader / fn version
//@ret r
//@spec
    ensures r == self.version
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl DeltaHeader / fn xmin
//@ret r
//@spec
    ensures r == self.xmin
//@end

// ------------------------------------------------------------------ offsets and NULL bits
//@extract crates/axmos-db/src/storage/tuple.rs : fn null_bitmap_size
//@rewrite num_values\.div_ceil\(8\) ==> shim_div_ceil(num_values, 8)
//@ret r
//@spec
    ensures r == bsz(num_values as int)
//@end
pub open spec fn bsz(n: int) -> int { (n + 7) / 8 }
//@extract crates/axmos-db/src/storage/tuple.rs : fn aligned_offset
//@ret r
//@spec
    requires align == 1 || align == 2 || align == 4 || align == 8, offset <= usize::MAX - 8
    ensures r == ((offset + align - 1) / align as int) * align,
//@at start
    proof { align_bits(offset, align); }
//@end
pub proof fn align_bits(o: usize, a: usize)
    requires a == 1 || a == 2 || a == 4 || a == 8, o <= usize::MAX - 8
    ensures ((o + a - 1) as usize & !((a - 1) as usize)) == ((o + a - 1) / a as int) * a
{
    let x = (o + a - 1) as usize;
    if a == 1 { assert(x & !0usize == x) by (bit_vector); assert(x / 1 == x); }
    else if a == 2 { assert(x & !1usize == (x / 2) * 2) by (bit_vector); }
    else if a == 4 { assert(x & !3usize == (x / 4) * 4) by (bit_vector); }
    else { assert(x & !7usize == (x / 8) * 8) by (bit_vector); }
}
pub open spec fn nullbit(b: Seq<u8>, i: int) -> bool { (b[i / 8] & (1u8 << ((i % 8) as usize))) != 0 }
proof fn bits(b: u8) ensures
    forall|i: usize, j: usize| i < 8 && j < 8 ==> (#[trigger] ((b | (1u8 << i)) & (1u8 << j)) != 0) == (i == j || (b & (1u8 << j)) != 0),
    forall|i: usize, j: usize| i < 8 && j < 8 ==> (#[trigger] ((b & !(1u8 << i)) & (1u8 << j)) != 0) == (i != j && (b & (1u8 << j)) != 0),
{
    assert(forall|i: usize, j: usize| i < 8 && j < 8 ==> (#[trigger] ((b | (1u8 << i)) & (1u8 << j)) != 0) == (i == j || (b & (1u8 << j)) != 0)) by (bit_vector);
    assert(forall|i: usize, j: usize| i < 8 && j < 8 ==> (#[trigger] ((b & !(1u8 << i)) & (1u8 << j)) != 0) == (i != j && (b & (1u8 << j)) != 0)) by (bit_vector);
}
pub struct TupleBuilder<'a> { pub schema: &'a Schema }
//@extract crates/axmos-db/src/storage/tuple.rs : impl<'a> TupleBuilder<'a> / fn set_null_bit
//@spec
    requires val_idx / 8 < old(bitmap)@.len()
    ensures final(bitmap)@.len() == old(bitmap)@.len(),
        forall|i: int| 0 <= i && i / 8 < old(bitmap)@.len() ==> #[trigger] nullbit(final(bitmap)@, i) == (if i == val_idx { is_null } else { nullbit(old(bitmap)@, i) }),
//@at start
    proof { bits(bitmap@[val_idx as int / 8]); }
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : struct TupleReader
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl<'a> TupleReader<'a> / fn from_schema
//@ret r
//@spec
    ensures *r.schema == *schema
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl<'a> TupleReader<'a> / fn check_null
//@ret r
//@spec
    requires val_idx / 8 < bitmap@.len()
    ensures r == nullbit(bitmap@, val_idx as int)
//@end

// ------------------------------------------------------------------ what the bytes mean
//@extract crates/axmos-db/src/storage/tuple.rs : enum TupleError
//@end
pub type TupleResult<T> = Result<T, TupleError>;
#[verifier::external] impl From<SerializationError> for TupleError { fn from(value: SerializationError) -> Self { TupleError::Serialization(value) } }
#[verifier::external] impl From<AllocError> for TupleError { fn from(value: AllocError) -> Self { TupleError::AllocationError(value) } }
//@extract crates/axmos-db/src/storage/tuple.rs : struct TupleLayout
//@end
pub open spec fn kbase(s: Schema) -> int { 24 + bsz(s.vals@.len() as int) }
/// end of the first `i` keys; None if one of them does not decode
pub open spec fn kend(s: Schema, d: Seq<u8>, i: nat) -> Option<int> decreases i {
    if i == 0 { Some(kbase(s)) } else { match kend(s, d, (i - 1) as nat) { None => None, Some(c) => de(s.keys@[i - 1].dt, d, c) } }
}
/// end of the first `i` values of the newest version (a NULL occupies nothing)
pub open spec fn vend(s: Schema, d: Seq<u8>, i: nat) -> Option<int> decreases i {
    if i == 0 { kend(s, d, s.keys@.len()) } else { match vend(s, d, (i - 1) as nat) { None => None,
        Some(c) => if nullbit(d.subrange(24, kbase(s)), i - 1) { Some(c) } else { de(s.vals@[i - 1].dt, d, c) } } }
}
/// one decoded version: where its values lie, who created it, who replaced or deleted it
pub struct Ver { pub xmin: u64, pub xmax: Option<u64>, pub nb: int, pub vo: Seq<usize>, pub ver: u8 }
pub open spec fn ver(l: TupleLayout) -> Ver { Ver { xmin: l.version_xmin, xmax: l.version_xmax, nb: l.null_bitmap_start as int, vo: l.value_offsets@, ver: l.version } }
pub open spec fn newest(s: Schema, d: Seq<u8>, l: TupleLayout) -> bool {
    let h = th(d.subrange(0, 24));
    &&& l.version_xmin == h.xmin && l.version_xmax == xmax_of(h) && l.version == h.version && l.null_bitmap_start == 24
    &&& l.key_offsets@.len() == s.keys@.len() && l.value_offsets@.len() == s.vals@.len()
    &&& (forall|i: int| 0 <= i < s.keys@.len() ==> Some(#[trigger] l.key_offsets@[i] as int) == kend(s, d, i as nat))
    &&& (forall|i: int| 0 <= i < s.vals@.len() ==> Some(#[trigger] l.value_offsets@[i] as int) == vend(s, d, i as nat))
    &&& Some(l.data_end as int) == vend(s, d, s.vals@.len())
}
/// the changes of a delta, after `k` of them: value offsets and cursor; None if one of them is broken
pub open spec fn changes(s: Schema, d: Seq<u8>, bm: int, c: int, vo: Seq<usize>, k: nat) -> Option<(Seq<usize>, int)> decreases k {
    if k == 0 { Some((vo, c)) } else { match changes(s, d, bm, c, vo, (k - 1) as nat) { None => None, Some((vo, c)) =>
        if !(0 <= c < d.len()) || d[c] >= s.vals@.len() { None }
        else if nullbit(d.subrange(bm, bm + bsz(s.vals@.len() as int)), d[c] as int) { Some((vo, c + 1)) }
        else { match de(s.vals@[d[c] as int].dt, d, c + 1) { None => None, Some(e) => Some((vo.update(d[c] as int, (c + 1) as usize), e)) } } } }
}
/// the delta at `c` lies inside the buffer
pub open spec fn fits(s: Schema, d: Seq<u8>, c: int) -> bool { up8(c) + 17 + bsz(s.vals@.len() as int) <= d.len() }
pub open spec fn dhead(d: Seq<u8>, c: int) -> DeltaHeader { dh(d.subrange(up8(c), up8(c) + 16)) }
pub open spec fn dchanges(s: Schema, d: Seq<u8>, c: int, vo: Seq<usize>) -> Option<(Seq<usize>, int)> {
    changes(s, d, up8(c) + 17, up8(c) + 17 + bsz(s.vals@.len() as int), vo, d[up8(c) + 16] as nat)
}
/// the version before `v`, from the delta at `c`, and where the next delta would be
pub open spec fn older(s: Schema, d: Seq<u8>, c: int, v: Ver) -> (Ver, int) {
    let r = dchanges(s, d, c, v.vo)->0;
    (Ver { xmin: dhead(d, c).xmin, xmax: Some(v.xmin), nb: up8(c) + 17, vo: r.0, ver: dhead(d, c).version }, r.1)
}
pub proof fn changes_end(s: Schema, d: Seq<u8>, bm: int, c: int, vo: Seq<usize>, vo2: Seq<usize>, k: nat)
    requires vo.len() == vo2.len()
    ensures
        (changes(s, d, bm, c, vo, k) is Some) == (changes(s, d, bm, c, vo2, k) is Some),
        changes(s, d, bm, c, vo, k) is Some ==> {
            &&& (changes(s, d, bm, c, vo, k)->0).1 == (changes(s, d, bm, c, vo2, k)->0).1 >= c + k
            &&& (changes(s, d, bm, c, vo, k)->0).0.len() == vo.len()
            &&& (changes(s, d, bm, c, vo2, k)->0).0.len() == vo.len()
            &&& (k > 0 ==> (changes(s, d, bm, c, vo, k)->0).1 <= d.len())
            &&& forall|j: nat| j <= k ==> (#[trigger] changes(s, d, bm, c, vo, j)) is Some
        }
    decreases k
{
    if k > 0 {
        changes_end(s, d, bm, c, vo, vo2, (k - 1) as nat);
        if let Some((v1, c1)) = changes(s, d, bm, c, vo, (k - 1) as nat) {
            if 0 <= c1 < d.len() && d[c1] < s.vals@.len() { axiom_de(s.vals@[d[c1] as int].dt, d, d.len() as int, c1 + 1); }
        }
    }
}
/// every delta from `c` on is complete (what every writer leaves behind)
pub open spec fn chain(s: Schema, d: Seq<u8>, c: int, vo: Seq<usize>) -> bool decreases (if c < d.len() { d.len() - c } else { 0 }) {
    c >= d.len() || (c >= 0 && fits(s, d, c) && (match dchanges(s, d, c, vo) { None => false, Some((vo2, c2)) => c < c2 <= d.len() && chain(s, d, c2, vo2) }))
}
pub open spec fn row_ok(s: Schema, d: Seq<u8>) -> bool {
    d.len() >= kbase(s) && s.vals@.len() <= 255
}
pub open spec fn chain_ok(s: Schema, d: Seq<u8>) -> bool {
    row_ok(s, d) && forall|l: TupleLayout| #[trigger] newest(s, d, l) ==> chain(s, d, up8(l.data_end as int), l.value_offsets@)
}
/// the version a snapshot is entitled to: the newest one whose creator it sees
pub open spec fn walk(s: Schema, d: Seq<u8>, c: int, v: Ver, sn: Snapshot) -> Option<Ver> decreases (if c < d.len() { d.len() - c } else { 0 }) {
    if c >= d.len() { None } else {
        let (w, c2) = older(s, d, c, v);
        if seen(sn, w.xmin) { Some(w) } else if c2 <= c { None } else { walk(s, d, c2, w, sn) }
    }
}
pub open spec fn gone(sn: Snapshot, v: Ver) -> bool { v.xmax is Some && (seen(sn, v.xmax->0) || sn.xid == v.xmax->0) }
pub open spec fn entitled(s: Schema, d: Seq<u8>, v: Ver, end: int, sn: Snapshot) -> Option<Ver> {
    if gone(sn, v) { None } else if seen(sn, v.xmin) || sn.xid == v.xmin { Some(v) } else { walk(s, d, up8(end), v, sn) }
}

//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleLayout / fn current_version
//@ret r
//@spec
    ensures r == self.version
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleLayout / fn delta_start
//@ret r
//@spec
    requires self.data_end <= usize::MAX - 7
    ensures r == up8(self.data_end as int)
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleLayout / fn version_xmin
//@ret r
//@spec
    ensures r == self.version_xmin
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleLayout / fn version_xmax
//@ret r
//@spec
    ensures r == self.version_xmax
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl TupleLayout / fn is_valid_for_snapshot
//@ret r
//@spec
    ensures r == (!gone(*snapshot, ver(*self)) && (seen(*snapshot, self.version_xmin) || snapshot.xid == self.version_xmin))
//@end
//@extract crates/axmos-db/src/storage/tuple.rs : impl<'a> TupleReader<'a> / fn parse_last_version
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite for key_col in self\.schema\.iter_keys\(\) ==> for key_col in it: self.schema.keys.iter()
//@rewrite for \(i, val_col\) in self\.schema\.iter_values\(\)\.enumerate\(\) ==> for i in 0..self.schema.vals.len()
//@ret r
//@spec
    requires row_ok(*self.schema, data@)
    ensures r is Ok ==> newest(*self.schema, data@, r->Ok_0) && r->Ok_0.data_end <= data@.len(),
        r is Err ==> vend(*self.schema, data@, self.schema.vals@.len()) is None
//@at start
    proof { axiom_slice_len(data); kv_none(*self.schema, data@); }
//@loop 0
    invariant
        kend(*self.schema, data@, it.index@ as nat) == Some(cursor as int), cursor <= data@.len(),
        key_offsets@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> Some(#[trigger] key_offsets@[i] as int) == kend(*self.schema, data@, i as nat),
//@at loop 0 body-start
    proof { axiom_de(key_col.dt, data@, data@.len() as int, cursor as int); assert(kend(*self.schema, data@, (it.index@ + 1) as nat) == de(key_col.dt, data@, cursor as int)); }
//@loop 1
    invariant
        null_bitmap@ == data@.subrange(24, kbase(*self.schema)),
        vend(*self.schema, data@, i as nat) == Some(cursor as int), cursor <= data@.len(),
        value_offsets@.len() == i,
        forall|j: int| 0 <= j < i ==> Some(#[trigger] value_offsets@[j] as int) == vend(*self.schema, data@, j as nat),
//@at loop 1 body-start
    let val_col = &self.schema.vals[i];
    proof { axiom_de(val_col.dt, data@, data@.len() as int, cursor as int); }
//@end
/// a later offset exists only if every earlier one does
proof fn kv_none(s: Schema, d: Seq<u8>)
    ensures
        forall|i: nat, j: nat| i <= j && kend(s, d, i) is None ==> #[trigger] kend(s, d, j) is None && #[trigger] kend(s, d, i) is None,
        forall|i: nat, j: nat| i <= j && vend(s, d, i) is None ==> #[trigger] vend(s, d, j) is None && #[trigger] vend(s, d, i) is None,
        forall|i: nat, j: nat| i <= s.keys@.len() && kend(s, d, i) is None ==> #[trigger] vend(s, d, j) is None && #[trigger] kend(s, d, i) is None,
{
    assert forall|i: nat, j: nat| i <= j && kend(s, d, i) is None implies #[trigger] kend(s, d, j) is None && #[trigger] kend(s, d, i) is None by { knone(s, d, i, j); }
    assert forall|i: nat, j: nat| i <= j && vend(s, d, i) is None implies #[trigger] vend(s, d, j) is None && #[trigger] vend(s, d, i) is None by { vnone(s, d, i, j); }
    assert forall|i: nat, j: nat| i <= s.keys@.len() && kend(s, d, i) is None implies #[trigger] vend(s, d, j) is None && #[trigger] kend(s, d, i) is None by {
        knone(s, d, i, s.keys@.len()); assert(vend(s, d, 0) is None); vnone(s, d, 0, j);
    }
}
proof fn knone(s: Schema, d: Seq<u8>, i: nat, j: nat) requires i <= j, kend(s, d, i) is None ensures kend(s, d, j) is None decreases j { if i < j { knone(s, d, i, (j - 1) as nat); } }
proof fn vnone(s: Schema, d: Seq<u8>, i: nat, j: nat) requires i <= j, vend(s, d, i) is None ensures vend(s, d, j) is None decreases j { if i < j { vnone(s, d, i, (j - 1) as nat); } }

//@extract crates/axmos-db/src/storage/tuple.rs : impl<'a> TupleReader<'a> / fn parse_for_snapshot
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@spec
    requires chain_ok(*self.schema, data@)
    ensures
        match r {
            Ok(Some(l)) => exists|l0: TupleLayout| newest(*self.schema, data@, l0) && entitled(*self.schema, data@, ver(l0), l0.data_end as int, *snapshot) == Some(ver(l)),
            Ok(None) => exists|l0: TupleLayout| newest(*self.schema, data@, l0) && entitled(*self.schema, data@, ver(l0), l0.data_end as int, *snapshot) is None,
            Err(_) => vend(*self.schema, data@, self.schema.vals@.len()) is None },
//@at start
    proof { axiom_slice_len(data); }
//@at before if let Some ( xmax ) = layout
    let ghost l0 = layout;
//@loop 0
    invariant
        newest(*self.schema, data@, l0), bitmap_size == bsz(self.schema.vals@.len() as int),
        chain(*self.schema, data@, cursor as int, layout.value_offsets@),
        layout.value_offsets@.len() == self.schema.vals@.len(),
        entitled(*self.schema, data@, ver(l0), l0.data_end as int, *snapshot) == walk(*self.schema, data@, cursor as int, ver(layout), *snapshot),
        cursor >= data@.len() || !seen(*snapshot, layout.version_xmin),
    decreases data@.len() - cursor
//@at loop 0 body-start
    let ghost c0 = cursor as int;
    let ghost v0 = ver(layout);
    let ghost n0 = data@[up8(c0) + 16] as nat;
    proof { changes_end(*self.schema, data@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, v0.vo, v0.vo, n0); }
//@iter 1 it
//@loop 1
    invariant
        changes(*self.schema, data@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, v0.vo, it.index@ as nat) == Some((layout.value_offsets@, cursor as int)),
        cursor <= data@.len(),
        layout.value_offsets@.len() == self.schema.vals@.len(),
        layout.version_xmax == Some(v0.xmin), layout.version == dhead(data@, c0).version, layout.version_xmin == dhead(data@, c0).xmin,
        layout.null_bitmap_start == up8(c0) + 17,
//@at loop 1 body-start
    proof {
        assert(changes(*self.schema, data@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, v0.vo, (it.index@ + 1) as nat) is Some);
        axiom_de(self.schema.vals@[data@[cursor as int] as int].dt, data@, data@.len() as int, cursor + 1);
    }
//@end

//@extract crates/axmos-db/src/storage/tuple.rs : impl<'a> TupleReader<'a> / fn parse_version
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@spec
    requires chain_ok(*self.schema, data@)
    ensures r is Ok ==> (exists|l0: TupleLayout| newest(*self.schema, data@, l0) && at_version(*self.schema, data@, up8(l0.data_end as int), ver(l0), target_version) == ver(r->Ok_0))
//@at start
    proof { axiom_slice_len(data); }
//@at before if target_version > layout
    let ghost l0 = layout;
//@loop 0
    invariant
        newest(*self.schema, data@, l0), bitmap_size == bsz(self.schema.vals@.len() as int),
        chain(*self.schema, data@, cursor as int, layout.value_offsets@),
        layout.value_offsets@.len() == self.schema.vals@.len(),
        layout.version != target_version,
        at_version(*self.schema, data@, up8(l0.data_end as int), ver(l0), target_version) == at_version(*self.schema, data@, cursor as int, ver(layout), target_version),
    ensures at_version(*self.schema, data@, up8(l0.data_end as int), ver(l0), target_version) == ver(layout),
    decreases data@.len() - cursor
//@at loop 0 body-start
    let ghost c0 = cursor as int;
    let ghost v0 = ver(layout);
    let ghost n0 = data@[up8(c0) + 16] as nat;
    proof { changes_end(*self.schema, data@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, v0.vo, v0.vo, n0); }
//@iter 1 it
//@loop 1
    invariant
        changes(*self.schema, data@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, v0.vo, it.index@ as nat) == Some((layout.value_offsets@, cursor as int)),
        cursor <= data@.len(),
        layout.value_offsets@.len() == self.schema.vals@.len(),
        layout.version_xmax == Some(v0.xmin), layout.version == dhead(data@, c0).version, layout.version_xmin == dhead(data@, c0).xmin,
        layout.null_bitmap_start == up8(c0) + 17,
//@at loop 1 body-start
    proof {
        assert(changes(*self.schema, data@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, v0.vo, (it.index@ + 1) as nat) is Some);
        axiom_de(self.schema.vals@[data@[cursor as int] as int].dt, data@, data@.len() as int, cursor + 1);
    }
//@end
/// the version with the given number (the oldest one if there is none)
pub open spec fn at_version(s: Schema, d: Seq<u8>, c: int, v: Ver, n: u8) -> Ver decreases (if c < d.len() { d.len() - c } else { 0 }) {
    if v.ver == n || c >= d.len() { v } else { let (w, c2) = older(s, d, c, v); if c2 <= c { w } else { at_version(s, d, c2, w, n) } }
}

// ------------------------------------------------------------------ trimming history
/// where history may end for the horizon `h`: at the first delta whose replacing version is older than `h`
pub open spec fn cut(s: Schema, d: Seq<u8>, c: int, vo: Seq<usize>, by: u64, h: u64) -> int decreases (if c < d.len() { d.len() - c } else { 0 }) {
    if c >= d.len() || by < h { c } else { match dchanges(s, d, c, vo) { None => c, Some((vo2, c2)) => if c2 <= c { c } else { cut(s, d, c2, vo2, dhead(d, c).xmin, h) } } }
}
pub proof fn cut_bound(s: Schema, d: Seq<u8>, c: int, vo: Seq<usize>, by: u64, h: u64)
    requires chain(s, d, c, vo), c <= d.len()
    ensures c <= cut(s, d, c, vo, by, h) <= d.len()
    decreases d.len() - c
{
    if !(c >= d.len() || by < h) { let (vo2, c2) = dchanges(s, d, c, vo)->0; cut_bound(s, d, c2, vo2, dhead(d, c).xmin, h); }
}
//@extract crates/axmos-db/src/storage/tuple.rs : impl Tuple / fn vaccum_with
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite last_needed_end = skip_cursor; ==> last_needed_end = skip_cursor; proof { vo = (changes(*schema, self.data.b@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, vo, n0)->0).0; }
//@ret r
//@spec
    requires chain_ok(*schema, old(self).data.b@)
    ensures
        r is Ok ==> exists|l0: TupleLayout| newest(*schema, old(self).data.b@, l0) && final(self).data.b@ =~= (if up8(l0.data_end as int) >= old(self).data.b@.len() { old(self).data.b@ }
            else { old(self).data.b@.take(cut(*schema, old(self).data.b@, up8(l0.data_end as int), l0.value_offsets@, l0.version_xmin, oldest_active_xid)) })
            && r->Ok_0 == old(self).data.b@.len() - final(self).data.b@.len(),
//@at before if layout . delta_start ( ) >= self
    let ghost l0 = layout;
    let ghost mut vo = layout.value_offsets@;
    proof { axiom_vec_len(self.data.b); }
//@loop 0
    invariant
        bitmap_size == bsz(schema.vals@.len() as int), self.data.b@ == old(self).data.b@,
        vo.len() == schema.vals@.len(), cursor == last_needed_end, cursor <= self.data.b@.len(), self.data.b@.len() <= 0x7fff_ffff_ffff_ffff,
        chain(*schema, self.data.b@, cursor as int, vo),
        cut(*schema, self.data.b@, up8(l0.data_end as int), l0.value_offsets@, l0.version_xmin, oldest_active_xid) == cut(*schema, self.data.b@, cursor as int, vo, replaced_by, oldest_active_xid),
    ensures
        cursor == last_needed_end, self.data.b@ == old(self).data.b@,
        cut(*schema, self.data.b@, up8(l0.data_end as int), l0.value_offsets@, l0.version_xmin, oldest_active_xid) == cursor,
    decreases self.data.b@.len() - cursor
//@at loop 0 body-start
    let ghost c0 = cursor as int;
    let ghost n0 = self.data.b@[up8(c0) + 16] as nat;
    proof { changes_end(*schema, self.data.b@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, vo, vo, n0); }
//@iter 1 it
//@loop 1
    invariant
        changes(*schema, self.data.b@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, vo, it.index@ as nat) is Some,
        (changes(*schema, self.data.b@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, vo, it.index@ as nat)->0).1 == skip_cursor,
        skip_cursor <= self.data.b@.len(),
//@at loop 1 body-start
    proof {
        assert(changes(*schema, self.data.b@, up8(c0) + 17, up8(c0) + 17 + bitmap_size, vo, (it.index@ + 1) as nat) is Some);
        axiom_de(schema.vals@[self.data.b@[skip_cursor as int] as int].dt, self.data.b@, self.data.b@.len() as int, skip_cursor + 1);
    }
//@end
/// the changes of a delta that ends before `n` read the same from the first `n` bytes
proof fn changes_local(s: Schema, d: Seq<u8>, n: int, bm: int, c: int, vo: Seq<usize>, k: nat)
    requires changes(s, d, bm, c, vo, k) is Some, (changes(s, d, bm, c, vo, k)->0).1 <= n <= d.len(), 0 <= bm, bm + bsz(s.vals@.len() as int) <= c, c >= 0
    ensures changes(s, d.take(n), bm, c, vo, k) == changes(s, d, bm, c, vo, k)
    decreases k
{
    if k > 0 {
        changes_end(s, d, bm, c, vo, vo, k);
        changes_end(s, d, bm, c, vo, vo, (k - 1) as nat);
        let (v1, c1) = changes(s, d, bm, c, vo, (k - 1) as nat)->0;
        axiom_de(s.vals@[d[c1] as int].dt, d, n, c1 + 1);
        changes_local(s, d, n, bm, c, vo, (k - 1) as nat);
        assert(d.take(n).subrange(bm, bm + bsz(s.vals@.len() as int)) =~= d.subrange(bm, bm + bsz(s.vals@.len() as int)));
    }
}
/// C18/C13: trimming at a horizon below which every creator is visible changes nothing a snapshot decodes
pub proof fn thm_trim_walk(s: Schema, d: Seq<u8>, c: int, v: Ver, sn: Snapshot, h: u64)
    requires chain(s, d, c, v.vo), 0 <= c <= d.len(), !seen(sn, v.xmin),
        forall|x: u64| x < h ==> seen(sn, x),
    ensures ({ let n = cut(s, d, c, v.vo, v.xmin, h); walk(s, d.take(n), c, v, sn) == walk(s, d, c, v, sn) })
    decreases d.len() - c
{
    let n = cut(s, d, c, v.vo, v.xmin, h);
    cut_bound(s, d, c, v.vo, v.xmin, h);
    if c >= d.len() || v.xmin < h { assert(n == c); }
    else {
        let (w, c2) = older(s, d, c, v);
        cut_bound(s, d, c2, w.vo, w.xmin, h);
        let e = d.take(n);
        assert(c2 <= n);
        assert(e.subrange(up8(c), up8(c) + 16) =~= d.subrange(up8(c), up8(c) + 16)) by {
            changes_end(s, d, up8(c) + 17, up8(c) + 17 + bsz(s.vals@.len() as int), v.vo, v.vo, d[up8(c) + 16] as nat);
        }
        changes_end(s, d, up8(c) + 17, up8(c) + 17 + bsz(s.vals@.len() as int), v.vo, v.vo, d[up8(c) + 16] as nat);
        changes_local(s, d, n, up8(c) + 17, up8(c) + 17 + bsz(s.vals@.len() as int), v.vo, d[up8(c) + 16] as nat);
        assert(older(s, e, c, v) == older(s, d, c, v));
        if !seen(sn, w.xmin) { thm_trim_walk(s, d, c2, w, sn, h); }
    }
}
}
