// Row changes: constraint checks, index entries, the log records of a change.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_mut)]
use vstd::prelude::*;
verus!{
fn main(){}
global size_of usize == 8;
pub type TransactionId = u64;
pub type PageId = u64;
pub type ObjectId = u64;
pub type RowId = u64;

// ------------------------------------------------------------------ values, rows, errors
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct UInt64(pub u64);
impl UInt64 {
    pub fn value(&self) -> (r: u64) ensures r == self.0 { self.0 }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Kind(pub u8);
impl Kind { #[verifier::external_body] pub fn align(&self) -> (r: usize) ensures 1 <= r <= 8 { unimplemented!() } }
/// a value: NULL, a row id, or anything else
pub enum DataType { Null, BigUInt(UInt64), Other(u64) }
/// the place of a value in the order of C19: equal values share it
pub uninterp spec fn rank(v: DataType) -> int;
pub open spec fn ranks(s: Seq<DataType>) -> Seq<int> { s.map_values(|v: DataType| rank(v)) }
pub open spec fn ranks_to(s: Seq<DataType>, n: int) -> Seq<int> { ranks(s.subrange(0, n)) }
/// the value of a column of type k that v is stored as
pub uninterp spec fn cast(v: DataType, k: Kind) -> DataType;
/// the bytes `b` followed by the value, at the alignment of its type
pub uninterp spec fn laid(b: Seq<u8>, v: DataType) -> Seq<u8>;
pub open spec fn kb(s: Seq<DataType>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { laid(kb(s.drop_last()), s.last()) } }
pub uninterp spec fn size_of_value(v: DataType) -> nat;
impl DataType {
    pub fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { match self { DataType::Null => true, _ => false } }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: Kind) { unimplemented!() }
    #[verifier::external_body] pub fn runtime_size(&self) -> (r: usize) ensures r == size_of_value(*self), r < 0x1_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body] pub fn try_cast(&self, k: Kind) -> (r: RuntimeResult<DataType>) ensures r is Ok ==> r->Ok_0 == cast(*self, k) { unimplemented!() }
    pub fn as_big_u_int(&self) -> (r: Option<&UInt64>) ensures r == (match self { DataType::BigUInt(u) => Some(u), _ => None }) { match self { DataType::BigUInt(u) => Some(u), _ => None } }
}
/// `buf.resize(cursor + align + size, 0); let end = v.write_to(buf, cursor)?; buf.truncate(end)`
#[verifier::external_body] pub fn shim_lay(buf: &mut Vec<u8>, v: &DataType) -> (r: ValidationResult<()>) ensures r is Ok ==> final(buf)@ == laid(old(buf)@, *v) { unimplemented!() }
#[verifier::external_body] pub fn shim_not_row(a: &DataType, id: u64) -> (r: bool) ensures r == !(*a is BigUInt && *a == DataType::BigUInt(UInt64(id))) { unimplemented!() }
/// `a != b` of two values
#[verifier::external_body] pub fn shim_ne(a: &DataType, b: &DataType) -> (r: bool) ensures r == (rank(*a) != rank(*b)) { unimplemented!() }

pub struct Row { pub v: Vec<DataType> }
impl Row {
    pub open spec fn view(&self) -> Seq<DataType> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn as_slice(&self) -> (r: &[DataType]) ensures r@ == self@ { self.v.as_slice() }
    pub fn into_inner(self) -> (r: Vec<DataType>) ensures r@ == self@ { self.v }
    pub fn shim_new(v: Vec<DataType>) -> (r: Row) ensures r@ == v@ { Row { v } }
}
#[verifier::external_body] pub struct TupleError { p: u8 }
#[verifier::external_body] pub struct OtherError { p: u8 }
pub enum DatabaseItem { Some }
pub enum ValidationError { NonNullConstraintViolated(DatabaseItem), UniqueConstraintViolated(DatabaseItem), Other(OtherError) }
pub type ValidationResult<T> = Result<T, ValidationError>;
pub enum RuntimeError { ColumnNotFound(usize), Conflict(TransactionId, LogicalId), Validation(ValidationError), Tuple(TupleError), Other(OtherError) }
pub type RuntimeResult<T> = Result<T, RuntimeError>;
impl From<TupleError> for ValidationError { #[verifier::external_body] fn from(e: TupleError) -> Self { unimplemented!() } }
impl From<ValidationError> for RuntimeError { #[verifier::external_body] fn from(e: ValidationError) -> Self { unimplemented!() } }
impl From<TupleError> for RuntimeError { #[verifier::external_body] fn from(e: TupleError) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn shim_item() -> DatabaseItem { unimplemented!() }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct LogicalId(pub ObjectId, pub RowId);
impl LogicalId { pub fn new(t: ObjectId, r: RowId) -> (x: Self) ensures x == LogicalId(t, r) { LogicalId(t, r) } }

#[verifier::external_body] #[verifier::accept_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
}
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures r ==> o is Some && call_ensures(f, (o->0,), true), !r ==> o is None || call_ensures(f, (o->0,), false);

// ------------------------------------------------------------------ schemas
pub struct Column { pub is_non_null: bool, pub kind: Kind }
impl Column { pub fn datatype(&self) -> (r: Kind) ensures r == self.kind { self.kind } }
//@extract crates/axmos-db/src/schema/base.rs : struct IndexHandle
//@end
//@extract crates/axmos-db/src/schema/base.rs : impl IndexHandle / fn id
//@ret r
//@spec
  ensures r == self.id
//@end
//@extract crates/axmos-db/src/schema/base.rs : impl IndexHandle / fn indexed_column_ids
//@ret r
//@spec
  ensures r@ == self.indexed_columns@
//@end
/// an index as the schema records it
pub ghost struct Idx { pub id: ObjectId, pub cols: Seq<usize> }
impl IndexHandle { pub open spec fn view(&self) -> Idx { Idx { id: self.id, cols: self.indexed_columns@ } } }
pub struct Schema { pub columns: Vec<Column>, pub num_keys: usize, pub idx: Ghost<Set<Idx>> }
impl Schema {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn num_columns(&self) -> (r: usize) ensures r == self.columns@.len() { self.columns.len() }
    pub fn num_keys(&self) -> (r: usize) ensures r == self.num_keys { self.num_keys }
    pub fn column(&self, i: usize) -> (r: Option<&Column>) ensures r is Some <==> i < self.columns@.len(), r is Some ==> *r->0 == self.columns@[i as int] { if i < self.columns.len() { Some(&self.columns[i]) } else { None } }
    /// the indexes, in the order of the hash map they are kept in
    #[verifier::external_body] pub fn get_indexes(&self) -> (r: Vec<IndexHandle>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.idx@.contains(#[trigger] r@[i]@),
            forall|x: Idx| #[trigger] self.idx@.contains(x) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@ == x,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@.id != (#[trigger] r@[j])@.id { unimplemented!() }
}
pub struct Relation { pub id: ObjectId, pub root: PageId, pub next_row: u64, pub schema: Schema }
impl Relation {
    pub fn schema(&self) -> (r: &Schema) ensures *r == self.schema { &self.schema }
    pub fn root(&self) -> (r: PageId) ensures r == self.root { self.root }
    pub fn object_id(&self) -> (r: ObjectId) ensures r == self.id { self.id }
    pub fn next_row_id(&self) -> (r: UInt64) ensures r == UInt64(self.next_row) { UInt64(self.next_row) }
    pub fn increment_row_id(&mut self) requires old(self).next_row < u64::MAX ensures *final(self) == (Relation { next_row: (old(self).next_row + 1) as u64, ..*old(self) }) { self.next_row = self.next_row + 1; }
    #[verifier::external_body] pub fn get_indexes(&self) -> (r: Vec<IndexHandle>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.schema.idx@.contains(#[trigger] r@[i]@),
            forall|x: Idx| #[trigger] self.schema.idx@.contains(x) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@ == x,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@.id != (#[trigger] r@[j])@.id { unimplemented!() }
}

// ------------------------------------------------------------------ stored tuples (unit tuple)
pub struct Snapshot { pub xid: TransactionId, pub g: Ghost<int> }
pub uninterp spec fn committed_before(s: Snapshot, t: TransactionId) -> bool;
pub uninterp spec fn snap_aborted(s: Snapshot, t: TransactionId) -> bool;
impl Snapshot {
    pub fn xid(&self) -> (r: TransactionId) ensures r == self.xid { self.xid }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn is_transaction_aborted(&self, t: TransactionId) -> (r: bool) ensures r == snap_aborted(*self, t) { unimplemented!() }
    #[verifier::external_body] pub fn is_committed_before_snapshot(&self, t: TransactionId) -> (r: bool) ensures r == committed_before(*self, t) { unimplemented!() }
}
pub uninterp spec fn xmin_of(b: Seq<u8>) -> TransactionId;
pub uninterp spec fn xmax_of(b: Seq<u8>) -> Option<TransactionId>;
/// the row the snapshot is entitled to, if any
pub uninterp spec fn row_of(b: Seq<u8>, s: Schema, sn: Snapshot) -> Option<Seq<DataType>>;
/// bytes the engine wrote as a tuple: they decode (C18)
pub uninterp spec fn stored(b: Seq<u8>) -> bool;
/// the key columns
pub uninterp spec fn key_of(b: Seq<u8>, s: Schema) -> Seq<int>;
/// a first version with these values
pub uninterp spec fn built(row: Seq<DataType>, s: Schema, tid: TransactionId) -> Seq<u8>;
pub uninterp spec fn deleted(b: Seq<u8>, tid: TransactionId) -> Seq<u8>;
pub uninterp spec fn versioned(b: Seq<u8>, a: Map<usize, DataType>, tid: TransactionId, s: Schema) -> Seq<u8>;
pub struct Tuple { pub b: Ghost<Seq<u8>> }
pub struct TupleLayout { pub row: Ghost<Seq<DataType>> }
impl Tuple {
    pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    #[verifier::external_body] pub fn from_slice_unchecked(b: &[u8]) -> (r: Result<Tuple, TupleError>) ensures r is Ok ==> r->Ok_0@ == b@, stored(b@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn xmin(&self) -> (r: TransactionId) ensures r == xmin_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn xmax(&self) -> (r: Option<TransactionId>) ensures r == xmax_of(self@) { unimplemented!() }
    #[verifier::external_body] pub fn is_deleted(&self) -> (r: bool) ensures r == (xmax_of(self@) is Some) { unimplemented!() }
    #[verifier::external_body] pub fn delete(&mut self, t: TransactionId) -> (r: Result<(), TupleError>) ensures r is Ok ==> final(self)@ == deleted(old(self)@, t), forall|s: Schema| key_of(#[trigger] deleted(old(self)@, t), s) == key_of(old(self)@, s) { unimplemented!() }
    #[verifier::external_body] pub fn add_version_with(&mut self, a: &HashMap, t: TransactionId, s: &Schema) -> (r: Result<(), TupleError>) ensures r is Ok ==> final(self)@ == versioned(old(self)@, a@, t, *s) && key_of(final(self)@, *s) == key_of(old(self)@, *s) { unimplemented!() }
    /// `Box::from(&tuple)`
    #[verifier::external_body] pub fn shim_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
pub struct TupleBuilder<'a> { pub schema: &'a Schema }
impl<'a> TupleBuilder<'a> {
    pub fn from_schema(s: &'a Schema) -> (r: Self) ensures *r.schema == *s { TupleBuilder { schema: s } }
    #[verifier::external_body] pub fn build(&self, row: &Row, tid: TransactionId) -> (r: Result<Tuple, TupleError>)
        ensures r is Ok ==> r->Ok_0@ == built(row@, *self.schema, tid) && row@.len() == self.schema.columns@.len() && key_of(r->Ok_0@, *self.schema) == ranks_to(row@, self.schema.num_keys as int) { unimplemented!() }
}
pub struct TupleReader<'a> { pub schema: &'a Schema }
impl<'a> TupleReader<'a> {
    pub fn from_schema(s: &'a Schema) -> (r: Self) ensures *r.schema == *s { TupleReader { schema: s } }
    /// a stored tuple decodes (C18)
    #[verifier::external_body] pub fn parse_for_snapshot(&self, b: &[u8], sn: &Snapshot) -> (r: Result<Option<TupleLayout>, TupleError>)
        ensures stored(b@) ==> r is Ok, r is Ok ==> (r->Ok_0 is Some <==> row_of(b@, *self.schema, *sn) is Some) && (r->Ok_0 is Some ==> r->Ok_0->0.row@ == row_of(b@, *self.schema, *sn)->0) { unimplemented!() }
}
pub struct TupleRef<'a> { pub b: &'a [u8], pub l: TupleLayout }
pub struct DataTypeRef { pub v: Ghost<DataType> }
impl DataTypeRef { #[verifier::external_body] pub fn to_owned(&self) -> (r: Option<DataType>) ensures r == Some(self.v@) { unimplemented!() } }
impl<'a> TupleRef<'a> {
    pub fn new(b: &'a [u8], l: TupleLayout) -> (r: Self) ensures r.b@ == b@, r.l == l { TupleRef { b, l } }
    #[verifier::external_body] pub fn value_with(&self, i: usize, s: &Schema) -> (r: Result<DataTypeRef, TupleError>)
        ensures s.num_keys + i < self.l.row@.len() ==> r is Ok && r->Ok_0.v@ == self.l.row@[s.num_keys + i] { unimplemented!() }
}
#[verifier::external_body] pub struct HashMap { p: u8 }
impl HashMap { pub uninterp spec fn view(&self) -> Map<usize, DataType>; }
// ------------------------------------------------------------------ the engine around: catalog, trees, transactions
impl From<OtherError> for ValidationError { #[verifier::external_body] fn from(e: OtherError) -> Self { unimplemented!() } }
impl From<OtherError> for RuntimeError { #[verifier::external_body] fn from(e: OtherError) -> Self { unimplemented!() } }
pub type Tree = Map<Seq<int>, Seq<u8>>;
pub struct TreeBuilder {}
pub struct Catalog { pub rel: Ghost<Map<ObjectId, Relation>> }
impl Catalog {
    #[verifier::external_body] pub fn get_relation(&self, id: ObjectId, b: &TreeBuilder, s: &Snapshot) -> (r: Result<Relation, OtherError>)
        ensures r is Ok ==> self.rel@.contains_key(id) && r->Ok_0 == self.rel@[id] { unimplemented!() }
}
#[verifier::external_body] pub struct Coordinator { p: u8 }
impl Coordinator {
    pub uninterp spec fn aborted(&self, t: TransactionId) -> bool;
    /// the rows this transaction has registered (unit mvcc: what validate_write_set compares)
    pub uninterp spec fn writes(&self) -> Set<(TransactionId, LogicalId)>;
    #[verifier::external_body] pub fn is_aborted(&self, t: TransactionId) -> (r: bool) ensures r == self.aborted(t) { unimplemented!() }
    #[verifier::external_body] pub fn record_write(&mut self, t: TransactionId, id: LogicalId, v: u64) -> (r: RuntimeResult<()>)
        ensures r is Ok ==> final(self).writes() == old(self).writes().insert((t, id)), forall|x: TransactionId| final(self).aborted(x) == old(self).aborted(x) { unimplemented!() }
}
pub struct ThreadContext { pub tid: TransactionId, pub snapshot: Snapshot, pub coordinator: Option<Coordinator>, pub catalog: Catalog, pub trees: Ghost<Map<PageId, Tree>> }
impl ThreadContext {
    pub open spec fn aborted(&self, t: TransactionId) -> bool { snap_aborted(self.snapshot, t) || (self.coordinator is Some && self.coordinator->0.aborted(t)) }
    pub open spec fn concurrent(&self, t: TransactionId) -> bool { t != self.tid && !committed_before(self.snapshot, t) && !self.aborted(t) }
    /// everything but the trees and the catalog
    pub open spec fn same_txn(&self, o: &Self) -> bool { self.tid == o.tid && self.snapshot == o.snapshot && (forall|x: TransactionId| self.aborted(x) == o.aborted(x)) }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn tid(&self) -> (r: TransactionId) ensures r == self.tid { self.tid }
    pub fn snapshot(&self) -> (r: &Snapshot) ensures *r == self.snapshot { &self.snapshot }
    pub fn catalog(&self) -> (r: &Catalog) ensures *r == self.catalog { &self.catalog }
    pub fn tree_builder(&self) -> TreeBuilder { TreeBuilder {} }
    pub fn build_tree(&self, root: PageId) -> (r: Btree) ensures r.root == root { Btree { root } }
    pub fn build_tree_mut(&self, root: PageId) -> (r: Btree) ensures r.root == root { Btree { root } }
    /// `self.ctx.catalog().update_relation(..)`: the next row id of a table
    #[verifier::external_body] pub fn shim_next_row(&mut self, id: ObjectId, next: u64) -> (r: RuntimeResult<()>)
        ensures r is Ok ==> final(self).trees == old(self).trees && final(self).tid == old(self).tid && final(self).snapshot == old(self).snapshot && final(self).coordinator == old(self).coordinator
            && final(self).catalog.rel@ == old(self).catalog.rel@.insert(id, Relation { next_row: next, ..old(self).catalog.rel@[id] }) { unimplemented!() }
}
//@extract crates/axmos-db/src/runtime/context.rs : impl ThreadContext / fn is_aborted
//@ret r
//@spec
  ensures r == self.aborted(tid)
//@rewrite \|coordinator\| coordinator\.is_aborted\(tid\) ==> |coordinator: &Coordinator| -> (b: bool) ensures b == coordinator.aborted(tid) { coordinator.is_aborted(tid) }
//@end
//@extract crates/axmos-db/src/runtime/context.rs : impl ThreadContext / fn is_concurrent
//@ret r
//@spec
  ensures r == self.concurrent(creator)
//@end
/// whether the row, last deleted by `d`, may be written: its deleter was rolled back (or nobody deleted it)
pub open spec fn writable(c: &ThreadContext, d: Option<TransactionId>) -> bool { d is None || c.aborted(d->0) }
//@extract crates/axmos-db/src/runtime/context.rs : impl ThreadContext / fn record_write
//@ret r
//@spec
  ensures
    final(self).trees == old(self).trees, final(self).catalog == old(self).catalog, final(self).same_txn(old(self)),
    old(self).coordinator is Some ==> final(self).coordinator is Some,
    r is Ok && old(self).coordinator is Some ==> writable(old(self), deleted_by) && final(self).coordinator->0.writes() == old(self).coordinator->0.writes().insert((old(self).tid, LogicalId(table, row)))
//@rewrite &self ==> &mut self
//@rewrite let Some\(coordinator\) = self\.coordinator\.as_ref\(\) else \{.*?\}; ==> if self.coordinator.is_none() { return Ok(()); }
//@rewrite Err\(TransactionError::WriteWriteConflict\(self\.tid, id\)\.into\(\)\) ==> Err(RuntimeError::Conflict(self.tid, id))
//@rewrite coordinator\.record_write\( ==> self.coordinator.as_mut().unwrap().record_write(
//@end

pub struct Pos { pub key: Ghost<Seq<int>> }
impl Clone for Pos { fn clone(&self) -> (r: Self) ensures r == *self { Pos { key: Ghost(self.key@) } } }
impl Copy for Pos {}
pub enum SearchResult { Found(Pos), NotFound(Pos) }
pub open spec fn found(r: SearchResult, t: Tree, k: Seq<int>) -> bool { match r { SearchResult::Found(p) => p.key@ == k && t.contains_key(k), SearchResult::NotFound(_) => !t.contains_key(k) } }
/// a tree seen through the units tree and page: a map from keys to tuples
pub struct Btree { pub root: PageId }
impl Btree {
    pub open spec fn map(&self, c: &ThreadContext) -> Tree { c.trees@[self.root] }
    #[verifier::external_body] pub fn search(&self, c: &ThreadContext, key: &[u8], s: &Schema) -> (r: Result<SearchResult, OtherError>)
        ensures r is Ok ==> forall|vs: Seq<DataType>| key@ == #[trigger] kb(vs) && vs.len() == s.num_keys ==> found(r->Ok_0, self.map(c), ranks(vs)) { unimplemented!() }
    #[verifier::external_body] pub fn search_tuple(&self, c: &ThreadContext, t: &Tuple, s: &Schema) -> (r: Result<SearchResult, OtherError>)
        ensures r is Ok ==> found(r->Ok_0, self.map(c), key_of(t@, *s)) { unimplemented!() }
    #[verifier::external_body] pub fn with_cell_at<R, F: FnOnce(&[u8]) -> R>(&self, c: &ThreadContext, p: Pos, f: F) -> (r: Result<R, OtherError>)
        requires forall|b: &[u8]| b@ == self.map(c)[p.key@] && stored(b@) ==> call_requires(f, (b,))
        ensures r is Ok ==> exists|b: &[u8]| b@ == self.map(c)[p.key@] && stored(b@) && #[trigger] call_ensures(f, (b,), r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn get_row_at(&self, c: &ThreadContext, p: Pos, s: &Schema, sn: &Snapshot) -> (r: Result<Option<Row>, OtherError>)
        ensures r is Ok ==> match r->Ok_0 { Some(x) => row_of(self.map(c)[p.key@], *s, *sn) == Some(x@), None => row_of(self.map(c)[p.key@], *s, *sn) is None } { unimplemented!() }
    #[verifier::external_body] pub fn get_tuple_at_unchecked(&self, c: &ThreadContext, p: Pos, s: &Schema) -> (r: Result<Tuple, OtherError>)
        ensures r is Ok ==> r->Ok_0@ == self.map(c)[p.key@] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, c: &mut ThreadContext, root: PageId, t: Tuple, s: &Schema) -> (r: Result<(), OtherError>)
        ensures r is Ok ==> !self.map(old(c)).contains_key(key_of(t@, *s)), put(old(c), final(c), r is Ok, self.root, key_of(t@, *s), t@) { unimplemented!() }
    #[verifier::external_body] pub fn update(&self, c: &mut ThreadContext, root: PageId, t: Tuple, s: &Schema) -> (r: Result<(), OtherError>)
        ensures r is Ok ==> self.map(old(c)).contains_key(key_of(t@, *s)), put(old(c), final(c), r is Ok, self.root, key_of(t@, *s), t@) { unimplemented!() }
}
pub open spec fn put(a: &ThreadContext, b: &ThreadContext, ok: bool, root: PageId, k: Seq<int>, t: Seq<u8>) -> bool {
    b.tid == a.tid && b.snapshot == a.snapshot && b.coordinator == a.coordinator && b.catalog == a.catalog && (ok ==> b.trees@ == a.trees@.insert(root, a.trees@[root].insert(k, t)))
}

// ------------------------------------------------------------------ what the constraints say
pub open spec fn null_violation(s: Schema, v: Seq<DataType>) -> bool { exists|i: int| 0 <= i < s.columns@.len() && i < v.len() && (#[trigger] s.columns@[i]).is_non_null && v[i] is Null }
pub open spec fn key_vals(v: Seq<DataType>, cols: Seq<usize>) -> Seq<DataType> { cols.map_values(|c: usize| v[c as int]) }
pub open spec fn has_null(v: Seq<DataType>, cols: Seq<usize>) -> bool { exists|i: int| 0 <= i < cols.len() && v[#[trigger] cols[i] as int] is Null }
pub open spec fn owner(b: Seq<u8>, s: Schema, sn: Snapshot) -> Option<u64> {
    match row_of(b, s, sn) { Some(v) => match v[s.num_keys as int] { DataType::BigUInt(u) => Some(u.0), _ => None }, None => None }
}
/// an entry that stands for a row another one may not have the key of
pub open spec fn taken(c: &ThreadContext, b: Seq<u8>, s: Schema, ex: Set<RowId>) -> bool {
    if row_of(b, s, c.snapshot) is Some { !(owner(b, s, c.snapshot) is Some && ex.contains(owner(b, s, c.snapshot)->0)) } else { c.concurrent(xmin_of(b)) }
}
pub open spec fn ix_schema(c: &ThreadContext, x: Idx) -> Schema { c.catalog.rel@[x.id].schema }
pub open spec fn ix_root(c: &ThreadContext, x: Idx) -> PageId { c.catalog.rel@[x.id].root }
pub open spec fn ix_tree(c: &ThreadContext, x: Idx) -> Tree { c.trees@[ix_root(c, x)] }
pub open spec fn conflict(c: &ThreadContext, x: Idx, v: Seq<DataType>, ex: Set<RowId>) -> bool {
    &&& !has_null(v, x.cols)
    &&& ix_tree(c, x).contains_key(ranks(key_vals(v, x.cols)))
    &&& taken(c, ix_tree(c, x)[ranks(key_vals(v, x.cols))], ix_schema(c, x), ex)
}
/// an index as CREATE INDEX makes it: key columns, then the row id; its entries decode to that
pub open spec fn ix_ok(c: &ThreadContext, x: Idx, n: int) -> bool {
    &&& c.catalog.rel@.contains_key(x.id)
    &&& x.cols.len() < 0x1_0000_0000 && ix_schema(c, x).num_keys == x.cols.len() && ix_schema(c, x).columns@.len() == x.cols.len() + 1
    &&& forall|i: int| 0 <= i < x.cols.len() ==> (#[trigger] x.cols[i]) < n
    &&& entries_ok(c, x)
}
pub open spec fn entries_ok(c: &ThreadContext, x: Idx) -> bool {
    forall|b: Seq<u8>| (#[trigger] row_of(b, ix_schema(c, x), c.snapshot)) is Some ==> row_of(b, ix_schema(c, x), c.snapshot)->0.len() == ix_schema(c, x).columns@.len()
}
pub open spec fn ixs_ok(c: &ThreadContext, s: Schema) -> bool { forall|x: Idx| #[trigger] s.idx@.contains(x) ==> ix_ok(c, x, s.columns@.len() as int) }

//@extract crates/axmos-db/src/runtime/validator.rs : struct ConstraintValidator
//@end
//@extract crates/axmos-db/src/runtime/validator.rs : impl<'a> ConstraintValidator<'a> / fn new
//@ret r
//@spec
  ensures *r.schema == *schema, r.ctx == ctx
//@end
//@extract crates/axmos-db/src/runtime/validator.rs : impl<'a> ConstraintValidator<'a> / fn validate_not_null_constraints
//@ret r
//@spec
  ensures r is Ok <==> !null_violation(*self.schema, values@)
//@rewrite for \((\w+), (\w+)\) in self\.schema\.iter_columns\(\)\.enumerate\(\) ==> for \1 in 0..self.schema.columns.len()
//@rewrite DatabaseItem::Column\(.*?to_string\(\)\),\s*\) ==> shim_item())
//@loop 0
  invariant forall|i: int| 0 <= i < idx && i < values@.len() && (#[trigger] self.schema.columns@[i]).is_non_null ==> !(values@[i] is Null),
//@at loop 0 body-start
  let col = &self.schema.columns[idx];
//@end
//@extract crates/axmos-db/src/runtime/validator.rs : impl<'a> ConstraintValidator<'a> / fn search_index
//@ret r
//@spec
  requires skip_nulls, ix_ok(&self.ctx, index@, values@.len() as int),
  ensures r is Ok ==> r->Ok_0 == conflict(&self.ctx, index@, values@, excluded_set@)
//@rewrite for &col_idx in index\.indexed_column_ids\(\) ==> for k in 0..index.indexed_column_ids().len()
//@rewrite let cursor = key_bytes\.len\(\);.*?key_bytes\.truncate\(end\); ==> shim_lay(&mut key_bytes, value)?;
//@rewrite index_btree\.search\( ==> index_btree.search(&self.ctx, 
//@rewrite index_btree\.with_cell_at\(pos, \|bytes\| \{ ==> index_btree.with_cell_at(&self.ctx, pos, |bytes: &[u8]| -> (res: Result<bool, TupleError>) ensures res is Ok ==> res->Ok_0 == taken(&self.ctx, bytes@, *index_schema, excluded_set@) {
//@loop 0
  invariant_except_break !has_null, key_bytes@ == kb(key_vals(values@, index@.cols).subrange(0, k as int)),
    forall|i: int| 0 <= i < k ==> !(values@[#[trigger] index@.cols[i] as int] is Null),
  invariant skip_nulls, ix_ok(&self.ctx, index@, values@.len() as int),
  ensures has_null ==> has_null_(values@, index@.cols), !has_null ==> key_bytes@ == kb(key_vals(values@, index@.cols).subrange(0, index@.cols.len() as int)) && !has_null_(values@, index@.cols)
//@at loop 0 body-start
  let col_idx = index.indexed_column_ids()[k];
//@at loop 0 body-end
  proof { let s = key_vals(values@, index@.cols); assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k as int)); assert(s.subrange(0, k + 1).last() == values@[col_idx as int]); }
//@at loop 0 after
  proof { let s = key_vals(values@, index@.cols); assert(s.subrange(0, index@.cols.len() as int) =~= s); }
//@end
pub open spec fn has_null_(v: Seq<DataType>, cols: Seq<usize>) -> bool { has_null(v, cols) }
//@extract crates/axmos-db/src/runtime/validator.rs : impl<'a> ConstraintValidator<'a> / fn validate_unique_constraints
//@ret r
//@spec
  requires skip_nulls, ixs_ok(&self.ctx, *self.schema), self.schema.columns@.len() == values@.len(),
  ensures r is Ok ==> forall|x: Idx| #[trigger] self.schema.idx@.contains(x) ==> !conflict(&self.ctx, x, values@, excluded_set@),
//@rewrite for index in indexes\b ==> for k in 0..indexes.len()
//@rewrite self\.search_index\(&index, ==> self.search_index(index, 
//@rewrite let col_names: Vec<&str> = index.*?\.collect\(\); ==> 
//@rewrite DatabaseItem::Column\(col_names.*?to_string\(\)\),\s*\) ==> shim_item())
//@loop 0
  invariant skip_nulls, ixs_ok(&self.ctx, *self.schema), self.schema.columns@.len() == values@.len(),
    forall|i: int| 0 <= i < indexes@.len() ==> self.schema.idx@.contains(#[trigger] indexes@[i]@),
    forall|i: int| 0 <= i < k ==> !conflict(&self.ctx, (#[trigger] indexes@[i])@, values@, excluded_set@),
//@at loop 0 body-start
  let index = &indexes[k];
  proof { assert(self.schema.idx@.contains(indexes@[k as int]@)); }
//@end
// ------------------------------------------------------------------ the log (unit wal: what push_to_log keeps)
pub ghost enum Op { Insert(ObjectId, RowId, Seq<u8>), Update(ObjectId, RowId, Seq<u8>, Seq<u8>), Delete(ObjectId, RowId, Seq<u8>) }
pub trait Operation { spec fn op(&self) -> Op; }
pub struct Insert { pub o: Ghost<Op> }
pub struct Update { pub o: Ghost<Op> }
pub struct Delete { pub o: Ghost<Op> }
impl Operation for Insert { open spec fn op(&self) -> Op { self.o@ } }
impl Operation for Update { open spec fn op(&self) -> Op { self.o@ } }
impl Operation for Delete { open spec fn op(&self) -> Op { self.o@ } }
impl Insert { #[verifier::external_body] pub fn new(t: ObjectId, r: RowId, d: Vec<u8>) -> (x: Self) ensures x.o@ == Op::Insert(t, r, d@) { unimplemented!() } }
impl Update { #[verifier::external_body] pub fn new(t: ObjectId, r: RowId, o: Vec<u8>, n: Vec<u8>) -> (x: Self) ensures x.o@ == Op::Update(t, r, o@, n@) { unimplemented!() } }
impl Delete { #[verifier::external_body] pub fn new(t: ObjectId, r: RowId, o: Vec<u8>) -> (x: Self) ensures x.o@ == Op::Delete(t, r, o@) { unimplemented!() } }
/// the log of the database, as (transaction, operation) in order, and the last sequence number each transaction used
pub struct SharedPager { pub log: Ghost<Seq<(TransactionId, Op)>> }
impl SharedPager {
    #[verifier::external_body] pub fn shim_push<O: Operation>(&mut self, o: O, t: TransactionId, last: Option<u64>) -> (r: RuntimeResult<u64>)
        ensures r is Ok ==> final(self).log@ == old(self).log@.push((t, o.op())), r is Err ==> final(self).log@ == old(self).log@ { unimplemented!() }
}
pub struct TransactionLogger { pub tid: TransactionId, pub pager: SharedPager, pub last_lsn: u64, pub silent: bool }
impl TransactionLogger {
    pub open spec fn logged(&self, o: &Self, op: Op) -> bool { self.tid == o.tid && self.silent == o.silent && self.pager.log@ == (if o.silent { o.pager.log@ } else { o.pager.log@.push((o.tid, op)) }) }
    pub open spec fn same(&self, o: &Self) -> bool { self.tid == o.tid && self.silent == o.silent && self.pager.log@ == o.pager.log@ }
}
//@extract crates/axmos-db/src/runtime/context.rs : impl TransactionLogger / fn log_operation
//@ret r
//@spec
  ensures r is Ok ==> final(self).logged(old(self), operation.op()), r is Err ==> final(self).same(old(self)),
//@rewrite &self ==> &mut self
//@rewrite self\.pager\s*\.write\(\)\s*\.push_to_log\( ==> self.pager.shim_push(
//@rewrite \*self\.last_lsn\.read\(\) ==> self.last_lsn
//@rewrite \*self\.last_lsn\.write\(\) ==> self.last_lsn
//@end
//@extract crates/axmos-db/src/runtime/context.rs : impl TransactionLogger / fn log_insert
//@ret r
//@spec
  ensures r is Ok ==> final(self).logged(old(self), Op::Insert(oid, rowid, data@)), r is Err ==> final(self).same(old(self)),
//@rewrite &self ==> &mut self
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/runtime/context.rs : impl TransactionLogger / fn log_update
//@ret r
//@spec
  ensures r is Ok ==> final(self).logged(old(self), Op::Update(oid, rowid, old_data@, new_data@)), r is Err ==> final(self).same(old(self)),
//@rewrite &self ==> &mut self
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/runtime/context.rs : impl TransactionLogger / fn log_delete
//@ret r
//@spec
  ensures r is Ok ==> final(self).logged(old(self), Op::Delete(oid, rowid, old_data@)), r is Err ==> final(self).same(old(self)),
//@rewrite &self ==> &mut self
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end

// ------------------------------------------------------------------ index entries
/// the entry a row has in an index: none if a key column is NULL
pub open spec fn entry_of(v: Option<Seq<DataType>>, x: Idx, id: RowId) -> Option<Seq<DataType>> {
    if v is Some && !has_null(v->0, x.cols) { Some(key_vals(v->0, x.cols).push(DataType::BigUInt(UInt64(id)))) } else { None }
}
/// both have no entry, or entries that compare equal
pub open spec fn same_entry(a: Option<Seq<DataType>>, b: Option<Seq<DataType>>) -> bool {
    match (a, b) { (Some(x), Some(y)) => ranks(x) == ranks(y), (None, None) => true, _ => false }
}
pub open spec fn removed(c: &ThreadContext, t: Tree, x: Idx, e: Option<Seq<DataType>>, id: RowId) -> Tree {
    let k = ranks_to(e->0, x.cols.len() as int);
    if e is Some && t.contains_key(k) && owner(t[k], ix_schema(c, x), c.snapshot) == Some(id) { t.insert(k, deleted(t[k], c.tid)) } else { t }
}
/// an entry nobody is entitled to any more may be replaced
pub open spec fn replaceable(c: &ThreadContext, b: Seq<u8>) -> bool { xmax_of(b) is Some || c.aborted(xmin_of(b)) }
pub open spec fn added(c: &ThreadContext, t: Tree, x: Idx, e: Option<Seq<DataType>>) -> Tree {
    let k = ranks_to(e->0, x.cols.len() as int);
    if e is Some && (!t.contains_key(k) || replaceable(c, t[k])) { t.insert(k, built(e->0, ix_schema(c, x), c.tid)) } else { t }
}
/// an index after a row changed from `old` to `new`
pub open spec fn moved(c: &ThreadContext, t: Tree, x: Idx, old: Option<Seq<DataType>>, new: Option<Seq<DataType>>, id: RowId) -> Tree {
    let a = entry_of(old, x, id);
    let b = entry_of(new, x, id);
    if same_entry(a, b) { t } else { added(c, removed(c, t, x, a, id), x, b) }
}
pub open spec fn keyed(t: Tree, s: Schema) -> bool { forall|k: Seq<int>| #[trigger] t.contains_key(k) ==> key_of(t[k], s) == k }
pub open spec fn apart(c: &ThreadContext, s: Seq<IndexHandle>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ix_root(c, (#[trigger] s[i])@) != ix_root(c, (#[trigger] s[j])@) }
pub open spec fn hs_ok(c: &ThreadContext, s: Seq<IndexHandle>, n: int) -> bool {
    apart(c, s) && forall|i: int| 0 <= i < s.len() ==> ix_ok(c, (#[trigger] s[i])@, n) && keyed(ix_tree(c, s[i]@), ix_schema(c, s[i]@))
}
pub open spec fn is_root(c: &ThreadContext, s: Seq<IndexHandle>, n: int, r: PageId) -> bool { exists|i: int| 0 <= i < n && ix_root(c, (#[trigger] s[i])@) == r }
/// the first n indexes follow the row, no other tree changes
pub open spec fn followed(a: &ThreadContext, b: &ThreadContext, s: Seq<IndexHandle>, n: int, old: Option<Seq<DataType>>, new: Option<Seq<DataType>>, id: RowId) -> bool {
    &&& forall|i: int| 0 <= i < n ==> ix_tree(b, (#[trigger] s[i])@) == moved(a, ix_tree(a, s[i]@), s[i]@, old, new, id)
    &&& forall|r: PageId| !is_root(a, s, n, r) ==> #[trigger] b.trees@[r] == a.trees@[r]
}
pub open spec fn rest(a: &ThreadContext, b: &ThreadContext) -> bool { b.tid == a.tid && b.snapshot == a.snapshot && b.coordinator == a.coordinator && b.catalog == a.catalog }

pub struct DmlExecutor { pub ctx: ThreadContext, pub logger: TransactionLogger }
#[verifier::external_body] pub fn shim_same(a: &Option<Row>, b: &Option<Row>) -> (r: bool)
    ensures r == same_entry(a.view_(), b.view_()) { unimplemented!() }
pub trait OptRow { spec fn view_(&self) -> Option<Seq<DataType>>; }
impl OptRow for Option<Row> { open spec fn view_(&self) -> Option<Seq<DataType>> { match self { Some(x) => Some(x@), None => None } } }
pub open spec fn ov(o: Option<Vec<DataType>>) -> Option<Seq<DataType>> { match o { Some(x) => Some(x@), None => None } }
#[verifier::external_body] pub fn shim_inner(o: Option<Row>) -> (r: Option<Vec<DataType>>) ensures ov(r) == o.view_() { unimplemented!() }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn build_index_entry
//@ret r
//@spec
  requires forall|i: int| 0 <= i < index@.cols.len() ==> (#[trigger] index@.cols[i]) < values@.len(), index_schema.num_keys < 0x1_0000_0000,
  ensures r is Ok, r->Ok_0.view_() == entry_of(Some(values@), index@, row_id),
//@rewrite for col_idx in index\.indexed_column_ids\(\) ==> for k in 0..index.indexed_column_ids().len()
//@rewrite values\s*\.get\(\*col_idx\)\s*\.ok_or\(RuntimeError::ColumnNotFound\(\*col_idx\)\)\? ==> &values[*col_idx]
//@rewrite Row::new\(entry\.into_boxed_slice\(\)\) ==> Row::shim_new(entry)
//@loop 0
  invariant forall|i: int| 0 <= i < index@.cols.len() ==> (#[trigger] index@.cols[i]) < values@.len(),
    entry@ == key_vals(values@, index@.cols).subrange(0, k as int),
    forall|i: int| 0 <= i < k ==> !(values@[#[trigger] index@.cols[i] as int] is Null),
//@at loop 0 body-start
  let col_idx = &index.indexed_column_ids()[k];
//@at loop 0 body-end
  proof { let s = key_vals(values@, index@.cols); assert(s.subrange(0, k + 1) =~= s.subrange(0, k as int).push(s[k as int])); }
//@at loop 0 after
  proof { let s = key_vals(values@, index@.cols); assert(s.subrange(0, index@.cols.len() as int) =~= s); }
//@end

pub open spec fn width(v: Option<Seq<DataType>>, n: int) -> bool { v is Some ==> v->0.len() == n }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn maintain_secondary_indexes
//@ret r
//@spec
  requires exists|n: int| hs_ok(&old(self).ctx, indexes@, n) && width(old_values.view_(), n) && width(new_values.view_(), n),
  ensures final(self).logger == old(self).logger, rest(&old(self).ctx, &final(self).ctx),
    r is Ok ==> followed(&old(self).ctx, &final(self).ctx, indexes@, indexes@.len() as int, old_values.view_(), new_values.view_(), row_id),
//@rewrite old_values\.map\(\|r\| r\.into_inner\(\)\) ==> shim_inner(old_values)
//@rewrite new_values\.map\(\|r\| r\.into_inner\(\)\) ==> shim_inner(new_values)
//@rewrite self\.ctx\.snapshot\(\) ==> self.ctx.snapshot().clone()
//@rewrite for index in indexes\b ==> let mut k0: usize = 0; while k0 < indexes.len()
//@rewrite let entry = \|values: &Option<Box<\[DataType\]>>\| match values \{(.*?)\n            \}; ==> let entry = |values: &Option<Vec<DataType>>| -> (res: RuntimeResult<Option<Row>>) requires width(ov(*values), n) ensures res is Ok && res->Ok_0.view_() == entry_of(ov(*values), index@, row_id) { match values {\1 } };
//@rewrite old_entry\.as_ref\(\)\.map\(Row::as_slice\) == new_entry\.as_ref\(\)\.map\(Row::as_slice\) ==> shim_same(&old_entry, &new_entry)
//@rewrite index_btree\.search_tuple\( ==> index_btree.search_tuple(&self.ctx, 
//@rewrite index_btree\.get_tuple_at_unchecked\( ==> index_btree.get_tuple_at_unchecked(&self.ctx, 
//@rewrite index_btree\.update\( ==> index_btree.update(&mut self.ctx, 
//@rewrite index_btree\.insert\( ==> index_btree.insert(&mut self.ctx, 
//@rewrite index_btree\.with_cell_at\(position, \|bytes\| \{ ==> index_btree.with_cell_at(&self.ctx, position, |bytes: &[u8]| -> (res: Option<Tuple>) requires stored(bytes@) ensures (res is Some) == (owner(bytes@, *index_schema, snapshot) == Some(row_id)), res is Some ==> res->0@ == bytes@ {
//@rewrite owner != DataType::BigUInt\(UInt64\(row_id\)\) ==> shim_not_row(&owner, row_id)
//@at start
  let ghost ctx0 = self.ctx; let ghost ov0 = old_values.view_(); let ghost nv0 = new_values.view_();
  let ghost n: int = choose|n: int| hs_ok(&self.ctx, indexes@, n) && width(old_values.view_(), n) && width(new_values.view_(), n);
//@loop 0
  invariant hs_ok(&ctx0, indexes@, n), width(ov0, n), width(nv0, n), ov(old_values) == ov0, ov(new_values) == nv0,
    ctx0 == old(self).ctx, self.logger == old(self).logger, rest(&ctx0, &self.ctx), snapshot == ctx0.snapshot, tid == ctx0.tid,
    followed(&ctx0, &self.ctx, indexes@, k0 as int, ov0, nv0, row_id), k0 <= indexes@.len(),
  decreases indexes@.len() - k0
//@at loop 0 body-start
  let k = k0; k0 = k0 + 1; let index = &indexes[k]; let ghost t0 = ix_tree(&ctx0, index@); let ghost before = self.ctx; let ghost x = index@;
  proof { assert(ix_ok(&ctx0, indexes@[k as int]@, n)); let r0 = ix_root(&ctx0, x); if is_root(&ctx0, indexes@, k as int, r0) { assert(false); } assert(self.ctx.trees@[r0] == t0); }
//@end

// ------------------------------------------------------------------ whole rows
/// the row an INSERT of `vals` into `cols` makes: the last mention of a column counts
pub open spec fn filled(s: Schema, cols: Seq<usize>, vals: Seq<DataType>, id: UInt64, k: int) -> Seq<DataType> decreases k {
    if k <= 0 { Seq::new(s.columns@.len(), |i: int| DataType::Null).update(0, DataType::BigUInt(id)) }
    else {
        let p = filled(s, cols, vals, id, k - 1);
        let c = cols[k - 1];
        if k - 1 < vals.len() && c < s.columns@.len() { p.update(c as int, cast(vals[k - 1], s.columns@[c as int].kind)) } else { p }
    }
}
pub proof fn filled_len(s: Schema, cols: Seq<usize>, vals: Seq<DataType>, id: UInt64, k: int)
    ensures filled(s, cols, vals, id, k).len() == s.columns@.len() decreases k { if k > 0 { filled_len(s, cols, vals, id, k - 1); } }
#[verifier::external_body] pub fn shim_nulls(n: usize) -> (r: Vec<DataType>) ensures r@ == Seq::new(n as nat, |i: int| DataType::Null) { unimplemented!() }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn build_full_row
//@ret r
//@spec
  requires schema.columns@.len() > 0,
  ensures r is Ok ==> r->Ok_0@ == filled(*schema, columns@, values@, row_id, columns@.len() as int) && r->Ok_0@.len() == schema.columns@.len(),
//@rewrite vec!\[DataType::Null; num_cols\] ==> shim_nulls(num_cols)
//@rewrite for \(input_idx, &schema_col_idx\) in columns\.iter\(\)\.enumerate\(\) ==> for input_idx in 0..columns.len()
//@rewrite values\[input_idx\]\.try_cast ==> values.as_slice()[input_idx].try_cast
//@rewrite full_values\[0\] = DataType::BigUInt\(row_id\); ==> full_values.set(0, DataType::BigUInt(row_id));
//@rewrite full_values\[schema_col_idx\] = casted; ==> full_values.set(schema_col_idx, casted);
//@rewrite Row::new\(full_values\.into_boxed_slice\(\)\) ==> Row::shim_new(full_values)
//@loop 0
  invariant num_cols == schema.columns@.len(), full_values@ == filled(*schema, columns@, values@, row_id, input_idx as int), full_values@.len() == num_cols,
//@at loop 0 body-start
  let schema_col_idx = columns[input_idx];
//@end

/// a table whose indexes are those of its catalog entry
pub open spec fn table_ok(c: &ThreadContext, s: Seq<IndexHandle>, r: Relation) -> bool {
    &&& r.schema.num_keys == 1 && r.schema.columns@.len() > 0
    &&& hs_ok(c, s, r.schema.columns@.len() as int) && !is_root(c, s, s.len() as int, r.root)
    &&& keyed(c.trees@[r.root], r.schema)
    &&& (forall|i: int| 0 <= i < s.len() ==> r.schema.idx@.contains((#[trigger] s[i])@))
    &&& (forall|x: Idx| #[trigger] r.schema.idx@.contains(x) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == x)
}
pub open spec fn listing(s: Seq<IndexHandle>, sch: Schema) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> sch.idx@.contains((#[trigger] s[i])@)
    &&& forall|x: Idx| #[trigger] sch.idx@.contains(x) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i]@ == x
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@.id != (#[trigger] s[j])@.id
}
/// the catalog of a table: every index has a tree of its own, keyed by its columns
pub open spec fn db_ok(c: &ThreadContext, t: ObjectId) -> bool {
    let r = c.catalog.rel@[t];
    &&& r.id == t && r.schema.num_keys == 1 && r.schema.columns@.len() > 0
    &&& ixs_ok(c, r.schema)
    &&& (forall|x: Idx| #[trigger] r.schema.idx@.contains(x) ==> ix_root(c, x) != r.root && keyed(ix_tree(c, x), ix_schema(c, x)))
    &&& (forall|x: Idx, y: Idx| #[trigger] r.schema.idx@.contains(x) && #[trigger] r.schema.idx@.contains(y) && x.id != y.id ==> ix_root(c, x) != ix_root(c, y))
    &&& keyed(c.trees@[r.root], r.schema)
}
pub proof fn db_hs(c: &ThreadContext, t: ObjectId, s: Seq<IndexHandle>)
    requires db_ok(c, t), listing(s, c.catalog.rel@[t].schema),
    ensures hs_ok(c, s, c.catalog.rel@[t].schema.columns@.len() as int), !is_root(c, s, s.len() as int, c.catalog.rel@[t].root),
{
    let sch = c.catalog.rel@[t].schema;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies ix_root(c, (#[trigger] s[i])@) != ix_root(c, (#[trigger] s[j])@) by {
        assert(sch.idx@.contains(s[i]@) && sch.idx@.contains(s[j]@));
    }
    assert forall|i: int| 0 <= i < s.len() implies ix_ok(c, (#[trigger] s[i])@, sch.columns@.len() as int) && keyed(ix_tree(c, s[i]@), ix_schema(c, s[i]@)) by {
        assert(sch.idx@.contains(s[i]@));
    }
}
pub open spec fn no_conflict(c: &ThreadContext, s: Schema, v: Seq<DataType>, ex: Set<RowId>) -> bool { forall|x: Idx| #[trigger] s.idx@.contains(x) ==> !conflict(c, x, v, ex) }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn validate_insert_constraints
//@ret r
//@spec
  requires ixs_ok(&self.ctx, relation.schema), relation.schema.columns@.len() == new_values@.len(),
  ensures r is Ok ==> !null_violation(relation.schema, new_values@) && no_conflict(&self.ctx, relation.schema, new_values@, Set::empty()),
//@rewrite relation\.name\(\)\.to_string\(\) ==> shim_name()
//@rewrite &new_values ==> new_values
//@end
#[verifier::external_body] pub fn shim_name() -> String { unimplemented!() }
impl<'a> ConstraintValidator<'a> {
    /// foreign keys are not among the properties; the check reads only
    #[verifier::external_body] pub fn validate_foreign_key_constraints(&self, t: ObjectId, v: &[DataType]) -> ValidationResult<()> { unimplemented!() }
}
pub open spec fn new_id(r: Relation, id: Option<UInt64>) -> u64 { match id { Some(u) => u.0, None => r.next_row } }
pub open spec fn new_row(r: Relation, id: Option<UInt64>, cols: Seq<usize>, vals: Seq<DataType>) -> Seq<DataType> { filled(r.schema, cols, vals, UInt64(new_id(r, id)), cols.len() as int) }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn insert_row
//@ret r
//@spec
  requires db_ok(&old(self).ctx, table_id), old(self).ctx.catalog.rel@[table_id].next_row < u64::MAX, row_id is Some ==> (row_id->0).0 < u64::MAX,
  ensures ({
    let a = &old(self).ctx; let b = &final(self).ctx; let rel = a.catalog.rel@[table_id];
    let id = new_id(rel, row_id); let row = new_row(rel, row_id, columns@, values@); let key = ranks_to(row, 1);
    let t0 = a.trees@[rel.root]; let tuple = built(row, rel.schema, a.tid);
    &&& (null_violation(rel.schema, row) || !no_conflict(a, rel.schema, row, Set::empty()) ==> r is Err && final(self).logger.same(&old(self).logger) && b.trees == a.trees && b.catalog == a.catalog)
    &&& (r is Ok ==> {
        &&& r->Ok_0.row_id == id
        &&& final(self).logger.logged(&old(self).logger, Op::Insert(table_id, id, tuple))
        &&& b.trees@[rel.root] == (if !t0.contains_key(key) || replaceable(a, t0[key]) { t0.insert(key, tuple) } else { t0 })
        &&& (forall|x: Idx| #[trigger] rel.schema.idx@.contains(x) ==> ix_tree(b, x) == moved(a, ix_tree(a, x), x, None, Some(row), id))
        &&& b.catalog.rel@[table_id].next_row > id && b.catalog.rel@[table_id].next_row >= rel.next_row
    })
  }),
//@rewrite relation\.next_row_id\(\) (<=?) row_id ==> relation.next_row_id().0 \1 row_id.0
//@rewrite Box::from\(&(\w+)\) ==> \1.shim_bytes()
//@rewrite btree\.search_tuple\( ==> btree.search_tuple(&self.ctx, 
//@rewrite btree\.get_tuple_at_unchecked\( ==> btree.get_tuple_at_unchecked(&self.ctx, 
//@rewrite btree\.update\( ==> btree.update(&mut self.ctx, 
//@rewrite btree\.insert\( ==> btree.insert(&mut self.ctx, 
//@rewrite self\.ctx\.catalog\(\)\.update_relation\(\s*relation\.object_id\(\),\s*Some\(relation\.next_row_id\(\)\.value\(\)\),\s*None,\s*None,\s*&tree_builder,\s*&snapshot,\s*\) ==> self.ctx.shim_next_row(relation.object_id(), relation.next_row_id().value())
//@at start
  let ghost ctx0 = self.ctx; let ghost rel0 = self.ctx.catalog.rel@[table_id]; let ghost lg0 = self.logger;
//@loop 0
  invariant relation == (Relation { next_row: relation.next_row, ..rel0 }), relation.next_row >= rel0.next_row, row_id.0 < u64::MAX, rel0.next_row < u64::MAX,
  ensures relation.next_row > row_id.0
  decreases u64::MAX - relation.next_row
//@rewrite &relation\.get_indexes\(\) ==> &hs
//@at before self.maintain_secondary_indexes
  let ghost mid = self.ctx; let hs = relation.get_indexes();
  proof {
    db_hs(&ctx0, table_id, hs@); let n = rel0.schema.columns@.len() as int;
    assert forall|i: int| 0 <= i < hs@.len() implies ix_ok(&mid, (#[trigger] hs@[i])@, n) && keyed(ix_tree(&mid, hs@[i]@), ix_schema(&mid, hs@[i]@)) by {
      assert(ix_ok(&ctx0, hs@[i]@, n)); assert(!is_root(&ctx0, hs@, hs@.len() as int, rel0.root)); assert(ix_root(&ctx0, hs@[i]@) != rel0.root);
      assert(ix_tree(&mid, hs@[i]@) == ix_tree(&ctx0, hs@[i]@));
    }
    assert forall|i: int, j: int| 0 <= i < j < hs@.len() implies ix_root(&mid, (#[trigger] hs@[i])@) != ix_root(&mid, (#[trigger] hs@[j])@) by {
      assert(ix_root(&ctx0, hs@[i]@) != ix_root(&ctx0, hs@[j]@));
    }
    assert(hs_ok(&mid, hs@, n)); assert(width((None::<Row>).view_(), n)); assert(width(Some(full_row).view_(), n));
    assert(!is_root(&mid, hs@, hs@.len() as int, rel0.root)) by { if is_root(&mid, hs@, hs@.len() as int, rel0.root) { assert(is_root(&ctx0, hs@, hs@.len() as int, rel0.root)); } }
  }
//@end
pub struct InsertResult { pub row_id: RowId }

/// what a snapshot is entitled to see (C18, unit tuple): a tuple nobody deleted, of the transaction itself or of one committed before
pub open spec fn sees(c: &ThreadContext, b: Seq<u8>, s: Schema) -> bool {
    xmax_of(b) is None && (xmin_of(b) == c.tid || committed_before(c.snapshot, xmin_of(b))) && !c.aborted(xmin_of(b)) ==> row_of(b, s, c.snapshot) is Some
}
/// C07: after an INSERT that succeeded, the entry under the key of the row in every index is the row's own; what was there
/// before (if anything) no transaction can see or still commit.
pub proof fn thm_unique(a: &ThreadContext, b: &ThreadContext, s: Schema, x: Idx, row: Seq<DataType>, id: RowId)
    requires s.idx@.contains(x), no_conflict(a, s, row, Set::empty()), !has_null(row, x.cols),
        ix_tree(b, x) == moved(a, ix_tree(a, x), x, None, Some(row), id),
        ix_tree(a, x).contains_key(ranks(key_vals(row, x.cols))) ==> sees(a, ix_tree(a, x)[ranks(key_vals(row, x.cols))], ix_schema(a, x)),
    ensures ({ let k = ranks(key_vals(row, x.cols)); let t = ix_tree(a, x);
        &&& ix_tree(b, x) == t.insert(k, built(key_vals(row, x.cols).push(DataType::BigUInt(UInt64(id))), ix_schema(a, x), a.tid))
        &&& (t.contains_key(k) ==> row_of(t[k], ix_schema(a, x), a.snapshot) is None && !a.concurrent(xmin_of(t[k]))) })
{
    let k = ranks(key_vals(row, x.cols)); let e = key_vals(row, x.cols).push(DataType::BigUInt(UInt64(id)));
    assert(ranks_to(e, x.cols.len() as int) =~= k) by { assert(e.subrange(0, x.cols.len() as int) =~= key_vals(row, x.cols)); }
    assert(!conflict(a, x, row, Set::empty()));
    assert(entry_of(Some(row), x, id) == Some(e));
    assert(entry_of(None, x, id) is None);
}
// ------------------------------------------------------------------ DELETE and UPDATE of one row
#[verifier::external_body] pub fn shim_row_key(u: &UInt64) -> (r: RuntimeResult<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == kb(seq![DataType::BigUInt(*u)]) { unimplemented!() }
pub open spec fn rk(id: RowId) -> Seq<int> { ranks(seq![DataType::BigUInt(UInt64(id))]) }
/// the tuple the transaction sees under a row id
pub open spec fn visible_row(c: &ThreadContext, r: Relation, id: RowId) -> bool { c.trees@[r.root].contains_key(rk(id)) && row_of(c.trees@[r.root][rk(id)], r.schema, c.snapshot) is Some }
pub open spec fn rows_ok(c: &ThreadContext, r: Relation) -> bool { forall|b: Seq<u8>| (#[trigger] row_of(b, r.schema, c.snapshot)) is Some ==> row_of(b, r.schema, c.snapshot)->0.len() == r.schema.columns@.len() }
pub open spec fn recorded(a: &ThreadContext, b: &ThreadContext, t: ObjectId, id: RowId) -> bool {
    a.coordinator is Some ==> b.coordinator is Some && b.coordinator->0.writes() == a.coordinator->0.writes().insert((a.tid, LogicalId(t, id)))
}
pub proof fn db_mid(c0: &ThreadContext, c: &ThreadContext, t: ObjectId, s: Seq<IndexHandle>)
    requires db_ok(c0, t), listing(s, c0.catalog.rel@[t].schema), c.catalog == c0.catalog, c.same_txn(c0),
        forall|r: PageId| r != c0.catalog.rel@[t].root ==> #[trigger] c.trees@[r] == c0.trees@[r],
    ensures hs_ok(c, s, c0.catalog.rel@[t].schema.columns@.len() as int), !is_root(c, s, s.len() as int, c0.catalog.rel@[t].root),
        forall|i: int| 0 <= i < s.len() ==> ix_tree(c, (#[trigger] s[i])@) == ix_tree(c0, s[i]@),
{
    db_hs(c0, t, s); let rel = c0.catalog.rel@[t]; let n = rel.schema.columns@.len() as int;
    assert forall|i: int| 0 <= i < s.len() implies ix_ok(c, (#[trigger] s[i])@, n) && keyed(ix_tree(c, s[i]@), ix_schema(c, s[i]@)) && ix_tree(c, s[i]@) == ix_tree(c0, s[i]@) by {
        assert(ix_ok(c0, s[i]@, n)); assert(!is_root(c0, s, s.len() as int, rel.root)); assert(ix_root(c0, s[i]@) != rel.root);
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies ix_root(c, (#[trigger] s[i])@) != ix_root(c, (#[trigger] s[j])@) by { assert(ix_root(c0, s[i]@) != ix_root(c0, s[j]@)); }
    if is_root(c, s, s.len() as int, rel.root) { assert(is_root(c0, s, s.len() as int, rel.root)); }
}
pub struct DeleteResult { pub deleted: bool }
pub struct UpdateResult { pub updated: bool }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn delete
//@ret r
//@spec
  requires db_ok(&old(self).ctx, table_id), rows_ok(&old(self).ctx, old(self).ctx.catalog.rel@[table_id]), old(self).ctx.snapshot.xid == old(self).ctx.tid,
  ensures ({
    let a = &old(self).ctx; let b = &final(self).ctx; let rel = a.catalog.rel@[table_id]; let id = row_id.0;
    let t0 = a.trees@[rel.root]; let was = t0[rk(id)];
    &&& b.catalog == a.catalog
    &&& (r is Ok ==> r->Ok_0.deleted == visible_row(a, rel, id))
    &&& (r is Ok && !r->Ok_0.deleted ==> b.trees == a.trees && final(self).logger.same(&old(self).logger) && b.coordinator == a.coordinator)
    &&& (r is Ok && r->Ok_0.deleted ==> {
        &&& (a.coordinator is Some ==> writable(a, xmax_of(was))) && recorded(a, b, table_id, id)
        &&& final(self).logger.logged(&old(self).logger, Op::Delete(table_id, id, was))
        &&& b.trees@[rel.root] == t0.insert(rk(id), deleted(was, a.tid))
        &&& (forall|x: Idx| #[trigger] rel.schema.idx@.contains(x) ==> ix_tree(b, x) == moved(a, ix_tree(a, x), x, row_of(was, rel.schema, a.snapshot), None, id))
    })
    &&& (visible_row(a, rel, id) && a.coordinator is Some && !writable(a, xmax_of(was)) ==> r is Err && b.trees == a.trees && final(self).logger.same(&old(self).logger))
  }),
//@rewrite row_id\.serialize\(\) ==> shim_row_key(row_id)
//@rewrite self\.ctx\.snapshot\(\) ==> self.ctx.snapshot().clone()
//@rewrite btree\.search\( ==> btree.search(&self.ctx, 
//@rewrite btree\.with_cell_at\(position, \|bytes\| \{ ==> btree.with_cell_at(&self.ctx, position, |bytes: &[u8]| -> (res: Option<Tuple>) requires stored(bytes@) ensures (res is Some) == (row_of(bytes@, schema, snapshot) is Some), res is Some ==> res->0@ == bytes@ {
//@rewrite btree\s*\.get_row_at\( ==> btree.get_row_at(&self.ctx, 
//@rewrite \.expect\("[^"]*"\) ==> .unwrap()
//@rewrite Box::from\(&(\w+)\) ==> \1.shim_bytes()
//@rewrite btree\.update\( ==> btree.update(&mut self.ctx, 
//@rewrite &relation\.get_indexes\(\) ==> &hs
//@at start
  let ghost ctx0 = self.ctx; let ghost rel0 = self.ctx.catalog.rel@[table_id]; proof { assert(seq![DataType::BigUInt(*row_id)].len() == 1); }
//@at before self.maintain_secondary_indexes
  let hs = relation.get_indexes(); let ghost mid = self.ctx;
  proof { db_mid(&ctx0, &mid, table_id, hs@); let n = rel0.schema.columns@.len() as int; assert(width(Some(old_row).view_(), n)); assert(width((None::<Row>).view_(), n)); assert(hs_ok(&mid, hs@, n)); }
//@end
impl HashMap {
    /// its entries, in some order
    #[verifier::external_body] pub fn shim_entries(&self) -> (r: Vec<(usize, DataType)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && r@[i].1 == self@[r@[i].0],
            forall|k: usize| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
}
#[verifier::external_body] pub fn shim_to_vec(s: &[DataType]) -> (r: Vec<DataType>) ensures r@ == s@ { unimplemented!() }
/// the row after its values are assigned (columns past the keys, by their place among the values)
pub open spec fn assigned(v: Seq<DataType>, a: Map<usize, DataType>, nk: int) -> Seq<DataType> {
    Seq::new(v.len(), |i: int| if nk <= i && a.contains_key((i - nk) as usize) { a[(i - nk) as usize] } else { v[i] })
}
pub open spec fn small(a: Map<usize, DataType>) -> bool { forall|k: usize| #[trigger] a.contains_key(k) ==> k < 0x1_0000_0000 }
pub open spec fn done(es: Seq<(usize, DataType)>, n: int, k: usize) -> bool { exists|i: int| 0 <= i < n && (#[trigger] es[i]).0 == k }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn validate_update_constraints
//@ret r
//@spec
  requires ixs_ok(&self.ctx, relation.schema), relation.schema.columns@.len() == old_values@.len(), relation.schema.num_keys == 1, small(assignments@), old_values@.len() <= 0x1_0000_0000,
  ensures r is Ok ==> ({ let row = assigned(old_values@, assignments@, 1);
    !null_violation(relation.schema, row) && no_conflict(&self.ctx, relation.schema, row, Set::empty().insert(row_id)) }),
//@rewrite relation\.name\(\)\.to_string\(\) ==> shim_name()
//@rewrite &HashMap<usize, DataType> ==> &HashMap
//@rewrite old_values\.to_vec\(\) ==> shim_to_vec(old_values)
//@rewrite for \(value_idx, value\) in assignments\b ==> let es = assignments.shim_entries(); for k in 0..es.len()
//@rewrite value_idx \+ schema ==> *value_idx + schema
//@rewrite new_values\[col_idx\] = value\.clone\(\); ==> new_values.set(col_idx, value.clone());
//@loop 0
  invariant schema.num_keys == 1, small(assignments@), new_values@.len() == old_values@.len(), old_values@.len() <= 0x1_0000_0000,
    forall|i: int| 0 <= i < es@.len() ==> assignments@.contains_key((#[trigger] es@[i]).0) && es@[i].1 == assignments@[es@[i].0],
    forall|c: int| 0 <= c < old_values@.len() ==> #[trigger] new_values@[c] == (if 1 <= c && done(es@, k as int, (c - 1) as usize) { assignments@[(c - 1) as usize] } else { old_values@[c] }),
//@at loop 0 body-start
  let value_idx = &es[k].0; let value = &es[k].1; let ghost nv = new_values@;
  proof { assert(assignments@.contains_key(es@[k as int].0)); }
//@at loop 0 body-end
  proof {
    assert forall|c: int| 0 <= c < old_values@.len() implies #[trigger] new_values@[c] == (if 1 <= c && done(es@, k + 1, (c - 1) as usize) { assignments@[(c - 1) as usize] } else { old_values@[c] }) by {
      let q = (c - 1) as usize;
      if 1 <= c { if es@[k as int].0 == q { assert(done(es@, k + 1, q)); } else { assert(done(es@, k + 1, q) == done(es@, k as int, q)) by { if done(es@, k as int, q) { let i = choose|i: int| 0 <= i < k && (#[trigger] es@[i]).0 == q; assert(es@[i].0 == q); } if done(es@, k + 1, q) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] es@[i]).0 == q; assert(es@[i].0 == q); } } } }
      assert(nv[c] == (if 1 <= c && done(es@, k as int, q) { assignments@[q] } else { old_values@[c] }));
    }
  }
//@at loop 0 after
  proof {
    assert forall|c: int| 0 <= c < old_values@.len() implies new_values@[c] == assigned(old_values@, assignments@, 1)[c] by {
      let q = (c - 1) as usize;
      if 1 <= c { if assignments@.contains_key(q) { let i = choose|i: int| 0 <= i < es@.len() && (#[trigger] es@[i]).0 == q; assert(es@[i].0 == q); assert(done(es@, es@.len() as int, q)); } else if done(es@, es@.len() as int, q) { let i = choose|i: int| 0 <= i < es@.len() && (#[trigger] es@[i]).0 == q; assert(assignments@.contains_key(es@[i].0)); } }
    }
    assert(new_values@ =~= assigned(old_values@, assignments@, 1));
  }
//@end
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn update
//@ret r
//@spec
  requires db_ok(&old(self).ctx, table_id), rows_ok(&old(self).ctx, old(self).ctx.catalog.rel@[table_id]), small(assignments@), old(self).ctx.catalog.rel@[table_id].schema.columns@.len() <= 0x1_0000_0000,
  ensures ({
    let a = &old(self).ctx; let b = &final(self).ctx; let rel = a.catalog.rel@[table_id]; let id = row_id.0;
    let t0 = a.trees@[rel.root]; let was = t0[rk(id)]; let row = assigned(row_of(was, rel.schema, a.snapshot)->0, assignments@, 1);
    let now = versioned(was, assignments@, a.tid, rel.schema);
    &&& b.catalog == a.catalog
    &&& (r is Ok ==> r->Ok_0.updated == visible_row(a, rel, id))
    &&& (r is Ok && !r->Ok_0.updated ==> b.trees == a.trees && final(self).logger.same(&old(self).logger) && b.coordinator == a.coordinator)
    &&& (r is Ok && r->Ok_0.updated ==> {
        &&& (a.coordinator is Some ==> writable(a, xmax_of(was))) && recorded(a, b, table_id, id)
        &&& !null_violation(rel.schema, row) && no_conflict(a, rel.schema, row, Set::empty().insert(id))
        &&& final(self).logger.logged(&old(self).logger, Op::Update(table_id, id, was, now))
        &&& b.trees@ == a.trees@.insert(rel.root, t0.insert(rk(id), now))
    })
    &&& (visible_row(a, rel, id) && (null_violation(rel.schema, row) || !no_conflict(a, rel.schema, row, Set::empty().insert(id)) || (a.coordinator is Some && !writable(a, xmax_of(was))))
        ==> r is Err && b.trees == a.trees && final(self).logger.same(&old(self).logger))
  }),
//@rewrite assignments: HashMap<usize, DataType> ==> assignments: HashMap
//@rewrite row_id\.serialize\(\) ==> shim_row_key(row_id)
//@rewrite self\.ctx\.snapshot\(\) ==> self.ctx.snapshot().clone()
//@rewrite btree\.search\( ==> btree.search(&self.ctx, 
//@rewrite btree\.with_cell_at\(position, \|bytes\| \{ ==> btree.with_cell_at(&self.ctx, position, |bytes: &[u8]| -> (res: Option<Tuple>) requires stored(bytes@) ensures (res is Some) == (row_of(bytes@, schema, snapshot) is Some), res is Some ==> res->0@ == bytes@ {
//@rewrite btree\s*\.get_row_at\( ==> btree.get_row_at(&self.ctx, 
//@rewrite \.expect\("[^"]*"\) ==> .unwrap()
//@rewrite Box::from\(&(\w+)\) ==> \1.shim_bytes()
//@rewrite btree\.update\( ==> btree.update(&mut self.ctx, 
//@at start
  let ghost ctx0 = self.ctx; let ghost rel0 = self.ctx.catalog.rel@[table_id]; proof { assert(seq![DataType::BigUInt(*row_id)].len() == 1); }
//@at before self.validate_update_constraints
  proof { db_same(&ctx0, &self.ctx, rel0.schema, assigned(old_row@, assignments@, 1), Set::empty().insert(row_id.0)); }
//@end
/// recording a write changes neither what the indexes hold nor who counts as rolled back
pub proof fn db_same(a: &ThreadContext, b: &ThreadContext, s: Schema, v: Seq<DataType>, ex: Set<RowId>)
    requires b.catalog == a.catalog, b.trees == a.trees, b.same_txn(a), ixs_ok(a, s)
    ensures ixs_ok(b, s), no_conflict(b, s, v, ex) == no_conflict(a, s, v, ex)
{
    assert forall|x: Idx| #[trigger] s.idx@.contains(x) implies ix_ok(b, x, s.columns@.len() as int) && conflict(b, x, v, ex) == conflict(a, x, v, ex) by { assert(ix_ok(a, x, s.columns@.len() as int)); }
}
impl HashMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<usize, DataType>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: DataType) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
pub open spec fn differs(a: Seq<DataType>, b: Seq<DataType>, nk: int, i: int) -> bool { nk <= i < a.len() && i < b.len() && rank(a[i]) != rank(b[i]) }
//@extract crates/axmos-db/src/runtime/dml.rs : impl DmlExecutor / fn build_assignments
//@ret r
//@spec
  ensures forall|k: usize| #[trigger] r@.contains_key(k) <==> differs(old_row@, new_row@, num_keys as int, k + num_keys),
    forall|k: usize| #[trigger] r@.contains_key(k) ==> r@[k] == new_row@[k + num_keys],
//@rewrite HashMap<usize, DataType> ==> HashMap
//@rewrite old_row\.len\(\)\.min\(new_row\.len\(\)\) ==> (if old_row.len() <= new_row.len() { old_row.len() } else { new_row.len() })
//@rewrite (\w+)\[idx\] != (\w+)\[idx\] ==> shim_ne(&\1.as_slice()[idx], &\2.as_slice()[idx])
//@rewrite (new_row|old_row)\[idx\]\.clone\(\) ==> \1.as_slice()[idx].clone()
//@loop 0
  invariant forall|k: usize| #[trigger] assignments@.contains_key(k) <==> k + num_keys < idx && differs(old_row@, new_row@, num_keys as int, k + num_keys),
    forall|k: usize| #[trigger] assignments@.contains_key(k) ==> assignments@[k] == new_row@[k + num_keys],
//@end
/// what recovery assigns turns the old row into one that compares equal to the new one
pub proof fn thm_replayed_update(old_row: Seq<DataType>, new_row: Seq<DataType>, a: Map<usize, DataType>)
    requires old_row.len() == new_row.len(), old_row.len() < 0x1_0000_0000,
        forall|k: usize| #[trigger] a.contains_key(k) <==> differs(old_row, new_row, 1, k + 1),
        forall|k: usize| #[trigger] a.contains_key(k) ==> a[k] == new_row[k + 1],
    ensures forall|i: int| 1 <= i < old_row.len() ==> rank(#[trigger] assigned(old_row, a, 1)[i]) == rank(new_row[i])
{
    assert forall|i: int| 1 <= i < old_row.len() implies rank(#[trigger] assigned(old_row, a, 1)[i]) == rank(new_row[i]) by {
        let k = (i - 1) as usize; assert(a.contains_key(k) <==> differs(old_row, new_row, 1, k + 1));
    }
}
}
