// MVCC: snapshots, the transaction table, write-write validation and the aborted bitmap of page zero.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case)]
use vstd::prelude::*;
verus!{
fn main(){}
global size_of usize == 8;
pub type TransactionId = u64;
pub type PageId = u64;
pub type ObjectId = u64;
pub type RowId = u64;
pub type Lsn = u64;

// ------------------------------------------------------------------ std contracts (assumed)
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    /// keeps exactly the entries the closure accepts
    #[verifier::external_body] pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K| old(self)@.contains_key(k) ==> call_requires(f, (&k, &#[trigger] old(self)@[k]))
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] && call_ensures(f, (&k, &old(self)@[k]), true),
            forall|k: K| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==> call_ensures(f, (&k, &old(self)@[k]), false)
        { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: MapIter<K, V>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: MapIter<K, V>) ensures r@ == self@ { unimplemented!() }
    /// `.keys().copied().collect::<Vec<_>>()`
    #[verifier::external_body] pub fn shim_key_vec(&self) -> (r: Vec<K>) ensures r@.to_set() == self@.dom(), r@.no_duplicates() { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct MapIter<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> MapIter<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    /// `.filter(|(_, v)| ..)`
    #[verifier::external_body] pub fn filter<F: Fn(&V) -> bool>(self, f: F) -> (r: MapIter<K, V>)
        requires forall|k: K| self@.contains_key(k) ==> call_requires(f, (&#[trigger] self@[k],))
        ensures
            forall|k: K| #[trigger] r@.contains_key(k) ==> self@.contains_key(k) && r@[k] == self@[k] && call_ensures(f, (&self@[k],), true),
            forall|k: K| #[trigger] self@.contains_key(k) && !r@.contains_key(k) ==> call_ensures(f, (&self@[k],), false)
        { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(&K, &V) -> bool>(self, f: F) -> (r: bool)
        requires forall|k: K| self@.contains_key(k) ==> call_requires(f, (&k, &#[trigger] self@[k]))
        ensures
            r ==> exists|k: K| #[trigger] self@.contains_key(k) && call_ensures(f, (&k, &self@[k]), true),
            !r ==> forall|k: K| #[trigger] self@.contains_key(k) ==> call_ensures(f, (&k, &self@[k]), false)
        { unimplemented!() }
    /// `.map(|(id, _)| *id).collect()`
    #[verifier::external_body] pub fn shim_ids(self) -> (r: HashSet<K>) ensures r@ == self@.dom() { unimplemented!() }
    #[verifier::external_body] pub fn shim_id_vec(self) -> (r: Vec<K>) ensures r@.to_set() == self@.dom() { unimplemented!() }
    /// `.map(g).min().unwrap_or(d)`
    #[verifier::external_body] pub fn shim_min_by<F: Fn(&V) -> u64>(self, g: F, d: u64) -> (r: u64)
        requires forall|k: K| self@.contains_key(k) ==> call_requires(g, (&#[trigger] self@[k],))
        ensures
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|x: u64| call_ensures(g, (&self@[k],), x) && r <= x,
            (forall|k: K| !self@.contains_key(k)) ==> r == d,
        { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// `.iter().min().copied().unwrap_or(d)`
#[verifier::external_body] pub fn shim_set_min(s: &HashSet<u64>, d: u64) -> (r: u64)
    ensures forall|x: u64| s@.contains(x) ==> r <= x, s@.contains(r) || r == d { unimplemented!() }
#[verifier::external_body] pub fn shim_contains(s: &Vec<u64>, k: &u64) -> (r: bool) ensures r == s@.contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn shim_format() -> (r: String) { unimplemented!() }
/// every entry of the map, in some order, with mutable access (`for (id, entry) in m.iter_mut()`)
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures r ==> o is Some && call_ensures(f, (o->0,), true), !r ==> o is None || call_ensures(f, (o->0,), false);
pub assume_specification<T>[core::mem::drop::<T>](x: T);

// `Arc<RwLock<T>>` and `Arc<AtomicU64>`: the lock or the atomic as exclusive access to its content
pub struct Shared<T> { pub v: T }
impl<T> Shared<T> {
    pub fn write(&mut self) -> (r: &mut T) ensures *r == old(self).v, *final(r) == final(self).v { &mut self.v }
    pub fn read(&self) -> (r: &T) ensures *r == self.v { &self.v }
}
pub struct Counter { pub v: u64 }
pub enum Ordering { SeqCst }
impl Counter {
    pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self.v { self.v }
    /// assumed: 2^64 commits are not reached
    #[verifier::external_body] pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self).v, final(self).v == old(self).v + n { unimplemented!() }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct LogicalId(pub ObjectId, pub RowId);

// ------------------------------------------------------------------ page zero: the aborted bitmap
//@extract crates/axmos-db/src/storage/page.rs : const ABORTED_BITMAP_SIZE
//@end
//@extract crates/axmos-db/src/storage/page.rs : const MAX_TRACKED_ABORTED_TXS
//@end
//@extract crates/axmos-db/src/storage/page.rs : struct PageZeroHeader
//@end

pub open spec fn bit(b: Seq<u8>, id: int) -> bool { (b[id / 8] & (1u8 << ((id % 8) as u8))) != 0 }
pub open spec fn ab(h: PageZeroHeader) -> spec_fn(int) -> bool { |id: int| 0 <= id < 8192 && bit(h.aborted_txs_bitmap@, id) }
/// the set of transactions page zero remembers as aborted
pub open spec fn aborted_of(h: PageZeroHeader, id: u64) -> bool { id < 8192 && bit(h.aborted_txs_bitmap@, id as int) }
/// everything but the bitmap
pub open spec fn same_but_bitmap(a: PageZeroHeader, b: PageZeroHeader) -> bool {
    a.magic == b.magic && a.page_number == b.page_number && a.first_free_page == b.first_free_page && a.last_free_page == b.last_free_page
    && a.total_pages == b.total_pages && a.last_created_transaction == b.last_created_transaction
    && a.last_committed_transaction == b.last_committed_transaction && a.last_stored_object == b.last_stored_object
    && a.page_size == b.page_size && a.free_pages == b.free_pages && a.padding == b.padding && a.cache_size == b.cache_size
    && a.min_keys == b.min_keys && a.num_siblings_per_side == b.num_siblings_per_side
}
proof fn bits(b: u8) ensures
    forall|i: u8, j: u8| i < 8 && j < 8 ==> (#[trigger] ((b | (1u8 << i)) & (1u8 << j)) != 0) == (i == j || (b & (1u8 << j)) != 0),
    forall|i: u8, j: u8| i < 8 && j < 8 ==> (#[trigger] ((b & !(1u8 << i)) & (1u8 << j)) != 0) == (i != j && (b & (1u8 << j)) != 0),
    forall|i: u64, k: u8| i < 8 && k == i ==> #[trigger] (1u8 << i) == #[trigger] (1u8 << k),
{
    assert(forall|i: u8, j: u8| i < 8 && j < 8 ==> (#[trigger] ((b | (1u8 << i)) & (1u8 << j)) != 0) == (i == j || (b & (1u8 << j)) != 0)) by (bit_vector);
    assert(forall|i: u8, j: u8| i < 8 && j < 8 ==> (#[trigger] ((b & !(1u8 << i)) & (1u8 << j)) != 0) == (i != j && (b & (1u8 << j)) != 0)) by (bit_vector);
    assert(forall|i: u64, k: u8| i < 8 && k == i ==> #[trigger] (1u8 << i) == #[trigger] (1u8 << k)) by (bit_vector);
}

//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn can_track
//@ret r
//@spec
    ensures r == (txid < 8192)
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn mark_transaction_aborted
//@spec
    ensures same_but_bitmap(*old(self), *final(self)),
        forall|id: u64| #[trigger] aborted_of(*final(self), id) == (aborted_of(*old(self), id) || (id == txid && txid < 8192)),
//@at start
    proof { if txid < 8192 { bits(self.aborted_txs_bitmap@[txid as int / 8]); } }
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn clear_transaction_aborted
//@spec
    ensures same_but_bitmap(*old(self), *final(self)),
        forall|id: u64| #[trigger] aborted_of(*final(self), id) == (aborted_of(*old(self), id) && id != txid),
//@at start
    proof { if txid < 8192 { bits(self.aborted_txs_bitmap@[txid as int / 8]); } }
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn is_transaction_aborted
//@ret r
//@spec
    ensures r == aborted_of(*self, txid)
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn get_aborted_transactions
//@ret r
//@spec
    ensures forall|id: u64| #[trigger] r@.contains(id) == aborted_of(*self, id), r@.no_duplicates()
//@loop 0
    invariant
        forall|id: u64| #[trigger] aborted@.contains(id) == (aborted_of(*self, id) && id < txid),
        aborted@.no_duplicates(),
//@at loop 0 body-start
    let ghost a0 = aborted@;
//@at loop 0 body-end
    proof {
        if aborted@ != a0 {
            assert(aborted@ == a0.push(txid));
            assert(!a0.contains(txid));
            assert forall|id: u64| #[trigger] aborted@.contains(id) == (a0.contains(id) || id == txid) by {
                if a0.contains(id) { let i = a0.index_of(id); assert(aborted@[i] == id); }
                if id == txid { assert(aborted@[a0.len() as int] == id); }
            }
        }
    }
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn clear_aborted_up_to
//@spec
    ensures same_but_bitmap(*old(self), *final(self)),
        forall|id: u64| #[trigger] aborted_of(*final(self), id) == (aborted_of(*old(self), id) && id > max_txid),
//@at start
    let ghost h0 = *self;
//@rewrite max_txid\.min\(([^()]*)\) ==> shim_min(max_txid, \1)
//@iter 0 it
//@loop 0
    invariant
        same_but_bitmap(h0, *self), txid_end(max_txid) < 8192,
        forall|id: u64| #[trigger] aborted_of(*self, id) == (aborted_of(h0, id) && (id as int) >= it.index@),
//@at loop 0 body-start
    proof { bits(self.aborted_txs_bitmap@[txid as int / 8]); assert(txid == it.index@); }
    let ghost h1 = *self;
//@at loop 0 body-end
    proof { assert(forall|id: u64| #[trigger] aborted_of(*self, id) == (aborted_of(h1, id) && id != txid)); }
//@end
pub open spec fn txid_end(m: u64) -> u64 { if m < 8191 { m } else { 8191 } }
pub fn shim_copied(o: Option<&u64>) -> (r: Option<u64>) ensures match o { Some(x) => r == Some(*x), None => r is None } { match o { Some(x) => Some(*x), None => None } }
pub fn shim_min(a: u64, b: u64) -> (r: u64) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

// ------------------------------------------------------------------ the pager's view of page zero
/// `Pager` with everything but the header left out; `header_unchecked` is `db_header.as_ref().expect(..)`
pub struct Pager { pub header: PageZeroHeader }
impl Pager {
    pub fn header_unchecked(&self) -> (r: &PageZeroHeader) ensures *r == self.header { &self.header }
    pub fn header_unchecked_mut(&mut self) -> (r: &mut PageZeroHeader) ensures *r == old(self).header, *final(r) == final(self).header { &mut self.header }
}
pub open spec fn same_but_txs(a: PageZeroHeader, b: PageZeroHeader) -> bool { same_but_bitmap(PageZeroHeader { last_created_transaction: b.last_created_transaction, last_committed_transaction: b.last_committed_transaction, ..a }, b) }
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn mark_transaction_aborted
//@spec
    ensures same_but_bitmap(old(self).header, final(self).header),
        forall|id: u64| #[trigger] aborted_of(final(self).header, id) == (aborted_of(old(self).header, id) || (id == txid && txid < 8192)),
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn clear_transaction_aborted
//@spec
    ensures same_but_bitmap(old(self).header, final(self).header),
        forall|id: u64| #[trigger] aborted_of(final(self).header, id) == (aborted_of(old(self).header, id) && id != txid),
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn get_aborted_transactions
//@ret r
//@spec
    ensures forall|id: u64| #[trigger] r@.contains(id) == aborted_of(self.header, id), r@.no_duplicates()
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn clear_aborted_up_to
//@spec
    ensures same_but_bitmap(old(self).header, final(self).header),
        forall|id: u64| #[trigger] aborted_of(final(self).header, id) == (aborted_of(old(self).header, id) && id > max_txid),
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn get_last_committed_transaction
//@ret r
//@spec
    ensures r == self.header.last_committed_transaction
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn set_last_committed_transaction
//@spec
    ensures final(self).header == (PageZeroHeader { last_committed_transaction: txid, ..old(self).header })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn get_last_created_transaction
//@ret r
//@spec
    ensures r == self.header.last_created_transaction
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn set_last_created_transaction
//@spec
    ensures final(self).header == (PageZeroHeader { last_created_transaction: txid, ..old(self).header })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn get_last_stored_object
//@ret r
//@spec
    ensures r == self.header.last_stored_object
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn set_last_stored_object
//@spec
    ensures final(self).header == (PageZeroHeader { last_stored_object: oid, ..old(self).header })
//@end

// ------------------------------------------------------------------ snapshots
//@extract crates/axmos-db/src/multithreading/coordinator.rs : struct Snapshot
//@end
impl Snapshot {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// committed when the snapshot was taken
pub open spec fn seen(s: Snapshot, t: u64) -> bool {
    !(s.xmax is Some && s.xmax->0 < t) && !s.active_txs@.contains(t) && !s.aborted_txs@.contains(t)
}
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn new
//@ret r
//@spec
    ensures r == (Snapshot { xid, xmin, xmax, active_txs: active, aborted_txs: aborted })
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn is_transaction_aborted
//@ret r
//@spec
    ensures r == self.aborted_txs@.contains(xid)
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn xmin
//@ret r
//@spec
    ensures r == self.xmin
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn xmax
//@ret r
//@spec
    ensures r == self.xmax
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn xid
//@ret r
//@spec
    ensures r == self.xid
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn is_committed_before_snapshot
//@ret r
//@spec
    ensures r == seen(*self, txid)
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl Snapshot / fn is_tuple_visible
//@ret r
//@spec
    ensures
        tuple_xmin != self.xid ==> r == (seen(*self, tuple_xmin) && !(tuple_xmax is Some && seen(*self, tuple_xmax->0))),
        tuple_xmin == self.xid && tuple_xmax == Some(self.xid) ==> !r,
        tuple_xmin == self.xid && tuple_xmax is Some && tuple_xmax->0 != self.xid ==> r,
//@end

// ------------------------------------------------------------------ the transaction table
//@extract crates/axmos-db/src/multithreading/coordinator.rs : enum TransactionState
//@attrs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : enum TransactionError
//@end
pub type TransactionResult<T> = Result<T, TransactionError>;
//@extract crates/axmos-db/src/multithreading/coordinator.rs : struct TransactionMetadata
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn new
//@ret r
//@spec
    ensures r.id == id, r.state is Active, r.snapshot == snapshot, r.start_ts == start_ts, r.write_set@ == Map::<LogicalId, u8>::empty(),
        r.read_set@ == Set::<LogicalId>::empty(),
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn id
//@ret r
//@spec
    ensures r == self.id
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn state
//@ret r
//@spec
    ensures r == self.state
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn snapshot
//@ret r
//@spec
    ensures *r == self.snapshot
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn start_ts
//@ret r
//@spec
    ensures r == self.start_ts
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn is_active
//@ret r
//@spec
    ensures r == self.state is Active
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn write_set
//@ret r
//@spec
    ensures *r == self.write_set
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn add_to_read_set
//@spec
    ensures final(self).read_set@ == old(self).read_set@.insert(id),
        *final(self) == (TransactionMetadata { read_set: final(self).read_set, ..*old(self) }),
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionMetadata / fn add_to_write_set
//@spec
    ensures final(self).write_set@ == old(self).write_set@.insert(id, version),
        *final(self) == (TransactionMetadata { write_set: final(self).write_set, ..*old(self) }),
//@end

//@extract crates/axmos-db/src/multithreading/coordinator.rs : enum ValidationResult
//@end
pub struct TransactionCoordinator {
    pub transactions: Shared<HashMap<TransactionId, TransactionMetadata>>,
    pub pager: Shared<Pager>,
    pub commit_counter: Counter,
    pub tuple_commits: Shared<HashMap<LogicalId, u64>>,
}
#[verifier::external_body] pub struct CommitHandle {}
//@extract crates/axmos-db/src/multithreading/coordinator.rs : struct TransactionHandle
//@end

pub open spec fn tab(c: TransactionCoordinator) -> Map<u64, TransactionMetadata> { c.transactions.v@ }
pub open spec fn hdr(c: TransactionCoordinator) -> PageZeroHeader { c.pager.v.header }
pub open spec fn unfinished_st(s: TransactionState) -> bool { s is Active || s is Committing }
pub open spec fn wf(c: TransactionCoordinator) -> bool {
    (forall|t: u64| #[trigger] tab(c).contains_key(t) ==> t < hdr(c).last_created_transaction && tab(c)[t].start_ts <= c.commit_counter.v
        && (tab(c)[t].state is Committed ==> t <= hdr(c).last_committed_transaction))
    && (forall|w: LogicalId| #[trigger] c.tuple_commits.v@.contains_key(w) ==> c.tuple_commits.v@[w] < c.commit_counter.v)
}
/// only `txid` may differ
pub open spec fn others(a: Map<u64, TransactionMetadata>, b: Map<u64, TransactionMetadata>, txid: u64) -> bool {
    a.dom() =~= b.dom() && forall|t: u64| t != txid && #[trigger] a.contains_key(t) ==> a[t] == b[t]
}
/// the snapshot that describes the transaction table
pub open spec fn snap_of(m: Map<u64, TransactionMetadata>, committed: u64, s: Snapshot) -> bool {
    (forall|t: u64| #[trigger] s.active_txs@.contains(t) <==> m.contains_key(t) && unfinished_st(m[t].state))
    && (forall|t: u64| #[trigger] s.aborted_txs@.contains(t) <==> m.contains_key(t) && m[t].state is Aborted)
    && s.xmax == Some(committed) && (forall|t: u64| #[trigger] s.active_txs@.contains(t) ==> s.xmin <= t)
}
/// C04/C02/C03: a snapshot counts a tracked transaction as committed exactly if it is
pub proof fn thm_snapshot_exact(c: TransactionCoordinator, s: Snapshot, t: u64)
    requires wf(c), snap_of(tab(c), hdr(c).last_committed_transaction, s), tab(c).contains_key(t),
    ensures seen(s, t) <==> tab(c)[t].state is Committed
{ }
/// ... and never one that begins later
pub proof fn thm_snapshot_no_future(c: TransactionCoordinator, s: Snapshot, t: u64)
    requires wf(c), snap_of(tab(c), hdr(c).last_committed_transaction, s), t >= hdr(c).last_created_transaction,
        hdr(c).last_committed_transaction < hdr(c).last_created_transaction,
    ensures !seen(s, t)
{ }

//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn get_last_committed
//@rewrite &self ==> pager: &Shared<Pager>
//@rewrite self\.pager ==> pager
//@ret r
//@spec
    ensures r == pager.v.header.last_committed_transaction
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn get_last_created
//@ret r
//@spec
    ensures r == hdr(*self).last_created_transaction
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn snapshot_of
//@rewrite &self ==> pager: &Shared<Pager>
//@rewrite self\.get_last_committed\(\) ==> Self::get_last_committed(pager)
//@rewrite \.filter\(\|\(_, entry\)\| \{(.*?)\}\)\s*\.map\(\|\(id, _\)\| \*id\)\s*\.collect\(\) ==> .filter(|entry: &TransactionMetadata| -> (r: bool) ensures r == unfinished_st(entry.state) {\1}).shim_ids()
//@rewrite \.filter\(\|\(_, entry\)\| (entry[^;\n]*)\)\s*\.map\(\|\(id, _\)\| \*id\)\s*\.collect\(\) ==> .filter(|entry: &TransactionMetadata| -> (r: bool) ensures r == (entry.state is Aborted) { \1 }).shim_ids()
//@rewrite active\.iter\(\)\.min\(\)\.copied\(\)\.unwrap_or\((.*?)\) ==> shim_set_min(&active, \1)
//@ret r
//@spec
    ensures snap_of(txs@, pager.v.header.last_committed_transaction, r), r.xid == txid
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn unfinished
//@rewrite \.filter\(\|\(_, entry\)\| \{(.*?)\}\)\s*\.map\(\|\(id, _\)\| \*id\)\s*\.collect\(\) ==> .filter(|entry: &TransactionMetadata| -> (r: bool) ensures r == unfinished_st(entry.state) {\1}).shim_id_vec()
//@ret r
//@spec
    ensures forall|t: u64| #[trigger] r@.to_set().contains(t) <==> tab(*self).contains_key(t) && unfinished_st(tab(*self)[t].state)
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn has_untracked
//@rewrite \.any\(\|\(id, entry\)\| \{(.*?)\}\) ==> .any(|id: &u64, entry: &TransactionMetadata| -> (r: bool) ensures r == (!(entry.state is Committed) && *id >= 8192) {\1})
//@ret r
//@spec
    ensures r == exists|t: u64| tab(*self).contains_key(t) && !(tab(*self)[t].state is Committed) && t >= 8192
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn is_active
//@rewrite \.is_some_and\(\|entry\| (.*?)\)\n ==> .is_some_and(|entry: &TransactionMetadata| -> (r: bool) ensures r == (entry.state is Active) { \1 })\n
//@ret r
//@spec
    ensures r == (tab(*self).contains_key(txid) && tab(*self)[txid].state is Active)
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn is_aborted
//@rewrite \.is_some_and\(\|entry\| (.*?)\)\n ==> .is_some_and(|entry: &TransactionMetadata| -> (r: bool) ensures r == (entry.state is Aborted) { \1 })\n
//@ret r
//@spec
    ensures r == (tab(*self).contains_key(txid) && tab(*self)[txid].state is Aborted)
//@end

//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn begin
//@rewrite &self ==> &mut self
//@rewrite drop\(txs\); ==>
//@rewrite self\.snapshot_of\(&txs, ==> Self::snapshot_of(&self.pager, txs,
//@rewrite Some\(CommitHandle::new\(self\.clone\(\)\)\) ==> None
//@ret r
//@spec
    requires wf(*old(self)), hdr(*old(self)).last_created_transaction < u64::MAX,
        hdr(*old(self)).last_committed_transaction <= hdr(*old(self)).last_created_transaction,
    ensures wf(*final(self)), match r {
        Ok(h) => h.id == hdr(*old(self)).last_created_transaction
            && snap_of(tab(*old(self)), hdr(*old(self)).last_committed_transaction, h.snapshot) && h.snapshot.xid == h.id
            && tab(*final(self)) =~= tab(*old(self)).insert(h.id, tab(*final(self))[h.id])
            && tab(*final(self))[h.id].state is Active && tab(*final(self))[h.id].snapshot == h.snapshot
            && tab(*final(self))[h.id].write_set@ == Map::<LogicalId, u8>::empty()
            && tab(*final(self))[h.id].start_ts == old(self).commit_counter.v
            && hdr(*final(self)) == (PageZeroHeader { last_created_transaction: (hdr(*old(self)).last_created_transaction + 1) as u64, ..hdr(*old(self)) })
            && final(self).tuple_commits == old(self).tuple_commits && final(self).commit_counter == old(self).commit_counter,
        Err(_) => false },
//@end

pub proof fn push_contains<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures forall|x: T| #[trigger] s.take(i + 1).contains(x) <==> s.take(i).contains(x) || x == s[i]
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert forall|x: T| #[trigger] s.take(i + 1).contains(x) <==> s.take(i).contains(x) || x == s[i] by {
        let a = s.take(i); let b = s.take(i + 1);
        if a.contains(x) { let k = a.index_of(x); assert(b[k] == x); }
        if x == s[i] { assert(b[i] == x); }
        if b.contains(x) { let k = b.index_of(x); if k < i { assert(a[k] == x); } }
    }
}
pub open spec fn conflict(c: TransactionCoordinator, txid: u64) -> bool {
    exists|w: LogicalId| #[trigger] tab(c)[txid].write_set@.contains_key(w) && c.tuple_commits.v@.contains_key(w)
        && c.tuple_commits.v@[w] >= tab(c)[txid].start_ts
}
pub open spec fn can_go(a: TransactionState, b: TransactionState) -> bool {
    a is Active || (a is Committing && (b is Committed || b is Aborted))
}
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn set_transaction_state
//@rewrite &self ==> &mut self
//@ret r
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).commit_counter == old(self).commit_counter, final(self).pager == old(self).pager,
        match r {
            Ok(_) => tab(*old(self)).contains_key(txid) && can_go(tab(*old(self))[txid].state, state) && others(tab(*old(self)), tab(*final(self)), txid)
                && tab(*final(self))[txid] == (TransactionMetadata { state, ..tab(*old(self))[txid] }),
            Err(_) => tab(*final(self)) =~= tab(*old(self)) && !(tab(*old(self)).contains_key(txid) && can_go(tab(*old(self))[txid].state, state)) },
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn validate_write_set
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite &self ==> &mut self
//@rewrite entry\.write_set\(\)\.keys\(\)\.copied\(\)\.collect\(\) ==> entry.write_set().shim_key_vec()
//@rewrite Some\(&(\w+)\) = (tuple_commits\.get\(\w+\)) ==> Some(\1) = shim_copied(\2)
//@ret r
//@spec
    requires wf(*old(self)), old(self).commit_counter.v < u64::MAX,
    ensures final(self).pager == old(self).pager,
        match r {
            Ok(ValidationResult::Allowed) => tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active && !conflict(*old(self), txid)
                && others(tab(*old(self)), tab(*final(self)), txid)
                && tab(*final(self))[txid] == (TransactionMetadata { state: TransactionState::Committing, ..tab(*old(self))[txid] })
                && final(self).commit_counter.v == old(self).commit_counter.v + 1
                && (forall|w: LogicalId| #[trigger] final(self).tuple_commits.v@.contains_key(w) <==> old(self).tuple_commits.v@.contains_key(w) || tab(*old(self))[txid].write_set@.contains_key(w))
                && (forall|w: LogicalId| #[trigger] tab(*old(self))[txid].write_set@.contains_key(w) ==> final(self).tuple_commits.v@[w] == old(self).commit_counter.v)
                && (forall|w: LogicalId| #[trigger] old(self).tuple_commits.v@.contains_key(w) && !tab(*old(self))[txid].write_set@.contains_key(w) ==> final(self).tuple_commits.v@[w] == old(self).tuple_commits.v@[w]),
            Ok(ValidationResult::Conflict(w)) => tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active && conflict(*old(self), txid)
                && tab(*old(self))[txid].write_set@.contains_key(w)
                && others(tab(*old(self)), tab(*final(self)), txid) && tab(*final(self))[txid] == (TransactionMetadata { state: TransactionState::Committing, ..tab(*old(self))[txid] })
                && final(self).tuple_commits == old(self).tuple_commits && final(self).commit_counter == old(self).commit_counter,
            Err(_) => tab(*final(self)) =~= tab(*old(self)) && final(self).tuple_commits == old(self).tuple_commits && final(self).commit_counter == old(self).commit_counter
                && !(tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active) },
//@iter 0 it
//@loop 0
    invariant
        write_set@.to_set() == tab(*old(self))[txid].write_set@.dom(), start_ts == tab(*old(self))[txid].start_ts,
        *tuple_commits == old(self).tuple_commits.v,
        forall|k: int| 0 <= k < it.index@ ==> !(#[trigger] tuple_commits@.contains_key(write_set@[k]) && tuple_commits@[write_set@[k]] >= start_ts),
//@at loop 0 body-start
    proof { assert(write_set@.to_set().contains(*logical_id)); }
//@iter 1 it
//@loop 1
    invariant
        write_set@.to_set() == tab(*old(self))[txid].write_set@.dom(),
        forall|w: LogicalId| #[trigger] tuple_commits@.contains_key(w) <==> old(self).tuple_commits.v@.contains_key(w) || write_set@.take(it.index@).contains(w),
        forall|w: LogicalId| #[trigger] write_set@.take(it.index@).contains(w) ==> tuple_commits@[w] == commit_ts,
        forall|w: LogicalId| #[trigger] old(self).tuple_commits.v@.contains_key(w) && !write_set@.take(it.index@).contains(w) ==> tuple_commits@[w] == old(self).tuple_commits.v@[w],
//@at loop 1 body-end
    proof { push_contains(write_set@, it.index@); }
//@at before Ok ( ValidationResult :: Allowed )
    proof { assert(write_set@.take(write_set@.len() as int) =~= write_set@); }
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn abort
//@rewrite &self ==> &mut self
//@ret r
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).commit_counter == old(self).commit_counter,
        match r {
            Ok(_) => tab(*old(self)).contains_key(txid) && others(tab(*old(self)), tab(*final(self)), txid)
                && tab(*final(self))[txid] == (TransactionMetadata { state: TransactionState::Aborted, ..tab(*old(self))[txid] })
                && same_but_bitmap(hdr(*old(self)), hdr(*final(self)))
                && forall|id: u64| #[trigger] aborted_of(hdr(*final(self)), id) == (aborted_of(hdr(*old(self)), id) || (id == txid && txid < 8192)),
            Err(_) => tab(*final(self)) =~= tab(*old(self)) && final(self).pager == old(self).pager && !tab(*old(self)).contains_key(txid) },
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn commit
//@rewrite &self ==> &mut self
//@ret r
//@spec
    requires wf(*old(self)), old(self).commit_counter.v < u64::MAX,
    ensures wf(*final(self)),
        match r {
            Ok(_) => tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active && !conflict(*old(self), txid)
                && others(tab(*old(self)), tab(*final(self)), txid)
                && tab(*final(self))[txid] == (TransactionMetadata { state: TransactionState::Committed, ..tab(*old(self))[txid] })
                && final(self).commit_counter.v == old(self).commit_counter.v + 1
                && (forall|w: LogicalId| #[trigger] tab(*old(self))[txid].write_set@.contains_key(w) ==>
                    final(self).tuple_commits.v@.contains_key(w) && final(self).tuple_commits.v@[w] == old(self).commit_counter.v)
                && (forall|w: LogicalId| #[trigger] old(self).tuple_commits.v@.contains_key(w) ==>
                    final(self).tuple_commits.v@.contains_key(w) && final(self).tuple_commits.v@[w] >= old(self).tuple_commits.v@[w])
                && hdr(*final(self)) == (PageZeroHeader { last_committed_transaction:
                    if txid > hdr(*old(self)).last_committed_transaction { txid } else { hdr(*old(self)).last_committed_transaction }, ..hdr(*old(self)) }),
            Err(_) => (forall|t: u64| t != txid && #[trigger] tab(*old(self)).contains_key(t) ==> tab(*final(self))[t] == tab(*old(self))[t])
                && tab(*final(self)).dom() =~= tab(*old(self)).dom()
                && final(self).tuple_commits == old(self).tuple_commits && final(self).commit_counter == old(self).commit_counter
                && (tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active ==>
                    conflict(*old(self), txid) && tab(*final(self))[txid].state is Aborted && (txid < 8192 ==> aborted_of(hdr(*final(self)), txid))) },
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn record_write
//@rewrite &self ==> &mut self
//@ret r
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).commit_counter == old(self).commit_counter, final(self).pager == old(self).pager,
        match r {
            Ok(_) => tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active && others(tab(*old(self)), tab(*final(self)), txid)
                && tab(*final(self))[txid] == (TransactionMetadata { write_set: tab(*final(self))[txid].write_set, ..tab(*old(self))[txid] })
                && tab(*final(self))[txid].write_set@ == tab(*old(self))[txid].write_set@.insert(logical_id, version),
            Err(_) => tab(*final(self)) =~= tab(*old(self)) && !(tab(*old(self)).contains_key(txid) && tab(*old(self))[txid].state is Active) },
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn record_read
//@rewrite &self ==> &mut self
//@ret r
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).commit_counter == old(self).commit_counter, final(self).pager == old(self).pager,
        match r {
            Ok(_) => tab(*old(self)).contains_key(txid) && others(tab(*old(self)), tab(*final(self)), txid)
                && tab(*final(self))[txid] == (TransactionMetadata { read_set: tab(*final(self))[txid].read_set, ..tab(*old(self))[txid] }),
            Err(_) => tab(*final(self)) =~= tab(*old(self)) },
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn cleanup_tuple_commits
//@rewrite &self ==> &mut self
//@rewrite retain\(\|_, &mut commit_ts\| (.*?)\); ==> retain(|_w: &LogicalId, commit_ts: &u64| -> (r: bool) ensures r == (*commit_ts >= min_active_start_ts) { let commit_ts = *commit_ts; \1 });
//@spec
    ensures tab(*final(self)) == tab(*old(self)), final(self).pager == old(self).pager, final(self).commit_counter == old(self).commit_counter,
        forall|w: LogicalId| #[trigger] final(self).tuple_commits.v@.contains_key(w) ==> old(self).tuple_commits.v@.contains_key(w) && final(self).tuple_commits.v@[w] == old(self).tuple_commits.v@[w],
        forall|w: LogicalId| #[trigger] old(self).tuple_commits.v@.contains_key(w) && old(self).tuple_commits.v@[w] >= min_active_start_ts ==> final(self).tuple_commits.v@.contains_key(w),
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn cleanup_old_transactions
//@rewrite &self ==> &mut self
//@rewrite retain\(\|id, entry\| \{(.*?)\}\); ==> retain(|id: &u64, entry: &TransactionMetadata| -> (r: bool) ensures r == (entry.state is Active || *id >= min_active_xid) {\1});
//@ret r
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).pager == old(self).pager, final(self).commit_counter == old(self).commit_counter,
        forall|t: u64| #[trigger] tab(*final(self)).contains_key(t) <==> tab(*old(self)).contains_key(t) && (tab(*old(self))[t].state is Active || t >= min_active_xid),
        forall|t: u64| #[trigger] tab(*final(self)).contains_key(t) ==> tab(*final(self))[t] == tab(*old(self))[t],
        forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) && (tab(*old(self))[t].state is Active || t >= min_active_xid) ==> tab(*final(self)).contains_key(t),
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn get_min_active_start_ts
//@rewrite \.filter\(\|entry\| (.*?)\)\s*\.map\(\|entry\| (.*?)\)\s*\.min\(\)\s*\.unwrap_or\((.*)\)\n ==> .filter(|entry: &TransactionMetadata| -> (r: bool) ensures r == (entry.state is Active) { \1 }).shim_min_by(|entry: &TransactionMetadata| -> (r: u64) ensures r == entry.start_ts { \2 }, \3)\n
//@ret r
//@spec
    requires wf(*self)
    ensures forall|t: u64| #[trigger] tab(*self).contains_key(t) && tab(*self)[t].state is Active ==> r <= tab(*self)[t].start_ts,
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn vacuum_transactions
//@rewrite &self ==> &mut self
//@rewrite self\.get_last_committed\(\) ==> Self::get_last_committed(&self.pager)
//@ret r
//@spec
    requires wf(*old(self))
    ensures wf(*final(self)), final(self).pager == old(self).pager, final(self).commit_counter == old(self).commit_counter,
        // unfinished writers keep everything validation needs
        forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) && tab(*old(self))[t].state is Active ==> tab(*final(self)).contains_key(t) && tab(*final(self))[t] == tab(*old(self))[t],
        forall|t: u64, w: LogicalId| #[trigger] tab(*old(self)).contains_key(t) && tab(*old(self))[t].state is Active && #[trigger] old(self).tuple_commits.v@.contains_key(w) && old(self).tuple_commits.v@[w] >= tab(*old(self))[t].start_ts
            ==> final(self).tuple_commits.v@.contains_key(w) && final(self).tuple_commits.v@[w] == old(self).tuple_commits.v@[w],
        // whoever is forgotten is below the last commit: it then counts as committed
        forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) && t >= hdr(*old(self)).last_committed_transaction ==> tab(*final(self)).contains_key(t),
//@end
//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn load_aborted_transactions
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite &self ==> &mut self
//@rewrite retain\(\|txid, entry\| \{(.*?)aborted_txs\.contains\(txid\)(.*?)\}\); ==> retain(|txid: &u64, entry: &TransactionMetadata| -> (r: bool) ensures r == (!(entry.state is Aborted) || aborted_txs@.contains(*txid)) {\1shim_contains(&aborted_txs, txid)\2});
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).pager == old(self).pager, final(self).commit_counter == old(self).commit_counter,
        forall|t: u64| #[trigger] tab(*final(self)).contains_key(t) <==>
            (tab(*old(self)).contains_key(t) && !(tab(*old(self))[t].state is Aborted)) || aborted_of(hdr(*old(self)), t),
        forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) && tab(*final(self)).contains_key(t) ==> tab(*final(self))[t] == tab(*old(self))[t],
        forall|t: u64| #[trigger] tab(*final(self)).contains_key(t) && !tab(*old(self)).contains_key(t) ==> tab(*final(self))[t].state is Aborted,
//@iter 0 it
//@loop 0
    invariant
        forall|t: u64| #[trigger] txs@.contains_key(t) <==> (tab(*old(self)).contains_key(t) && (!(tab(*old(self))[t].state is Aborted) || all.contains(t))) || all.take(it.index@).contains(t),
        forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) && txs@.contains_key(t) ==> txs@[t] == tab(*old(self))[t],
        forall|t: u64| #[trigger] txs@.contains_key(t) && !tab(*old(self)).contains_key(t) ==> txs@[t].state is Aborted,
//@at loop 0 body-end
    proof { push_contains(all, it.index@); }
//@at loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
//@at loop 0 before
    let ghost all = aborted_txs@;
//@end

//@extract crates/axmos-db/src/multithreading/coordinator.rs : impl TransactionCoordinator / fn abort_all
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite &self ==> &mut self
//@rewrite for \(id, entry\) in txs\.iter_mut\(\) ==> let ids = txs.shim_key_vec(); for id in it: ids.iter()
//@rewrite drop\(pager\); ==>
//@ret r
//@spec
    ensures final(self).tuple_commits == old(self).tuple_commits, final(self).commit_counter == old(self).commit_counter,
        tab(*final(self)).dom() =~= tab(*old(self)).dom(),
        forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) ==> tab(*final(self))[t] ==
            (if tab(*old(self))[t].state is Active { TransactionMetadata { state: TransactionState::Aborted, ..tab(*old(self))[t] } } else { tab(*old(self))[t] }),
        forall|t: u64| #[trigger] r@.contains(t) <==> tab(*old(self)).contains_key(t) && tab(*old(self))[t].state is Active,
        same_but_bitmap(hdr(*old(self)), hdr(*final(self))),
        forall|t: u64| #[trigger] aborted_of(hdr(*final(self)), t) == (aborted_of(hdr(*old(self)), t) || (t < 8192 && r@.contains(t))),
//@loop 0
    invariant
        ids@.to_set() == tab(*old(self)).dom(),
        txs@.dom() =~= tab(*old(self)).dom(),
        ids@.no_duplicates(),
        forall|t: u64| #[trigger] txs@.contains_key(t) ==> txs@[t] ==
            (if tab(*old(self))[t].state is Active && ids@.take(it.index@).contains(t) { TransactionMetadata { state: TransactionState::Aborted, ..tab(*old(self))[t] } } else { tab(*old(self))[t] }),
        forall|t: u64| #[trigger] aborted@.contains(t) <==> tab(*old(self)).contains_key(t) && tab(*old(self))[t].state is Active && ids@.take(it.index@).contains(t),
//@at loop 0 body-start
    proof { assert(ids@.to_set().contains(*id)); not_yet(ids@, it.index@); }
    let ghost a0 = aborted@;
    let entry = txs.get_mut(id).unwrap();
//@at loop 0 body-end
    proof {
        push_contains(ids@, it.index@);
        if aborted@ != a0 { assert(aborted@ == a0.push(*id)); pushed(a0, *id); }
    }
//@iter 1 it
//@loop 1
    invariant
        same_but_bitmap(hdr(*old(self)), pager.header),
        forall|t: u64| #[trigger] aborted_of(pager.header, t) == (aborted_of(hdr(*old(self)), t) || (t < 8192 && aborted@.take(it.index@).contains(t))),
//@at loop 0 after
    proof {
        assert(ids@.take(ids@.len() as int) =~= ids@);
        assert forall|t: u64| #[trigger] tab(*old(self)).contains_key(t) implies ids@.contains(t) by { assert(ids@.to_set().contains(t)); }
    }
//@at loop 1 body-end
    proof { push_contains(aborted@, it.index@); }
//@at loop 1 after
    proof { assert(aborted@.take(aborted@.len() as int) =~= aborted@); }
//@end
pub proof fn pushed<T>(s: Seq<T>, y: T) ensures forall|x: T| #[trigger] s.push(y).contains(x) <==> s.contains(x) || x == y {
    assert forall|x: T| #[trigger] s.push(y).contains(x) <==> s.contains(x) || x == y by {
        let b = s.push(y);
        if s.contains(x) { let k = s.index_of(x); assert(b[k] == x); }
        if x == y { assert(b[s.len() as int] == x); }
        if b.contains(x) { let k = b.index_of(x); if k < s.len() { assert(s[k] == x); } }
    }
}
pub proof fn not_yet<T>(s: Seq<T>, i: int) requires s.no_duplicates(), 0 <= i < s.len() ensures !s.take(i).contains(s[i]) {
    if s.take(i).contains(s[i]) { let k = s.take(i).index_of(s[i]); assert(s[k] == s[i]); }
}

// ------------------------------------------------------------------ what a statement may overwrite
pub struct RuntimeError { pub c: Option<TransactionError> }
impl From<TransactionError> for RuntimeError { #[verifier::external_body] fn from(e: TransactionError) -> RuntimeError { unimplemented!() } }
pub type RuntimeResult<T> = Result<T, RuntimeError>;
#[verifier::external_body] pub fn shim_into(e: TransactionError) -> (r: RuntimeError) { unimplemented!() }
/// `ThreadContext` without the pager and the catalog
pub struct ThreadContext { pub tid: TransactionId, pub snapshot: Snapshot, pub coordinator: Option<TransactionCoordinator> }
impl LogicalId { #[verifier::external_body] pub fn new(o: ObjectId, r: RowId) -> (l: Self) ensures l == LogicalId(o, r) { unimplemented!() } }
pub open spec fn rolled_back(c: ThreadContext, t: u64) -> bool {
    c.snapshot.aborted_txs@.contains(t) || (c.coordinator is Some && tab(c.coordinator->0).contains_key(t) && tab(c.coordinator->0)[t].state is Aborted)
}
//@extract crates/axmos-db/src/runtime/context.rs : impl ThreadContext / fn is_aborted
//@rewrite \.is_some_and\(\|coordinator\| (.*?)\)\n ==> .is_some_and(|coordinator: &TransactionCoordinator| -> (r: bool) ensures r == (tab(*coordinator).contains_key(tid) && tab(*coordinator)[tid].state is Aborted) { \1 })\n
//@ret r
//@spec
    ensures r == rolled_back(*self, tid)
//@end
//@extract crates/axmos-db/src/runtime/context.rs : impl ThreadContext / fn is_concurrent
//@ret r
//@spec
    ensures r == (creator != self.tid && !seen(self.snapshot, creator) && !rolled_back(*self, creator))
//@end
//@extract crates/axmos-db/src/runtime/context.rs : impl ThreadContext / fn record_write
//@rewrite &self ==> &mut self
//@rewrite coordinator\.record_write ==> self.coordinator.as_mut().unwrap().record_write
//@rewrite Err\((TransactionError::WriteWriteConflict\(.*?\))\.into\(\)\) ==> Err(shim_into(\1))
//@ret r
//@spec
    ensures
        r is Ok && old(self).coordinator is Some ==> {
            let c = old(self).coordinator->0; let d = final(self).coordinator->0;
            final(self).coordinator is Some
            // nobody else's deletion is overwritten ...
            && (deleted_by is Some ==> rolled_back(*old(self), deleted_by->0))
            // ... and the write takes part in validation
            && tab(c).contains_key(old(self).tid) && tab(c)[old(self).tid].state is Active
            && tab(d)[old(self).tid].write_set@.contains_key(LogicalId(table, row))
            && others(tab(c), tab(d), old(self).tid)
        },
        r is Err && old(self).coordinator is Some ==> final(self).coordinator is Some && tab(final(self).coordinator->0) =~= tab(old(self).coordinator->0),
//@end

// ------------------------------------------------------------------ VACUUM's decision
#[verifier::external_body] pub struct Tuple { p: u8 }
impl Tuple {
    pub uninterp spec fn sxmin(&self) -> u64;
    pub uninterp spec fn sxmax(&self) -> Option<u64>;
    #[verifier::external_body] pub fn xmin(&self) -> (r: TransactionId) ensures r == self.sxmin() { unimplemented!() }
    #[verifier::external_body] pub fn xmax(&self) -> (r: Option<TransactionId>) ensures r == self.sxmax() { unimplemented!() }
}
pub struct Catalog {}
//@extract crates/axmos-db/src/schema/catalog.rs : impl Catalog / fn is_removable
//@rewrite \.is_some_and\(\|xmax\| (.*?)\)\n ==> .is_some_and(|xmax: u64| -> (r: bool) ensures r == seen(*snapshot, xmax) { \1 })\n
//@ret r
//@spec
    ensures r == (snapshot.aborted_txs@.contains(tuple.sxmin()) || (tuple.sxmax() is Some && seen(*snapshot, tuple.sxmax()->0)))
//@end
/// finished transactions stay finished the same way, and new ones get new ids
pub open spec fn later(c: TransactionCoordinator, d: TransactionCoordinator) -> bool {
    wf(c) && wf(d) && hdr(c).last_committed_transaction <= hdr(d).last_committed_transaction
    && (forall|t: u64| #[trigger] tab(c).contains_key(t) && (tab(c)[t].state is Committed || tab(c)[t].state is Aborted) ==> tab(d).contains_key(t) && tab(d)[t].state == tab(c)[t].state)
    && (forall|t: u64| #[trigger] tab(d).contains_key(t) && !tab(c).contains_key(t) ==> t > hdr(c).last_committed_transaction)
}
/// C13: a row that VACUUM removes is visible to no snapshot taken then or later
pub proof fn thm_removed_rows_are_invisible(c: TransactionCoordinator, d: TransactionCoordinator, s: Snapshot, s2: Snapshot, xmin: u64, xmax: Option<u64>)
    requires later(c, d), snap_of(tab(c), hdr(c).last_committed_transaction, s), snap_of(tab(d), hdr(d).last_committed_transaction, s2),
        s.aborted_txs@.contains(xmin) || (xmax is Some && seen(s, xmax->0)),
    ensures !(seen(s2, xmin) && !(xmax is Some && seen(s2, xmax->0)))
{
    if s.aborted_txs@.contains(xmin) { assert(tab(c).contains_key(xmin)); assert(s2.aborted_txs@.contains(xmin)); }
    else {
        let x = xmax->0;
        if tab(c).contains_key(x) { assert(tab(c)[x].state is Committed); assert(tab(d)[x].state is Committed); assert(seen(s2, x)); }
        else { assert(x <= hdr(c).last_committed_transaction); assert(!tab(d).contains_key(x)); assert(seen(s2, x)); }
    }
}
/// C04: of two transactions that overlap in time and write the same row, at most one commits
fn thm_first_committer_wins(c: &mut TransactionCoordinator, w: LogicalId)
    requires wf(*old(c)), hdr(*old(c)).last_created_transaction < 1000, old(c).commit_counter.v < 1000,
        hdr(*old(c)).last_committed_transaction <= hdr(*old(c)).last_created_transaction,
{
    let a = c.begin();
    let b = c.begin();
    if let (Ok(a), Ok(b)) = (a, b) {
        assert(tab(*c).contains_key(a.id));
        assert(tab(*c)[a.id].state is Active);
        assert(tab(*c).contains_key(b.id) && tab(*c)[b.id].state is Active);
        let w1 = c.record_write(a.id, w, 0);
        assert(w1 is Ok);
        assert(tab(*c)[b.id].state is Active);
        let w2 = c.record_write(b.id, w, 0);
        assert(w2 is Ok);
        assert(tab(*c)[a.id].write_set@.contains_key(w));
        let r1 = c.commit(a.id);
        assert(tab(*c)[b.id].write_set@.contains_key(w));
        assert(r1 is Ok ==> c.tuple_commits.v@[w] >= tab(*c)[b.id].start_ts);
        let n = c.vacuum_transactions();
        let r2 = c.commit(b.id);
        assert(w1 is Ok && w2 is Ok);
        assert(!(r1 is Ok && r2 is Ok));
    }
}
}
