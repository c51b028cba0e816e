// The B+tree over a heap of pages: search, insertion point, and the redistribution of cells among pages.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, irrefutable_let_patterns, unreachable_code)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus!{
fn main(){}
global size_of usize == 8;
pub type PageId = u64;
pub const PAGE_ZERO: PageId = 0;
// ------------------------------------------------------------------ a page as its cells
/// A cell: its key as a rank in the order of keys, its payload, the child at its left, its storage size.
#[verifier::ext_equal]
pub struct C { pub key: int, pub val: int, pub left: Option<PageId>, pub size: nat }
#[verifier::ext_equal]
pub struct N { pub cells: Seq<C>, pub right: Option<PageId>, pub prev: Option<PageId>, pub next: Option<PageId> }
pub open spec fn with_left(c: C, l: Option<PageId>) -> C { C { left: l, ..c } }
#[verifier::external_body] pub struct OwnedCell { p: u8 }
#[verifier::external_body] pub struct CellRef { p: u8 }
pub struct CellHeader { pub left: Option<PageId> }
impl CellHeader { pub fn left_child(&self) -> (r: Option<PageId>) ensures r == self.left { self.left } }
impl CellRef {
    pub uninterp spec fn c(&self) -> C;
    #[verifier::external_body] pub fn metadata(&self) -> (r: CellHeader) ensures r.left == self.c().left { unimplemented!() }
    #[verifier::external_body] pub fn left_child(&self) -> (r: Option<PageId>) ensures r == self.c().left { unimplemented!() }
}
impl Clone for CellRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for CellRef {}
impl OwnedCell {
    pub uninterp spec fn c(&self) -> C;
    #[verifier::external_body] pub fn metadata(&self) -> (r: CellHeader) ensures r.left == self.c().left { unimplemented!() }
    #[verifier::external_body] pub fn storage_size(&self) -> (r: usize) ensures r == self.c().size { unimplemented!() }
    #[verifier::external_body] pub fn set_left_child(&mut self, l: Option<PageId>) ensures final(self).c() == with_left(old(self).c(), l) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: OwnedCell) ensures r.c() == self.c() { unimplemented!() }
}
pub open spec fn cs(v: Seq<OwnedCell>) -> Seq<C> { v.map_values(|x: OwnedCell| x.c()) }
#[verifier::external_body] pub struct BtreePage { p: u8 }
impl BtreePage {
    pub uninterp spec fn n(&self) -> N;
    pub uninterp spec fn pid(&self) -> PageId;
    #[verifier::external_body] pub fn id(&self) -> (r: PageId) ensures r == self.pid() { unimplemented!() }
    #[verifier::external_body] pub fn num_slots(&self) -> (r: usize) ensures r == self.n().cells.len(), r <= 65535 { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.n().cells.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn cell(&self, i: usize) -> (r: CellRef) requires i < self.n().cells.len() ensures r.c() == self.n().cells[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn right_child(&self) -> (r: Option<PageId>) ensures r == self.n().right { unimplemented!() }
    #[verifier::external_body] pub fn is_leaf(&self) -> (r: bool) ensures r == (self.n().right is None) { unimplemented!() }
    #[verifier::external_body] pub fn prev_sibling(&self) -> (r: Option<PageId>) ensures r == self.n().prev { unimplemented!() }
    #[verifier::external_body] pub fn next_sibling(&self) -> (r: Option<PageId>) ensures r == self.n().next { unimplemented!() }
    #[verifier::external_body] pub fn set_prev_sibling(&mut self, p: Option<PageId>) ensures final(self).n() == (N { prev: p, ..old(self).n() }), final(self).pid() == old(self).pid() { unimplemented!() }
    #[verifier::external_body] pub fn set_next_sibling(&mut self, p: Option<PageId>) ensures final(self).n() == (N { next: p, ..old(self).n() }), final(self).pid() == old(self).pid() { unimplemented!() }
    #[verifier::external_body] pub fn set_right_child(&mut self, p: Option<PageId>) ensures final(self).n() == (N { right: p, ..old(self).n() }), final(self).pid() == old(self).pid() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, cell: OwnedCell) -> (r: Result<(), BtreeError>) ensures final(self).pid() == old(self).pid(), r is Ok ==> final(self).n() == (N { cells: old(self).n().cells.push(cell.c()), ..old(self).n() }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: usize, cell: OwnedCell) -> (r: Result<usize, BtreeError>) requires i <= old(self).n().cells.len()
        ensures final(self).pid() == old(self).pid(), r is Ok ==> final(self).n() == (N { cells: old(self).n().cells.insert(i as int, cell.c()), ..old(self).n() }) { unimplemented!() }
    /// overwrites everything but the child pointer, which on leaves is absent
    #[verifier::external_body] pub fn replace(&mut self, i: usize, cell: OwnedCell) -> (r: Result<OwnedCell, BtreeError>) requires i < old(self).n().cells.len()
        ensures final(self).pid() == old(self).pid(), r is Ok ==> r->Ok_0.c() == old(self).n().cells[i as int] && final(self).n() == (N { cells: old(self).n().cells.update(i as int, cell.c()), ..old(self).n() }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, i: usize) -> (r: Result<OwnedCell, BtreeError>) requires i < old(self).n().cells.len()
        ensures final(self).pid() == old(self).pid(), r is Ok ==> r->Ok_0.c() == old(self).n().cells[i as int] && final(self).n() == (N { cells: old(self).n().cells.remove(i as int), ..old(self).n() }) { unimplemented!() }
    /// `drain(..).collect()`
    #[verifier::external_body] pub fn shim_drain(&mut self) -> (r: Vec<OwnedCell>) ensures final(self).pid() == old(self).pid(), cs(r@) == old(self).n().cells, r@.len() == old(self).n().cells.len(), final(self).n() == (N { cells: Seq::empty(), ..old(self).n() }) { unimplemented!() }
}
pub enum BtreeError { Io, BtreePageNotFound(PageId), BtreeUnintialized, TraversalEmpty, BtreeEmpty, InvalidIterator, InvalidPointer, DuplicatedKey, NonExistentKey, Other }
pub type BtreeResult<T> = Result<T, BtreeError>;
pub struct Position { pub page: PageId, pub at: usize }
pub type BtreePagePosition = Position;
impl Clone for Position { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Position {}
impl Position {
    pub fn new(page: PageId, at: usize) -> (r: Self) ensures r.page == page, r.at == at { Position { page, at } }
    pub fn start_pos(page: PageId) -> (r: Self) ensures r.page == page, r.at == 0 { Position { page, at: 0 } }
    pub fn entry(&self) -> (r: PageId) ensures r == self.page { self.page }
    pub fn slot(&self) -> (r: usize) ensures r == self.at { self.at }
}
//@extract crates/axmos-db/src/tree/bplustree.rs : enum SearchResult
//@end
//@extract crates/axmos-db/src/tree/bplustree.rs : enum NodeStatus
//@end
pub type Heap = Map<PageId, N>;
/// The pages of the tree, behind the pager and the latches.
#[verifier::external_body] pub struct SharedPager { p: u8 }
impl SharedPager {
    pub uninterp spec fn heap(&self) -> Heap;
    #[verifier::external_body] pub fn clone(&self) -> SharedPager { unimplemented!() }
}
/// the latches held and the path walked down to the leaf
#[verifier::external_body] pub struct Accessor { p: u8 }
impl Accessor { pub uninterp spec fn path(&self) -> Seq<Position>; }
#[verifier::external_body] pub struct Schema { p: u8 }
impl Schema { #[verifier::external_body] pub fn num_values(&self) -> usize { unimplemented!() } }
//@extract crates/axmos-db/src/tree/bplustree.rs : struct Btree
//@rewrite Btree<Acc>\s*where\s*Acc: TreeReader, ==> Btree
//@rewrite accessor: Option<Acc>, ==> accessor: Accessor,
//@end
/// the rank of the key laid out in `b` from `cursor` on
pub uninterp spec fn rank(b: Seq<u8>, cursor: usize) -> int;
pub struct CellComparator {}
impl CellComparator {
    #[verifier::external_body] pub fn new(schema: &Schema, pager: SharedPager) -> Self { unimplemented!() }
    /// the order of keys (C19) on the key in `target` and the key of the cell
    #[verifier::external_body] pub fn compare_cell_payload(&self, target: &[u8], cell: CellRef, cursor: usize) -> (r: BtreeResult<Ordering>)
        ensures match r { Ok(Ordering::Less) => rank(target@, cursor) < cell.c().key, Ok(Ordering::Equal) => rank(target@, cursor) == cell.c().key, Ok(Ordering::Greater) => rank(target@, cursor) > cell.c().key, Err(_) => true } { unimplemented!() }
}
impl Btree {
    pub open spec fn h(&self) -> Heap { self.pager.heap() }
    pub open spec fn path(&self) -> Seq<Position> { self.accessor.path() }
    /// everything but the pages and the path
    pub open spec fn fixed(&self, o: Btree) -> bool { self.root == o.root && self.num_siblings_per_side == o.num_siblings_per_side && self.min_keys == o.min_keys }
    #[verifier::external_body] pub fn get_page(&mut self, id: PageId) -> (r: BtreeResult<&BtreePage>)
        ensures final(self).h() == old(self).h(), final(self).path() == old(self).path(), final(self).fixed(*old(self)), r is Ok ==> old(self).h().dom().contains(id) && r->Ok_0.n() == old(self).h()[id] && r->Ok_0.pid() == id { unimplemented!() }
    /// `get_page_mut`
    #[verifier::external_body] pub fn get_page_mut(&mut self, id: PageId) -> (r: BtreeResult<&mut BtreePage>)
        ensures final(self).path() == old(self).path(), final(self).fixed(*old(self)), r is Ok ==> old(self).h().dom().contains(id) && (r->Ok_0).n() == old(self).h()[id] && (r->Ok_0).pid() == id && final(self).h() == old(self).h().insert(id, final(r->Ok_0).n()), r is Err ==> final(self).h() == old(self).h() { unimplemented!() }
    #[verifier::external_body] pub fn shim_release(&mut self, id: PageId) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn shim_clear(&mut self) ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)), final(self).path() == Seq::<Position>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn shim_push_position(&mut self, p: Position) ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)), final(self).path() == old(self).path().push(p) { unimplemented!() }
    #[verifier::external_body] pub fn shim_pop_position(&mut self) -> (r: Option<Position>) ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)),
        match r { Some(p) => old(self).path().len() > 0 && p == old(self).path().last() && final(self).path() == old(self).path().drop_last(), None => old(self).path().len() == 0 && final(self).path() == old(self).path() } { unimplemented!() }
    /// `pager.write().allocate_page::<BtreePage>()` (its contract: unit pager)
    #[verifier::external_body] pub fn shim_allocate(&mut self) -> (r: BtreeResult<PageId>) ensures final(self).path() == old(self).path(), final(self).fixed(*old(self)),
        r is Ok ==> r->Ok_0 != 0 && !old(self).h().dom().contains(r->Ok_0) && final(self).h() == old(self).h().insert(r->Ok_0, N { cells: Seq::empty(), right: None, prev: None, next: None }) { unimplemented!() }
    #[verifier::external_body] pub fn shim_dealloc(&mut self, id: PageId) -> (r: BtreeResult<()>) ensures final(self).path() == old(self).path(), final(self).fixed(*old(self)),
        r is Ok ==> old(self).h().dom().contains(id) && final(self).h() == old(self).h().remove(id) { unimplemented!() }
    /// a copy of the cell with an overflow chain of its own
    #[verifier::external_body] pub fn copy_cell(&self, cell: OwnedCell) -> (r: BtreeResult<OwnedCell>) ensures r is Ok ==> r->Ok_0.c().key == cell.c().key && r->Ok_0.c().left == cell.c().left { unimplemented!() }
}
// ------------------------------------------------------------------ the tree
pub open spec fn sorted(s: Seq<C>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key < (#[trigger] s[j]).key }
pub open spec fn kid(n: N, i: int) -> Option<PageId> { if i >= n.cells.len() { n.right } else { n.cells[i].left } }
pub open spec fn within(k: int, lo: Option<int>, hi: Option<int>) -> bool { (match lo { Some(l) => l <= k, None => true }) && (match hi { Some(u) => k < u, None => true }) }
pub open spec fn lo_at(n: N, i: int, lo: Option<int>) -> Option<int> { if i <= 0 { lo } else { Some(n.cells[i - 1].key) } }
pub open spec fn hi_at(n: N, i: int, hi: Option<int>) -> Option<int> { if i >= n.cells.len() { hi } else { Some(n.cells[i].key) } }
/// a subtree of height d with keys in [lo, hi)
pub open spec fn ok(h: Heap, id: PageId, d: nat, lo: Option<int>, hi: Option<int>) -> bool decreases d {
    &&& id != 0 && h.dom().contains(id) && sorted(h[id].cells)
    &&& forall|i: int| 0 <= i < h[id].cells.len() ==> within((#[trigger] h[id].cells[i]).key, lo, hi)
    &&& if d == 0 { h[id].right is None } else {
        &&& h[id].right is Some
        &&& forall|i: int| 0 <= i <= h[id].cells.len() ==> (#[trigger] kid(h[id], i)) is Some && ok(h, kid(h[id], i)->0, (d - 1) as nat, lo_at(h[id], i, lo), hi_at(h[id], i, hi))
    }
}
/// the page belongs to the subtree
pub open spec fn inn(h: Heap, id: PageId, d: nat, p: PageId) -> bool decreases d {
    p == id || d > 0 && exists|i: int| 0 <= i <= h[id].cells.len() && inn(h, (#[trigger] kid(h[id], i))->0, (d - 1) as nat, p)
}
/// no page belongs to it twice
pub open spec fn once(h: Heap, id: PageId, d: nat) -> bool decreases d {
    d > 0 ==> {
        &&& forall|i: int| 0 <= i <= h[id].cells.len() ==> !inn(h, (#[trigger] kid(h[id], i))->0, (d - 1) as nat, id) && once(h, kid(h[id], i)->0, (d - 1) as nat)
        &&& forall|i: int, j: int, p: PageId| 0 <= i < j <= h[id].cells.len() && #[trigger] inn(h, kid(h[id], i)->0, (d - 1) as nat, p) ==> !#[trigger] inn(h, kid(h[id], j)->0, (d - 1) as nat, p)
    }
}
/// the key is stored with this payload
pub open spec fn binds(h: Heap, id: PageId, d: nat, k: int, v: int) -> bool decreases d {
    if d == 0 { exists|i: int| 0 <= i < h[id].cells.len() && (#[trigger] h[id].cells[i]).key == k && h[id].cells[i].val == v }
    else { exists|i: int| 0 <= i <= h[id].cells.len() && binds(h, (#[trigger] kid(h[id], i))->0, (d - 1) as nat, k, v) }
}
pub open spec fn stored(h: Heap, id: PageId, d: nat, k: int) -> bool { exists|v: int| #[trigger] binds(h, id, d, k, v) }
pub proof fn lemma_within(h: Heap, id: PageId, d: nat, lo: Option<int>, hi: Option<int>, k: int, v: int) requires ok(h, id, d, lo, hi), binds(h, id, d, k, v) ensures within(k, lo, hi) decreases d
{
    if d == 0 { let i = choose|i: int| 0 <= i < h[id].cells.len() && (#[trigger] h[id].cells[i]).key == k && h[id].cells[i].val == v; assert(within(h[id].cells[i].key, lo, hi)); }
    else {
        let i = choose|i: int| 0 <= i <= h[id].cells.len() && binds(h, (#[trigger] kid(h[id], i))->0, (d - 1) as nat, k, v);
        lemma_within(h, kid(h[id], i)->0, (d - 1) as nat, lo_at(h[id], i, lo), hi_at(h[id], i, hi), k, v);
        if i > 0 { assert(within(h[id].cells[i - 1].key, lo, hi)); }
        if i < h[id].cells.len() { assert(within(h[id].cells[i].key, lo, hi)); }
    }
}
/// the child a key belongs to
pub open spec fn slot_for(n: N, k: int, i: int) -> bool { 0 <= i <= n.cells.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] n.cells[j]).key <= k) && (i < n.cells.len() ==> k < n.cells[i].key) }
pub proof fn lemma_descend(h: Heap, id: PageId, d: nat, lo: Option<int>, hi: Option<int>, k: int, i: int)
    requires ok(h, id, d, lo, hi), d > 0, within(k, lo, hi), slot_for(h[id], k, i)
    ensures kid(h[id], i) is Some, ok(h, kid(h[id], i)->0, (d - 1) as nat, lo_at(h[id], i, lo), hi_at(h[id], i, hi)), within(k, lo_at(h[id], i, lo), hi_at(h[id], i, hi)),
        forall|v: int| #[trigger] binds(h, id, d, k, v) <==> binds(h, kid(h[id], i)->0, (d - 1) as nat, k, v)
{
    let n = h[id]; let c = kid(n, i);
    if i > 0 { assert(n.cells[i - 1].key <= k); }
    assert forall|v: int| #[trigger] binds(h, id, d, k, v) implies binds(h, c->0, (d - 1) as nat, k, v) by {
        let j = choose|j: int| 0 <= j <= n.cells.len() && binds(h, (#[trigger] kid(n, j))->0, (d - 1) as nat, k, v);
        lemma_within(h, kid(n, j)->0, (d - 1) as nat, lo_at(n, j, lo), hi_at(n, j, hi), k, v);
        if j < i { assert(n.cells[j].key <= k); }
        if j > i { assert(n.cells[i].key > k); if j - 1 > i { assert(n.cells[i].key < n.cells[j - 1].key); } }
    }
    assert forall|v: int| binds(h, c->0, (d - 1) as nat, k, v) implies #[trigger] binds(h, id, d, k, v) by {}
}
pub proof fn lemma_height(h: Heap, id: PageId, d: nat, e: nat, lo: Option<int>, hi: Option<int>, lo2: Option<int>, hi2: Option<int>) requires ok(h, id, d, lo, hi), ok(h, id, e, lo2, hi2) ensures d == e decreases d
{ if d > 0 && e > 0 { assert(kid(h[id], 0) is Some); lemma_height(h, kid(h[id], 0)->0, (d - 1) as nat, (e - 1) as nat, lo_at(h[id], 0, lo), hi_at(h[id], 0, hi), lo_at(h[id], 0, lo2), hi_at(h[id], 0, hi2)); } }
pub open spec fn is_height(h: Heap, id: PageId, d: nat) -> bool { exists|lo: Option<int>, hi: Option<int>| #[trigger] ok(h, id, d, lo, hi) }
pub open spec fn height(h: Heap, id: PageId) -> nat { choose|d: nat| #[trigger] is_height(h, id, d) }
pub proof fn lemma_the_height(h: Heap, id: PageId, d: nat, lo: Option<int>, hi: Option<int>) requires ok(h, id, d, lo, hi) ensures height(h, id) == d
{ assert(is_height(h, id, d)); let e = height(h, id); assert(is_height(h, id, e)); let (lo2, hi2) = choose|lo2: Option<int>, hi2: Option<int>| #[trigger] ok(h, id, e, lo2, hi2); lemma_height(h, id, d, e, lo, hi, lo2, hi2); }
//@extract crates/axmos-db/src/tree/bplustree.rs : impl<Acc> Btree<Acc> / fn binary_search_page
//@header impl Btree
//@attrs
#[verifier::loop_isolation(false)]
//@ret r
//@spec
    requires sorted(page.n().cells)
    ensures match r { Ok(SearchResult::Found(p)) => p.page == page.pid() && p.at < page.n().cells.len() && page.n().cells[p.at as int].key == rank(search_key@, target_cursor),
        Ok(SearchResult::NotFound(p)) => p.page == page.pid() && p.at == page.n().cells.len() && forall|i: int| 0 <= i < page.n().cells.len() ==> (#[trigger] page.n().cells[i]).key != rank(search_key@, target_cursor), Err(_) => true }
//@loop 0
    invariant right <= last_slot, left <= right, slot_count == right - left, last_slot == page.n().cells.len(), last_slot <= 65535,
        forall|i: int| 0 <= i < left ==> (#[trigger] page.n().cells[i]).key < rank(search_key@, target_cursor), forall|i: int| right <= i < last_slot ==> (#[trigger] page.n().cells[i]).key > rank(search_key@, target_cursor)
    decreases right - left
//@end
//@extract crates/axmos-db/src/tree/bplustree.rs : impl<Acc> Btree<Acc> / fn find_child_on_page
//@header impl Btree
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite? matches!\(\s*(comparator\.compare_cell_payload\([^)]*\))\?,\s*Ordering::Less\s*\) ==> (match \1? { Ordering::Less => true, _ => false })
//@ret r
//@spec
    ensures match r { Ok(SearchResult::Found(p)) => slot_for(page.n(), rank(search_key@, target_cursor), p.at as int) && p.at < page.n().cells.len() && p.page == (match page.n().cells[p.at as int].left { Some(c) => c, None => PAGE_ZERO }),
        Ok(SearchResult::NotFound(p)) => slot_for(page.n(), rank(search_key@, target_cursor), p.at as int) && p.at == page.n().cells.len() && p.page == (match page.n().right { Some(c) => c, None => PAGE_ZERO }), Err(_) => true }
//@loop 0
    invariant num_slots == page.n().cells.len(), result == SearchResult::NotFound(Position { page: right_child, at: num_slots }), forall|j: int| 0 <= j < i ==> (#[trigger] page.n().cells[j]).key <= rank(search_key@, target_cursor)
    ensures match result { SearchResult::Found(p) => slot_for(page.n(), rank(search_key@, target_cursor), p.at as int) && p.at < page.n().cells.len() && p.page == (match page.n().cells[p.at as int].left { Some(c) => c, None => PAGE_ZERO }),
        SearchResult::NotFound(p) => slot_for(page.n(), rank(search_key@, target_cursor), p.at as int) && p.at == page.n().cells.len() && p.page == right_child }
//@end
//@extract crates/axmos-db/src/tree/bplustree.rs : impl<Acc> Btree<Acc> / fn find_child
//@header impl Btree
//@ret r
//@spec
    ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)), final(self).path() == old(self).path(), match r { Ok(SearchResult::Found(p)) | Ok(SearchResult::NotFound(p)) => old(self).h().dom().contains(page_id) && slot_for(old(self).h()[page_id], rank(search_key@, target_cursor), p.at as int) && p.page == (match kid(old(self).h()[page_id], p.at as int) { Some(c) => c, None => PAGE_ZERO }), Err(_) => true }
//@end
//@extract crates/axmos-db/src/tree/bplustree.rs : impl<Acc> Btree<Acc> / fn binary_search_key
//@header impl Btree
//@ret r
//@spec
    requires sorted(old(self).h()[page_id].cells)
    ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)), final(self).path() == old(self).path(), match r { Ok(SearchResult::Found(p)) => p.page == page_id && p.at < old(self).h()[page_id].cells.len() && old(self).h()[page_id].cells[p.at as int].key == rank(search_key@, target_cursor),
        Ok(SearchResult::NotFound(p)) => p.page == page_id && forall|i: int| 0 <= i < old(self).h()[page_id].cells.len() ==> (#[trigger] old(self).h()[page_id].cells[i]).key != rank(search_key@, target_cursor), Err(_) => true }
//@end
//@extract crates/axmos-db/src/tree/bplustree.rs : impl<Acc> Btree<Acc> / fn find_slot
//@header impl Btree
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@spec
    requires sorted(old(self).h()[page_id].cells)
    ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)), final(self).path() == old(self).path(), match r { Ok(SearchResult::Found(p)) => p.page == page_id && p.at < old(self).h()[page_id].cells.len() && spot(old(self).h()[page_id].cells, rank(search_key@, target_cursor), p.at as int),
        Ok(SearchResult::NotFound(p)) => p.page == page_id && spot(old(self).h()[page_id].cells, rank(search_key@, target_cursor), old(self).h()[page_id].cells.len() as int), Err(_) => true }
//@loop 0
    invariant num_slots == page.n().cells.len(), result == SearchResult::NotFound(Position { page: page_id, at: num_slots }), forall|j: int| 0 <= j < i ==> (#[trigger] page.n().cells[j]).key < rank(search_key@, target_cursor)
    ensures match result { SearchResult::Found(p) => p.page == page_id && p.at < page.n().cells.len() && spot(page.n().cells, rank(search_key@, target_cursor), p.at as int), SearchResult::NotFound(p) => p.page == page_id && spot(page.n().cells, rank(search_key@, target_cursor), page.n().cells.len() as int) }
//@end
/// where a new key goes
pub open spec fn spot(s: Seq<C>, k: int, i: int) -> bool { 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).key < k) && (forall|j: int| i <= j < s.len() ==> k <= (#[trigger] s[j]).key) }
/// the leaf is the one the key belongs to
pub open spec fn leaf_for(h: Heap, id: PageId, d: nat, k: int, leaf: PageId) -> bool decreases d {
    if d == 0 { leaf == id } else { exists|i: int| #[trigger] slot_for(h[id], k, i) && leaf_for(h, kid(h[id], i)->0, (d - 1) as nat, k, leaf) }
}
pub open spec fn tree_at(h: Heap, id: PageId, k: int) -> bool { exists|d: nat, lo: Option<int>, hi: Option<int>| #[trigger] ok(h, id, d, lo, hi) && within(k, lo, hi) }
//@extract crates/axmos-db/src/tree/bplustree.rs : impl<Acc> Btree<Acc> / fn page_search
//@header impl Btree
//@rewrite? let accessor = self\.accessor_mut\(\)\?;\s*accessor\.push_position\( ==> self.shim_push_position(
//@rewrite SearchResult::NotFound\((\w+)\) \| SearchResult::Found\(\w+\) => ==> SearchResult::NotFound(\1) | SearchResult::Found(\1) =>
//@ret r
//@spec
    requires tree_at(old(self).h(), page_id, rank(entry@, target_cursor))
    ensures final(self).h() == old(self).h(), final(self).fixed(*old(self)), match r { Ok(SearchResult::Found(p)) => ({ let h = old(self).h(); let d = height(h, page_id); leaf_for(h, page_id, d, rank(entry@, target_cursor), p.page) && p.at < h[p.page].cells.len() && h[p.page].cells[p.at as int].key == rank(entry@, target_cursor) && binds(h, page_id, d, rank(entry@, target_cursor), h[p.page].cells[p.at as int].val) }),
        Ok(SearchResult::NotFound(p)) => ({ let h = old(self).h(); let d = height(h, page_id); leaf_for(h, page_id, d, rank(entry@, target_cursor), p.page) && !stored(h, page_id, d, rank(entry@, target_cursor)) && final(self).path().len() == old(self).path().len() + d }), Err(_) => true }
    decreases height(old(self).h(), page_id)
//@at start
let ghost h = self.h(); let ghost k = rank(entry@, target_cursor);
let ghost (d, lo, hi) = choose|d: nat, lo: Option<int>, hi: Option<int>| #[trigger] ok(h, page_id, d, lo, hi) && within(k, lo, hi);
proof { lemma_the_height(h, page_id, d, lo, hi); }
//@at before return
proof { assert(h[page_id].right is None); assert(d == 0); }
//@at before self.page_search
proof {
    assert(d > 0); lemma_descend(h, page_id, d, lo, hi, k, position.at as int); let c = kid(h[page_id], position.at as int)->0;
    lemma_the_height(h, c, (d - 1) as nat, lo_at(h[page_id], position.at as int, lo), hi_at(h[page_id], position.at as int, hi));
    assert(tree_at(h, c, k)); assert(slot_for(h[page_id], k, position.at as int));
}
//@end
} // verus!
