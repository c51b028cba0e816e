// Slotted pages: the bytes of a page, its slot array and its cells.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, irrefutable_let_patterns, unreachable_code)]
use vstd::prelude::*;
use core::mem;
verus!{
fn main(){}
global size_of usize == 8;
pub type PageId = u64;
pub type Slot = u16;
pub const CELL_HEADER_SIZE: usize = 32;
//@extract crates/axmos-db/src/common/mod.rs : const CELL_ALIGNMENT
//@end
//@extract crates/axmos-db/src/common/mod.rs : const PAGE_ALIGNMENT
//@rewrite? MIN_PAGE_SIZE ==> 4096
//@end
// ------------------------------------------------------------------ std
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ErrorKind { InvalidInput, StorageFull, InvalidData, Other }
pub struct IoError { pub k: ErrorKind }
impl IoError { pub fn new(k: ErrorKind) -> (r: IoError) ensures r.k == k { IoError { k } } }
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; }
#[verifier::external_body] pub fn shim_sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { (a - b) as usize } else { 0 } { a.saturating_sub(b) }
#[verifier::external_body] pub fn shim_sat_sub32(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { (a - b) as u32 } else { 0 } { a.saturating_sub(b) }
/// (a * 3).div_ceil(4) without overflow
#[verifier::external_body] pub fn shim_sat_mul(a: usize, b: usize) -> (r: usize) ensures a * b <= usize::MAX ==> r == a * b { a.saturating_mul(b) }
#[verifier::external_body] pub fn shim_div_ceil(a: usize, b: usize) -> (r: usize) requires 0 < b < 1000, a <= 0xffff_ffff ensures r == (a + b - 1) / (b as int) { a.div_ceil(b) }
/// `n.next_multiple_of(m)`
#[verifier::external_body] pub fn shim_npo(n: u32, m: u32) -> (r: u32) requires 0 < m <= 65536, n <= 65536 ensures r % m == 0, n <= r < n + m { n.next_multiple_of(m) }
// ------------------------------------------------------------------ cells (contracts proved in the unit `cells`)
#[verifier::ext_equal]
pub struct K { pub left: Option<PageId>, pub b: Seq<u8>, pub ov: bool }
/// a cell: what it holds and the padded length of its payload
#[verifier::ext_equal]
pub struct Cell { pub k: K, pub cap: nat }
pub open spec fn sized(c: Cell) -> bool { c.cap % 8 == 0 && c.cap <= 0xffff_fff0 && c.k.b.len() <= c.cap }
pub open spec fn up8(n: int) -> int { (n + 7) / 8 * 8 }
#[verifier::external_body] pub struct CellRef { p: u8 }
#[verifier::external_body] pub struct OwnedCell { p: u8 }
impl CellRef {
    pub uninterp spec fn c(&self) -> Cell;
    #[verifier::external_body] pub fn total_size(&self) -> (r: usize) requires sized(self.c()) ensures r == 32 + self.c().cap { unimplemented!() }
    #[verifier::external_body] pub fn storage_size(&self) -> (r: usize) requires sized(self.c()) ensures r == 34 + self.c().cap { unimplemented!() }
    #[verifier::external_body] pub fn left_child(&self) -> (r: Option<PageId>) ensures r == self.c().k.left { unimplemented!() }
}
impl OwnedCell {
    pub uninterp spec fn c(&self) -> Cell;
    #[verifier::external_body] pub fn total_size(&self) -> (r: usize) requires sized(self.c()) ensures r == 32 + self.c().cap { unimplemented!() }
    #[verifier::external_body] pub fn storage_size(&self) -> (r: usize) requires sized(self.c()) ensures r == 34 + self.c().cap { unimplemented!() }
    #[verifier::external_body] pub fn full_data(&self) -> (r: &[u8]) ensures r@.len() == self.c().cap { unimplemented!() }
    #[verifier::external_body] pub fn as_cell_ref(&self) -> (r: CellRef) ensures r.c() == self.c() { unimplemented!() }
    #[verifier::external_body] pub fn from_ref(c: CellRef) -> (r: OwnedCell) requires sized(c.c()) ensures r.c().k == c.c().k, r.c().cap == up8(c.c().k.b.len() as int), sized(r.c()) { unimplemented!() }
}
// ------------------------------------------------------------------ the bytes of a page
/// the cell whose header begins at byte `o`
pub uninterp spec fn cell_in(m: Seq<u8>, o: int) -> Cell;
/// ... which is a matter of the bytes it covers
#[verifier::external_body] pub proof fn axiom_cell(a: Seq<u8>, i: int, b: Seq<u8>, j: int)
    requires 0 <= i, i + 32 + cell_in(a, i).cap <= a.len(), 0 <= j, j + 32 + cell_in(a, i).cap <= b.len(), forall|x: int| 0 <= x < 32 + cell_in(a, i).cap ==> a[i + x] == #[trigger] b[j + x]
    ensures cell_in(b, j) == cell_in(a, i) {}
/// slot `i`: two bytes
pub open spec fn slot_in(m: Seq<u8>, i: int) -> int { m[2 * i] as int + 256 * m[2 * i + 1] as int }
/// every byte from `from` on is as before
pub open spec fn same_from(a: Seq<u8>, b: Seq<u8>, from: int) -> bool { a.len() == b.len() && forall|x: int| from <= x < a.len() ==> #[trigger] b[x] == a[x] }
//@extract crates/axmos-db/src/storage/page.rs : struct BtreePageHeader
//@attrs
#[repr(C, align(8))]
#[derive(Clone, Copy)]
//@end
global layout BtreePageHeader is size == 80, align == 8;
//@extract crates/axmos-db/src/storage/page.rs : const BTREE_PAGE_HEADER_SIZE
//@rewrite mem::size_of::<BtreePageHeader>\(\) ==> 80
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreePageHeader / fn new
//@rewrite? (\w+)\.next_multiple_of\(PAGE_ALIGNMENT as u32\) ==> shim_npo(\1, PAGE_ALIGNMENT as u32)
//@rewrite? (\w+)\.saturating_sub\( ==> shim_sat_sub32(\1, 
//@ret r
//@spec
    requires page_size <= 65536
    ensures r.num_slots == 0, r.page_number == page_number, r.right_child is None, r.next_sibling is None, r.previous_sibling is None, r.free_space == r.free_space_ptr, page_size >= 4096 ==> r.free_space + 80 == r.page_size, r.page_size >= page_size, r.page_size % 4096 == 0, r.page_size < page_size + 4096
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn content_start_ptr
//@header impl BtreePageHeader
//@rewrite? mem::size_of::<Self>\(\) ==> mem::size_of::<BtreePageHeader>()
//@ret r
//@spec
    ensures 2 * self.num_slots + 80 <= 65535 ==> r == 2 * self.num_slots + 80
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn num_slots
//@header impl BtreePageHeader
//@ret r
//@spec
    ensures r == self.num_slots
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn free_space
//@header impl BtreePageHeader
//@ret r
//@spec
    ensures r == self.free_space
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn free_space_pointer
//@header impl BtreePageHeader
//@ret r
//@spec
    ensures r == self.free_space_ptr
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn right_child
//@header impl BtreePageHeader
//@ret r
//@spec
    ensures r == self.right_child
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn next_sibling
//@header impl BtreePageHeader
//@ret r
//@spec
    ensures r == self.next_sibling
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn prev_sibling
//@header impl BtreePageHeader
//@ret r
//@spec
    ensures r == self.previous_sibling
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn add_free_space
//@header impl BtreePageHeader
//@spec
    requires old(self).free_space + space <= u32::MAX
    ensures *final(self) == (BtreePageHeader { free_space: (old(self).free_space + space) as u32, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn remove_free_space
//@header impl BtreePageHeader
//@spec
    requires old(self).free_space >= space
    ensures *final(self) == (BtreePageHeader { free_space: (old(self).free_space - space) as u32, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn free_space_pointer_up
//@header impl BtreePageHeader
//@spec
    requires old(self).free_space_ptr >= bytes
    ensures *final(self) == (BtreePageHeader { free_space_ptr: (old(self).free_space_ptr - bytes) as u32, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn free_space_pointer_down
//@header impl BtreePageHeader
//@spec
    requires old(self).free_space_ptr + bytes <= u32::MAX
    ensures *final(self) == (BtreePageHeader { free_space_ptr: (old(self).free_space_ptr + bytes) as u32, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn reset_free_space_pointer
//@header impl BtreePageHeader
//@spec
    requires true
    ensures *final(self) == (BtreePageHeader { free_space_ptr: offset, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn reset_free_space
//@header impl BtreePageHeader
//@spec
    requires true
    ensures *final(self) == (BtreePageHeader { free_space: bytes, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn reset_num_slots
//@header impl BtreePageHeader
//@spec
    requires num <= 65535
    ensures *final(self) == (BtreePageHeader { num_slots: num as u16, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn add_slots
//@header impl BtreePageHeader
//@spec
    requires old(self).num_slots + num <= 65535
    ensures *final(self) == (BtreePageHeader { num_slots: (old(self).num_slots + num) as u16, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn remove_slots
//@header impl BtreePageHeader
//@spec
    requires num <= old(self).num_slots
    ensures *final(self) == (BtreePageHeader { num_slots: (old(self).num_slots - num) as u16, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn set_next_sibling
//@header impl BtreePageHeader
//@spec
    requires true
    ensures *final(self) == (BtreePageHeader { next_sibling: next, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn set_prev_sibling
//@header impl BtreePageHeader
//@spec
    requires true
    ensures *final(self) == (BtreePageHeader { previous_sibling: prev, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl BtreeMetadata for BtreePageHeader / fn set_right_child
//@header impl BtreePageHeader
//@spec
    requires true
    ensures *final(self) == (BtreePageHeader { right_child: new_right, ..*old(self) })
//@end
/// A page of memory (`MemBlock<BtreePageHeader>`; raw pointers: assumed contracts): header `m`, then the data bytes `d`
pub struct BtreePage { pub m: BtreePageHeader, pub d: Vec<u8> }
impl BtreePage {
    pub open spec fn n(&self) -> int { self.m.num_slots as int }
    pub open spec fn slot(&self, i: int) -> int { slot_in(self.d@, i) }
    pub open spec fn at(&self, i: int) -> Cell { cell_in(self.d@, self.slot(i)) }
    pub open spec fn size(&self, i: int) -> int { 32 + self.at(i).cap as int }
    pub open spec fn sizes(&self) -> Seq<int> { Seq::new(self.n() as nat, |i: int| self.size(i)) }
    /// what the page holds
    pub open spec fn view(&self) -> Seq<K> { Seq::new(self.n() as nat, |i: int| self.at(i).k) }
    pub open spec fn capi(&self) -> int { self.d@.len() as int }
    pub open spec fn cell_ok(&self, i: int) -> bool { self.m.free_space_ptr <= self.slot(i) && self.slot(i) % 8 == 0 && self.slot(i) + self.size(i) <= self.capi() && sized(self.at(i)) }
    pub open spec fn apart(&self, i: int, j: int) -> bool { self.slot(i) + self.size(i) <= self.slot(j) || self.slot(j) + self.size(j) <= self.slot(i) }
    /// everything but the free-space count
    pub open spec fn laid(&self) -> bool {
        &&& 4000 <= self.capi() <= 65456 && self.capi() % 8 == 0
        &&& 2 * self.n() <= self.m.free_space_ptr <= self.capi() && self.m.free_space_ptr % 8 == 0
        &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] self.cell_ok(i)
        &&& forall|i: int, j: int| 0 <= i < j < self.n() ==> #[trigger] self.apart(i, j)
    }
    /// a sound page: cells lie apart from one another and from the slot array, and the free space is counted exactly
    pub open spec fn wf(&self) -> bool { self.laid() && self.m.free_space == self.capi() - sum(self.sizes()) - 2 * self.n() }
    pub open spec fn links_of(&self, o: BtreePage) -> bool { self.m.page_number == o.m.page_number && self.m.right_child == o.m.right_child && self.m.next_sibling == o.m.next_sibling && self.m.previous_sibling == o.m.previous_sibling && self.capi() == o.capi() }
    pub fn capacity(&self) -> (r: usize) ensures r == self.capi() { self.d.len() }
    pub fn usable_space(size: usize) -> (r: usize) requires size >= 80 ensures r == size - 80 { size - 80 }
    pub fn metadata(&self) -> (r: &BtreePageHeader) ensures *r == self.m { &self.m }
    pub fn metadata_mut(&mut self) -> (r: &mut BtreePageHeader) ensures *r == old(self).m, final(self).m == *final(r), final(self).d == old(self).d { &mut self.m }
    pub fn id(&self) -> (r: PageId) ensures r == self.m.page_number { self.m.page_number }
    #[verifier::external_body] pub fn write_item_to_offset(&mut self, offset: u64, c: CellRef) requires sized(c.c()), offset + 32 + c.c().cap <= old(self).capi()
        ensures final(self).m == old(self).m, final(self).capi() == old(self).capi(), cell_in(final(self).d@, offset as int) == c.c(),
            forall|x: int| 0 <= x < old(self).capi() && !(offset <= x < offset + 32 + c.c().cap) ==> #[trigger] final(self).d@[x] == old(self).d@[x] { unimplemented!() }
    /// `CellRef::from_raw(self.get_cell_at(i))`
    #[verifier::external_body] pub fn cell(&self, i: usize) -> (r: CellRef) requires i < self.n() ensures r.c() == self.at(i as int) { unimplemented!() }
    /// `CellRef::from_raw(self.item_at_offset(o)).total_size()`
    #[verifier::external_body] pub fn shim_size_at(&self, o: u16) -> (r: usize) requires o + 32 <= self.capi() ensures r == 32 + cell_in(self.d@, o as int).cap { unimplemented!() }
    /// `let mut c = self.cell_mut(i); c.full_data_mut()[..new.full_data().len()].copy_from_slice(new.full_data()); *c.metadata_mut() = *new.metadata();`
    #[verifier::external_body] pub fn shim_overwrite(&mut self, i: usize, new: &OwnedCell) requires i < old(self).n(), new.c().cap <= old(self).at(i as int).cap, sized(new.c())
        ensures final(self).m == old(self).m, final(self).capi() == old(self).capi(), cell_in(final(self).d@, old(self).slot(i as int)) == new.c(),
            forall|x: int| 0 <= x < old(self).capi() && !(old(self).slot(i as int) <= x < old(self).slot(i as int) + 32 + new.c().cap) ==> #[trigger] final(self).d@[x] == old(self).d@[x] { unimplemented!() }
    /// `self.slot_array_mut()[i] = v`
    #[verifier::external_body] pub fn shim_set_slot(&mut self, i: usize, v: u16) requires i < old(self).n(), 2 * old(self).n() <= old(self).capi()
        ensures final(self).m == old(self).m, same_from(old(self).d@, final(self).d@, 2 * old(self).n()), slot_in(final(self).d@, i as int) == v, forall|j: int| 0 <= j < old(self).n() && j != i ==> #[trigger] slot_in(final(self).d@, j) == slot_in(old(self).d@, j) { unimplemented!() }
    /// `self.slot_array_mut().copy_within(a..b, to)`
    #[verifier::external_body] pub fn shim_slots_copy(&mut self, a: usize, b: usize, to: usize) requires a <= b <= old(self).n(), to + (b - a) <= old(self).n(), 2 * old(self).n() <= old(self).capi()
        ensures final(self).m == old(self).m, same_from(old(self).d@, final(self).d@, 2 * old(self).n()),
            forall|j: int| 0 <= j < old(self).n() ==> #[trigger] slot_in(final(self).d@, j) == if to <= j < to + (b - a) { slot_in(old(self).d@, a + j - to) } else { slot_in(old(self).d@, j) } { unimplemented!() }
    /// `self.data_mut().copy_within(a..b, to)`
    #[verifier::external_body] pub fn shim_move(&mut self, a: usize, b: usize, to: usize) requires a <= b <= old(self).capi(), to + (b - a) <= old(self).capi()
        ensures final(self).m == old(self).m, final(self).capi() == old(self).capi(),
            forall|x: int| 0 <= x < old(self).capi() ==> #[trigger] final(self).d@[x] == if to <= x < to + (b - a) { old(self).d@[a + x - to] } else { old(self).d@[x] } { unimplemented!() }
}
/// `u32 -> u16` by `try_into().unwrap()`
pub fn shim_u16(v: u32) -> (r: u16) requires v <= 65535 ensures r == v { v as u16 }
/// BinaryHeap of (offset, slot index): pops the greatest offset first
#[verifier::external_body] pub struct Heap { p: u8 }
impl Heap {
    pub uninterp spec fn offs(&self) -> Seq<int>;
    pub uninterp spec fn left(&self) -> spec_fn(int) -> bool;
    pub uninterp spec fn count(&self) -> nat;
    #[verifier::external_body] pub fn shim_heap(p: &BtreePage) -> (r: Heap) ensures r.offs() == Seq::new(p.n() as nat, |i: int| p.slot(i)), forall|i: int| #[trigger] (r.left())(i) == (0 <= i < p.n()) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<(u16, usize)>)
        ensures final(self).offs() == old(self).offs(), r is None ==> (forall|i: int| !#[trigger] (old(self).left())(i)) && *final(self) == *old(self),
            r is Some ==> { let i = (r->0).1 as int; &&& (old(self).left())(i) &&& (r->0).0 as int == old(self).offs()[i] &&& final(self).count() < old(self).count()
                &&& forall|j: int| #[trigger] (final(self).left())(j) == ((old(self).left())(j) && j != i)
                &&& forall|j: int| #[trigger] (old(self).left())(j) ==> old(self).offs()[j] <= (r->0).0 as int } { unimplemented!() }
}
// ------------------------------------------------------------------ sums
pub open spec fn sum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }
pub proof fn lemma_sum_push(s: Seq<int>, v: int) ensures sum(s.push(v)) == sum(s) + v { assert(s.push(v).drop_last() =~= s); }
pub proof fn lemma_sum_insert(s: Seq<int>, i: int, v: int) requires 0 <= i <= s.len() ensures sum(s.insert(i, v)) == sum(s) + v decreases s.len()
{
    let t = s.insert(i, v);
    if i == s.len() { assert(t =~= s.push(v)); lemma_sum_push(s, v); }
    else { assert(t.drop_last() =~= s.drop_last().insert(i, v)); assert(t.last() == s.last()); lemma_sum_insert(s.drop_last(), i, v); }
}
pub proof fn lemma_sum_remove(s: Seq<int>, i: int) requires 0 <= i < s.len() ensures sum(s.remove(i)) == sum(s) - s[i]
{ assert(s.remove(i).insert(i, s[i]) =~= s); lemma_sum_insert(s.remove(i), i, s[i]); }
pub proof fn lemma_sum_update(s: Seq<int>, i: int, v: int) requires 0 <= i < s.len() ensures sum(s.update(i, v)) == sum(s) - s[i] + v
{ lemma_sum_remove(s, i); assert(s.update(i, v) =~= s.remove(i).insert(i, v)); lemma_sum_insert(s.remove(i), i, v); }
pub proof fn lemma_sum_pos(s: Seq<int>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 32 ensures sum(s) >= 32 * s.len() decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] >= 32 by { assert(d[i] == s[i]); } lemma_sum_pos(d); assert(s.last() == s[s.len() - 1]); } }
/// `s` without what `keep` drops
pub open spec fn kept(s: Seq<int>, keep: spec_fn(int) -> bool) -> Seq<int> { Seq::new(s.len(), |i: int| if keep(i) { s[i] } else { 0 }) }
// ------------------------------------------------------------------ cells stay what they are while their bytes are not touched
pub proof fn lemma_cells_same(a: BtreePage, b: BtreePage, from: int)
    requires a.capi() == b.capi(), same_from(a.d@, b.d@, from)
    ensures forall|o: int| #![trigger cell_in(b.d@, o)] from <= o && 0 <= o && o + 32 + cell_in(a.d@, o).cap <= a.capi() ==> cell_in(b.d@, o) == cell_in(a.d@, o)
{
    assert forall|o: int| #![trigger cell_in(b.d@, o)] from <= o && 0 <= o && o + 32 + cell_in(a.d@, o).cap <= a.capi() implies cell_in(b.d@, o) == cell_in(a.d@, o) by { axiom_cell(a.d@, o, b.d@, o); }
}
/// bytes outside [p, q) are as before: cells outside are too
pub proof fn lemma_cell_outside(a: BtreePage, b: BtreePage, p: int, q: int, o: int)
    requires a.capi() == b.capi(), forall|x: int| 0 <= x < a.capi() && !(p <= x < q) ==> #[trigger] b.d@[x] == a.d@[x], 0 <= o, o + 32 + cell_in(a.d@, o).cap <= a.capi(), o + 32 + cell_in(a.d@, o).cap <= p || q <= o
    ensures cell_in(b.d@, o) == cell_in(a.d@, o)
{ axiom_cell(a.d@, o, b.d@, o); }
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn num_slots
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.num_slots
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn free_space
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.free_space
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn free_space_pointer
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.free_space_ptr
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn right_child
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.right_child
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn next_sibling
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.next_sibling
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn prev_sibling
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.previous_sibling
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn content_start_ptr
//@header impl BtreePage
//@ret r
//@spec
    ensures 2 * self.m.num_slots + 80 <= 65535 ==> r == 2 * self.m.num_slots + 80
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn add_free_space
//@header impl BtreePage
//@spec
    requires old(self).m.free_space + space <= u32::MAX
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { free_space: (old(self).m.free_space + space) as u32, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn remove_free_space
//@header impl BtreePage
//@spec
    requires old(self).m.free_space >= space
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { free_space: (old(self).m.free_space - space) as u32, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn free_space_pointer_up
//@header impl BtreePage
//@spec
    requires old(self).m.free_space_ptr >= bytes
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { free_space_ptr: (old(self).m.free_space_ptr - bytes) as u32, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn free_space_pointer_down
//@header impl BtreePage
//@spec
    requires old(self).m.free_space_ptr + bytes <= u32::MAX
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { free_space_ptr: (old(self).m.free_space_ptr + bytes) as u32, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn reset_free_space_pointer
//@header impl BtreePage
//@spec
    requires true
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { free_space_ptr: offset, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn reset_free_space
//@header impl BtreePage
//@spec
    requires true
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { free_space: bytes, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn reset_num_slots
//@header impl BtreePage
//@spec
    requires num <= 65535
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { num_slots: num as u16, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn add_slots
//@header impl BtreePage
//@spec
    requires old(self).m.num_slots + num <= 65535
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { num_slots: (old(self).m.num_slots + num) as u16, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn remove_slots
//@header impl BtreePage
//@spec
    requires num <= old(self).m.num_slots
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { num_slots: (old(self).m.num_slots - num) as u16, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn set_next_sibling
//@header impl BtreePage
//@spec
    requires true
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { next_sibling: next, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn set_prev_sibling
//@header impl BtreePage
//@spec
    requires true
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { previous_sibling: prev, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeMetadata for MemBlock<M> / fn set_right_child
//@header impl BtreePage
//@spec
    requires true
    ensures final(self).d == old(self).d, final(self).m == (BtreePageHeader { right_child: new_right, ..old(self).m })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn max_payload_size_in
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires usable_space >= 34
    ensures r % 8 == 0, r <= usable_space - 34 < r + 8
//@at start
proof { assert(forall|v: usize| #![auto] (v & !7usize) <= v && (v & !7usize) % 8 == 0 && v - (v & !7usize) < 8) by (bit_vector); assert(!(sub(8usize, 1usize)) == !7usize) by (bit_vector); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn max_allowed_payload_size
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires 4000 <= self.capi() <= 65456
    ensures r % 8 == 0, r <= self.capi() - 34 < r + 8
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn overflow_threshold
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires 80 <= page_size <= 65536
    ensures r == ((page_size - 80) * 3 + 3) / 4
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn underflow_threshold
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires 80 <= page_size <= 65536
    ensures r == (page_size - 80 + 3) / 4
//@end
impl BtreePage {
    pub open spec fn used(&self) -> int { sum(self.sizes()) + 2 * self.n() }
    pub open spec fn most(&self) -> int { ((self.capi() - 80) * 3 + 3) / 4 }
    pub open spec fn least(&self) -> int { (self.capi() - 80 + 3) / 4 }
}
pub proof fn lemma_used(p: BtreePage) requires p.laid() ensures p.used() >= 34 * p.n(), p.used() >= 0
{ assert forall|i: int| 0 <= i < p.sizes().len() implies #[trigger] p.sizes()[i] >= 32 by {} lemma_sum_pos(p.sizes()); }
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn used_bytes
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires self.wf()
    ensures r == self.used()
//@at start
proof { lemma_used(*self); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn effective_free_space
//@header impl BtreePage
//@rewrite? self\.free_space_pointer\(\)\s*\.saturating_sub\( ==> shim_sat_sub32(self.free_space_pointer(), 
//@ret r
//@spec
    requires self.laid(), self.n() <= 32000
    ensures r == if self.m.free_space_ptr >= 2 * self.n() + 80 { self.m.free_space_ptr - (2 * self.n() + 80) } else { 0 }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn has_space_for
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires self.wf(), additional_space <= 0xffff_ffff
    ensures r == (self.used() + additional_space <= self.most())
//@at start
proof { lemma_used(*self); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn can_release_space
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires self.wf()
    ensures r == (self.least() <= if self.used() >= removable_space { self.used() - removable_space } else { 0 })
//@at start
proof { lemma_used(*self); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn has_overflown
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires self.wf()
    ensures r == (self.used() + 42 > self.most())
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn has_underflown
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires self.wf()
    ensures r == (self.least() > if self.used() >= 2 { self.used() - 2 } else { 0 })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn max_balanced_size
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@rewrite? ([\w.]+(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?)\.saturating_sub\( ==> shim_sat_sub(\1, 
//@rewrite? (Self::usable_space\(\w+\))\.saturating_mul\((\w+)\)\.div_ceil\((\w+)\) ==> shim_div_ceil(shim_sat_mul(\1, \2), \3)
//@rewrite? (Self::usable_space\(\w+\))\.div_ceil\((\w+)\) ==> shim_div_ceil(\1, \2)
//@ret r
//@spec
    requires 4000 <= self.capi() <= 65456
    ensures r == self.most() - 42
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn is_leaf
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.right_child is None
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn is_interior
//@header impl BtreePage
//@ret r
//@spec
    ensures r == self.m.right_child is Some
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn is_empty
//@header impl BtreePage
//@ret r
//@spec
    ensures r == (self.n() == 0)
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn child
//@header impl BtreePage
//@ret r
//@spec
    requires index <= self.n()
    ensures r == if index == self.n() { self.m.right_child } else { self.view()[index as int].left }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn owned_cell
//@header impl BtreePage
//@ret r
//@spec
    requires index < self.n(), sized(self.at(index as int))
    ensures r.c().k == self.view()[index as int], r.c().cap == up8(r.c().k.b.len() as int), sized(r.c())
//@end
/// cell `i` has not been touched
pub open spec fn stays(o: BtreePage, p: BtreePage, i: int) -> bool { p.slot(i) == o.slot(i) && p.at(i) == o.at(i) }
/// cell `i` has been moved to the packed region, which starts at `from`
pub open spec fn packed(o: BtreePage, p: BtreePage, from: int, i: int) -> bool { p.at(i) == o.at(i) && from <= p.slot(i) && p.slot(i) + p.size(i) <= p.capi() && p.slot(i) % 8 == 0 }
/// `l`: the cells still to be moved, all of them below `top`; the others are packed from `dest` on
pub open spec fn packing(o: BtreePage, p: BtreePage, l: spec_fn(int) -> bool, top: int, dest: int) -> bool {
    &&& p.links_of(o) && p.m == o.m && 2 * o.n() <= top <= dest <= o.capi() && dest % 8 == 0
    &&& dest == o.capi() - sum(o.sizes()) + sum(kept(o.sizes(), l))
    &&& forall|i: int| #[trigger] l(i) ==> 0 <= i < o.n() && o.slot(i) + o.size(i) <= top && stays(o, p, i)
    &&& forall|i: int| 0 <= i < o.n() && !#[trigger] l(i) ==> packed(o, p, dest, i)
    &&& forall|i: int, j: int| 0 <= i < j < o.n() && !l(i) && !l(j) ==> #[trigger] p.apart(i, j)
}
/// one step of the packing: cell `i`, the highest left, moves to just below `d0`
pub open spec fn step(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int) -> bool {
    &&& o.laid() && packing(o, b, l1, top, d0) && l1(i) && (forall|j: int| #[trigger] l2(j) == (l1(j) && j != i)) && (forall|j: int| #[trigger] l1(j) ==> o.slot(j) <= o.slot(i))
    &&& p1.m == b.m && p1.capi() == b.capi() && p2.m == p1.m
    &&& forall|x: int| 0 <= x < b.capi() ==> #[trigger] p1.d@[x] == if d0 - o.size(i) <= x < d0 { b.d@[o.slot(i) + x - (d0 - o.size(i))] } else { b.d@[x] }
    &&& same_from(p1.d@, p2.d@, 2 * o.n()) && p2.slot(i) == d0 - o.size(i) && (forall|j: int| 0 <= j < o.n() && j != i ==> #[trigger] p2.slot(j) == p1.slot(j))
}
/// the slots and the bounds
pub proof fn lemma_pack_slots(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int)
    requires step(o, b, p1, p2, l1, l2, top, d0, i)
    ensures 0 <= i < o.n(), 2 * o.n() <= o.slot(i) <= d0 - o.size(i), o.size(i) >= 32, (d0 - o.size(i)) % 8 == 0, d0 <= o.capi(), forall|j: int| 0 <= j < o.n() && j != i ==> #[trigger] p2.slot(j) == b.slot(j)
{
    assert(o.cell_ok(i)); assert(stays(o, b, i));
    assert forall|j: int| 0 <= j < o.n() && j != i implies #[trigger] p2.slot(j) == b.slot(j) by { assert(p1.d@[2 * j] == b.d@[2 * j]); assert(p1.d@[2 * j + 1] == b.d@[2 * j + 1]); assert(p2.slot(j) == p1.slot(j)); }
}
/// the moved cell
pub proof fn lemma_pack_moved(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int)
    requires step(o, b, p1, p2, l1, l2, top, d0, i)
    ensures p2.at(i) == o.at(i), packed(o, p2, d0 - o.size(i), i)
{
    lemma_pack_slots(o, b, p1, p2, l1, l2, top, d0, i);
    let dest = d0 - o.size(i);
    assert(stays(o, b, i)); assert(b.slot(i) == o.slot(i));
    assert(cell_in(b.d@, o.slot(i)) == o.at(i));
    assert forall|x: int| 0 <= x < o.size(i) implies b.d@[o.slot(i) + x] == #[trigger] p2.d@[dest + x] by { assert(p1.d@[dest + x] == b.d@[o.slot(i) + (dest + x) - dest]); assert(p2.d@[dest + x] == p1.d@[dest + x]); }
    axiom_cell(b.d@, o.slot(i), p2.d@, dest);
}
/// a cell wholly outside the bytes moved
pub proof fn lemma_pack_else(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int, j: int)
    requires step(o, b, p1, p2, l1, l2, top, d0, i), 0 <= j < o.n(), j != i, 2 * o.n() <= b.slot(j), b.slot(j) + b.size(j) <= o.capi(), b.slot(j) + b.size(j) <= d0 - o.size(i) || d0 <= b.slot(j)
    ensures p2.slot(j) == b.slot(j), p2.at(j) == b.at(j)
{
    lemma_pack_slots(o, b, p1, p2, l1, l2, top, d0, i);
    let at = b.slot(j);
    assert(p2.slot(j) == at);
    assert forall|x: int| 0 <= x < b.size(j) implies b.d@[at + x] == #[trigger] p2.d@[at + x] by { assert(p1.d@[at + x] == b.d@[at + x]); assert(p2.d@[at + x] == p1.d@[at + x]); }
    axiom_cell(b.d@, at, p2.d@, at);
}
pub proof fn lemma_pack_stay(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int)
    requires step(o, b, p1, p2, l1, l2, top, d0, i)
    ensures forall|j: int| #[trigger] l2(j) ==> 0 <= j < o.n() && o.slot(j) + o.size(j) <= o.slot(i) && stays(o, p2, j)
{
    lemma_pack_slots(o, b, p1, p2, l1, l2, top, d0, i);
    assert(o.cell_ok(i));
    assert forall|j: int| #[trigger] l2(j) implies 0 <= j < o.n() && o.slot(j) + o.size(j) <= o.slot(i) && stays(o, p2, j) by {
        assert(l1(j)); assert(stays(o, b, j)); assert(o.cell_ok(j)); if i < j { assert(o.apart(i, j)); } else { assert(o.apart(j, i)); }
        lemma_pack_else(o, b, p1, p2, l1, l2, top, d0, i, j);
    }
}
pub proof fn lemma_pack_there(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int)
    requires step(o, b, p1, p2, l1, l2, top, d0, i)
    ensures forall|j: int| 0 <= j < o.n() && !#[trigger] l2(j) ==> packed(o, p2, d0 - o.size(i), j),
        forall|j: int| 0 <= j < o.n() && j != i && !#[trigger] l2(j) ==> !l1(j) && packed(o, b, d0, j) && p2.slot(j) == b.slot(j) && p2.size(j) == b.size(j)
{
    lemma_pack_slots(o, b, p1, p2, l1, l2, top, d0, i);
    lemma_pack_moved(o, b, p1, p2, l1, l2, top, d0, i);
    assert forall|j: int| 0 <= j < o.n() && j != i && !#[trigger] l2(j) implies !l1(j) && packed(o, b, d0, j) && p2.slot(j) == b.slot(j) && p2.size(j) == b.size(j) && packed(o, p2, d0 - o.size(i), j) by {
        assert(!l1(j)); assert(packed(o, b, d0, j)); lemma_pack_else(o, b, p1, p2, l1, l2, top, d0, i, j);
    }
}
pub proof fn lemma_pack(o: BtreePage, b: BtreePage, p1: BtreePage, p2: BtreePage, l1: spec_fn(int) -> bool, l2: spec_fn(int) -> bool, top: int, d0: int, i: int)
    requires step(o, b, p1, p2, l1, l2, top, d0, i)
    ensures packing(o, p2, l2, o.slot(i), d0 - o.size(i))
{
    let n = o.n(); let dest = d0 - o.size(i); let z = o.sizes();
    lemma_pack_slots(o, b, p1, p2, l1, l2, top, d0, i);
    lemma_pack_stay(o, b, p1, p2, l1, l2, top, d0, i);
    lemma_pack_there(o, b, p1, p2, l1, l2, top, d0, i);
    assert forall|j: int, k: int| 0 <= j < k < n && !l2(j) && !l2(k) implies #[trigger] p2.apart(j, k) by {
        assert(packed(o, p2, dest, j) && packed(o, p2, dest, k));
        if j != i && k != i { assert(!l1(j) && !l1(k)); assert(b.apart(j, k)); }
    }
    assert(kept(z, l2) =~= kept(z, l1).update(i, 0));
    lemma_sum_update(kept(z, l1), i, 0);
}
pub proof fn lemma_sum_zero(s: Seq<int>) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 ensures sum(s) == 0 decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == 0 by { assert(d[i] == s[i]); } lemma_sum_zero(d); assert(s.last() == s[s.len() - 1]); } }
/// everything is packed
pub proof fn lemma_packed(o: BtreePage, b: BtreePage, p: BtreePage, l: spec_fn(int) -> bool, top: int, dest: int)
    requires o.laid(), packing(o, b, l, top, dest), forall|j: int| !#[trigger] l(j), p.d == b.d, p.m == (BtreePageHeader { free_space_ptr: dest as u32, ..b.m }), dest <= 65536
    ensures p.laid(), p.view() == o.view(), p.sizes() == o.sizes(), p.links_of(o), p.m.free_space == o.m.free_space, p.m.free_space_ptr == p.capi() - sum(p.sizes())
{
    assert forall|i: int| 0 <= i < o.n() implies #[trigger] p.cell_ok(i) && p.at(i) == o.at(i) by { assert(!l(i)); assert(packed(o, b, dest, i)); assert(o.cell_ok(i)); }
    assert forall|i: int, j: int| 0 <= i < j < o.n() implies #[trigger] p.apart(i, j) by { assert(!l(i) && !l(j)); assert(b.apart(i, j)); }
    assert(p.view() =~= o.view()) by { assert forall|i: int| 0 <= i < o.n() implies p.view()[i] == o.view()[i] by { assert(p.cell_ok(i)); } }
    assert(p.sizes() =~= o.sizes()) by { assert forall|i: int| 0 <= i < o.n() implies p.sizes()[i] == o.sizes()[i] by { assert(p.cell_ok(i)); } }
    lemma_sum_zero(kept(o.sizes(), l));
}
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn defragment
//@header impl BtreePage
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite BinaryHeap::from_iter\(\s*self\s*\.slot_array\(\)\s*\.iter\(\)\s*\.enumerate\(\)\s*\.map\(\|\((\w+), (\w+)\)\| \(\*\2, \1\)\),?\s*\) ==> Heap::shim_heap(&*self)
//@rewrite unsafe \{\s*let (\w+) = self\.item_at_offset\((\w+) as u64\);\s*CellRef::from_raw\(\1\)\.total_size\(\)\s*\} ==> self.shim_size_at(\2)
//@rewrite? self\s*\.data_mut\(\)\s*\.copy_within\(([\w]+)\.\.([^,]+), ([^;]+)\); ==> self.shim_move(\1, \2, \3);
//@rewrite? self\.slot_array_mut\(\)\[(\w+)\] = (\w+) as u16; ==> self.shim_set_slot(\1, \2 as u16);
//@spec
    requires old(self).laid()
    ensures final(self).laid(), final(self).view() == old(self).view(), final(self).sizes() == old(self).sizes(), final(self).links_of(*old(self)), final(self).m.free_space == old(self).m.free_space,
        final(self).m.free_space_ptr == final(self).capi() - sum(final(self).sizes())
//@at start
let ghost o = *self; let ghost mut top = self.capi(); let ghost mut dd = self.capi();
//@at loop 0 before
let ghost mut lf = offsets.left();
proof { assert forall|i: int| 0 <= i < o.n() implies #[trigger] o.slot(i) + o.size(i) <= o.capi() by { assert(o.cell_ok(i)); } assert(kept(o.sizes(), lf) =~= o.sizes()); assert(packing(o, o, lf, top, dd)); }
//@loop 0
invariant packing(o, *self, lf, top, dd), destination_offset == dd, offsets.offs() == Seq::new(o.n() as nat, |i: int| o.slot(i)), offsets.left() == lf
decreases offsets.count()
//@at loop 0 body-start
let ghost b = *self; let ghost l1 = lf; let ghost ix = i as int;
proof { assert(l1(ix)); assert(o.cell_ok(ix)); assert(stays(o, b, ix)); assert forall|j: int| #[trigger] l1(j) implies o.slot(j) <= o.slot(ix) by { assert(offsets.offs()[j] <= offset); } }
//@at before self.slot_array_mut()
let ghost p1 = *self;
//@at loop 0 body-end
proof { lf = offsets.left(); lemma_pack(o, b, p1, *self, l1, lf, top, dd, ix); top = o.slot(ix); dd = destination_offset as int; }
//@at before self.reset_free_space_pointer
let ghost pe = *self;
//@at end
proof { assert forall|j: int| !#[trigger] lf(j) by { assert(!(offsets.left())(j)); } lemma_packed(o, pe, *self, lf, top, dd); }
//@end
/// a cell written below the others and entered at slot `x`
pub proof fn lemma_entered(o: BtreePage, p: BtreePage, x: int, c: Cell)
    requires o.laid(), sized(c), 0 <= x <= o.n(), p.capi() == o.capi(), p.n() == o.n() + 1, p.m.free_space_ptr == o.m.free_space_ptr - 32 - c.cap, 2 * p.n() <= p.m.free_space_ptr,
        p.slot(x) == p.m.free_space_ptr, p.at(x) == c,
        forall|i: int| 0 <= i < x ==> #[trigger] stays(o, p, i), forall|i: int| x < i <= o.n() ==> #[trigger] came(o, p, i)
    ensures p.laid(), p.view() == o.view().insert(x, c.k), p.sizes() == o.sizes().insert(x, 32 + c.cap as int), sum(p.sizes()) == sum(o.sizes()) + 32 + c.cap
{
    assert forall|i: int| 0 <= i < p.n() implies #[trigger] p.cell_ok(i) by { if i < x { assert(o.cell_ok(i)); assert(stays(o, p, i)); } else if i > x { assert(o.cell_ok(i - 1)); assert(came(o, p, i)); } }
    assert forall|i: int, j: int| 0 <= i < j < p.n() implies #[trigger] p.apart(i, j) by {
        assert(p.cell_ok(i) && p.cell_ok(j));
        let oi = if i < x { i } else { i - 1 }; let oj = if j < x { j } else { j - 1 };
        if i < x { assert(stays(o, p, i)); } else if i > x { assert(came(o, p, i)); }
        if j < x { assert(stays(o, p, j)); } else if j > x { assert(came(o, p, j)); }
        if i != x && j != x { assert(o.apart(oi, oj)); } else if i == x { assert(o.cell_ok(oj)); } else { assert(o.cell_ok(oi)); }
    }
    assert(p.view() =~= o.view().insert(x, c.k)) by { assert forall|i: int| 0 <= i < p.n() implies p.view()[i] == o.view().insert(x, c.k)[i] by { if i < x { assert(stays(o, p, i)); } else if i > x { assert(came(o, p, i)); } } }
    assert(p.sizes() =~= o.sizes().insert(x, 32 + c.cap as int)) by { assert forall|i: int| 0 <= i < p.n() implies p.sizes()[i] == o.sizes().insert(x, 32 + c.cap as int)[i] by { if i < x { assert(stays(o, p, i)); } else if i > x { assert(came(o, p, i)); } } }
    lemma_sum_insert(o.sizes(), x, 32 + c.cap as int);
}
/// slot `i` is what slot `i - 1` was
pub open spec fn came(o: BtreePage, p: BtreePage, i: int) -> bool { p.slot(i) == o.slot(i - 1) && p.at(i) == o.at(i - 1) }
/// slot `i` is what slot `i + 1` was
pub open spec fn went(o: BtreePage, p: BtreePage, i: int) -> bool { p.slot(i) == o.slot(i + 1) && p.at(i) == o.at(i + 1) }
pub proof fn lemma_left_out(o: BtreePage, p: BtreePage, x: int)
    requires o.laid(), 0 <= x < o.n(), p.capi() == o.capi(), p.n() == o.n() - 1, p.m.free_space_ptr == o.m.free_space_ptr,
        forall|i: int| 0 <= i < x ==> #[trigger] stays(o, p, i), forall|i: int| x <= i < p.n() ==> #[trigger] went(o, p, i)
    ensures p.laid(), p.view() == o.view().remove(x), p.sizes() == o.sizes().remove(x), sum(p.sizes()) == sum(o.sizes()) - o.size(x)
{
    assert forall|i: int| 0 <= i < p.n() implies #[trigger] p.cell_ok(i) by { if i < x { assert(o.cell_ok(i)); assert(stays(o, p, i)); } else { assert(o.cell_ok(i + 1)); assert(went(o, p, i)); } }
    assert forall|i: int, j: int| 0 <= i < j < p.n() implies #[trigger] p.apart(i, j) by {
        let oi = if i < x { i } else { i + 1 }; let oj = if j < x { j } else { j + 1 };
        if i < x { assert(stays(o, p, i)); } else { assert(went(o, p, i)); }
        if j < x { assert(stays(o, p, j)); } else { assert(went(o, p, j)); }
        assert(o.apart(oi, oj));
    }
    assert(p.view() =~= o.view().remove(x)) by { assert forall|i: int| 0 <= i < p.n() implies p.view()[i] == o.view().remove(x)[i] by { if i < x { assert(stays(o, p, i)); } else { assert(went(o, p, i)); } } }
    assert(p.sizes() =~= o.sizes().remove(x)) by { assert forall|i: int| 0 <= i < p.n() implies p.sizes()[i] == o.sizes().remove(x)[i] by { if i < x { assert(stays(o, p, i)); } else { assert(went(o, p, i)); } } }
    lemma_sum_remove(o.sizes(), x);
}
/// only the free-space count has changed
pub proof fn lemma_recount(o: BtreePage, p: BtreePage)
    requires o.laid(), p.d == o.d, p.m == (BtreePageHeader { free_space: p.m.free_space, ..o.m })
    ensures p.laid(), p.view() == o.view(), p.sizes() == o.sizes()
{
    assert forall|i: int| 0 <= i < p.n() implies #[trigger] p.cell_ok(i) by { assert(o.cell_ok(i)); }
    assert forall|i: int, j: int| 0 <= i < j < p.n() implies #[trigger] p.apart(i, j) by { assert(o.apart(i, j)); }
    assert(p.view() =~= o.view()); assert(p.sizes() =~= o.sizes());
}
/// a cell overwritten by one that is not larger
pub proof fn lemma_overwritten(o: BtreePage, p: BtreePage, x: int, c: Cell)
    requires o.laid(), sized(c), 0 <= x < o.n(), c.cap <= o.at(x).cap, p.capi() == o.capi(), p.m == o.m, cell_in(p.d@, o.slot(x)) == c,
        forall|y: int| 0 <= y < o.capi() && !(o.slot(x) <= y < o.slot(x) + 32 + c.cap) ==> #[trigger] p.d@[y] == o.d@[y]
    ensures p.laid(), p.view() == o.view().update(x, c.k), p.sizes() == o.sizes().update(x, 32 + c.cap as int), sum(p.sizes()) == sum(o.sizes()) - o.size(x) + 32 + c.cap
{
    assert(o.cell_ok(x));
    assert forall|j: int| 0 <= j < o.n() implies #[trigger] p.slot(j) == o.slot(j) by { assert(p.d@[2 * j] == o.d@[2 * j]); assert(p.d@[2 * j + 1] == o.d@[2 * j + 1]); }
    assert forall|j: int| 0 <= j < o.n() && j != x implies #[trigger] stays(o, p, j) by { assert(o.cell_ok(j)); if j < x { assert(o.apart(j, x)); } else { assert(o.apart(x, j)); } lemma_cell_outside(o, p, o.slot(x), o.slot(x) + 32 + c.cap, o.slot(j)); assert(p.slot(j) == o.slot(j)); }
    assert(p.slot(x) == o.slot(x));
    assert forall|i: int| 0 <= i < p.n() implies #[trigger] p.cell_ok(i) by { assert(o.cell_ok(i)); if i != x { assert(stays(o, p, i)); } }
    assert forall|i: int, j: int| 0 <= i < j < p.n() implies #[trigger] p.apart(i, j) by { assert(o.apart(i, j)); if i != x { assert(stays(o, p, i)); } if j != x { assert(stays(o, p, j)); } }
    assert(p.view() =~= o.view().update(x, c.k)) by { assert forall|i: int| 0 <= i < p.n() implies p.view()[i] == o.view().update(x, c.k)[i] by { if i != x { assert(stays(o, p, i)); } } }
    assert(p.sizes() =~= o.sizes().update(x, 32 + c.cap as int)) by { assert forall|i: int| 0 <= i < p.n() implies p.sizes()[i] == o.sizes().update(x, 32 + c.cap as int)[i] by { if i != x { assert(stays(o, p, i)); } } }
    lemma_sum_update(o.sizes(), x, 32 + c.cap as int);
}
/// a cell written below all others changes none of them
pub proof fn lemma_below(o: BtreePage, p: BtreePage, from: int, to: int)
    requires o.laid(), p.capi() == o.capi(), 2 * o.n() <= from, to <= o.m.free_space_ptr, forall|x: int| 0 <= x < o.capi() && !(from <= x < to) ==> #[trigger] p.d@[x] == o.d@[x]
    ensures forall|i: int| 0 <= i < o.n() ==> #[trigger] stays(o, p, i)
{
    assert forall|i: int| 0 <= i < o.n() implies #[trigger] stays(o, p, i) by { assert(o.cell_ok(i)); assert(p.d@[2 * i] == o.d@[2 * i]); assert(p.d@[2 * i + 1] == o.d@[2 * i + 1]); lemma_cell_outside(o, p, from, to, o.slot(i)); }
}
/// a cell written below all others, the slots from `x` on moved up by one, and slot `x` set to it
pub proof fn lemma_inserted(o: BtreePage, w: Seq<u8>, p: BtreePage, x: int, c: Cell)
    requires o.laid(), sized(c), 0 <= x <= o.n(), p.capi() == o.capi(), p.n() == o.n() + 1, p.m.free_space_ptr == o.m.free_space_ptr - 32 - c.cap, 2 * p.n() <= p.m.free_space_ptr,
        w.len() == o.capi(), cell_in(w, p.m.free_space_ptr as int) == c, forall|y: int| 0 <= y < o.capi() && !(p.m.free_space_ptr <= y < o.m.free_space_ptr) ==> #[trigger] w[y] == o.d@[y],
        same_from(w, p.d@, 2 * p.n()), forall|i: int| 0 <= i < p.n() ==> #[trigger] slot_in(p.d@, i) == if i < x { slot_in(w, i) } else if i == x { p.m.free_space_ptr as int } else { slot_in(w, i - 1) }
    ensures p.laid(), p.view() == o.view().insert(x, c.k), p.sizes() == o.sizes().insert(x, 32 + c.cap as int), sum(p.sizes()) == sum(o.sizes()) + 32 + c.cap
{
    let off = p.m.free_space_ptr as int;
    assert(p.slot(x) == off);
    axiom_cell(w, off, p.d@, off);
    assert forall|i: int| 0 <= i < o.n() implies #[trigger] slot_in(w, i) == o.slot(i) && o.at(i) == cell_in(p.d@, o.slot(i)) by {
        assert(o.cell_ok(i)); assert(w[2 * i] == o.d@[2 * i]); assert(w[2 * i + 1] == o.d@[2 * i + 1]);
        let at = o.slot(i);
        assert forall|y: int| 0 <= y < o.size(i) implies o.d@[at + y] == #[trigger] p.d@[at + y] by { assert(w[at + y] == o.d@[at + y]); }
        axiom_cell(o.d@, at, p.d@, at);
    }
    assert forall|i: int| 0 <= i < x implies #[trigger] stays(o, p, i) by { assert(slot_in(w, i) == o.slot(i)); assert(slot_in(p.d@, i) == slot_in(w, i)); }
    assert forall|i: int| x < i <= o.n() implies #[trigger] came(o, p, i) by { assert(slot_in(w, i - 1) == o.slot(i - 1)); assert(slot_in(p.d@, i) == slot_in(w, i - 1)); }
    lemma_entered(o, p, x, c);
}
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn insert
//@header impl BtreePage
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite? self\s*\.slot_array_mut\(\)\s*\.copy_within\((?:usize::from\()?(\w+)\)?([^.()]*)\.\.([^,]+), (?:usize::from\()?(\w+)\)?([^();]*)\); ==> self.shim_slots_copy(\1\2, \3, \4\5);
//@rewrite? self\.slot_array_mut\(\)\[(?:usize::from\()?(\w+)\)?\] = (\w+)\.try_into\(\)\.unwrap\(\); ==> self.shim_set_slot(\1, shim_u16(\2));
//@rewrite? \((\w+) as usize\)\.is_multiple_of\(CELL_ALIGNMENT as usize\) ==> ((\1 as usize) % (CELL_ALIGNMENT as usize) == 0)
//@rewrite? unsafe \{ (self\.write_item_to_offset\([^;{}]*\)) \} ==> { \1 }
//@ret r
//@spec
    requires old(self).wf(), sized(cell.c())
    ensures final(self).wf(), final(self).links_of(*old(self)),
        r is Ok ==> r->Ok_0 == index && index <= old(self).n() && final(self).view() == old(self).view().insert(index as int, cell.c().k) && final(self).sizes() == old(self).sizes().insert(index as int, 32 + cell.c().cap as int),
        r is Err ==> final(self).view() == old(self).view() && final(self).sizes() == old(self).sizes(),
        // whatever fits is accepted
        index <= old(self).n() && cell.c().cap <= old(self).capi() - 41 && 34 + cell.c().cap <= old(self).m.free_space ==> r is Ok
//@at start
let ghost o = *self; let ghost c = cell.c();
proof { lemma_used(o); }
//@at before let offset =
let ghost p0 = *self;
proof { assert(p0.view() == o.view() && p0.sizes() == o.sizes()); assert(p0.n() == o.view().len()); }
//@at before self.free_space_pointer_up
let ghost w = self.d@;
//@at before Ok(index)
proof { lemma_inserted(p0, w, *self, index as int, c); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn push
//@header impl BtreePage
//@ret r
//@spec
    requires old(self).wf(), sized(cell.c())
    ensures final(self).wf(), final(self).links_of(*old(self)),
        r is Ok ==> final(self).view() == old(self).view().push(cell.c().k) && final(self).sizes() == old(self).sizes().push(32 + cell.c().cap as int),
        r is Err ==> final(self).view() == old(self).view() && final(self).sizes() == old(self).sizes(),
        cell.c().cap <= old(self).capi() - 41 && 34 + cell.c().cap <= old(self).m.free_space ==> r is Ok
//@at start
proof { assert(self.view().insert(self.n(), cell.c().k) =~= self.view().push(cell.c().k)); assert(self.sizes().insert(self.n(), 32 + cell.c().cap as int) =~= self.sizes().push(32 + cell.c().cap as int)); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn remove
//@header impl BtreePage
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite? self\s*\.slot_array_mut\(\)\s*\.copy_within\((?:usize::from\()?(\w+)\)?([^.()]*)\.\.([^,]+), (?:usize::from\()?(\w+)\)?([^();]*)\); ==> self.shim_slots_copy(\1\2, \3, \4\5);
//@ret r
//@spec
    requires old(self).wf(), index < old(self).n()
    ensures r is Ok, r->Ok_0.c().k == old(self).view()[index as int], sized(r->Ok_0.c()), final(self).wf(), final(self).links_of(*old(self)), final(self).view() == old(self).view().remove(index as int),
        final(self).sizes() == old(self).sizes().remove(index as int), final(self).m.free_space == old(self).m.free_space + old(self).size(index as int) + 2
//@at start
let ghost o = *self;
proof { lemma_used(o); assert(o.cell_ok(index as int)); lemma_sum_remove(o.sizes(), index as int); assert(sum(o.sizes().remove(index as int)) >= 0) by { let q = o.sizes().remove(index as int); assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] >= 32 by { if i < index { assert(q[i] == o.sizes()[i]); } else { assert(q[i] == o.sizes()[i + 1]); } } lemma_sum_pos(q); } }
//@at before Ok(cell)
proof {
    let p = *self;
    lemma_cells_same(o, p, 2 * o.n());
    assert forall|i: int| 0 <= i < index implies #[trigger] stays(o, p, i) by { assert(o.cell_ok(i)); assert(p.slot(i) == o.slot(i)); }
    assert forall|i: int| index <= i < p.n() implies #[trigger] went(o, p, i) by { assert(o.cell_ok(i + 1)); assert(p.slot(i) == o.slot(i + 1)); }
    lemma_left_out(o, p, index as int);
}
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn replace
//@header impl BtreePage
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite let mut (\w+) = self\.cell_mut\((\w+)\);\s*\1\.full_data_mut\(\)\[\.\.new_cell\.full_data\(\)\.len\(\)\]\s*\.copy_from_slice\(&?new_cell\.full_data\(\)\);\s*\*\1\.metadata_mut\(\) = \*new_cell\.metadata\(\); ==> self.shim_overwrite(\2, &new_cell);
//@ret r
//@spec
    requires old(self).wf(), index < old(self).n(), sized(new_cell.c()), new_cell.c().cap <= old(self).capi() - 41
    ensures final(self).wf(), final(self).links_of(*old(self)),
        r is Ok ==> r->Ok_0.c().k == old(self).view()[index as int] && final(self).view() == old(self).view().update(index as int, new_cell.c().k) && final(self).sizes() == old(self).sizes().update(index as int, 32 + new_cell.c().cap as int),
        r is Err ==> *final(self) == *old(self) && old(self).m.free_space + old(self).size(index as int) < 32 + new_cell.c().cap
//@at start
let ghost o = *self; let ghost c = new_cell.c(); let ghost ix = index as int;
proof { lemma_used(o); assert(o.cell_ok(ix));
    assert(o.view().remove(ix).insert(ix, c.k) =~= o.view().update(ix, c.k)); assert(o.sizes().remove(ix).insert(ix, 32 + c.cap as int) =~= o.sizes().update(ix, 32 + c.cap as int)); }
//@at before self.add_free_space(free_bytes)
proof { lemma_overwritten(o, *self, ix, c); lemma_used(*self); }
let ghost p1 = *self;
//@at before return Ok(owned_cell)
proof { lemma_recount(p1, *self); }
//@end
}
