// Cells and their overflow chains: building, reading back and freeing a value that does not fit in one page.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, irrefutable_let_patterns, unreachable_code)]
use vstd::prelude::*;
use core::mem;
verus!{
fn main(){}
global size_of usize == 8;
pub type PageId = u64;
pub const PAGE_ZERO: PageId = 0;
pub type Slot = u16;
//@extract crates/axmos-db/src/common/mod.rs : const CELL_ALIGNMENT
//@end
//@extract crates/axmos-db/src/common/mod.rs : const MIN_PAGE_SIZE
//@end
//@extract crates/axmos-db/src/common/mod.rs : const MAX_PAGE_SIZE
//@end
// ------------------------------------------------------------------ std and the layers below (assumed contracts)
pub struct IoError {}
impl IoError { #[verifier::external_body] pub fn shim() -> IoError { unimplemented!() } }
pub struct TupleError {}
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; }
pub fn shim_min(x: usize, a: usize) -> (r: usize) ensures r == if x < a { x } else { a } { if x < a { x } else { a } }
pub fn min(x: usize, a: usize) -> (r: usize) ensures r == if x < a { x } else { a } { if x < a { x } else { a } }
/// `dst[a..b].copy_from_slice(src)`: panics unless the ranges fit
#[verifier::external_body] pub fn shim_copy(dst: &mut [u8], a: usize, b: usize, src: &[u8])
    requires a <= b <= old(dst)@.len(), src@.len() == b - a
    ensures final(dst)@ == old(dst)@.take(a as int) + src@ + old(dst)@.skip(b as int) { unimplemented!() }
/// `&s[a..b]`
#[verifier::external_body] pub fn shim_sub(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
/// `v.extend_from_slice(s)`
#[verifier::external_body] pub fn shim_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
pub open spec fn be(v: u64) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(v).reverse() }
pub open spec fn unbe(b: Seq<u8>) -> u64 { vstd::bytes::spec_u64_from_le_bytes(b.reverse()) }
/// u64::to_be_bytes, u64::from_be_bytes(s[a..].try_into().expect(..)): panics unless 8 bytes are left
#[verifier::external_body] pub fn shim_be(v: u64) -> (r: &'static [u8]) ensures r@ == be(v) { unimplemented!() }
#[verifier::external_body] pub fn shim_unbe(s: &[u8], a: usize) -> (r: u64) requires a + 8 == s@.len() ensures r == unbe(s@.skip(a as int)) { unimplemented!() }
pub proof fn lemma_be(v: u64) ensures be(v).len() == 8, unbe(be(v)) == v { vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); assert(be(v).reverse() =~= vstd::bytes::spec_u64_to_le_bytes(v)); }
pub open spec fn up8(n: int) -> int { (n + 7) / 8 * 8 }
/// An allocation of `cap` bytes, zeroed, of which the first `eff` count (unsafe code: assumed contract)
#[verifier::external_body] pub struct Payload { p: u8 }
impl Payload {
    pub uninterp spec fn full(&self) -> Seq<u8>;
    pub uninterp spec fn eff(&self) -> nat;
    pub open spec fn b(&self) -> Seq<u8> { self.full().take(self.eff() as int) }
    pub open spec fn ok(&self) -> bool { self.eff() <= self.full().len() && self.full().len() % 8 == 0 && self.full().len() <= 0xffff_fff0 }
    #[verifier::external_body] pub fn alloc_aligned(n: usize) -> (r: Result<Payload, TupleError>) requires n <= 0xffff_fff0 ensures r is Ok, r->Ok_0.eff() == n, r->Ok_0.full().len() == up8(n as int), r->Ok_0.ok() { unimplemented!() }
    #[verifier::external_body] pub fn effective_data(&self) -> (r: &[u8]) requires self.ok() ensures r@ == self.b() { unimplemented!() }
    #[verifier::external_body] pub fn full_data(&self) -> (r: &[u8]) ensures r@ == self.full() { unimplemented!() }
    #[verifier::external_body] pub fn effective_data_mut(&mut self) -> (r: &mut [u8]) requires old(self).ok()
        ensures r@ == old(self).b(), final(self).ok(), final(self).eff() == old(self).eff(), final(self).full() == final(r)@ + old(self).full().skip(old(self).eff() as int), final(self).b() == final(r)@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.eff() { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r == self.full().len() { unimplemented!() }
    #[verifier::external_body] pub fn as_payload_ref(&self) -> (r: PayloadRef<'_>) ensures r.data@ == self.full(), r.effective_size == self.eff() { unimplemented!() }
}
#[verifier::external_body] pub fn shim_unwrap(r: Result<Payload, TupleError>) -> (p: Payload) requires r is Ok ensures p == r->Ok_0 { r.ok().unwrap() }
#[verifier::external_body] pub struct Tuple { p: u8 }
impl Tuple {
    pub uninterp spec fn data(&self) -> Payload;
    #[verifier::external_body] pub fn into_data(self) -> (r: Payload) ensures r == self.data() { unimplemented!() }
    #[verifier::external_body] pub fn total_size(&self) -> (r: usize) ensures r == self.data().full().len() { unimplemented!() }
    #[verifier::external_body] pub fn effective_data(&self) -> (r: &[u8]) requires self.data().ok() ensures r@ == self.data().b() { unimplemented!() }
    #[verifier::external_body] pub fn shrink_to_fit(&mut self) -> (r: Result<(), TupleError>) ensures r is Ok ==> final(self).data().b() == old(self).data().b() && final(self).data().eff() == old(self).data().eff() && final(self).data().full().len() == up8(old(self).data().eff() as int) && final(self).data().ok() { unimplemented!() }
}
/// `data.into()`
pub fn shim_into(t: Tuple) -> (r: OwnedCell) requires t.data().ok() ensures r.ok(), !r.ov(), r.b() == t.data().b(), r.cap() == t.data().full().len(), r.left() is None { OwnedCell::from_tuple(t) }
pub struct Schema {}
// ------------------------------------------------------------------ cells
//@extract crates/axmos-db/src/storage/cell.rs : struct CellHeader
//@attrs
#[repr(C, align(8))]
#[derive(Clone, Copy)]
//@end
global layout CellHeader is size == 32, align == 8;
//@extract crates/axmos-db/src/storage/cell.rs : const CELL_HEADER_SIZE
//@rewrite mem::size_of::<CellHeader>\(\) ==> 32
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn new
//@ret r
//@spec
    requires effective_size <= 0xffff_ffff
    ensures r.left_child is None, r.size == payload_size, r.effective_size == effective_size, r.is_overflow == is_overflow
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn is_overflow
//@ret r
//@spec
    ensures r == self.is_overflow
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn len
//@ret r
//@spec
    ensures r == self.effective_size
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn size
//@ret r
//@spec
    ensures r == self.size
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn left_child
//@ret r
//@spec
    ensures r == self.left_child
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn set_left_child
//@spec
    ensures *final(self) == (CellHeader { left_child: Some(child), ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl CellHeader / fn set_overflow
//@spec
    ensures *final(self) == (CellHeader { is_overflow: is_overflow, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : struct PayloadRef
//@attrs
#[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<'a> PayloadRef<'a> / fn new
//@ret r
//@spec
    ensures r.data@ == data@, r.effective_size == effective_size
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<'a> PayloadRef<'a> / fn len
//@ret r
//@spec
    ensures r == self.effective_size
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<'a> PayloadRef<'a> / fn capacity
//@ret r
//@spec
    ensures r == self.data@.len()
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<'a> PayloadRef<'a> / fn effective_data
//@rewrite? &self\.(\w+)\[\.\.self\.(\w+)\] ==> shim_sub(self.\1, 0, self.\2)
//@ret r
//@spec
    requires self.effective_size <= self.data@.len()
    ensures r@ == self.data@.take(self.effective_size as int)
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<'a> PayloadRef<'a> / fn full_data
//@ret r
//@spec
    ensures r@ == self.data@
//@end
//@extract crates/axmos-db/src/storage/cell.rs : struct CellRef
//@attrs
#[derive(Clone, Copy)]
//@end
impl<'a> CellRef<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.data.data@.take(self.data.effective_size as int) }
    pub open spec fn ok(&self) -> bool { self.header.effective_size == self.data.effective_size && self.header.size == self.data.data@.len() && self.data.effective_size <= self.data.data@.len() && self.header.size <= 0xffff_fff0 && self.header.size % 8 == 0 && (self.header.is_overflow ==> self.data.effective_size >= 8) }
}
/// the bytes of the value kept in the cell itself, and the first page of the rest
pub open spec fn here(b: Seq<u8>) -> Seq<u8> { b.take(b.len() - 8) }
pub open spec fn first_page(b: Seq<u8>) -> PageId { unbe(b.skip(b.len() - 8)) }
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn metadata
//@ret r
//@spec
    ensures *r == *self.header
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn payload_ref
//@ret r
//@spec
    ensures r == self.data
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn full_data
//@ret r
//@spec
    ensures r@ == self.data.data@
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn effective_data
//@ret r
//@spec
    requires self.ok()
    ensures r@ == self.b()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn len
//@ret r
//@spec
    ensures r == self.header.effective_size
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn total_size
//@ret r
//@spec
    requires self.ok()
    ensures r == 32 + self.header.size
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn storage_size
//@ret r
//@spec
    requires self.ok()
    ensures r == 34 + self.header.size
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn left_child
//@ret r
//@spec
    ensures r == self.header.left_child
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn is_overflow
//@ret r
//@spec
    ensures r == self.header.is_overflow
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl<'a> CellRef<'a> / fn overflow_page
//@rewrite? PageId::from_be_bytes\(\s*([^;]*?)\[(\w+)\.\.\]\s*\.try_into\(\)\s*\.expect\("[^"]*"\),?\s*\) ==> shim_unbe(\1, \2)
//@ret r
//@spec
    requires self.ok()
    ensures r == if self.header.is_overflow { Some(first_page(self.b())) } else { None }
//@end
//@extract crates/axmos-db/src/storage/cell.rs : struct OwnedCell
//@end
impl OwnedCell {
    pub closed spec fn ov(&self) -> bool { self.header.is_overflow }
    pub closed spec fn left(&self) -> Option<PageId> { self.header.left_child }
    pub closed spec fn cap(&self) -> int { self.payload.full().len() as int }
    pub closed spec fn b(&self) -> Seq<u8> { self.payload.b() }
    pub closed spec fn ok(&self) -> bool { self.payload.ok() && self.header.size == self.payload.full().len() && self.header.effective_size == self.payload.eff() && (self.header.is_overflow ==> self.header.effective_size >= 8) }
}
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn from_aligned_payload
//@ret r
//@spec
    requires payload.ok(), is_overflow ==> payload.eff() >= 8
    ensures r.ok(), r.b() == payload.b(), r.cap() == payload.full().len(), r.ov() == is_overflow, r.left() is None
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn from_tuple
//@ret r
//@spec
    requires tuple.data().ok()
    ensures r.ok(), r.b() == tuple.data().b(), r.cap() == tuple.data().full().len(), !r.ov(), r.left() is None
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn compute_padding
//@rewrite? (\w+)\.next_multiple_of\(CELL_ALIGNMENT as usize\) ==> shim_npo8(\1)
//@ret r
//@spec
    requires payload_size <= 0xffff_fff0
    ensures payload_size + r == up8(payload_size as int)
//@end
/// `n.next_multiple_of(CELL_ALIGNMENT)`
pub fn shim_npo8(n: usize) -> (r: usize) requires n <= 0x1_0000_ffff ensures r == up8(n as int) { (n + 7) / 8 * 8 }
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn new
//@rewrite? (\w+)\.effective_data_mut\(\)\s*\.copy_from_slice\((\w+)\) ==> { let d_ = \1.effective_data_mut(); let n_ = d_.len(); shim_copy(d_, 0, n_, \2) }
//@rewrite? (\w+)\.effective_data_mut\(\)\[\.\.([\w.()]+)\]\s*\.copy_from_slice\((&?[\w.]+(?:\(\))?)\) ==> { let n_ = \2; shim_copy(\1.effective_data_mut(), 0, n_, \3) }
//@rewrite? (\w+)\.effective_data_mut\(\)\[([\w.()]+)\.\.(\w+)\]\s*\.copy_from_slice\(&(\w+)\.to_be_bytes\(\)\) ==> { let a_ = \2; let b_ = \3; shim_copy(\1.effective_data_mut(), a_, b_, shim_be(\4)) }
//@rewrite? (Payload::alloc_aligned\([^;]*\))\.unwrap\(\) ==> shim_unwrap(\1)
//@ret r
//@spec
    requires data@.len() <= 0xffff_fff0
    ensures r.ok(), !r.ov(), r.b() == data@, r.cap() == up8(data@.len() as int), r.left() is None
//@at before Self::from_aligned_payload
proof { assert(payload.b() =~= data@); }
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn new_overflow
//@rewrite? (\w+)\.effective_data_mut\(\)\s*\.copy_from_slice\((\w+)\) ==> { let d_ = \1.effective_data_mut(); let n_ = d_.len(); shim_copy(d_, 0, n_, \2) }
//@rewrite? (\w+)\.effective_data_mut\(\)\[\.\.([\w.()]+)\]\s*\.copy_from_slice\((&?[\w.]+(?:\(\))?)\) ==> { let n_ = \2; shim_copy(\1.effective_data_mut(), 0, n_, \3) }
//@rewrite? (\w+)\.effective_data_mut\(\)\[([\w.()]+)\.\.(\w+)\]\s*\.copy_from_slice\(&(\w+)\.to_be_bytes\(\)\) ==> { let a_ = \2; let b_ = \3; shim_copy(\1.effective_data_mut(), a_, b_, shim_be(\4)) }
//@rewrite? (Payload::alloc_aligned\([^;]*\))\.unwrap\(\) ==> shim_unwrap(\1)
//@ret r
//@spec
    requires data@.len() <= 0xffff_ff00
    ensures r.ok(), r.ov(), here(r.b()) == data@, first_page(r.b()) == overflow_page, r.cap() == up8(data@.len() as int + 8), r.left() is None, r.b().len() == data@.len() + 8
//@at start
proof { lemma_be(overflow_page); }
//@at before Self::from_aligned_payload
proof { assert(here(payload.b()) =~= data@); assert(payload.b().skip(payload.b().len() - 8) =~= be(overflow_page)); }
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn from_ref
//@rewrite? (\w+)\.effective_data_mut\(\)\s*\.copy_from_slice\((\w+)\) ==> { let d_ = \1.effective_data_mut(); let n_ = d_.len(); shim_copy(d_, 0, n_, \2) }
//@rewrite? (\w+)\.effective_data_mut\(\)\[\.\.([\w.()]+)\]\s*\.copy_from_slice\((&?[\w.]+(?:\(\))?)\) ==> { let n_ = \2; shim_copy(\1.effective_data_mut(), 0, n_, \3) }
//@rewrite? (\w+)\.effective_data_mut\(\)\[([\w.()]+)\.\.(\w+)\]\s*\.copy_from_slice\(&(\w+)\.to_be_bytes\(\)\) ==> { let a_ = \2; let b_ = \3; shim_copy(\1.effective_data_mut(), a_, b_, shim_be(\4)) }
//@rewrite? (Payload::alloc_aligned\([^;]*\))\.unwrap\(\) ==> shim_unwrap(\1)
//@ret r
//@spec
    requires cell.ok()
    ensures r.ok(), r.b() == cell.b(), r.ov() == cell.header.is_overflow, r.left() == cell.header.left_child, r.cap() == up8(cell.b().len() as int)
//@at before let mut header
proof { assert(payload.b() =~= cell.b()); }
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn header
//@ret r
//@spec
    ensures *r == self.header
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn metadata
//@ret r
//@spec
    ensures r.is_overflow == self.ov(), r.left_child == self.left(), self.ok() ==> r.size == self.cap()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn full_data
//@ret r
//@spec
    ensures r@.len() == self.cap()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn effective_data
//@ret r
//@spec
    requires self.ok()
    ensures r@ == self.b()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn len
//@ret r
//@spec
    requires self.ok()
    ensures r == self.b().len()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn total_size
//@ret r
//@spec
    requires self.ok()
    ensures r == 32 + self.cap()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn storage_size
//@ret r
//@spec
    requires self.ok()
    ensures r == 34 + self.cap()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn left_child
//@ret r
//@spec
    ensures r == self.left()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn set_left_child
//@spec
    ensures final(self).left() == child, final(self).b() == old(self).b(), final(self).ov() == old(self).ov(), final(self).cap() == old(self).cap(), old(self).ok() ==> final(self).ok()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn is_overflow
//@ret r
//@spec
    ensures r == self.ov()
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn overflow_page
//@rewrite? PageId::from_be_bytes\(\s*([^;]*?)\[(\w+)\.\.\]\s*\.try_into\(\)\s*\.expect\("[^"]*"\),?\s*\) ==> shim_unbe(\1, \2)
//@ret r
//@spec
    requires self.ok()
    ensures r == if self.ov() { Some(first_page(self.b())) } else { None }
//@end
//@extract crates/axmos-db/src/storage/cell.rs : impl OwnedCell / fn as_cell_ref
//@ret r
//@spec
    requires self.ok()
    ensures r.ok(), r.b() == self.b(), r.header.is_overflow == self.ov(), r.header.left_child == self.left(), r.header.size == self.cap()
//@end
// ------------------------------------------------------------------ overflow pages
//@extract crates/axmos-db/src/storage/page.rs : struct OverflowPageHeader
//@attrs
#[repr(C, align(8))]
#[derive(Clone, Copy)]
//@end
global layout OverflowPageHeader is size == 32, align == 8;
/// A page of memory: header and data (unsafe code: assumed contract)
pub struct OverflowPage { pub m: OverflowPageHeader, pub d: Vec<u8> }
#[verifier::ext_equal]
pub struct Ov { pub next: Option<PageId>, pub b: Seq<u8> }
impl OverflowPage {
    pub open spec fn ok(&self) -> bool { self.m.num_bytes <= self.d@.len() }
    pub open spec fn v(&self) -> Ov { Ov { next: self.m.next, b: self.d@.take(self.m.num_bytes as int) } }
    pub fn metadata(&self) -> (r: &OverflowPageHeader) ensures *r == self.m { &self.m }
    pub fn metadata_mut(&mut self) -> (r: &mut OverflowPageHeader) ensures *r == old(self).m, final(self).m == *final(r), final(self).d == old(self).d { &mut self.m }
    pub fn data(&self) -> (r: &[u8]) ensures r@ == self.d@ { self.d.as_slice() }
    #[verifier::external_body] pub fn data_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).d@, final(self).d@ == final(r)@, final(self).m == old(self).m { unimplemented!() }
    pub fn usable_space(size: usize) -> (r: usize) requires size >= 32 ensures r == size - 32 { size - 32 }
}
//@extract crates/axmos-db/src/storage/page.rs : impl OverflowPage / fn effective_data
//@rewrite? &self\.data\(\)\[\.\.([^\]]+)\] ==> shim_sub(self.data(), 0, \1)
//@ret r
//@spec
    requires self.ok()
    ensures r@ == self.v().b
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl OverflowPage / fn is_used
//@ret r
//@spec
    ensures r == (self.m.num_bytes == 0)
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl OverflowPage / fn push_bytes
//@rewrite? assert!\(\s*([^,"]*),\s*"[^"]*",?\s*\); ==> let fresh_ = \1; assert(fresh_);
//@rewrite? self\.data_mut\(\)\[\.\.([\w.()]+)\]\.copy_from_slice\((\w+)\) ==> { let n_ = \1; shim_copy(self.data_mut(), 0, n_, \2) }
//@spec
    requires old(self).m.num_bytes != 0, bytes@.len() <= old(self).d@.len(), bytes@.len() <= 0xffff_ffff
    ensures final(self).ok(), final(self).v() == (Ov { next: old(self).m.next, b: bytes@ }), final(self).d@.len() == old(self).d@.len(), final(self).m.page_number == old(self).m.page_number
//@at end
proof { assert(self.d@.take(self.m.num_bytes as int) =~= bytes@); }
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl OverflowPage / fn next
//@ret r
//@spec
    ensures r == self.m.next
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl OverflowPage / fn set_next
//@spec
    ensures final(self).m.next == Some(next), final(self).d == old(self).d, final(self).m.num_bytes == old(self).m.num_bytes
//@end
// ------------------------------------------------------------------ the pager, as far as chains are concerned
/// The contracts of `allocate_page`, `dealloc_page` and `with_page` are those the unit `pager` establishes, read on the
/// overflow pages in use. `with_page(id, |p| ..)` runs its closure on the page: `peek`, and `take` then `give`.
#[verifier::external_body] pub struct SharedPager { p: u8 }
impl SharedPager {
    pub uninterp spec fn ov(&self) -> Map<PageId, Ov>;
    pub uninterp spec fn psize(&self) -> usize;
    #[verifier::external_body] pub fn page_size(&self) -> (r: usize) ensures r == self.psize() { unimplemented!() }
    #[verifier::external_body] pub fn alloc_overflow(&mut self) -> (r: io::Result<PageId>)
        ensures final(self).psize() == old(self).psize(), r is Ok ==> !old(self).ov().dom().contains(r->Ok_0) && final(self).ov().dom() == old(self).ov().dom().insert(r->Ok_0) && final(self).ov().remove(r->Ok_0) =~= old(self).ov() && final(self).ov()[r->Ok_0].b.len() > 0 { unimplemented!() }
    #[verifier::external_body] pub fn dealloc_overflow(&mut self, id: PageId) -> (r: io::Result<()>) requires old(self).ov().dom().contains(id)
        ensures final(self).psize() == old(self).psize(), r is Ok ==> final(self).ov() == old(self).ov().remove(id) { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self, id: PageId) -> (r: io::Result<OverflowPage>) requires self.ov().dom().contains(id)
        ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.v() == self.ov()[id] && r->Ok_0.d@.len() == self.psize() - 32 && r->Ok_0.m.page_number == id { unimplemented!() }
    #[verifier::external_body] pub fn give(&mut self, id: PageId, p: OverflowPage) requires old(self).ov().dom().contains(id), p.ok(), p.d@.len() == old(self).psize() - 32, p.m.page_number == id
        ensures final(self).psize() == old(self).psize(), final(self).ov() == old(self).ov().insert(id, p.v()) { unimplemented!() }
}
pub open spec fn link(m: Map<PageId, Ov>, ids: Seq<PageId>, i: int) -> bool { m.dom().contains(ids[i]) && m[ids[i]].next == if i + 1 < ids.len() { Some(ids[i + 1]) } else { None::<PageId> } }
/// the pages `ids`, linked in this order from `start`
pub open spec fn is_chain(m: Map<PageId, Ov>, start: Option<PageId>, ids: Seq<PageId>) -> bool {
    &&& start == if ids.len() > 0 { Some(ids[0]) } else { None::<PageId> }
    &&& forall|i: int| 0 <= i < ids.len() ==> #[trigger] link(m, ids, i)
    &&& ids.no_duplicates()
}
/// the bytes of a chain
pub open spec fn bytes(m: Map<PageId, Ov>, ids: Seq<PageId>) -> Seq<u8> decreases ids.len() {
    if ids.len() == 0 { Seq::<u8>::empty() } else { bytes(m, ids.drop_last()) + m[ids.last()].b }
}
pub proof fn lemma_bytes_same(m: Map<PageId, Ov>, n: Map<PageId, Ov>, ids: Seq<PageId>)
    requires forall|i: int| 0 <= i < ids.len() ==> m[#[trigger] ids[i]].b == n[ids[i]].b
    ensures bytes(m, ids) == bytes(n, ids) decreases ids.len()
{
    if ids.len() > 0 {
        let d = ids.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies m[#[trigger] d[i]].b == n[d[i]].b by { assert(d[i] == ids[i]); }
        lemma_bytes_same(m, n, d);
    }
}
pub proof fn lemma_bytes_take(m: Map<PageId, Ov>, ids: Seq<PageId>, k: int)
    requires 0 <= k < ids.len()
    ensures bytes(m, ids.take(k + 1)) == bytes(m, ids.take(k)) + m[ids[k]].b
{ assert(ids.take(k + 1).drop_last() =~= ids.take(k)); assert(ids.take(k + 1).last() == ids[k]); }
pub proof fn lemma_prefix(m: Map<PageId, Ov>, ids: Seq<PageId>, k: int)
    requires 0 <= k <= ids.len()
    ensures bytes(m, ids.take(k)).is_prefix_of(bytes(m, ids)) decreases ids.len() - k
{
    if k == ids.len() { assert(ids.take(k) =~= ids); }
    else { lemma_prefix(m, ids, k + 1); lemma_bytes_take(m, ids, k); }
}
/// a chain is unique
pub proof fn lemma_unique(m: Map<PageId, Ov>, s: Option<PageId>, a: Seq<PageId>, b: Seq<PageId>)
    requires is_chain(m, s, a), is_chain(m, s, b)
    ensures a == b
{
    lemma_unique_to(m, s, a, b, a.len() as int);
    if a.len() < b.len() && a.len() > 0 { let i = a.len() - 1; assert(link(m, a, i)); assert(link(m, b, i)); }
    assert(a =~= b);
}
pub proof fn lemma_unique_to(m: Map<PageId, Ov>, s: Option<PageId>, a: Seq<PageId>, b: Seq<PageId>, k: int)
    requires is_chain(m, s, a), is_chain(m, s, b), 0 <= k <= a.len()
    ensures k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] decreases k
{
    if k > 0 {
        lemma_unique_to(m, s, a, b, k - 1);
        if k > 1 { let i = k - 2; assert(link(m, a, i)); assert(link(m, b, i)); }
    }
}
/// `o` is `m` without the pages `ids`
pub open spec fn less(m: Map<PageId, Ov>, o: Map<PageId, Ov>, ids: Seq<PageId>) -> bool {
    forall|p: PageId| #![trigger o.dom().contains(p)] #![trigger m.dom().contains(p)] o.dom().contains(p) == (m.dom().contains(p) && !ids.contains(p)) && (o.dom().contains(p) ==> o[p] == m[p])
}
pub proof fn lemma_push_has(ids: Seq<PageId>, n: PageId) ensures forall|p: PageId| #[trigger] ids.push(n).contains(p) == (ids.contains(p) || p == n)
{
    let t = ids.push(n);
    assert forall|p: PageId| #[trigger] t.contains(p) == (ids.contains(p) || p == n) by {
        if ids.contains(p) { let j = choose|j: int| 0 <= j < ids.len() && #[trigger] ids[j] == p; assert(t[j] == p); }
        if p == n { assert(t[ids.len() as int] == p); }
        if t.contains(p) { let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == p; if j < ids.len() { assert(ids[j] == p); } }
    }
}
pub proof fn lemma_freed(m: Map<PageId, Ov>, a: Map<PageId, Ov>, ids: Seq<PageId>, k: int)
    requires 0 <= k < ids.len(), ids.no_duplicates(), less(m, a, ids.take(k))
    ensures less(m, a.remove(ids[k]), ids.take(k + 1)), m.dom().contains(ids[k]) ==> a.dom().contains(ids[k])
{
    assert(ids.take(k).push(ids[k]) =~= ids.take(k + 1)); lemma_push_has(ids.take(k), ids[k]);
    assert(!ids.take(k).contains(ids[k]));
}
/// the whole value of a cell
pub open spec fn value(m: Map<PageId, Ov>, b: Seq<u8>, ov: bool, ids: Seq<PageId>) -> Seq<u8> { if ov { here(b) + bytes(m, ids) } else { b } }
/// the chain of a cell
pub open spec fn chain_of(m: Map<PageId, Ov>, b: Seq<u8>, ov: bool, ids: Seq<PageId>) -> bool { if ov { ids.len() > 0 && is_chain(m, Some(first_page(b)), ids) } else { ids.len() == 0 } }
//@extract crates/axmos-db/src/tree/cell_ops.rs : struct Reassembler
//@end
//@extract crates/axmos-db/src/tree/cell_ops.rs : struct CellDeallocator
//@end
//@extract crates/axmos-db/src/tree/cell_ops.rs : impl Reassembler / fn reassemble
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\s*\.reassembled\s*\.extend_from_slice\( ==> shim_extend(&mut self.reassembled, 
//@rewrite? &(\w+)\.effective_data\(\)\[\.\.(\w+)\] ==> shim_sub(\1.effective_data(), 0, \2)
//@rewrite? 'b> ==> 'b>
//@rewrite? while let Some\((\w+)\) = (\w+)\s*&& ==> while \2.is_some() &&
//@rewrite? self\s*\.pager\s*\.write\(\)\s*\.with_page::<OverflowPage, _, _>\(\s*(\w+),\s*\|(\w+)\| \{ ==> { let \2 = self.pager.peek(\1)?; {
//@rewrite? \},?\s*\)\?; ==> } }
//@ret r
//@spec
    requires cell.ok(), exists|ids: Seq<PageId>| #[trigger] chain_of(old(self).pager.ov(), cell.b(), cell.header.is_overflow, ids)
    ensures final(self).pager == old(self).pager, final(self).max_size == old(self).max_size,
        r is Ok ==> forall|ids: Seq<PageId>| #[trigger] chain_of(old(self).pager.ov(), cell.b(), cell.header.is_overflow, ids) ==> {
            let v = value(old(self).pager.ov(), cell.b(), cell.header.is_overflow, ids);
            final(self).reassembled@.is_prefix_of(v) && (final(self).reassembled@ == v || final(self).reassembled@.len() > old(self).max_size) }
//@at start
let ghost m = self.pager.ov(); let ghost ids = choose|ids: Seq<PageId>| #[trigger] chain_of(m, cell.b(), cell.header.is_overflow, ids); let ghost mut k: int = 0;
proof { assert forall|b: Seq<PageId>| #[trigger] chain_of(m, cell.b(), cell.header.is_overflow, b) implies b == ids by { if cell.header.is_overflow { lemma_unique(m, Some(first_page(cell.b())), b, ids); } else { assert(b =~= ids); } }
    assert(ids.take(ids.len() as int) =~= ids); assert(ids.take(0) =~= Seq::<PageId>::empty()); let h = here(cell.b()); assert(h + bytes(m, ids.take(0)) =~= h);
    assert forall|k: int| 0 <= k <= ids.len() implies (h + #[trigger] bytes(m, ids.take(k))).is_prefix_of(h + bytes(m, ids)) by { lemma_prefix(m, ids, k); assert(bytes(m, ids) =~= bytes(m, ids.take(k)) + bytes(m, ids).skip(bytes(m, ids.take(k)).len() as int)); } }
//@loop 0
invariant self.pager == old(self).pager, self.max_size == old(self).max_size, 0 <= k <= ids.len(), current_page == if k < ids.len() { Some(ids[k]) } else { None::<PageId> },
    self.reassembled@ == here(cell.b()) + bytes(m, ids.take(k))
decreases ids.len() - k
//@at loop 0 body-start
let page_id = current_page.unwrap();
proof { assert(link(m, ids, k)); }
//@at loop 0 body-end
proof { lemma_bytes_take(m, ids, k); assert(here(cell.b()) + bytes(m, ids.take(k)) + m[ids[k]].b =~= here(cell.b()) + bytes(m, ids.take(k + 1))); k = k + 1; }
//@end
//@extract crates/axmos-db/src/tree/cell_ops.rs : impl CellDeallocator / fn deallocate_cell
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\s*\.pager\s*\.write\(\)\s*\.with_page::<OverflowPage, _, _>\(\s*(\w+),\s*\|(\w+)\| (\2[\w.()]*)\s*,?\s*\)\? ==> { let \2 = self.pager.peek(\1)?; \3 }
//@rewrite? self\s*\.pager\s*\.write\(\)\s*\.dealloc_page::<OverflowPage>\( ==> self.pager.dealloc_overflow(
//@rewrite &self, ==> &mut self,
//@ret r
//@spec
    requires cell.ok(), exists|ids: Seq<PageId>| #[trigger] chain_of(old(self).pager.ov(), cell.b(), cell.ov(), ids)
    ensures r is Ok ==> forall|ids: Seq<PageId>| #[trigger] chain_of(old(self).pager.ov(), cell.b(), cell.ov(), ids) ==> less(old(self).pager.ov(), final(self).pager.ov(), ids)
//@at start
let ghost m = self.pager.ov(); let ghost ids = choose|ids: Seq<PageId>| #[trigger] chain_of(m, cell.b(), cell.ov(), ids); let ghost mut k: int = 0;
proof { assert forall|b: Seq<PageId>| #[trigger] chain_of(m, cell.b(), cell.ov(), b) implies b == ids by { if cell.ov() { lemma_unique(m, Some(first_page(cell.b())), b, ids); } else { assert(b =~= ids); } }
    assert(ids.take(0) =~= Seq::<PageId>::empty()); assert(ids.take(ids.len() as int) =~= ids); if !cell.ov() { assert(ids =~= Seq::<PageId>::empty()); } }
//@loop 0
invariant 0 <= k <= ids.len(), overflow_page == if k < ids.len() { Some(ids[k]) } else { None::<PageId> }, less(m, self.pager.ov(), ids.take(k))
decreases ids.len() - k
//@at loop 0 body-start
proof { assert(link(m, ids, k)); lemma_freed(m, self.pager.ov(), ids, k); }
//@at loop 0 body-end
proof { k = k + 1; }
//@end
// ------------------------------------------------------------------ building a cell
pub struct BtreePage {}
impl BtreePage { pub fn usable_space(size: usize) -> (r: usize) requires size >= 80 ensures r == size - 80 { size - 80 } }
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn max_payload_size_in
//@header impl BtreePage
//@ret r
//@spec
    requires usable_space >= 34
    ensures r % 8 == 0, r <= usable_space - 34 < r + 8
//@at start
proof { assert(forall|v: usize| #![auto] (v & !7usize) <= v && (v & !7usize) % 8 == 0 && v - (v & !7usize) < 8) by (bit_vector); assert(!(sub(8usize, 1usize)) == !7usize) by (bit_vector); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> BtreeOps for MemBlock<M> / fn ideal_max_payload_size
//@header impl BtreePage
//@rewrite? debug_assert!\(\s*([^,"]*?),\s*"[^"]*",?\s*\); ==> assert(\1);
//@ret r
//@spec
    requires 4096 <= page_size <= 65536, 3 <= min_cells <= 32
    ensures 80 <= r <= (page_size - 80) / 3, r % 8 == 0
//@at start
proof { assert((page_size - 80) / (min_cells as int) >= 125) by (nonlinear_arith) requires page_size >= 4096, 3 <= min_cells <= 32; assert((page_size - 80) / (min_cells as int) <= (page_size - 80) / 3) by (nonlinear_arith) requires page_size >= 4096, 3 <= min_cells <= 32; }
//@end
//@extract crates/axmos-db/src/tree/cell_ops.rs : struct CellBuilder
//@end
impl CellBuilder {
    pub closed spec fn ov(&self) -> Map<PageId, Ov> { self.pager.ov() }
    pub closed spec fn room(&self) -> usize { self.max_cell_storage_size }
    /// configurations a database can have
    pub closed spec fn ok(&self) -> bool { 3 <= self.minimum_keys_per_page <= 32 && 4096 <= self.pager.psize() <= 65536 && self.max_cell_storage_size <= 65536 }
}
//@extract crates/axmos-db/src/tree/cell_ops.rs : impl CellBuilder / fn align_down
//@ret r
//@spec
    requires alignment > 0
    ensures r <= value, r as int % alignment as int == 0, value > 0 ==> r < value
//@at start
proof { assert(((value as int - 1) / alignment as int) * alignment as int <= value as int - 1 && (((value as int - 1) / alignment as int) * alignment as int) % alignment as int == 0 || value == 0) by (nonlinear_arith) requires alignment > 0, value >= 0; }
//@end
//@extract crates/axmos-db/src/tree/cell_ops.rs : impl CellBuilder / fn compute_available_space_in_first_page
//@ret r
//@spec
    requires self.ok(), page_size == self.pager.psize()
    ensures r <= 65536, r % 8 == 0, r > 0 ==> r + 8 + 34 <= self.max_cell_storage_size
//@end
/// pages `ids`, all of them new, linked in this order; the last one may still be unwritten
pub open spec fn growing(o: Map<PageId, Ov>, m: Map<PageId, Ov>, ids: Seq<PageId>) -> bool {
    &&& ids.len() > 0 && ids.no_duplicates() && less(m, o, ids)
    &&& forall|i: int| 0 <= i < ids.len() ==> !o.dom().contains(#[trigger] ids[i]) && m.dom().contains(ids[i])
    &&& forall|i: int| 0 <= i < ids.len() - 1 ==> #[trigger] link(m, ids, i)
}
pub proof fn lemma_filled(o: Map<PageId, Ov>, m0: Map<PageId, Ov>, m1: Map<PageId, Ov>, ids: Seq<PageId>, b: Seq<u8>)
    requires growing(o, m0, ids), m1 == m0.insert(ids.last(), Ov { next: None, b: b })
    ensures growing(o, m1, ids), is_chain(m1, Some(ids[0]), ids), bytes(m1, ids) == bytes(m0, ids.drop_last()) + b
{
    assert(ids.contains(ids.last()));
    assert forall|i: int| 0 <= i < ids.len() implies #[trigger] link(m1, ids, i) by { if i < ids.len() - 1 { assert(link(m0, ids, i)); assert(ids[i] != ids.last()); } }
    lemma_bytes_same(m0, m1, ids.drop_last());
}
pub proof fn lemma_linked(o: Map<PageId, Ov>, m1: Map<PageId, Ov>, m2: Map<PageId, Ov>, m3: Map<PageId, Ov>, ids: Seq<PageId>, n: PageId)
    requires growing(o, m1, ids), !m1.dom().contains(n), m2.dom() == m1.dom().insert(n), m2.remove(n) =~= m1, m3 == m2.insert(ids.last(), Ov { next: Some(n), b: m1[ids.last()].b })
    ensures growing(o, m3, ids.push(n)), bytes(m3, ids) == bytes(m1, ids), m3[n] == m2[n], ids.push(n).drop_last() =~= ids
{
    let t = ids.push(n);
    assert forall|p: PageId| m1.dom().contains(p) implies #[trigger] m2[p] == m1[p] by { assert(m2.remove(n).dom().contains(p)); }
    assert forall|i: int| 0 <= i < t.len() implies !o.dom().contains(#[trigger] t[i]) && m3.dom().contains(t[i]) by { if i < ids.len() { assert(t[i] == ids[i]); } else { assert(!o.dom().contains(n)); } }
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] link(m3, t, i) by { assert(t[i] == ids[i]); if i < ids.len() - 1 { assert(ids[i] != ids.last()); assert(link(m1, ids, i)); assert(m2[ids[i]] == m1[ids[i]]); } }
    lemma_push_has(ids, n);
    assert(ids.contains(ids.last()));
    assert(less(m3, o, t));
    assert forall|i: int| 0 <= i < ids.len() implies m1[#[trigger] ids[i]].b == m3[ids[i]].b by {}
    lemma_bytes_same(m1, m3, ids);
}
//@extract crates/axmos-db/src/tree/cell_ops.rs : impl CellBuilder / fn build_cell
//@attrs
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@rewrite &self, ==> &mut self,
//@rewrite mut data: Tuple ==> data_: Tuple
//@rewrite? self\s*\.pager\s*\.write\(\)\s*\.allocate_page::<OverflowPage>\(\) ==> self.pager.alloc_overflow()
//@rewrite? self\s*\.pager\s*\.write\(\)\s*\.page_size\(\) ==> self.pager.page_size()
//@rewrite? self\s*\.pager\s*\.write\(\)\s*\.with_page_mut::<OverflowPage, _, _>\(\s*(\w+),\s*\|(\w+)\| \{(.*?)\},?\s*\)\?; ==> { let mut frame_ = self.pager.peek(\1)?; { let \2 = &mut frame_; \3 } self.pager.give(\1, frame_); }
//@rewrite? data\.into\(\) ==> { let c_ = shim_into(data); proof { let e_ = Seq::<PageId>::empty(); assert(chain_of(self.ov(), c_.b(), c_.ov(), e_)); assert(value(self.ov(), c_.b(), c_.ov(), e_) == P); assert(less(self.ov(), o, e_)); } c_ }
//@rewrite? \.map_err\(\|e\| IoError::other\(format!\((?:[^()]|\([^()]*\))*\)\)\) ==> .map_err(|e| IoError::shim())
//@rewrite? &payload\[\.\.(\w+)\] ==> shim_sub(payload, 0, \1)
//@rewrite? payload\[(\w+)\.\.\]\.len\(\) ==> shim_sub(payload, \1, payload.len()).len()
//@ret r
//@spec
    requires old(self).ok(), data_.data().ok()
    ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.left() is None,
        // the cell and its chain hold exactly the payload, the chain is made of new pages only, and the cell fits
        r is Ok ==> (exists|ids: Seq<PageId>| #[trigger] chain_of(final(self).ov(), r->Ok_0.b(), r->Ok_0.ov(), ids) && value(final(self).ov(), r->Ok_0.b(), r->Ok_0.ov(), ids) == data_.data().b()
            && (forall|i: int| 0 <= i < ids.len() ==> !old(self).ov().dom().contains(#[trigger] ids[i])) && less(final(self).ov(), old(self).ov(), ids)),
        r is Ok ==> (old(self).room() >= 64 ==> r->Ok_0.cap() + 34 <= old(self).room())
//@at start
let mut data = data_; let ghost o = self.pager.ov(); let ghost mut ids = Seq::<PageId>::empty(); let ghost P = data_.data().b(); let ghost ps = self.pager.psize();
proof { assert(less(o, o, Seq::<PageId>::empty())); assert forall|c: OwnedCell| #![trigger c.ov()] !c.ov() implies chain_of(o, c.b(), c.ov(), Seq::<PageId>::empty()) && value(o, c.b(), c.ov(), Seq::<PageId>::empty()) == c.b() by {} }
//@at before let cell =
proof { let m_ = self.pager.ov(); lemma_push_has(Seq::<PageId>::empty(), overflow_page_number); ids = Seq::<PageId>::empty().push(overflow_page_number); assert forall|p: PageId| o.dom().contains(p) implies #[trigger] m_[p] == o[p] by { assert(m_.remove(overflow_page_number).dom().contains(p)); } assert(less(m_, o, ids)); assert(ids.drop_last() =~= Seq::<PageId>::empty()); }
//@loop 0
invariant self.pager.psize() == ps, 4096 <= ps <= 65536, payload@ == P, growing(o, self.pager.ov(), ids), ids.last() == overflow_page_number, self.pager.ov()[overflow_page_number].b.len() > 0,
    bytes(self.pager.ov(), ids.drop_last()) == P.subrange(max_payload_size as int, stored_bytes as int), max_payload_size <= stored_bytes < P.len(), cell.ov() && first_page(cell.b()) == ids[0]
ensures chain_of(self.pager.ov(), cell.b(), true, ids), growing(o, self.pager.ov(), ids), bytes(self.pager.ov(), ids) == P.skip(max_payload_size as int)
decreases P.len() - stored_bytes
//@at loop 0 body-start
let ghost m0 = self.pager.ov(); let ghost s0 = stored_bytes as int;
//@at before if stored_bytes >= payload.len()
let ghost m1 = self.pager.ov();
proof { lemma_filled(o, m0, m1, ids, P.subrange(s0, stored_bytes as int)); assert(P.subrange(max_payload_size as int, s0) + P.subrange(s0, stored_bytes as int) =~= P.subrange(max_payload_size as int, stored_bytes as int)); assert(P.subrange(max_payload_size as int, P.len() as int) =~= P.skip(max_payload_size as int)); }
//@at after let next_overflow_page = self.pager.write().allocate_page::<OverflowPage>()?;
let ghost m2 = self.pager.ov();
//@at loop 0 body-end
proof { lemma_linked(o, m1, m2, self.pager.ov(), ids, next_overflow_page); ids = ids.push(next_overflow_page); }
//@at before Ok(cell)
proof { assert(here(cell.b()) + P.skip(max_payload_size as int) =~= P); assert(chain_of(self.ov(), cell.b(), cell.ov(), ids) && value(self.ov(), cell.b(), cell.ov(), ids) == P); }
//@end
}
