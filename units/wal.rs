// The write-ahead log: records, blocks, placement, force, reopen, truncation and the reader.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut)]
use vstd::prelude::*;
use vstd::layout::size_of;
use core::mem;
verus!{
fn main(){}
global size_of usize == 8;
pub type TransactionId = u64;
pub type BlockId = u64;
pub type ObjectId = u64;
pub type RowId = u64;
pub type Lsn = u64;
pub const MIN_PAGE_SIZE: usize = 4096;
pub const MAX_PAGE_SIZE: usize = 65536;

// ------------------------------------------------------------------ std and the operating system (assumed contracts)
pub struct IoError {}
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; }
/// an I/O error happens only when this is true: the contracts below promise success otherwise
pub uninterp spec fn io_faulty() -> bool;
pub struct Path {}
pub uninterp spec fn disk(p: Path) -> Seq<u8>;
pub uninterp spec fn fs_block(p: Path) -> int;
pub struct FileSystem {}
impl FileSystem {
    #[verifier::external_body] pub fn block_size(p: &Path) -> (r: io::Result<usize>) ensures r is Ok ==> r->Ok_0 == fs_block(*p), r is Err ==> io_faulty() { unimplemented!() }
}
/// usize::next_multiple_of
#[verifier::external_body] pub fn shim_next_multiple(a: usize, b: usize) -> (r: usize)
    requires b > 0, a + b <= usize::MAX
    ensures r == ((a + b - 1) / b as int) * b { unimplemented!() }
pub open spec fn next_multiple(a: int, b: int) -> int { ((a + b - 1) / b) * b }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body] pub struct DBFile { p: u8 }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
/// what a write of `b` at `p` makes of a file
pub open spec fn splice(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    Seq::new((if p + b.len() > d.len() { p + b.len() } else { d.len() as int }) as nat, |i: int| if p <= i < p + b.len() { b[i - p] } else if i < d.len() { d[i] } else { 0u8 })
}
impl DBFile {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    /// the content has reached the disk
    pub uninterp spec fn synced(&self) -> bool;
    #[verifier::external_body] pub fn create(p: &Path) -> (r: io::Result<DBFile>) ensures r is Ok ==> r->Ok_0.data() == Seq::<u8>::empty(), r is Err ==> io_faulty() { unimplemented!() }
    #[verifier::external_body] pub fn open(p: &Path) -> (r: io::Result<DBFile>) ensures r is Ok ==> r->Ok_0.data() == disk(*p), r is Err ==> io_faulty() { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r is Ok ==> r->Ok_0.n == self.data().len(), r is Err ==> io_faulty() { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, s: SeekFrom) -> (r: io::Result<u64>)
        ensures final(self).data() == old(self).data(), r is Ok && s is Start ==> final(self).pos() == s->Start_0, r is Err ==> io_faulty() { unimplemented!() }
    #[verifier::external_body] pub fn write_block<M>(&mut self, b: &MemBlock<M>) -> (r: io::Result<()>)
        ensures r is Ok ==> final(self).data() == splice(old(self).data(), old(self).pos(), enc(b.meta, b.dat@)), r is Err ==> io_faulty() { unimplemented!() }
    #[verifier::external_body] pub fn read_block<M>(&mut self, b: &mut MemBlock<M>) -> (r: io::Result<()>)
        requires wfb(*old(b))
        ensures final(self).data() == old(self).data(), wfb(*final(b)), final(b).size == old(b).size,
            r is Ok ==> old(self).pos() + old(b).size <= old(self).data().len() && enc(final(b).meta, final(b).dat@) == old(self).data().subrange(old(self).pos(), old(self).pos() + old(b).size),
            r is Err ==> io_faulty() || old(self).pos() + old(b).size > old(self).data().len() { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self) -> (r: io::Result<()>) ensures r is Ok ==> final(self).data() == Seq::<u8>::empty(), r is Err ==> io_faulty() { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self) -> (r: io::Result<()>) ensures r is Ok ==> self.synced(), r is Err ==> io_faulty() { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { p: core::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
}
/// `dst[a..b].copy_from_slice(src)`
#[verifier::external_body] pub fn shim_copy(dst: &mut [u8], a: usize, b: usize, src: &[u8])
    requires a <= b <= old(dst)@.len(), src@.len() == b - a
    ensures final(dst)@ == old(dst)@.take(a as int) + src@ + old(dst)@.skip(b as int) { unimplemented!() }
/// `vec![0u8; n].into_boxed_slice()`; a boxed slice is a vector that does not grow
#[verifier::external_body] pub fn shim_zeroed(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { unimplemented!() }
/// `&mut v[a..]`
#[verifier::external_body] pub fn shim_tail(v: &mut [u8], a: usize) -> (r: &mut [u8])
    requires a <= old(v)@.len()
    ensures r@ == old(v)@.skip(a as int), final(r)@.len() == r@.len() ==> final(v)@ == old(v)@.take(a as int) + final(r)@ { unimplemented!() }
#[verifier::external_body] pub fn shim_slice(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }

// ------------------------------------------------------------------ headers
//@extract crates/axmos-db/src/storage/wal.rs : enum RecordType
//@attrs
#[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/storage/wal.rs : struct WalHeader
//@attrs
#[repr(C, align(64))] #[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/storage/wal.rs : struct BlockHeader
//@attrs
#[repr(C, align(64))] #[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/storage/wal.rs : struct BlockZeroHeader
//@attrs
#[repr(C, align(64))] #[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/storage/wal.rs : struct RecordHeader
//@attrs
#[repr(C, align(8))] #[derive(Clone, Copy)]
//@end
global layout BlockHeader is size == 64, align == 64;
global layout BlockZeroHeader is size == 128, align == 64;
global layout RecordHeader is size == 80, align == 8;
pub const RECORD_HEADER_SIZE: usize = 80;
//@extract crates/axmos-db/src/storage/wal.rs : const WAL_BLOCK_SIZE
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl BlockHeader / fn new
//@ret r
//@spec
    ensures r.block_number == id, r.used_bytes == 0
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalHeader / fn new
//@ret r
//@spec
    ensures r.total_blocks == 1, r.total_entries == 0, r.global_last_lsn is None, r.block_size == block_size
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl Allocatable for BlockHeader / fn alloc
//@header impl BlockHeader
//@rewrite Self::IdType ==> BlockId
//@ret r
//@spec
    ensures r.block_number == id, r.used_bytes == 0
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl Allocatable for BlockZeroHeader / fn alloc
//@header impl BlockZeroHeader
//@rewrite Self::IdType ==> BlockId
//@ret r
//@spec
    requires size <= u32::MAX
    ensures r.block_header.block_number == id, r.block_header.used_bytes == 0, r.wal_header.total_blocks == 1, r.wal_header.total_entries == 0, r.wal_header.global_last_lsn is None, r.wal_header.block_size == size
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockHeader / fn last_lsn
//@header impl BlockHeader
//@ret r
//@spec
    ensures r == self.block_last_lsn
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockHeader / fn start_lsn
//@header impl BlockHeader
//@ret r
//@spec
    ensures r == self.block_first_lsn
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockHeader / fn set_last_lsn
//@header impl BlockHeader
//@spec
    ensures *final(self) == (BlockHeader { block_last_lsn: Some(lsn), ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockHeader / fn set_start_lsn
//@header impl BlockHeader
//@spec
    ensures *final(self) == (BlockHeader { block_first_lsn: Some(lsn), ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockHeader / fn increment_write_offset
//@header impl BlockHeader
//@spec
    requires old(self).used_bytes + added_bytes <= u64::MAX
    ensures *final(self) == (BlockHeader { used_bytes: (old(self).used_bytes + added_bytes) as u64, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockHeader / fn used_bytes
//@header impl BlockHeader
//@ret r
//@spec
    ensures r == self.used_bytes
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockZeroHeader / fn last_lsn
//@header impl BlockZeroHeader
//@ret r
//@spec
    ensures r == self.block_header.block_last_lsn
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockZeroHeader / fn start_lsn
//@header impl BlockZeroHeader
//@ret r
//@spec
    ensures r == self.block_header.block_first_lsn
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockZeroHeader / fn set_last_lsn
//@header impl BlockZeroHeader
//@spec
    ensures *final(self) == (BlockZeroHeader { block_header: BlockHeader { block_last_lsn: Some(lsn), ..old(self).block_header }, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockZeroHeader / fn set_start_lsn
//@header impl BlockZeroHeader
//@spec
    ensures *final(self) == (BlockZeroHeader { block_header: BlockHeader { block_first_lsn: Some(lsn), ..old(self).block_header }, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockZeroHeader / fn increment_write_offset
//@header impl BlockZeroHeader
//@spec
    requires old(self).block_header.used_bytes + added_bytes <= u64::MAX
    ensures *final(self) == (BlockZeroHeader { block_header: BlockHeader { used_bytes: (old(self).block_header.used_bytes + added_bytes) as u64, ..old(self).block_header }, ..*old(self) })
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WalMetadata for BlockZeroHeader / fn used_bytes
//@header impl BlockZeroHeader
//@ret r
//@spec
    ensures r == self.block_header.used_bytes
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl RecordHeader / fn new
//@ret r
//@spec
    ensures r == (RecordHeader { lsn, tid, prev_lsn, object_id, row_id, total_size, undo_len, redo_len, log_type, padding: r.padding })
//@end
// ------------------------------------------------------------------ records
/// a record: its header and its (padded) payload
pub struct Rec { pub h: RecordHeader, pub p: Seq<u8> }
/// the bytes of a record header (the header is plain data: the bytes determine it)
pub uninterp spec fn hb(h: RecordHeader) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_hb(a: RecordHeader, b: RecordHeader) ensures hb(a).len() == 80, hb(a) == hb(b) ==> a == b { }
pub open spec fn rok(r: Rec) -> bool { r.h.total_size == 80 + r.p.len() && r.h.undo_len + r.h.redo_len <= r.p.len() }
/// what a block can hold; the header's 16- and 32-bit length fields are exact for it
pub open spec fn fits(r: Rec) -> bool { rlen(r) <= 65536 }
pub open spec fn rlen(r: Rec) -> int { (80 + r.p.len()) as int }
pub open spec fn undo_of(r: Rec) -> Seq<u8> { r.p.take(r.h.undo_len as int) }
pub open spec fn redo_of(r: Rec) -> Seq<u8> { r.p.subrange(r.h.undo_len as int, r.h.undo_len + r.h.redo_len) }
//@extract crates/axmos-db/src/storage/wal.rs : struct OwnedRecord
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/storage/wal.rs : struct RecordRef
//@end
pub open spec fn orec(o: OwnedRecord) -> Rec { Rec { h: o.header, p: o.payload@ } }
pub open spec fn rrec(o: RecordRef) -> Rec { Rec { h: *o.header, p: o.data@ } }
impl RecordHeader {
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == hb(*self) { unimplemented!() }
}
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn compute_padded_size
//@rewrite \(payload_size \+ RECORD_HEADER_SIZE\)\.next_multiple_of\(WAL_RECORD_ALIGNMENT\) ==> shim_next_multiple(payload_size + RECORD_HEADER_SIZE, WAL_RECORD_ALIGNMENT)
//@ret r
//@spec
    requires payload_size <= 0x7fff_ffff_ffff_ff00
    ensures payload_size <= r < payload_size + 8, (r + 80) % 8 == 0
//@end
pub const WAL_RECORD_ALIGNMENT: usize = 8;
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn new
//@rewrite vec!\[0u8; payload_size\]\.into_boxed_slice\(\) ==> shim_zeroed(payload_size)
//@rewrite payload\[\.\.undo_payload\.len\(\)\]\.copy_from_slice\(undo_payload\) ==> shim_copy(payload.as_mut_slice(), 0, undo_payload.len(), undo_payload)
//@rewrite payload\[undo_payload\.len\(\)\.\.undo_payload\.len\(\) \+ redo_payload\.len\(\)\]\s*\.copy_from_slice\(redo_payload\) ==> shim_copy(payload.as_mut_slice(), undo_payload.len(), undo_payload.len() + redo_payload.len(), redo_payload)
//@ret r
//@spec
    requires undo_payload@.len() + redo_payload@.len() <= 0x7fff_ffff_ffff_ff00
    ensures fits(orec(r)) ==> rok(orec(r)), r.header.lsn == lsn, r.header.tid == tid, r.header.prev_lsn == prev_lsn, r.header.object_id == object_id, r.header.row_id == row_id,
        r.header.log_type == log_type, fits(orec(r)) ==> undo_of(orec(r)) =~= undo_payload@ && redo_of(orec(r)) =~= redo_payload@,
        undo_payload@.len() + redo_payload@.len() <= r.payload@.len(), r.payload@.len() < undo_payload@.len() + redo_payload@.len() + 8
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn lsn
//@ret r
//@spec
    ensures r == self.header.lsn
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn tid
//@ret r
//@spec
    ensures r == self.header.tid
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn log_type
//@ret r
//@spec
    ensures r == self.header.log_type
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn data
//@rewrite &self\.payload ==> self.payload.as_slice()
//@ret r
//@spec
    ensures r@ == self.payload@
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl OwnedRecord / fn as_record_ref
//@ret r
//@spec
    ensures rrec(r) == orec(*self)
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn lsn
//@ret r
//@spec
    ensures r == self.header.lsn
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn tid
//@ret r
//@spec
    ensures r == self.header.tid
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn log_type
//@ret r
//@spec
    ensures r == self.header.log_type
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn metadata
//@ret r
//@spec
    ensures *r == *self.header
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn undo_payload
//@rewrite &self\.data\[\.\.self\.header\.undo_len as usize\] ==> shim_slice(self.data, 0, self.header.undo_len as usize)
//@ret r
//@spec
    requires rok(rrec(*self))
    ensures r@ == undo_of(rrec(*self))
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn redo_payload
//@rewrite &self\.data\[start\.\.end\] ==> shim_slice(self.data, start, end)
//@ret r
//@spec
    requires rok(rrec(*self))
    ensures r@ == redo_of(rrec(*self))
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl<'a> RecordRef<'a> / fn total_size
//@ret r
//@spec
    ensures r == self.header.total_size
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WritableLayout for OwnedRecord / fn header
//@header impl OwnedRecord
//@rewrite Self::Header ==> RecordHeader
//@ret r
//@spec
    ensures *r == self.header
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl WritableLayout for OwnedRecord / fn content
//@header impl OwnedRecord
//@rewrite &self\.payload ==> self.payload.as_slice()
//@ret r
//@spec
    ensures r@ == self.payload@
//@end
//@extract crates/axmos-db/src/storage/core/traits.rs : impl<T: WritableLayout> Writable for T / fn total_size
//@header impl OwnedRecord
//@rewrite mem::size_of::<Self::Header>\(\) ==> mem::size_of::<RecordHeader>()
//@ret r
//@spec
    requires self.payload@.len() <= 0x7fff_ffff_ffff_ff08
    ensures r == rlen(orec(*self))
//@end
//@extract crates/axmos-db/src/storage/core/traits.rs : impl<T: WritableLayout> Writable for T / fn write_to
//@header impl OwnedRecord
//@rewrite mem::size_of::<Self::Header>\(\) ==> mem::size_of::<RecordHeader>()
//@rewrite buffer\[\.\.header_size\]\.copy_from_slice\(self\.header\(\)\.as_ref\(\)\) ==> shim_copy(buffer, 0, header_size, self.header().as_ref())
//@rewrite buffer\[header_size\.\.self\.total_size\(\)\]\.copy_from_slice\(self\.content\(\)\) ==> shim_copy(buffer, header_size, self.total_size(), self.content())
//@ret r
//@spec
    requires rok(orec(*self)), rlen(orec(*self)) <= old(buffer)@.len()
    ensures final(buffer)@.len() == old(buffer)@.len(), at(final(buffer)@, 0, orec(*self)), r == rlen(orec(*self))
//@at start
    proof { axiom_hb(self.header, self.header); }
//@end
/// the record `r` lies at `o`
pub open spec fn at(d: Seq<u8>, o: int, r: Rec) -> bool {
    rok(r) && 0 <= o && o + rlen(r) <= d.len() && d.subrange(o, o + 80) =~= hb(r.h) && d.subrange(o + 80, o + rlen(r)) =~= r.p
}
/// exactly the records `rs` lie between `o` and `e`
pub open spec fn holds(d: Seq<u8>, o: int, e: int, rs: Seq<Rec>) -> bool decreases rs.len() {
    if rs.len() == 0 { o == e } else { at(d, o, rs[0]) && holds(d, o + rlen(rs[0]), e, rs.skip(1)) }
}
pub proof fn holds_bound(d: Seq<u8>, o: int, e: int, rs: Seq<Rec>)
    requires holds(d, o, e, rs), 0 <= o <= d.len()
    ensures o + 80 * rs.len() <= e <= d.len()
    decreases rs.len()
{ if rs.len() > 0 { holds_bound(d, o + rlen(rs[0]), e, rs.skip(1)); } }
pub proof fn holds_push(d: Seq<u8>, d2: Seq<u8>, o: int, e: int, rs: Seq<Rec>, r: Rec)
    requires holds(d, o, e, rs), 0 <= o <= e <= d.len(), d.len() == d2.len(), forall|i: int| 0 <= i < e ==> d[i] == d2[i], at(d2, e, r)
    ensures holds(d2, o, e + rlen(r), rs.push(r))
    decreases rs.len()
{
    if rs.len() > 0 {
        holds_bound(d, o, e, rs);
        holds_bound(d, o + rlen(rs[0]), e, rs.skip(1));
        assert(rs.push(r).skip(1) =~= rs.skip(1).push(r));
        holds_push(d, d2, o + rlen(rs[0]), e, rs.skip(1), r);
        assert(at(d2, o, rs[0])) by {
            assert(d2.subrange(o, o + 80) =~= d.subrange(o, o + 80));
            assert(d2.subrange(o + 80, o + rlen(rs[0])) =~= d.subrange(o + 80, o + rlen(rs[0])));
        }
    } else {
        assert(rs.push(r).skip(1) =~= Seq::<Rec>::empty());
        assert(holds(d2, e + rlen(r), e + rlen(r), rs.push(r).skip(1)));
    }
}
/// the bytes determine the records
pub proof fn holds_unique(d: Seq<u8>, o: int, e: int, a: Seq<Rec>, b: Seq<Rec>)
    requires holds(d, o, e, a), holds(d, o, e, b), 0 <= o <= d.len()
    ensures a == b
    decreases a.len()
{
    holds_bound(d, o, e, a); holds_bound(d, o, e, b);
    if a.len() == 0 || b.len() == 0 { assert(a =~= b); } else {
        axiom_hb(a[0].h, b[0].h);
        assert(a[0].p =~= b[0].p);
        holds_unique(d, o + rlen(a[0]), e, a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}

// ------------------------------------------------------------------ blocks
/// `MemBlock<M>`: header and data of one aligned buffer (raw pointers in the source)
pub struct MemBlock<M> { pub size: u32, pub meta: M, pub dat: Vec<u8> }
pub type BlockZero = MemBlock<BlockZeroHeader>;
pub type WalBlock = MemBlock<BlockHeader>;
pub open spec fn wfb<M>(b: MemBlock<M>) -> bool { b.size == size_of::<M>() + b.dat@.len() }
/// the bytes of a block (plain data: the bytes determine it)
pub uninterp spec fn enc<M>(m: M, d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub proof fn axiom_enc<M>(m: M, d: Seq<u8>, m2: M, d2: Seq<u8>)
    ensures enc(m, d).len() == size_of::<M>() + d.len(), enc(m, d) == enc(m2, d2) ==> m == m2 && d == d2 { }
impl<M> MemBlock<M> {
    #[verifier::external_body] pub fn new(size: usize) -> (r: Self) requires size >= size_of::<M>(), size <= u32::MAX ensures wfb(r), r.size == size { unimplemented!() }
    pub fn metadata(&self) -> (r: &M) ensures *r == self.meta { &self.meta }
    pub fn metadata_mut(&mut self) -> (r: &mut M) ensures *r == old(self).meta, final(self).meta == *final(r), final(self).dat == old(self).dat, final(self).size == old(self).size { &mut self.meta }
    #[verifier::external_body] pub fn data_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).dat@, final(self).dat@ == final(r)@, final(self).meta == old(self).meta, final(self).size == old(self).size { unimplemented!() }
    /// the unsafe view of the record at `offset`: its header, and as many bytes as the header says
    #[verifier::external_body] pub fn record(&self, offset: u64) -> (r: RecordRef<'_>)
        requires exists|x: Rec| at(self.dat@, offset as int, x)
        ensures forall|x: Rec| at(self.dat@, offset as int, x) ==> rrec(r) == x { unimplemented!() }
}
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> MemBlock<M> / fn usable_space
//@ret r
//@spec
    requires size >= size_of::<M>()
    ensures r == size - size_of::<M>()
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> MemBlock<M> / fn capacity
//@ret r
//@spec
    requires wfb(*self)
    ensures r == self.dat@.len()
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl AvailableSpace for WalBlock / fn available_space
//@header impl MemBlock<BlockHeader>
//@ret r
//@spec
    requires wfb(*self), self.meta.used_bytes <= self.dat@.len()
    ensures r == self.dat@.len() - self.meta.used_bytes
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> Allocatable for MemBlock<M> / fn alloc
//@header impl MemBlock<BlockHeader>
//@rewrite Self::IdType ==> BlockId
//@rewrite (?s)assert!\(\s*\(Self::MIN_SIZE\.\.=Self::MAX_SIZE\)\.contains\(&size\),.*?\); ==> assert(MIN_PAGE_SIZE <= size && size <= MAX_PAGE_SIZE * 10);
//@rewrite MemBlock::<M> ==> MemBlock::<BlockHeader>
//@rewrite M::alloc ==> BlockHeader::alloc
//@ret r
//@spec
    requires 4096 <= size <= 65536
    ensures wfb(r), r.size == size, r.meta.block_number == id, r.meta.used_bytes == 0
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> WalOps for MemBlock<M> / fn current_write_offset
//@header impl MemBlock<BlockHeader>
//@rewrite &mut self\.data_mut\(\)\[offset\.\.\] ==> shim_tail(self.data_mut(), offset)
//@ret r
//@spec
    requires old(self).meta.used_bytes <= old(self).dat@.len()
    ensures r@ == old(self).dat@.skip(old(self).meta.used_bytes as int), final(self).meta == old(self).meta, final(self).size == old(self).size, final(r)@.len() == r@.len() ==> final(self).dat@ == old(self).dat@.take(old(self).meta.used_bytes as int) + final(r)@
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> WalOps for MemBlock<M> / fn append_record_uncheked
//@header impl MemBlock<BlockHeader>
//@rewrite <R: Writable<Header = RecordHeader>> ==> 
//@rewrite item: R ==> item: OwnedRecord
//@rewrite where\s+Self: AvailableSpace, ==> 
//@spec
    requires wfb(*old(self)), rok(orec(item)), old(self).meta.used_bytes + rlen(orec(item)) <= old(self).dat@.len()
    ensures wfb(*final(self)), final(self).size == old(self).size, final(self).meta == (BlockHeader { used_bytes: (old(self).meta.used_bytes + rlen(orec(item))) as u64, ..old(self).meta }),
        appended(old(self).dat@, final(self).dat@, old(self).meta.used_bytes as int, orec(item))
//@at end
    proof { let u = old(self).meta.used_bytes as int; assert(self.dat@.subrange(u, u + 80) =~= self.dat@.skip(u).subrange(0, 80)); assert(self.dat@.subrange(u + 80, u + rlen(orec(item))) =~= self.dat@.skip(u).subrange(80, rlen(orec(item)))); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> WalOps for MemBlock<M> / fn try_push
//@header impl MemBlock<BlockHeader>
//@rewrite <R: Writable<Header = RecordHeader>> ==> 
//@rewrite record: R ==> record: OwnedRecord
//@rewrite where\s+Self: AvailableSpace, ==> 
//@rewrite (?s)IoError::new\(.*?\)\) ==> IoError {})
//@ret r
//@spec
    requires wfb(*old(self)), rok(orec(record)), old(self).meta.used_bytes <= old(self).dat@.len()
    ensures wfb(*final(self)), final(self).size == old(self).size,
        r is Err ==> *final(self) == *old(self) && old(self).meta.used_bytes + rlen(orec(record)) > old(self).dat@.len(),
        r is Ok ==> old(self).meta.used_bytes + rlen(orec(record)) <= old(self).dat@.len() && appended(old(self).dat@, final(self).dat@, old(self).meta.used_bytes as int, orec(record))
            && final(self).meta.used_bytes == old(self).meta.used_bytes + rlen(orec(record)) && final(self).meta.block_number == old(self).meta.block_number
//@end
//@extract crates/axmos-db/src/storage/wal.rs : impl AvailableSpace for BlockZero / fn available_space
//@header impl MemBlock<BlockZeroHeader>
//@ret r
//@spec
    requires wfb(*self), self.meta.block_header.used_bytes <= self.dat@.len()
    ensures r == self.dat@.len() - self.meta.block_header.used_bytes
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> Allocatable for MemBlock<M> / fn alloc
//@header impl MemBlock<BlockZeroHeader>
//@rewrite Self::IdType ==> BlockId
//@rewrite (?s)assert!\(\s*\(Self::MIN_SIZE\.\.=Self::MAX_SIZE\)\.contains\(&size\),.*?\); ==> assert(MIN_PAGE_SIZE <= size && size <= MAX_PAGE_SIZE * 10);
//@rewrite MemBlock::<M> ==> MemBlock::<BlockZeroHeader>
//@rewrite M::alloc ==> BlockZeroHeader::alloc
//@ret r
//@spec
    requires 4096 <= size <= 65536
    ensures wfb(r), r.size == size, r.meta.block_header.block_number == id, r.meta.block_header.used_bytes == 0, r.meta.wal_header.total_blocks == 1, r.meta.wal_header.total_entries == 0, r.meta.wal_header.global_last_lsn is None, r.meta.wal_header.block_size == size
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> WalOps for MemBlock<M> / fn current_write_offset
//@header impl MemBlock<BlockZeroHeader>
//@rewrite &mut self\.data_mut\(\)\[offset\.\.\] ==> shim_tail(self.data_mut(), offset)
//@ret r
//@spec
    requires old(self).meta.block_header.used_bytes <= old(self).dat@.len()
    ensures r@ == old(self).dat@.skip(old(self).meta.block_header.used_bytes as int), final(self).meta == old(self).meta, final(self).size == old(self).size, final(r)@.len() == r@.len() ==> final(self).dat@ == old(self).dat@.take(old(self).meta.block_header.used_bytes as int) + final(r)@
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> WalOps for MemBlock<M> / fn append_record_uncheked
//@header impl MemBlock<BlockZeroHeader>
//@rewrite <R: Writable<Header = RecordHeader>> ==> 
//@rewrite item: R ==> item: OwnedRecord
//@rewrite where\s+Self: AvailableSpace, ==> 
//@spec
    requires wfb(*old(self)), rok(orec(item)), old(self).meta.block_header.used_bytes + rlen(orec(item)) <= old(self).dat@.len()
    ensures wfb(*final(self)), final(self).size == old(self).size, final(self).meta == (BlockZeroHeader { block_header: BlockHeader { used_bytes: (old(self).meta.block_header.used_bytes + rlen(orec(item))) as u64, ..old(self).meta.block_header }, ..old(self).meta }),
        appended(old(self).dat@, final(self).dat@, old(self).meta.block_header.used_bytes as int, orec(item))
//@at end
    proof { let u = old(self).meta.block_header.used_bytes as int; assert(self.dat@.subrange(u, u + 80) =~= self.dat@.skip(u).subrange(0, 80)); assert(self.dat@.subrange(u + 80, u + rlen(orec(item))) =~= self.dat@.skip(u).subrange(80, rlen(orec(item)))); }
//@end
//@extract crates/axmos-db/src/storage/core/buffer.rs : impl<M> WalOps for MemBlock<M> / fn try_push
//@header impl MemBlock<BlockZeroHeader>
//@rewrite <R: Writable<Header = RecordHeader>> ==> 
//@rewrite record: R ==> record: OwnedRecord
//@rewrite where\s+Self: AvailableSpace, ==> 
//@rewrite (?s)IoError::new\(.*?\)\) ==> IoError {})
//@ret r
//@spec
    requires wfb(*old(self)), rok(orec(record)), old(self).meta.block_header.used_bytes <= old(self).dat@.len()
    ensures wfb(*final(self)), final(self).size == old(self).size,
        r is Err ==> *final(self) == *old(self) && old(self).meta.block_header.used_bytes + rlen(orec(record)) > old(self).dat@.len(),
        r is Ok ==> old(self).meta.block_header.used_bytes + rlen(orec(record)) <= old(self).dat@.len() && appended(old(self).dat@, final(self).dat@, old(self).meta.block_header.used_bytes as int, orec(record))
            && final(self).meta.block_header.used_bytes == old(self).meta.block_header.used_bytes + rlen(orec(record)) && final(self).meta.block_header.block_number == old(self).meta.block_header.block_number && final(self).meta.wal_header == old(self).meta.wal_header
//@end
/// `r` was written at `u`, and nothing before it changed
pub open spec fn appended(d: Seq<u8>, d2: Seq<u8>, u: int, r: Rec) -> bool { d.len() == d2.len() && at(d2, u, r) && forall|i: int| 0 <= i < u ==> d[i] == d2[i] }
pub open spec fn zrecs(b: BlockZero, s: int, rs: Seq<Rec>) -> bool { wfb(b) && b.size == s && b.meta.block_header.block_number == 0 && holds(b.dat@, 0, b.meta.block_header.used_bytes as int, rs) }
pub open spec fn wrecs(b: WalBlock, s: int, n: int, rs: Seq<Rec>) -> bool { wfb(b) && b.size == s && b.meta.block_number == n && holds(b.dat@, 0, b.meta.used_bytes as int, rs) }

// ------------------------------------------------------------------ the log
pub open spec fn flat(rs: Seq<Seq<Rec>>) -> Seq<Rec> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { flat(rs.drop_last()) + rs.last() } }
//@extract crates/axmos-db/src/io/wal.rs : struct WriteAheadLog
//@rewrite block_size: usize,\s*\} ==> block_size: usize, pub rs: Ghost<Seq<Seq<Rec>>> }
//@end
pub open spec fn no_blocks() -> Seq<Seq<Rec>> { seq![Seq::<Rec>::empty()] }
/// block `i` lies in the file at its own position and holds exactly `r`
pub open spec fn infile(d: Seq<u8>, i: int, s: int, r: Seq<Rec>) -> bool {
    exists|b: WalBlock| #[trigger] wrecs(b, s, i, r) && i * s + s <= d.len() && enc(b.meta, b.dat@) == d.subrange(i * s, i * s + s)
}
pub open spec fn zero_infile(d: Seq<u8>, s: int, n: int, r: Seq<Rec>) -> bool {
    exists|b: BlockZero| #[trigger] zrecs(b, s, r) && s <= d.len() && enc(b.meta, b.dat@) == d.subrange(0, s) && b.meta.wal_header.total_blocks == n && b.meta.wal_header.block_size == s
        && b.meta.wal_header.total_entries < u32::MAX
}
/// the file holds exactly the blocks `rs`
pub open spec fn image(d: Seq<u8>, s: int, rs: Seq<Seq<Rec>>) -> bool {
    &&& sok(s) && 1 <= rs.len() <= 0x100_0000_0000
    &&& zero_infile(d, s, rs.len() as int, rs[0])
    &&& forall|i: int| 1 <= i < rs.len() ==> #[trigger] infile(d, i, s, rs[i])
}
pub open spec fn sok(s: int) -> bool { 4096 <= s <= 65536 }
pub open spec fn numbered(w: WriteAheadLog) -> int { w.rs@.len() - (if w.current_block is Some { 1int } else { 0 }) - w.flush_queue@.len() }
/// what is in memory and what is in the file add up to the blocks `w.rs`
pub open spec fn inv(w: WriteAheadLog) -> bool {
    let s = w.block_size as int;
    let t = w.rs@.len();
    &&& sok(s) && 1 <= t <= 0x100_0000_0000
    &&& w.header.meta.wal_header.total_blocks == t && w.header.meta.wal_header.block_size == s && zrecs(w.header, s, w.rs@[0])
    &&& (w.current_block is Some ==> t >= 2 && wrecs(w.current_block->0, s, t - 1, w.rs@[t - 1]))
    &&& (w.current_block is None ==> w.flush_queue@.len() == 0)
    &&& numbered(w) >= 1
    &&& forall|j: int| 0 <= j < w.flush_queue@.len() ==> wrecs(#[trigger] w.flush_queue@[j], s, numbered(w) + j, w.rs@[numbered(w) + j])
    &&& forall|i: int| 1 <= i < numbered(w) ==> #[trigger] infile(w.file.data(), i, s, w.rs@[i])
}
/// everything appended since the last truncation, in order
pub open spec fn log(w: WriteAheadLog) -> Seq<Rec> { flat(w.rs@) }
/// sequence numbers: strictly increasing, and the header knows the last one
pub open spec fn seqd(w: WriteAheadLog) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < log(w).len() ==> (#[trigger] log(w)[i]).h.lsn < (#[trigger] log(w)[j]).h.lsn
    &&& w.header.meta.wal_header.global_last_lsn == (if log(w).len() == 0 { None } else { Some(log(w).last().h.lsn) })
}
proof fn infile_other(d: Seq<u8>, n: int, s: int, b: Seq<u8>, i: int, r: Seq<Rec>)
    requires infile(d, i, s, r), i != n, b.len() == s, s > 0, 0 <= n, 0 <= i
    ensures infile(splice(d, n * s, b), i, s, r)
{
    assert((i < n ==> i * s + s <= n * s) && (n < i ==> n * s + s <= i * s) && i * s >= 0 && n * s >= 0) by (nonlinear_arith) requires s > 0, 0 <= n, 0 <= i;
    let x = choose|b: WalBlock| #[trigger] wrecs(b, s, i, r) && i * s + s <= d.len() && enc(b.meta, b.dat@) == d.subrange(i * s, i * s + s);
    let e = splice(d, n * s, b);
    assert(e.subrange(i * s, i * s + s) =~= d.subrange(i * s, i * s + s));
    assert(wrecs(x, s, i, r));
}
proof fn infile_same(d: Seq<u8>, n: int, s: int, x: WalBlock, r: Seq<Rec>)
    requires wrecs(x, s, n, r), s > 0, n >= 0
    ensures infile(splice(d, n * s, enc(x.meta, x.dat@)), n, s, r)
{
    axiom_enc(x.meta, x.dat@, x.meta, x.dat@);
    assert(n * s >= 0) by (nonlinear_arith) requires s > 0, n >= 0;
    let e = splice(d, n * s, enc(x.meta, x.dat@));
    assert(e.subrange(n * s, n * s + s) =~= enc(x.meta, x.dat@));
}
proof fn none_flat() ensures flat(no_blocks()) == Seq::<Rec>::empty(), no_blocks().len() == 1, no_blocks()[0] == Seq::<Rec>::empty()
{ reveal_with_fuel(flat, 3); assert(no_blocks().drop_last() =~= Seq::<Seq<Rec>>::empty()); assert(flat(no_blocks()) =~= Seq::<Rec>::empty()); }
proof fn zpush(b: BlockZero, b2: BlockZero, s: int, rs: Seq<Rec>, r: Rec)
    requires zrecs(b, s, rs)
    ensures b.meta.block_header.used_bytes <= b.dat@.len(),
        wfb(b2) && b2.size == s && b2.meta.block_header.block_number == 0 && appended(b.dat@, b2.dat@, b.meta.block_header.used_bytes as int, r) && b2.meta.block_header.used_bytes == b.meta.block_header.used_bytes + rlen(r) ==> zrecs(b2, s, rs.push(r))
{ holds_bound(b.dat@, 0, b.meta.block_header.used_bytes as int, rs); if appended(b.dat@, b2.dat@, b.meta.block_header.used_bytes as int, r) { holds_push(b.dat@, b2.dat@, 0, b.meta.block_header.used_bytes as int, rs, r); } }
proof fn wpush(b: WalBlock, b2: WalBlock, s: int, n: int, rs: Seq<Rec>, r: Rec)
    requires wrecs(b, s, n, rs)
    ensures b.meta.used_bytes <= b.dat@.len(),
        wfb(b2) && b2.size == s && b2.meta.block_number == n && appended(b.dat@, b2.dat@, b.meta.used_bytes as int, r) && b2.meta.used_bytes == b.meta.used_bytes + rlen(r) ==> wrecs(b2, s, n, rs.push(r))
{ holds_bound(b.dat@, 0, b.meta.used_bytes as int, rs); if appended(b.dat@, b2.dat@, b.meta.used_bytes as int, r) { holds_push(b.dat@, b2.dat@, 0, b.meta.used_bytes as int, rs, r); } }
proof fn flat_push(rs: Seq<Seq<Rec>>, r: Rec)
    requires rs.len() > 0
    ensures flat(rs.update(rs.len() - 1, rs.last().push(r))) =~= flat(rs).push(r), flat(rs.push(Seq::empty())) =~= flat(rs)
{
    let a = rs.update(rs.len() - 1, rs.last().push(r));
    assert(a.drop_last() =~= rs.drop_last());
    assert(rs.push(Seq::empty()).drop_last() =~= rs);
}
//@extract crates/axmos-db/src/io/wal.rs : impl FileOperations for WriteAheadLog / fn create
//@header impl WriteAheadLog
//@rewrite path: impl AsRef<Path> ==> path: &Path
//@rewrite DBFile::create\(&path\) ==> DBFile::create(path)
//@rewrite FileSystem::block_size\(&path\) ==> FileSystem::block_size(path)
//@rewrite WAL_BLOCK_SIZE\.next_multiple_of\(fs_block_size\) ==> shim_next_multiple(WAL_BLOCK_SIZE, fs_block_size)
//@rewrite block_size,\s*\}\) ==> block_size, rs: Ghost(no_blocks()) })
//@ret r
//@spec
    requires 0 < fs_block(*path) <= 65536, next_multiple(40960, fs_block(*path)) <= 65536
    ensures r is Ok ==> inv(r->Ok_0) && log(r->Ok_0) =~= Seq::<Rec>::empty() && seqd(r->Ok_0) && r->Ok_0.block_size == next_multiple(40960, fs_block(*path)), r is Err ==> io_faulty()
//@at start
    proof { nm(40960, fs_block(*path)); none_flat(); }
//@end
proof fn nm(a: int, b: int) requires 4096 <= a <= 40960, 0 < b <= 65536 ensures a <= next_multiple(a, b) <= a + b - 1
{ assert(((a + b - 1) / b) * b <= a + b - 1 && ((a + b - 1) / b) * b >= a) by (nonlinear_arith) requires b > 0; }
//@extract crates/axmos-db/src/io/wal.rs : impl FileOperations for WriteAheadLog / fn open
//@header impl WriteAheadLog
//@rewrite path: impl AsRef<Path> ==> path: &Path
//@rewrite DBFile::open\(&path\) ==> DBFile::open(path)
//@rewrite FileSystem::block_size\(&path\) ==> FileSystem::block_size(path)
//@rewrite WAL_BLOCK_SIZE\.next_multiple_of\(fs_block_size\) ==> shim_next_multiple(WAL_BLOCK_SIZE, fs_block_size)
//@rewrite block_size: default_block_size,\s*\}; ==> block_size: default_block_size, rs: Ghost(no_blocks()) };
//@rewrite file\.read_exact\(header_buf\.as_mut\(\)\) ==> file.read_block(&mut header_buf)
//@rewrite block_size,\s*\}\) ==> block_size, rs: Ghost(choose|rs: Seq<Seq<Rec>>| image(disk(*path), next_multiple(40960, fs_block(*path)), rs)) })
//@ret r
//@spec
    requires 0 < fs_block(*path) <= 65536, next_multiple(40960, fs_block(*path)) <= 65536
    ensures
        r is Ok && disk(*path).len() < next_multiple(40960, fs_block(*path)) ==> inv(r->Ok_0) && log(r->Ok_0) =~= Seq::<Rec>::empty() && seqd(r->Ok_0),
        r is Ok && (exists|rs: Seq<Seq<Rec>>| image(disk(*path), next_multiple(40960, fs_block(*path)), rs)) ==> inv(r->Ok_0) && image(disk(*path), next_multiple(40960, fs_block(*path)), r->Ok_0.rs@),
        r is Err ==> io_faulty()
//@at start
    proof { nm(40960, fs_block(*path)); none_flat(); }
//@at before let block_size = header_buf
    proof { let s = next_multiple(40960, fs_block(*path)); if exists|rs: Seq<Seq<Rec>>| image(disk(*path), s, rs) { let rs = choose|rs: Seq<Seq<Rec>>| image(disk(*path), s, rs); zero_of(disk(*path), s, rs, header_buf); } }
//@end
/// block zero as read from the file is the block zero that was written
proof fn zero_of(d: Seq<u8>, s: int, rs: Seq<Seq<Rec>>, h: BlockZero)
    requires image(d, s, rs), wfb(h), h.size == s, enc(h.meta, h.dat@) == d.subrange(0, s)
    ensures zrecs(h, s, rs[0]), h.meta.wal_header.total_blocks == rs.len(), h.meta.wal_header.block_size == s, h.meta.wal_header.total_entries < u32::MAX
{
    let b = choose|b: BlockZero| #[trigger] zrecs(b, s, rs[0]) && s <= d.len() && enc(b.meta, b.dat@) == d.subrange(0, s) && b.meta.wal_header.total_blocks == rs.len() && b.meta.wal_header.block_size == s && b.meta.wal_header.total_entries < u32::MAX;
    axiom_enc(b.meta, b.dat@, h.meta, h.dat@);
}
proof fn block_of(d: Seq<u8>, s: int, i: int, r: Seq<Rec>, h: WalBlock)
    requires infile(d, i, s, r), wfb(h), h.size == s, enc(h.meta, h.dat@) == d.subrange(i * s, i * s + s)
    ensures wrecs(h, s, i, r)
{
    let b = choose|b: WalBlock| #[trigger] wrecs(b, s, i, r) && i * s + s <= d.len() && enc(b.meta, b.dat@) == d.subrange(i * s, i * s + s);
    axiom_enc(b.meta, b.dat@, h.meta, h.dat@);
}
/// what the file holds is determined by its bytes
pub proof fn thm_image_unique(d: Seq<u8>, s: int, a: Seq<Seq<Rec>>, b: Seq<Seq<Rec>>)
    requires image(d, s, a), image(d, s, b)
    ensures a == b
{
    let z = choose|z: BlockZero| #[trigger] zrecs(z, s, a[0]) && s <= d.len() && enc(z.meta, z.dat@) == d.subrange(0, s) && z.meta.wal_header.total_blocks == a.len() && z.meta.wal_header.block_size == s && z.meta.wal_header.total_entries < u32::MAX;
    zero_of(d, s, b, z);
    holds_unique(z.dat@, 0, z.meta.block_header.used_bytes as int, a[0], b[0]);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        if i > 0 {
            assert(infile(d, i, s, a[i]) && infile(d, i, s, b[i]));
            let x = choose|x: WalBlock| #[trigger] wrecs(x, s, i, a[i]) && i * s + s <= d.len() && enc(x.meta, x.dat@) == d.subrange(i * s, i * s + s);
            block_of(d, s, i, b[i], x);
            holds_unique(x.dat@, 0, x.meta.used_bytes as int, a[i], b[i]);
        }
    }
    assert(a =~= b);
}
//@extract crates/axmos-db/src/io/wal.rs : impl FileOperations for WriteAheadLog / fn truncate
//@header impl WriteAheadLog
//@ret r
//@spec
    requires sok(old(self).block_size as int)
    ensures r is Ok ==> inv(*final(self)) && log(*final(self)) =~= Seq::<Rec>::empty() && seqd(*final(self)), r is Err ==> io_faulty()
//@at before Ok ( ( ) )
        self.rs = Ghost(no_blocks());
        proof { none_flat(); }
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn max_record_size
//@ret r
//@spec
    requires 64 <= self.block_size
    ensures r == self.block_size - 64
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn last_lsn
//@ret r
//@spec
    ensures r == self.header.meta.wal_header.global_last_lsn
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn get_next_block
//@ret r
//@spec
    requires old(self).header.meta.wal_header.total_blocks < u64::MAX
    ensures r == old(self).header.meta.wal_header.total_blocks, final(self).header.meta.wal_header.total_blocks == r + 1,
        final(self).header.meta.wal_header.global_last_lsn == old(self).header.meta.wal_header.global_last_lsn, final(self).header.meta.wal_header.block_size == old(self).header.meta.wal_header.block_size, final(self).header.meta.wal_header.total_entries == old(self).header.meta.wal_header.total_entries,
        final(self).header.meta.block_header == old(self).header.meta.block_header, final(self).header.dat == old(self).header.dat, final(self).header.size == old(self).header.size,
        final(self).current_block == old(self).current_block, final(self).flush_queue == old(self).flush_queue, final(self).file == old(self).file, final(self).block_size == old(self).block_size, final(self).rs == old(self).rs
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn rotate_block
//@ret r
//@spec
    requires inv(*old(self)), old(self).rs@.len() < 0x100_0000_0000
    ensures r is Ok, inv(*final(self)), final(self).rs@ == old(self).rs@.push(Seq::empty()), final(self).current_block is Some, final(self).current_block->0.meta.used_bytes == 0, final(self).block_size == old(self).block_size,
        final(self).header.meta.wal_header.global_last_lsn == old(self).header.meta.wal_header.global_last_lsn, final(self).header.meta.wal_header.total_entries == old(self).header.meta.wal_header.total_entries
//@at before Ok ( ( ) )
        self.rs = Ghost(self.rs@.push(Seq::empty()));
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn push
//@rewrite (?s)IoError::new\(.*?\)\) ==> IoError {})
//@ret r
//@spec
    requires inv(*old(self)), fits(orec(record)) ==> rok(orec(record)), record.payload@.len() <= 0x7fff_ffff_ffff_ff08, old(self).rs@.len() < 0x100_0000_0000, old(self).header.meta.wal_header.total_entries < u32::MAX
    ensures
        inv(*final(self)), final(self).block_size == old(self).block_size,
        (r is Ok) == (rlen(orec(record)) <= old(self).block_size - 64),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> log(*final(self)) =~= log(*old(self)).push(orec(record)) && final(self).header.meta.wal_header.global_last_lsn == Some(record.header.lsn)
//@at start
    let ghost rec = orec(record);
    let ghost old_rs = self.rs@;
    let ghost h0 = self.header;
    proof { if fits(rec) { zpush(h0, h0, self.block_size as int, old_rs[0], rec); if self.current_block is Some { wpush(self.current_block->0, self.current_block->0, self.block_size as int, old_rs.len() - 1, old_rs.last(), rec); } flat_push(old_rs, rec); assert(old_rs.push(Seq::empty()).len() > 0); flat_push(old_rs.push(Seq::empty()), rec); } }
//@at before return Ok ( ( ) )
                proof { zpush(h0, self.header, self.block_size as int, old_rs[0], rec); }
                self.rs = Ghost(self.rs@.update(0, self.rs@[0].push(rec)));
                proof { assert(self.rs@ =~= old_rs.update(old_rs.len() - 1, old_rs.last().push(rec))); }
//@at before self . current_block . as_mut ( ) . unwrap ( ) . try_push
        let ghost b0 = self.current_block->0;
        let ghost rs0 = self.rs@;
        proof { wpush(b0, b0, self.block_size as int, rs0.len() - 1, rs0.last(), rec); }
//@at before#2 Ok ( ( ) )
        proof { wpush(b0, self.current_block->0, self.block_size as int, rs0.len() - 1, rs0.last(), rec); }
        self.rs = Ghost(self.rs@.update(self.rs@.len() - 1, self.rs@.last().push(rec)));
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn write_wal_block
//@rewrite self\.file\.write_all\(block\.as_ref\(\)\) ==> self.file.write_block(block)
//@ret r
//@spec
    requires wfb(*block), block.size == old(self).block_size, sok(old(self).block_size as int), block.meta.block_number <= 0x100_0000_0000
    ensures final(self).header == old(self).header, final(self).current_block == old(self).current_block, final(self).flush_queue == old(self).flush_queue, final(self).block_size == old(self).block_size, final(self).rs == old(self).rs,
        r is Ok ==> final(self).file.data() == splice(old(self).file.data(), block.meta.block_number * old(self).block_size, enc(block.meta, block.dat@)), r is Err ==> io_faulty()
//@at start
    proof { assert(block.meta.block_number * self.block_size <= 0x100_0000_0000 * 655360) by (nonlinear_arith) requires block.meta.block_number <= 0x100_0000_0000, self.block_size <= 655360; }
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn write_header
//@rewrite self\.file\.write_all\(self\.header\.as_ref\(\)\) ==> self.file.write_block(&self.header)
//@ret r
//@spec
    ensures final(self).header == old(self).header, final(self).current_block == old(self).current_block, final(self).flush_queue == old(self).flush_queue, final(self).block_size == old(self).block_size, final(self).rs == old(self).rs,
        r is Ok ==> final(self).file.data() == splice(old(self).file.data(), 0, enc(old(self).header.meta, old(self).header.dat@)), r is Err ==> io_faulty()
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn perform_flush
//@ret r
//@spec
    requires inv(*old(self)), old(self).header.meta.wal_header.total_entries < u32::MAX
    ensures
        r is Ok ==> inv(*final(self)) && final(self).rs == old(self).rs && image(final(self).file.data(), old(self).block_size as int, old(self).rs@) && final(self).file.synced()
            && final(self).header.meta.wal_header.global_last_lsn == old(self).header.meta.wal_header.global_last_lsn,
        r is Err ==> io_faulty()
//@loop 0
    invariant
        inv(*self), self.rs == old(self).rs, self.header == old(self).header, self.block_size == old(self).block_size,
    ensures self.flush_queue@.len() == 0,
    decreases self.flush_queue@.len()
//@at loop 0 before
        let ghost mut d0 = self.file.data();
//@at loop 0 body-start
            let ghost n = block.meta.block_number as int;
            let ghost d = self.file.data();
            let ghost q = self.flush_queue@;
            proof {
                infile_same(d, n, self.block_size as int, block, self.rs@[n]);
                axiom_enc(block.meta, block.dat@, block.meta, block.dat@);
                assert forall|i: int| 1 <= i < n implies infile(splice(d, n * self.block_size as int, enc(block.meta, block.dat@)), i, self.block_size as int, self.rs@[i]) by {
                    infile_other(d, n, self.block_size as int, enc(block.meta, block.dat@), i, self.rs@[i]);
                }
            }
//@at before let result = self
            proof {
                let n = self.rs@.len() - 1; let d = self.file.data();
                infile_same(d, n, self.block_size as int, block, self.rs@[n]);
                axiom_enc(block.meta, block.dat@, block.meta, block.dat@);
                assert forall|i: int| 1 <= i < n implies infile(splice(d, n * self.block_size as int, enc(block.meta, block.dat@)), i, self.block_size as int, self.rs@[i]) by {
                    infile_other(d, n, self.block_size as int, enc(block.meta, block.dat@), i, self.rs@[i]);
                }
            }
//@at before self . write_header
        proof {
            let d = self.file.data(); let s = self.block_size as int; let e = enc(self.header.meta, self.header.dat@);
            axiom_enc(self.header.meta, self.header.dat@, self.header.meta, self.header.dat@);
            assert(splice(d, 0, e).subrange(0, s) =~= e);
            assert(0 * s == 0) by (nonlinear_arith);
            assert forall|i: int| 1 <= i < self.rs@.len() implies infile(splice(d, 0, e), i, s, self.rs@[i]) by { assert(infile(d, i, s, self.rs@[i])); infile_other(d, 0, s, e, i, self.rs@[i]); }
            assert(splice(d, 0, e).len() >= s);
            assert(zrecs(self.header, s, self.rs@[0]));
        }
        let ghost d9 = self.file.data();
//@at before self . file . sync_all
        proof {
            let s = self.block_size as int; let e = enc(self.header.meta, self.header.dat@);
            assert(self.file.data() == splice(d9, 0, e));
            assert(zrecs(self.header, s, self.rs@[0]) && enc(self.header.meta, self.header.dat@) == self.file.data().subrange(0, s));
            assert(zero_infile(self.file.data(), s, self.rs@.len() as int, self.rs@[0]));
            assert(image(self.file.data(), s, self.rs@));
        }
//@end
// ------------------------------------------------------------------ reading the log back
pub open spec fn rest(rs: Seq<Seq<Rec>>, i: int) -> Seq<Rec> decreases rs.len() - i { if i < 0 || i >= rs.len() { Seq::empty() } else { rs[i] + rest(rs, i + 1) } }
proof fn flat_rest(rs: Seq<Seq<Rec>>, i: int) requires 0 <= i <= rs.len() ensures flat(rs) =~= flat(rs.take(i)) + rest(rs, i) decreases rs.len() - i
{
    if i < rs.len() {
        flat_rest(rs, i + 1);
        assert(rs.take(i + 1).drop_last() =~= rs.take(i));
        assert(rs.take(i + 1).last() == rs[i]);
    } else { assert(rs.take(i) =~= rs); }
}
proof fn flat_is_rest(rs: Seq<Seq<Rec>>) ensures flat(rs) =~= rest(rs, 0) { flat_rest(rs, 0); assert(flat(rs.take(0)) =~= Seq::<Rec>::empty()); }
#[verifier::external_body] pub fn shim_min_u64(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body] pub fn shim_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
//@extract crates/axmos-db/src/io/wal.rs : struct WalReader
//@rewrite block_size: usize,\s*\} ==> block_size: usize, pub rs: Ghost<Seq<Seq<Rec>>>, pub cur: Ghost<Seq<Rec>> }
//@end
pub open spec fn first(r: WalReader) -> int { r.file_offset / r.block_size as u64 - r.block_queue@.len() }
/// the next block to be read from
pub open spec fn nx(r: WalReader) -> int { match r.current_block_index { None => 1, Some(i) => first(r) + i + (if i < r.block_queue@.len() { 1int } else { 0 }) } }
proof fn restart(b: WalBlock, s: int, n: int, rs: Seq<Rec>) requires wrecs(b, s, n, rs) ensures b.meta.used_bytes <= b.dat@.len() { holds_bound(b.dat@, 0, b.meta.used_bytes as int, rs); }
proof fn nm2(a: int, b: int) requires 0 < b <= a ensures next_multiple(a, b) / b >= 1, next_multiple(a, b) >= b
{ let q = (a + b - 1) / b; assert(q >= 1) by (nonlinear_arith) requires q == (a + b - 1) / b, a >= b, b > 0; assert((q * b) / b == q && q * b >= b) by (nonlinear_arith) requires b > 0, q >= 1; }

/// what is still to be read
pub open spec fn rem(r: WalReader) -> Seq<Rec> { r.cur@ + rest(r.rs@, nx(r)) }
pub open spec fn base(r: WalReader) -> bool {
    let s = r.block_size as int; let n = r.rs@.len();
    &&& sok(s) && 1 <= n <= 0x100_0000_0000 && r.total_blocks == n && r.read_ahead_size >= s
    &&& zrecs(r.header, s, r.rs@[0])
    &&& forall|i: int| 1 <= i < n ==> #[trigger] infile(r.file.data(), i, s, r.rs@[i])
    &&& r.file_offset == (first(r) + r.block_queue@.len()) * s && first(r) >= 1 && first(r) + r.block_queue@.len() <= n
    &&& forall|j: int| 0 <= j < r.block_queue@.len() ==> wrecs(#[trigger] r.block_queue@[j], s, first(r) + j, r.rs@[first(r) + j])
}
pub open spec fn rd(r: WalReader) -> bool {
    &&& base(r)
    &&& match r.current_block_index {
        None => first(r) == 1 && holds(r.header.dat@, r.current_block_offset as int, r.header.meta.block_header.used_bytes as int, r.cur@) && r.current_block_offset <= r.header.meta.block_header.used_bytes <= r.header.dat@.len(),
        Some(i) => i <= r.block_queue@.len() && (if i < r.block_queue@.len() {
            holds(r.block_queue@[i as int].dat@, r.current_block_offset as int, r.block_queue@[i as int].meta.used_bytes as int, r.cur@) && r.current_block_offset <= r.block_queue@[i as int].meta.used_bytes <= r.block_queue@[i as int].dat@.len()
          } else { r.cur@.len() == 0 }) }
}
pub open spec fn here(r: WalReader) -> Seq<Rec> { let i = r.current_block_index->0 as int; if i < r.block_queue@.len() { r.rs@[first(r) + i] } else { Seq::empty() } }
proof fn off_div(n: int, s: int) requires s > 0, 0 <= n ensures (n * s) / s == n, 0 <= n * s { assert((n * s) / s == n && 0 <= n * s) by (nonlinear_arith) requires s > 0, 0 <= n; }
proof fn off_le(n: int, m: int, s: int) requires s > 0, 0 <= n <= m <= 0x100_0000_0000, s <= 655360 ensures n * s <= m * s, (n < m ==> n * s + s <= m * s), m * s <= 0x100_0000_0000 * 655360
{ assert(n * s <= m * s && (n < m ==> n * s + s <= m * s) && m * s <= 0x100_0000_0000 * 655360) by (nonlinear_arith) requires s > 0, 0 <= n <= m <= 0x100_0000_0000, s <= 655360; }
//@extract crates/axmos-db/src/io/wal.rs : impl<'a> WalReader<'a> / fn new
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite \.read_exact\((header|block)\.as_mut\(\)\) ==> .read_block(&mut \1)
//@rewrite total_blocks\.min\(header\.metadata\(\)\.wal_header\.total_blocks\) ==> shim_min_u64(total_blocks, header.metadata().wal_header.total_blocks)
//@rewrite read_ahead_size\.next_multiple_of\(block_size\) ==> shim_next_multiple(read_ahead_size, block_size)
//@rewrite \(read_ahead_size / block_size\)\.min\(total_blocks\.saturating_sub\(1\) as usize\) ==> shim_min(read_ahead_size / block_size, total_blocks.saturating_sub(1) as usize)
//@rewrite block_size,\s*\}\) ==> block_size, rs: Ghost(rs), cur: Ghost(rs[0]) })
//@ret r
//@spec
    requires sok(block_size as int), read_ahead_size >= block_size, read_ahead_size <= 0x7fff_ffff_ffff, 1 <= total_blocks <= 0x100_0000_0000,
        old(file).data().len() < block_size || exists|rs: Seq<Seq<Rec>>| image(old(file).data(), block_size as int, rs) && rs.len() <= total_blocks
    ensures
        r is Ok ==> rd(r->Ok_0) && rem(r->Ok_0) =~= flat(r->Ok_0.rs@) && r->Ok_0.file.data() == old(file).data() && r->Ok_0.block_size == block_size
            && (old(file).data().len() >= block_size ==> image(old(file).data(), block_size as int, r->Ok_0.rs@)) && (old(file).data().len() < block_size ==> r->Ok_0.rs@ == no_blocks()),
        r is Err ==> io_faulty()
//@at start
    let ghost s = block_size as int;
    let ghost d = file.data();
    let ghost ra0 = read_ahead_size;
    let ghost rs: Seq<Seq<Rec>> = if d.len() < s { no_blocks() } else { choose|rs: Seq<Seq<Rec>>| image(d, s, rs) && rs.len() <= total_blocks };
    proof { none_flat(); flat_is_rest(rs); }
//@at before let total_blocks
        proof { if d.len() >= s { zero_of(d, s, rs, header); } holds_bound(header.dat@, 0, header.meta.block_header.used_bytes as int, rs[0]); }
//@at before let num_blocks_to_read
        proof { nm2(ra0 as int, s); }
//@loop 0
    invariant
        file.data() == d, file_offset == (1 + block_queue@.len()) * s, 1 + block_queue@.len() <= total_blocks, total_blocks == rs.len(),
        forall|j: int| 0 <= j < block_queue@.len() ==> wrecs(#[trigger] block_queue@[j], s, 1 + j, rs[1 + j]),
//@at loop 0 body-start
        proof { off_div(1 + block_queue@.len() as int, s); off_le(1 + block_queue@.len() as int, total_blocks as int, s); if 1 + block_queue@.len() < total_blocks { assert(infile(d, 1 + block_queue@.len() as int, s, rs[1 + block_queue@.len() as int])); } }
//@at before block_queue . push
            proof { block_of(d, s, 1 + block_queue@.len() as int, rs[1 + block_queue@.len() as int], block); assert((1 + block_queue@.len()) * s + s == (2 + block_queue@.len()) * s) by (nonlinear_arith); }
//@at before Ok ( Self
        proof { off_div(1 + block_queue@.len() as int, s); assert(1 * s == s); }
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl<'a> WalReader<'a> / fn header_used_bytes
//@ret r
//@spec
    requires self.header.meta.block_header.used_bytes <= usize::MAX
    ensures r == self.header.meta.block_header.used_bytes
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl<'a> WalReader<'a> / fn reload_blocks
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite \.read_exact\((header|block)\.as_mut\(\)\) ==> .read_block(&mut \1)
//@ret r
//@spec
    requires base(*old(self))
    ensures base(*final(self)), final(self).rs == old(self).rs, final(self).cur == old(self).cur, final(self).header == old(self).header, final(self).current_block_offset == old(self).current_block_offset, final(self).current_block_index == old(self).current_block_index, final(self).block_size == old(self).block_size,
        r is Ok && r->Ok_0 ==> final(self).block_queue@.len() > 0 && first(*final(self)) == first(*old(self)) + old(self).block_queue@.len(),
        r is Ok && !r->Ok_0 ==> first(*old(self)) + old(self).block_queue@.len() == old(self).rs@.len(),
        r is Err ==> io_faulty(), final(self).file.data() == old(self).file.data()
//@at start
        let ghost s = self.block_size as int;
        let ghost f = first(*self) + self.block_queue@.len();
        let ghost n = self.rs@.len() as int;
        let ghost d = self.file.data();
        let ghost rs = self.rs@;
        proof { off_le(f, n, s); off_div(f, s); }
//@at before let num_blocks
        proof { assert(self.read_ahead_size / self.block_size >= 1) by (nonlinear_arith) requires self.read_ahead_size >= self.block_size, self.block_size > 0; }
//@iter 0 it
//@loop 0
    invariant
        it.index@ > 0 ==> self.block_queue@.len() > 0, self.file.data() == d, self.rs@ == rs, self.total_blocks == n, self.file_offset == (f + self.block_queue@.len()) * s, f + self.block_queue@.len() <= n,
        forall|j: int| 0 <= j < self.block_queue@.len() ==> wrecs(#[trigger] self.block_queue@[j], s, f + j, rs[f + j]),
//@at loop 0 body-start
            proof { let q = self.block_queue@.len() as int; off_div(f + q, s); off_le(f + q, n, s); if f + q < n { assert(infile(d, f + q, s, rs[f + q])); } }
//@at before self . block_queue . push
            proof { let q = self.block_queue@.len() as int; block_of(d, s, f + q, rs[f + q], block); assert((f + q) * s + s == (f + q + 1) * s) by (nonlinear_arith); }
//@at before Ok ( ! self
        proof { off_div(f + self.block_queue@.len() as int, s); }
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl<'a> WalReader<'a> / fn next_ref
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@spec
    requires rd(*old(self))
    ensures
        r is Ok && r->Ok_0 is Some ==> rem(*old(self)).len() > 0,
        r is Ok && r->Ok_0 is Some ==> rrec(r->Ok_0->0) == rem(*old(self))[0],
        final(self).file.data() == old(self).file.data(),
        r is Ok && r->Ok_0 is Some ==> base(*final(self)),
        r is Ok && r->Ok_0 is Some ==> rd(*final(self)),
        r is Ok && r->Ok_0 is Some ==> rem(*final(self)) =~= rem(*old(self)).skip(1),
        r is Ok && r->Ok_0 is None ==> rem(*old(self)).len() == 0,
        r is Err ==> io_faulty(),
        final(self).rs == old(self).rs,
        final(self).file.data() == old(self).file.data()
//@loop 0
    invariant rd(*self), rem(*self) =~= rem(*old(self)), self.rs == old(self).rs, self.header == old(self).header, self.file.data() == old(self).file.data(),
    decreases self.rs@.len() - nx(*self), (if self.current_block_index is Some && self.current_block_index->0 == self.block_queue@.len() { 0int } else { 1 }),
//@at loop 0 body-start
            proof {
                if self.current_block_index is None { holds_bound(self.header.dat@, self.current_block_offset as int, self.header.meta.block_header.used_bytes as int, self.cur@); }
                else if self.current_block_index->0 < self.block_queue@.len() { let b = self.block_queue@[self.current_block_index->0 as int]; holds_bound(b.dat@, self.current_block_offset as int, b.meta.used_bytes as int, self.cur@); }
            }
            let ghost cur0 = self.cur@;
            let ghost nx0 = nx(*self);
            proof { if nx0 >= self.rs@.len() { assert(rest(self.rs@, nx0).len() == 0); } assert(rem(*self) == cur0 + rest(self.rs@, nx0)); }
//@at after self . current_block_offset = 0 ;
                        self.cur = Ghost(here(*self));
                        proof { assert(cur0.len() == 0); let i = self.current_block_index->0 as int; if i < self.block_queue@.len() { restart(self.block_queue@[i], self.block_size as int, first(*self) + i, self.rs@[first(*self) + i]); assert(rest(self.rs@, nx0) == self.rs@[nx0] + rest(self.rs@, nx0 + 1)); } }
//@at after#2 self . current_block_offset = 0 ;
                        self.cur = Ghost(here(*self));
                        proof { assert(cur0.len() == 0); let i = self.current_block_index->0 as int; if i < self.block_queue@.len() { restart(self.block_queue@[i], self.block_size as int, first(*self) + i, self.rs@[first(*self) + i]); assert(rest(self.rs@, nx0) == self.rs@[nx0] + rest(self.rs@, nx0 + 1)); } }
//@at after#3 self . current_block_offset = 0 ;
                        self.cur = Ghost(here(*self));
                        proof { assert(cur0.len() == 0); let i = self.current_block_index->0 as int; if i < self.block_queue@.len() { restart(self.block_queue@[i], self.block_size as int, first(*self) + i, self.rs@[first(*self) + i]); assert(rest(self.rs@, nx0) == self.rs@[nx0] + rest(self.rs@, nx0 + 1)); } }
//@at before return Ok ( Some ( record ) )
                    self.cur = Ghost(self.cur@.skip(1));
                    proof { holds_bound(self.header.dat@, self.current_block_offset as int, self.header.meta.block_header.used_bytes as int, self.cur@); assert(rem(*self) =~= (cur0 + rest(self.rs@, nx0)).skip(1)); }
//@at before#2 return Ok ( Some ( record ) )
                    self.cur = Ghost(self.cur@.skip(1));
                    proof { holds_bound(self.block_queue@[idx as int].dat@, self.current_block_offset as int, self.block_queue@[idx as int].meta.used_bytes as int, self.cur@); assert(rem(*self) =~= (cur0 + rest(self.rs@, nx0)).skip(1)); }
//@end
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn reader
//@ret r
//@spec
    requires inv(*old(self)), 1 <= read_ahead_amount <= 0x1_0000, image(old(self).file.data(), old(self).block_size as int, old(self).rs@)
    ensures r is Ok ==> rd(r->Ok_0) && rem(r->Ok_0) =~= log(*old(self)), r is Err ==> io_faulty()
//@at start
    proof { let a = read_ahead_amount as int; let b = self.block_size as int; assert(b <= b * a <= 65536 * 0x1_0000) by (nonlinear_arith) requires 1 <= a <= 0x1_0000, 0 <= b <= 65536;
        assert forall|rs: Seq<Seq<Rec>>| image(self.file.data(), b, rs) implies rs == self.rs@ by { thm_image_unique(self.file.data(), b, rs, self.rs@); } }
//@end
// ------------------------------------------------------------------ operations and their records
pub struct Pager { pub wal: WriteAheadLog }
#[verifier::external_body] pub fn shim_none() -> (r: &'static [u8]) ensures r@.len() == 0 { unimplemented!() }
pub open spec fn oprec(r: OwnedRecord, lsn: Lsn, tid: TransactionId, prev: Option<Lsn>, ty: RecordType, oid: Option<ObjectId>, row: Option<RowId>, undo: Seq<u8>, redo: Seq<u8>) -> bool {
    &&& r.header.lsn == lsn && r.header.tid == tid && r.header.prev_lsn == prev && r.header.log_type == ty && r.header.object_id == oid && r.header.row_id == row
    &&& fits(orec(r)) ==> rok(orec(r)) && undo_of(orec(r)) =~= undo && redo_of(orec(r)) =~= redo
    &&& undo.len() + redo.len() <= r.payload@.len() < undo.len() + redo.len() + 8
}
/// the record a log keeps for an operation
pub open spec fn logged(x: Rec, lsn: Lsn, tid: TransactionId, prev: Option<Lsn>, ty: RecordType, oid: Option<ObjectId>, row: Option<RowId>, undo: Seq<u8>, redo: Seq<u8>) -> bool {
    rok(x) && x.h.lsn == lsn && x.h.tid == tid && x.h.prev_lsn == prev && x.h.log_type == ty && x.h.object_id == oid && x.h.row_id == row && undo_of(x) =~= undo && redo_of(x) =~= redo
}
pub struct Begin;
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Begin / fn op_type
//@header impl Begin
//@ret r
//@spec
    ensures r == RecordType::Begin
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn object_id
//@header impl Begin
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn row_id
//@header impl Begin
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn undo
//@header impl Begin
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn redo
//@header impl Begin
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Begin
//@ret r
//@spec
    requires Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Begin, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty())
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Begin
//@rewrite fn push_to_log ==> fn push_to_log_Begin
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Begin, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty()),
        r is Err ==> final(self).wal == old(self).wal
//@end
pub struct End;
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for End / fn op_type
//@header impl End
//@ret r
//@spec
    ensures r == RecordType::End
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn object_id
//@header impl End
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn row_id
//@header impl End
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn undo
//@header impl End
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn redo
//@header impl End
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl End
//@ret r
//@spec
    requires Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::End, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty())
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: End
//@rewrite fn push_to_log ==> fn push_to_log_End
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::End, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty()),
        r is Err ==> final(self).wal == old(self).wal
//@end
pub struct Commit;
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Commit / fn op_type
//@header impl Commit
//@ret r
//@spec
    ensures r == RecordType::Commit
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn object_id
//@header impl Commit
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn row_id
//@header impl Commit
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn undo
//@header impl Commit
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn redo
//@header impl Commit
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Commit
//@ret r
//@spec
    requires Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Commit, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty())
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Commit
//@rewrite fn push_to_log ==> fn push_to_log_Commit
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Commit, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty()),
        r is Err ==> final(self).wal == old(self).wal
//@end
pub struct Abort;
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Abort / fn op_type
//@header impl Abort
//@ret r
//@spec
    ensures r == RecordType::Abort
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn object_id
//@header impl Abort
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn row_id
//@header impl Abort
//@ret r
//@spec
    ensures r == None
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn undo
//@header impl Abort
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn redo
//@header impl Abort
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Abort
//@ret r
//@spec
    requires Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Abort, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty())
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Abort
//@rewrite fn push_to_log ==> fn push_to_log_Abort
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        Seq::<u8>::empty().len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Abort, None::<u64>, None::<u64>, Seq::<u8>::empty(), Seq::<u8>::empty()),
        r is Err ==> final(self).wal == old(self).wal
//@end
//@extract crates/axmos-db/src/io/logger.rs : struct Update
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Update / fn op_type
//@header impl Update
//@ret r
//@spec
    ensures r == RecordType::Update
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Update / fn object_id
//@header impl Update
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.oid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Update / fn row_id
//@header impl Update
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.rowid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Update / fn undo
//@header impl Update
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.old@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Update / fn redo
//@header impl Update
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.new@
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Update
//@ret r
//@spec
    requires self.old@.len() + self.new@.len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Update, Some(self.oid), Some(self.rowid), self.old@, self.new@)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Update
//@rewrite fn push_to_log ==> fn push_to_log_Update
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        operation.old@.len() + operation.new@.len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Update, Some(operation.oid), Some(operation.rowid), operation.old@, operation.new@),
        r is Err ==> final(self).wal == old(self).wal
//@end
//@extract crates/axmos-db/src/io/logger.rs : struct Insert
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Insert / fn op_type
//@header impl Insert
//@ret r
//@spec
    ensures r == RecordType::Insert
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Insert / fn object_id
//@header impl Insert
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.oid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Insert / fn row_id
//@header impl Insert
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.rowid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn undo
//@header impl Insert
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Insert / fn redo
//@header impl Insert
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.new@
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Insert
//@ret r
//@spec
    requires Seq::<u8>::empty().len() + self.new@.len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Insert, Some(self.oid), Some(self.rowid), Seq::<u8>::empty(), self.new@)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Insert
//@rewrite fn push_to_log ==> fn push_to_log_Insert
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        Seq::<u8>::empty().len() + operation.new@.len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Insert, Some(operation.oid), Some(operation.rowid), Seq::<u8>::empty(), operation.new@),
        r is Err ==> final(self).wal == old(self).wal
//@end
//@extract crates/axmos-db/src/io/logger.rs : struct Delete
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Delete / fn op_type
//@header impl Delete
//@ret r
//@spec
    ensures r == RecordType::Delete
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Delete / fn object_id
//@header impl Delete
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.oid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Delete / fn row_id
//@header impl Delete
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.rowid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Delete / fn undo
//@header impl Delete
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.old@
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn redo
//@header impl Delete
//@rewrite &\[\] ==> shim_none()
//@ret r
//@spec
    ensures r@ =~= Seq::<u8>::empty()
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Delete
//@ret r
//@spec
    requires self.old@.len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Delete, Some(self.oid), Some(self.rowid), self.old@, Seq::<u8>::empty())
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Delete
//@rewrite fn push_to_log ==> fn push_to_log_Delete
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        operation.old@.len() + Seq::<u8>::empty().len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Delete, Some(operation.oid), Some(operation.rowid), operation.old@, Seq::<u8>::empty()),
        r is Err ==> final(self).wal == old(self).wal
//@end
//@extract crates/axmos-db/src/io/logger.rs : struct Create
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Create / fn op_type
//@header impl Create
//@ret r
//@spec
    ensures r == RecordType::Create
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Create / fn object_id
//@header impl Create
//@ret r
//@spec
    ensures r is None
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Create / fn row_id
//@header impl Create
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.oid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Create / fn undo
//@header impl Create
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.undo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Create / fn redo
//@header impl Create
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.redo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Create
//@ret r
//@spec
    requires self.undo_data@.len() + self.redo_data@.len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Create, None::<u64>, Some(self.oid), self.undo_data@, self.redo_data@)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Create
//@rewrite fn push_to_log ==> fn push_to_log_Create
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        operation.undo_data@.len() + operation.redo_data@.len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Create, None::<u64>, Some(operation.oid), operation.undo_data@, operation.redo_data@),
        r is Err ==> final(self).wal == old(self).wal
//@end
//@extract crates/axmos-db/src/io/logger.rs : struct DropOp
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for DropOp / fn op_type
//@header impl DropOp
//@ret r
//@spec
    ensures r == RecordType::Drop
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for DropOp / fn object_id
//@header impl DropOp
//@ret r
//@spec
    ensures r is None
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for DropOp / fn row_id
//@header impl DropOp
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.oid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for DropOp / fn undo
//@header impl DropOp
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.undo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for DropOp / fn redo
//@header impl DropOp
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.redo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl DropOp
//@ret r
//@spec
    requires self.undo_data@.len() + self.redo_data@.len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Drop, None::<u64>, Some(self.oid), self.undo_data@, self.redo_data@)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: DropOp
//@rewrite fn push_to_log ==> fn push_to_log_DropOp
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        operation.undo_data@.len() + operation.redo_data@.len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Drop, None::<u64>, Some(operation.oid), operation.undo_data@, operation.redo_data@),
        r is Err ==> final(self).wal == old(self).wal
//@end
//@extract crates/axmos-db/src/io/logger.rs : struct Alter
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Alter / fn op_type
//@header impl Alter
//@ret r
//@spec
    ensures r == RecordType::Alter
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Alter / fn object_id
//@header impl Alter
//@ret r
//@spec
    ensures r is None
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Alter / fn row_id
//@header impl Alter
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r == Some(self.oid)
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Alter / fn undo
//@header impl Alter
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.undo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Operation for Alter / fn redo
//@header impl Alter
//@rewrite? self\.(\w+)\.as_ref\(\) ==> self.\1.as_slice()
//@rewrite? &self\.(undo_data|redo_data) ==> self.\1.as_slice()
//@ret r
//@spec
    ensures r@ =~= self.redo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : trait Operation / fn into_record
//@header impl Alter
//@ret r
//@spec
    requires self.undo_data@.len() + self.redo_data@.len() <= 0x7fff_ffff_ffff_ff00
    ensures oprec(r, lsn, tid, prev_lsn, RecordType::Alter, None::<u64>, Some(self.oid), self.undo_data@, self.redo_data@)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn push_to_log
//@header impl Pager
//@rewrite <O: Operation> ==> 
//@rewrite operation: O ==> operation: Alter
//@rewrite fn push_to_log ==> fn push_to_log_Alter
//@rewrite self\.wal\.last_lsn\(\)\.map\(\|l\| l \+ 1\)\.unwrap_or\(0\) ==> shim_next_lsn(self.wal.last_lsn())
//@ret r
//@spec
    requires inv(old(self).wal), seqd(old(self).wal), old(self).wal.rs@.len() < 0x100_0000_0000, old(self).wal.header.meta.wal_header.total_entries < u32::MAX, last(old(self).wal) < u64::MAX,
        operation.undo_data@.len() + operation.redo_data@.len() <= 0x7fff_ffff_ffff_ff00
    ensures
        inv(final(self).wal), seqd(final(self).wal),
        r is Ok ==> log(final(self).wal).len() == log(old(self).wal).len() + 1 && log(final(self).wal).drop_last() =~= log(old(self).wal) && r->Ok_0 == last(old(self).wal) + 1
            && logged(log(final(self).wal).last(), r->Ok_0, tid, prev_lsn, RecordType::Alter, None::<u64>, Some(operation.oid), operation.undo_data@, operation.redo_data@),
        r is Err ==> final(self).wal == old(self).wal
//@end
pub open spec fn last(w: WriteAheadLog) -> int { match w.header.meta.wal_header.global_last_lsn { Some(l) => l as int, None => -1 } }
/// `o.map(|l| l + 1).unwrap_or(0)`
pub fn shim_next_lsn(o: Option<Lsn>) -> (r: Lsn) requires o is Some ==> o->0 < u64::MAX ensures r == (match o { Some(l) => l + 1, None => 0 }) { match o { Some(l) => l + 1, None => 0 } }
//@extract crates/axmos-db/src/io/logger.rs : impl Update / fn new
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@ret r
//@spec
    ensures r.oid == oid && r.rowid == rowid && r.old@ == old@ && r.new@ == new@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Insert / fn new
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@ret r
//@spec
    ensures r.oid == oid && r.rowid == rowid && r.new@ == new@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Delete / fn new
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@ret r
//@spec
    ensures r.oid == oid && r.rowid == rowid && r.old@ == old@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Create / fn new
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@ret r
//@spec
    ensures r.oid == oid && r.redo_data@ == redo_data@ && r.undo_data@ == undo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl DropOp / fn new
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@ret r
//@spec
    ensures r.oid == oid && r.redo_data@ == redo_data@ && r.undo_data@ == undo_data@
//@end
//@extract crates/axmos-db/src/io/logger.rs : impl Alter / fn new
//@rewrite Box<\[u8\]> ==> Vec<u8>
//@ret r
//@spec
    ensures r.oid == oid && r.redo_data@ == redo_data@ && r.undo_data@ == undo_data@
//@end
// ------------------------------------------------------------------ analysis
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct BTreeSet<T> { p: core::marker::PhantomData<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body] pub fn insert(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, v: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*v) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct BTreeMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl BTreeMap<TransactionId, Vec<Lsn>> {
    pub open spec fn of(&self, t: TransactionId) -> Seq<Lsn> { if self@.contains_key(t) { self@[t]@ } else { Seq::empty() } }
    /// `m.entry(k).or_insert_with(Vec::new).push(v)`
    #[verifier::external_body] pub fn shim_entry_push(&mut self, k: TransactionId, v: Lsn)
        ensures final(self)@.dom() == old(self)@.dom().insert(k), forall|t: TransactionId| #[trigger] final(self).of(t) == (if t == k { old(self).of(t).push(v) } else { old(self).of(t) }) { unimplemented!() }
}
/// `Box::from(slice)`
#[verifier::external_body] pub fn shim_boxed(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
//@extract crates/axmos-db/src/io/wal.rs : struct AnalysisResult
//@end
#[verifier::external_body] pub fn shim_no_analysis() -> (r: AnalysisResult)
    ensures r.needs_undo@ == Set::<TransactionId>::empty(), r.needs_redo@ == Set::<TransactionId>::empty(), r.lsn_chains@ == Map::<TransactionId, Vec<Lsn>>::empty(), r.insert_ops@ == Map::<Lsn, Insert>::empty(), r.delete_ops@ == Map::<Lsn, Delete>::empty(),
        r.update_ops@ == Map::<Lsn, Update>::empty(), r.create_ops@ == Map::<Lsn, Create>::empty(), r.alter_ops@ == Map::<Lsn, Alter>::empty(), r.drop_ops@ == Map::<Lsn, DropOp>::empty(), r.start_redo_lsn is None { unimplemented!() }
/// transactions whose last outcome in the log is a commit
pub open spec fn redo_set(l: Seq<Rec>) -> Set<TransactionId> decreases l.len() {
    if l.len() == 0 { Set::empty() } else { let x = l.last().h; let s = redo_set(l.drop_last()); if x.log_type is Commit { s.insert(x.tid) } else if x.log_type is Abort { s.remove(x.tid) } else { s } }
}
pub open spec fn undo_set(l: Seq<Rec>) -> Set<TransactionId> decreases l.len() {
    if l.len() == 0 { Set::empty() } else { let x = l.last().h; let s = undo_set(l.drop_last()); if x.log_type is Commit { s.remove(x.tid) } else if x.log_type is Abort || x.log_type is Begin { s.insert(x.tid) } else { s } }
}
/// the sequence numbers of the records of `t`, in log order
pub open spec fn chain(l: Seq<Rec>, t: TransactionId) -> Seq<Lsn> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.last().h.tid == t { chain(l.drop_last(), t).push(l.last().h.lsn) } else { chain(l.drop_last(), t) }
}
pub open spec fn is_commit(x: Rec, t: TransactionId) -> bool { x.h.tid == t && x.h.log_type is Commit }
pub open spec fn is_abort(x: Rec, t: TransactionId) -> bool { x.h.tid == t && x.h.log_type is Abort }
pub open spec fn commit_at(l: Seq<Rec>, t: TransactionId, i: int) -> bool { 0 <= i < l.len() && is_commit(l[i], t) && forall|j: int| i < j < l.len() ==> !is_abort(#[trigger] l[j], t) }
pub open spec fn committed(l: Seq<Rec>, t: TransactionId) -> bool { exists|i: int| commit_at(l, t, i) }
proof fn commit_push(p: Seq<Rec>, x: Rec, t: TransactionId)
    ensures committed(p.push(x), t) <==> is_commit(x, t) || (committed(p, t) && !is_abort(x, t))
{
    let l = p.push(x); let n = p.len() as int;
    assert(l[n] == x);
    if is_commit(x, t) { assert(commit_at(l, t, n)); }
    if committed(p, t) && !is_abort(x, t) { let i = choose|i: int| commit_at(p, t, i); assert forall|j: int| i < j < l.len() implies !is_abort(#[trigger] l[j], t) by { if j < n { assert(l[j] == p[j]); } } assert(commit_at(l, t, i)); }
    if committed(l, t) && !is_commit(x, t) { let i = choose|i: int| commit_at(l, t, i); assert(i != n); assert forall|j: int| i < j < p.len() implies !is_abort(#[trigger] p[j], t) by { assert(l[j] == p[j]); } assert(l[i] == p[i]); assert(commit_at(p, t, i)); assert(!is_abort(l[n], t)); }
}
/// a transaction is redone exactly if the log holds its commit, and no abort after that
pub proof fn thm_redo_is_committed(l: Seq<Rec>, t: TransactionId)
    ensures redo_set(l).contains(t) <==> committed(l, t)
    decreases l.len()
{
    if l.len() > 0 { thm_redo_is_committed(l.drop_last(), t); commit_push(l.drop_last(), l.last(), t); assert(l.drop_last().push(l.last()) =~= l); }
}
/// an operation record names what it is about
pub open spec fn named(x: Rec) -> bool {
    &&& rok(x)
    &&& (x.h.log_type is Delete || x.h.log_type is Update || x.h.log_type is Insert ==> x.h.object_id is Some && x.h.row_id is Some)
    &&& (x.h.log_type is Create || x.h.log_type is Alter || x.h.log_type is Drop ==> x.h.row_id is Some)
}
pub open spec fn m_insert(m: Map<Lsn, Insert>, x: Rec) -> bool { m.contains_key(x.h.lsn) && m[x.h.lsn].oid == x.h.object_id->0 && m[x.h.lsn].rowid == x.h.row_id->0 && m[x.h.lsn].new@ == redo_of(x) }
pub open spec fn m_delete(m: Map<Lsn, Delete>, x: Rec) -> bool { m.contains_key(x.h.lsn) && m[x.h.lsn].oid == x.h.object_id->0 && m[x.h.lsn].rowid == x.h.row_id->0 && m[x.h.lsn].old@ == undo_of(x) }
pub open spec fn m_update(m: Map<Lsn, Update>, x: Rec) -> bool { m.contains_key(x.h.lsn) && m[x.h.lsn].oid == x.h.object_id->0 && m[x.h.lsn].rowid == x.h.row_id->0 && m[x.h.lsn].old@ == undo_of(x) && m[x.h.lsn].new@ == redo_of(x) }
pub open spec fn m_create(m: Map<Lsn, Create>, x: Rec) -> bool { m.contains_key(x.h.lsn) && m[x.h.lsn].oid == x.h.row_id->0 && m[x.h.lsn].redo_data@ == redo_of(x) && m[x.h.lsn].undo_data@ == undo_of(x) }
pub open spec fn m_alter(m: Map<Lsn, Alter>, x: Rec) -> bool { m.contains_key(x.h.lsn) && m[x.h.lsn].oid == x.h.row_id->0 && m[x.h.lsn].redo_data@ == redo_of(x) && m[x.h.lsn].undo_data@ == undo_of(x) }
pub open spec fn m_drop(m: Map<Lsn, DropOp>, x: Rec) -> bool { m.contains_key(x.h.lsn) && m[x.h.lsn].oid == x.h.row_id->0 && m[x.h.lsn].redo_data@ == redo_of(x) && m[x.h.lsn].undo_data@ == undo_of(x) }
pub open spec fn known(x: Rec, a: AnalysisResult) -> bool {
    match x.h.log_type {
        RecordType::Insert => m_insert(a.insert_ops@, x), RecordType::Delete => m_delete(a.delete_ops@, x), RecordType::Update => m_update(a.update_ops@, x),
        RecordType::Create => m_create(a.create_ops@, x), RecordType::Alter => m_alter(a.alter_ops@, x), RecordType::Drop => m_drop(a.drop_ops@, x), _ => true }
}
pub open spec fn is_op(l: Seq<Rec>, k: Lsn, ty: RecordType) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).h.lsn == k && l[i].h.log_type == ty }
/// the analysis of the log `l`
pub open spec fn analysed(a: AnalysisResult, l: Seq<Rec>) -> bool {
    &&& a.needs_redo@ =~= redo_set(l) && a.needs_undo@ =~= undo_set(l)
    &&& forall|t: TransactionId| #[trigger] a.lsn_chains.of(t) =~= chain(l, t)
    &&& forall|i: int| 0 <= i < l.len() ==> known(#[trigger] l[i], a)
    &&& forall|k: Lsn| #[trigger] a.insert_ops@.contains_key(k) ==> is_op(l, k, RecordType::Insert)
    &&& forall|k: Lsn| #[trigger] a.delete_ops@.contains_key(k) ==> is_op(l, k, RecordType::Delete)
    &&& forall|k: Lsn| #[trigger] a.update_ops@.contains_key(k) ==> is_op(l, k, RecordType::Update)
    &&& forall|k: Lsn| #[trigger] a.create_ops@.contains_key(k) ==> is_op(l, k, RecordType::Create)
    &&& forall|k: Lsn| #[trigger] a.alter_ops@.contains_key(k) ==> is_op(l, k, RecordType::Alter)
    &&& forall|k: Lsn| #[trigger] a.drop_ops@.contains_key(k) ==> is_op(l, k, RecordType::Drop)
}
proof fn is_op_push(l: Seq<Rec>, x: Rec)
    ensures forall|k: Lsn, ty: RecordType| is_op(l, k, ty) ==> #[trigger] is_op(l.push(x), k, ty), is_op(l.push(x), x.h.lsn, x.h.log_type), l.push(x).drop_last() =~= l, l.push(x).last() == x
{
    assert(l.push(x)[l.len() as int] == x);
    assert forall|k: Lsn, ty: RecordType| is_op(l, k, ty) implies #[trigger] is_op(l.push(x), k, ty) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).h.lsn == k && l[i].h.log_type == ty; assert(l.push(x)[i] == l[i]); }
}
//@extract crates/axmos-db/src/io/wal.rs : impl WriteAheadLog / fn run_analysis
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite AnalysisResult::default\(\) ==> shim_no_analysis()
//@rewrite (?s)result\s*\.lsn_chains\s*\.entry\(tid\)\s*\.or_insert_with\(Vec::new\)\s*\.push\(lsn\) ==> result.lsn_chains.shim_entry_push(tid, lsn)
//@rewrite Box::from\( ==> shim_boxed(
//@rewrite (?s)\.expect\("[^"]*"\) ==> .unwrap()
//@ret r
//@spec
    requires inv(*old(self)), seqd(*old(self)), forall|i: int| 0 <= i < log(*old(self)).len() ==> named(#[trigger] log(*old(self))[i]),
        image(old(self).file.data(), old(self).block_size as int, old(self).rs@)
    ensures r is Ok ==> analysed(r->Ok_0, log(*old(self))), r is Err ==> io_faulty()
//@at start
        let ghost l = log(*self);
        proof { let b = self.block_size as int;
        assert forall|rs: Seq<Seq<Rec>>| image(self.file.data(), b, rs) implies rs == self.rs@ by { thm_image_unique(self.file.data(), b, rs, self.rs@); } }
//@at loop 0 before
        let ghost mut done: Seq<Rec> = Seq::empty();
//@loop 0
    invariant rd(reader), done + rem(reader) =~= l, analysed(result, done),
    ensures analysed(result, l)
    decreases rem(reader).len()
//@at loop 0 body-start
            let ghost x = rrec(record);
            proof { assert(x == l[done.len() as int]); assert(named(l[done.len() as int])); is_op_push(done, x); assert forall|i: int| 0 <= i < done.len() implies (#[trigger] done[i]).h.lsn < x.h.lsn by { assert(done[i] == l[i]); } done = done.push(x); }
//@end
// ------------------------------------------------------------------ redo
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
}
pub open spec fn in_chains(s: Set<TransactionId>, m: BTreeMap<TransactionId, Vec<Lsn>>, k: Lsn) -> bool { exists|t: TransactionId| s.contains(t) && (#[trigger] m.of(t)).contains(k) }
/// `set.iter().filter_map(|t| map.get(t)).flatten().copied().collect()`
#[verifier::external_body] pub fn shim_gather(s: &BTreeSet<TransactionId>, m: &BTreeMap<TransactionId, Vec<Lsn>>) -> (r: Vec<Lsn>)
    ensures forall|k: Lsn| #[trigger] r@.contains(k) <==> in_chains(s@, *m, k),
        (forall|t: TransactionId| (#[trigger] m.of(t)).no_duplicates()) && (forall|t: TransactionId, u: TransactionId, k: Lsn| t != u && #[trigger] m.of(t).contains(k) ==> !(#[trigger] m.of(u).contains(k))) ==> r@.no_duplicates() { unimplemented!() }
/// `slice::sort_unstable`
#[verifier::external_body] pub fn shim_sort(v: &mut Vec<Lsn>)
    ensures final(v)@.len() == old(v)@.len(), forall|k: Lsn| #[trigger] final(v)@.contains(k) <==> old(v)@.contains(k), old(v)@.no_duplicates() ==> final(v)@.no_duplicates(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j] { unimplemented!() }
/// the records of the transactions in `s`, in log order
pub open spec fn of_set(l: Seq<Rec>, s: Set<TransactionId>) -> Seq<Rec> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if s.contains(l.last().h.tid) { of_set(l.drop_last(), s).push(l.last()) } else { of_set(l.drop_last(), s) }
}
pub open spec fn lsns(l: Seq<Rec>) -> Seq<Lsn> { Seq::new(l.len(), |i: int| l[i].h.lsn) }
pub open spec fn incr(l: Seq<Rec>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).h.lsn < (#[trigger] l[j]).h.lsn }
proof fn chain_in(l: Seq<Rec>, t: TransactionId, k: Lsn)
    requires incr(l)
    ensures chain(l, t).contains(k) <==> (exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).h.lsn == k && l[i].h.tid == t), chain(l, t).no_duplicates()
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last(); let n = l.len() - 1;
        assert(forall|i: int| 0 <= i < n ==> p[i] == l[i]);
        chain_in(p, t, k);
        let c = chain(p, t);
        if l[n].h.tid == t {
            assert(c.push(l[n].h.lsn).contains(k) <==> c.contains(k) || k == l[n].h.lsn) by {
                if c.contains(k) { let a = choose|a: int| 0 <= a < c.len() && c[a] == k; assert(c.push(l[n].h.lsn)[a] == k); }
                if k == l[n].h.lsn { assert(c.push(l[n].h.lsn)[c.len() as int] == k); }
            }
            chain_in(p, t, l[n].h.lsn);
            assert(!c.contains(l[n].h.lsn));
            assert forall|a: int, b: int| 0 <= a < b < c.push(l[n].h.lsn).len() implies c.push(l[n].h.lsn)[a] != c.push(l[n].h.lsn)[b] by { if b == c.len() { assert(c.contains(c[a])); } }
        }
        if exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).h.lsn == k && p[i].h.tid == t { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).h.lsn == k && p[i].h.tid == t; assert(l[i].h.lsn == k); }
    }
}
proof fn of_set_props(l: Seq<Rec>, s: Set<TransactionId>)
    requires incr(l)
    ensures incr(of_set(l, s)), forall|i: int| 0 <= i < of_set(l, s).len() ==> l.contains(#[trigger] of_set(l, s)[i]) && s.contains(of_set(l, s)[i].h.tid), forall|i: int| 0 <= i < l.len() && s.contains((#[trigger] l[i]).h.tid) ==> of_set(l, s).contains(l[i])
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last(); let n = l.len() - 1;
        assert(forall|i: int| 0 <= i < n ==> p[i] == l[i]);
        of_set_props(p, s);
        let c = of_set(p, s); let d = of_set(l, s);
        assert forall|i: int| 0 <= i < c.len() implies l.contains(#[trigger] c[i]) && c[i].h.lsn < l[n].h.lsn by { assert(p.contains(c[i])); let a = choose|a: int| 0 <= a < p.len() && p[a] == c[i]; assert(l[a] == c[i]); }
        assert(l.contains(l[n]));
        assert forall|i: int| 0 <= i < d.len() implies l.contains(#[trigger] d[i]) && s.contains(d[i].h.tid) by { if i < c.len() { assert(d[i] == c[i]); } else { assert(d[i] == l[n]); } }
        assert forall|i: int| 0 <= i < l.len() && s.contains((#[trigger] l[i]).h.tid) implies d.contains(l[i]) by {
            if i < n { assert(c.contains(p[i])); let a = choose|a: int| 0 <= a < c.len() && c[a] == p[i]; assert(d[a] == l[i]); } else { assert(d[c.len() as int] == l[n]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).h.lsn < (#[trigger] d[j]).h.lsn by { if j < c.len() { assert(d[i] == c[i] && d[j] == c[j]); } else { assert(d[i] == c[i]); } }
    }
}
proof fn sorted_unique(a: Seq<Lsn>, b: Seq<Lsn>)
    requires forall|i: int, j: int| 0 <= i < j < a.len() ==> a[i] < a[j], forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j], forall|k: Lsn| #[trigger] a.contains(k) <==> b.contains(k)
    ensures a =~= b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } }
    else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        let x = a.last(); let y = b.last();
        assert(a.contains(x) && b.contains(y));
        assert(b.contains(x) && a.contains(y));
        assert(x == y) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y; }
        let p = a.drop_last(); let q = b.drop_last();
        assert forall|k: Lsn| #[trigger] p.contains(k) <==> q.contains(k) by {
            if p.contains(k) { let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(a[i] == k); assert(a.contains(k)); assert(b.contains(k)); let j = choose|j: int| 0 <= j < b.len() && b[j] == k; assert(k < x); assert(q[j] == k); }
            if q.contains(k) { let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(b[i] == k); assert(b.contains(k)); assert(a.contains(k)); let j = choose|j: int| 0 <= j < a.len() && a[j] == k; assert(k < y); assert(p[j] == k); }
        }
        sorted_unique(p, q);
        assert(a =~= p.push(x)); assert(b =~= q.push(y));
    }
}
proof fn redo_order(a: AnalysisResult, l: Seq<Rec>, r: Seq<Lsn>)
    requires incr(l), analysed(a, l), r.no_duplicates(), forall|k: Lsn| #[trigger] r.contains(k) <==> in_chains(a.needs_redo@, a.lsn_chains, k), forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i] <= r[j]
    ensures r =~= lsns(of_set(l, redo_set(l)))
{
    let s = redo_set(l); let q = of_set(l, s);
    of_set_props(l, s);
    assert forall|k: Lsn| #[trigger] r.contains(k) <==> lsns(q).contains(k) by {
        if r.contains(k) {
            let t = choose|t: TransactionId| s.contains(t) && (#[trigger] a.lsn_chains.of(t)).contains(k);
            chain_in(l, t, k);
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).h.lsn == k && l[i].h.tid == t;
            assert(q.contains(l[i])); let j = choose|j: int| 0 <= j < q.len() && q[j] == l[i]; assert(lsns(q)[j] == k);
        }
        if lsns(q).contains(k) {
            let j = choose|j: int| 0 <= j < lsns(q).len() && lsns(q)[j] == k;
            assert(l.contains(q[j])); let i = choose|i: int| 0 <= i < l.len() && l[i] == q[j];
            chain_in(l, q[j].h.tid, k);
            assert(a.lsn_chains.of(q[j].h.tid).contains(k));
        }
    }
    sorted_unique(r, lsns(q));
}
proof fn chains_apart(a: AnalysisResult, l: Seq<Rec>)
    requires incr(l), analysed(a, l)
    ensures forall|t: TransactionId| (#[trigger] a.lsn_chains.of(t)).no_duplicates(), forall|t: TransactionId, u: TransactionId, k: Lsn| t != u && #[trigger] a.lsn_chains.of(t).contains(k) ==> !(#[trigger] a.lsn_chains.of(u).contains(k))
{
    assert forall|t: TransactionId| (#[trigger] a.lsn_chains.of(t)).no_duplicates() by { chain_in(l, t, 0); }
    assert forall|t: TransactionId, u: TransactionId, k: Lsn| t != u && #[trigger] a.lsn_chains.of(t).contains(k) implies !(#[trigger] a.lsn_chains.of(u).contains(k)) by { chain_in(l, t, k); chain_in(l, u, k); }
}
//@extract crates/axmos-db/src/io/wal.rs : impl AnalysisResult / fn redo_sequence
//@rewrite (?s)self\s*\.needs_redo\s*\.iter\(\)\s*\.filter_map\(\|(\w+)\| self\.lsn_chains\.get\(\1\)\)\s*\.flatten\(\)\s*\.copied\(\)\s*\.collect\(\) ==> shim_gather(&self.needs_redo, &self.lsn_chains)
//@rewrite sequence\.sort_unstable\(\) ==> shim_sort(&mut sequence)
//@ret r
//@spec
    ensures forall|k: Lsn| #[trigger] r@.contains(k) <==> in_chains(self.needs_redo@, self.lsn_chains, k), forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] <= r@[j],
        (forall|t: TransactionId| (#[trigger] self.lsn_chains.of(t)).no_duplicates()) && (forall|t: TransactionId, u: TransactionId, k: Lsn| t != u && #[trigger] self.lsn_chains.of(t).contains(k) ==> !(#[trigger] self.lsn_chains.of(u).contains(k))) ==> r@.no_duplicates()
//@end
pub struct RuntimeError {}
pub type RuntimeResult<T> = core::result::Result<T, RuntimeError>;
pub enum Redo { Create(ObjectId, Seq<u8>), Alter(ObjectId, Seq<u8>), Drop(ObjectId, Seq<u8>), Delete(ObjectId, RowId), Update(ObjectId, RowId, Seq<u8>, Seq<u8>), Insert(ObjectId, RowId, Seq<u8>) }
/// executors and identifier map dropped; what they are asked to redo is kept
pub struct WalRecuperator { pub log: Ghost<Seq<Rec>>, pub tr: Ghost<Seq<Redo>> }
impl WalRecuperator {
    #[verifier::external_body] fn redo_create(&mut self, o: &Create) -> (r: RuntimeResult<()>) ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ == old(self).tr@.push(Redo::Create(o.oid, o.redo_data@)) { unimplemented!() }
    #[verifier::external_body] fn redo_alter(&mut self, o: &Alter) -> (r: RuntimeResult<()>) ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ == old(self).tr@.push(Redo::Alter(o.oid, o.redo_data@)) { unimplemented!() }
    #[verifier::external_body] fn redo_drop(&mut self, o: &DropOp) -> (r: RuntimeResult<()>) ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ == old(self).tr@.push(Redo::Drop(o.oid, o.redo_data@)) { unimplemented!() }
    #[verifier::external_body] fn redo_delete(&mut self, o: &Delete) -> (r: RuntimeResult<()>) ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ == old(self).tr@.push(Redo::Delete(o.oid, o.rowid)) { unimplemented!() }
    #[verifier::external_body] fn redo_update(&mut self, o: &Update) -> (r: RuntimeResult<()>) ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ == old(self).tr@.push(Redo::Update(o.oid, o.rowid, o.old@, o.new@)) { unimplemented!() }
    #[verifier::external_body] fn redo_insert(&mut self, o: &Insert) -> (r: RuntimeResult<()>) ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ == old(self).tr@.push(Redo::Insert(o.oid, o.rowid, o.new@)) { unimplemented!() }
}
pub open spec fn act(x: Rec) -> Option<Redo> {
    match x.h.log_type {
        RecordType::Create => Some(Redo::Create(x.h.row_id->0, redo_of(x))), RecordType::Alter => Some(Redo::Alter(x.h.row_id->0, redo_of(x))), RecordType::Drop => Some(Redo::Drop(x.h.row_id->0, redo_of(x))),
        RecordType::Delete => Some(Redo::Delete(x.h.object_id->0, x.h.row_id->0)), RecordType::Update => Some(Redo::Update(x.h.object_id->0, x.h.row_id->0, undo_of(x), redo_of(x))), RecordType::Insert => Some(Redo::Insert(x.h.object_id->0, x.h.row_id->0, redo_of(x))), _ => None }
}
pub open spec fn acts(l: Seq<Rec>) -> Seq<Redo> decreases l.len() { if l.len() == 0 { Seq::empty() } else { match act(l.last()) { Some(a) => acts(l.drop_last()).push(a), None => acts(l.drop_last()) } } }
proof fn only(a: AnalysisResult, l: Seq<Rec>, i: int)
    requires incr(l), analysed(a, l), 0 <= i < l.len()
    ensures forall|ty: RecordType| is_op(l, l[i].h.lsn, ty) ==> ty == l[i].h.log_type, known(l[i], a)
{
    assert forall|ty: RecordType| is_op(l, l[i].h.lsn, ty) implies ty == l[i].h.log_type by { let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).h.lsn == l[i].h.lsn && l[j].h.log_type == ty; assert(i == j); }
}
//@extract crates/axmos-db/src/io/recovery.rs : impl WalRecuperator / fn run_recovery
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite analysis\.redo_sequence\(\) ==> sequence
//@ret r
//@spec
    requires incr(old(self).log@) && analysed(*analysis, old(self).log@)
    ensures final(self).log == old(self).log, r is Ok ==> final(self).tr@ =~= old(self).tr@ + acts(of_set(old(self).log@, redo_set(old(self).log@)))
//@at start
        let ghost l = self.log@;
        let ghost q = of_set(l, redo_set(l));
        proof { chains_apart(*analysis, l); of_set_props(l, redo_set(l)); }
//@iter 0 it
//@loop 0
    invariant self.log == old(self).log, sequence@ == lsns(q), self.tr@ =~= old(self).tr@ + acts(q.take(it.index@)),
//@at loop 0 before
        let sequence = analysis.redo_sequence();
        proof { redo_order(*analysis, l, sequence@); }
//@at loop 0 body-start
        proof {
            let k = it.index@; let x = q[k];
            assert(lsn == x.h.lsn);
            assert(l.contains(x)); let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
            only(*analysis, l, i);
            assert(q.take(k + 1).drop_last() =~= q.take(k)); assert(q.take(k + 1).last() == x);
        }
//@at before Ok ( ( ) )
        proof { assert(q.take(q.len() as int) =~= q); }
//@end
}
