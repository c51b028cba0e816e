// The database file: configuration, page cache, rollback journal, free list, checkpoint.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, irrefutable_let_patterns, unreachable_code)]
use vstd::prelude::*;
verus!{
fn main(){}
global size_of usize == 8;
pub type PageId = u64;
pub type TransactionId = u64;
pub type ObjectId = u64;
pub const PAGE_ZERO: PageId = 0;
//@extract crates/axmos-db/src/common/mod.rs : const MIN_PAGE_SIZE
//@end
//@extract crates/axmos-db/src/common/mod.rs : const MAX_PAGE_SIZE
//@end
//@extract crates/axmos-db/src/common/mod.rs : const PAGE_ALIGNMENT
//@end
//@extract crates/axmos-db/src/common/mod.rs : const MIN_BTREE_MIN_KEYS
//@end
//@extract crates/axmos-db/src/common/mod.rs : const MAX_BTREE_MIN_KEYS
//@end
//@extract crates/axmos-db/src/common/mod.rs : const MAX_BTREE_NUM_SIBLINGS_PER_SIDE
//@end
// ------------------------------------------------------------------ configuration
pub uninterp spec fn cores() -> usize;
pub open spec fn pow2(n: int) -> bool { n == 4096 || n == 8192 || n == 16384 || n == 32768 || n == 65536 }
/// usize::clamp
pub fn shim_clamp(x: usize, a: usize, b: usize) -> (r: usize) requires a <= b ensures r == if x < a { a } else if x > b { b } else { x } { if x < a { a } else if x > b { b } else { x } }
pub fn shim_max(x: usize, a: usize) -> (r: usize) ensures r == if x > a { x } else { a } { if x > a { x } else { a } }
pub fn shim_min(x: usize, a: usize) -> (r: usize) ensures r == if x < a { x } else { a } { if x < a { x } else { a } }
/// usize::next_power_of_two on 4096..=65536
#[verifier::external_body] pub fn shim_npo2(x: usize) -> (r: usize) requires 4096 <= x <= 65536 ensures r >= x, pow2(r as int), r < 2 * x { x.next_power_of_two() }
//@extract crates/axmos-db/src/common/mod.rs : struct DBConfig
//@attrs
#[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/common/mod.rs : struct DBConfigBuilder
//@end
impl DBConfig {
    pub open spec fn ok(&self) -> bool { pow2(self.page_size as int) && self.pool_size >= 1 && 3 <= self.min_keys_per_page <= 255 && self.num_siblings_per_side <= 255 }
}
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfig / fn new
//@rewrite? ([\w]+)\s*\.clamp\(MIN_PAGE_SIZE, MAX_PAGE_SIZE\)\s*\.next_power_of_two\(\) ==> shim_npo2(shim_clamp(\1, MIN_PAGE_SIZE, MAX_PAGE_SIZE))
//@rewrite? (\w+)\.clamp\((MIN_BTREE_MIN_KEYS), (\w+)\) ==> shim_clamp(\1, \2, \3)
//@rewrite? (\w+)\.max\((\w+)\) ==> shim_max(\1, \2)
//@rewrite? (\w+)\.min\((\w+)\) ==> shim_min(\1, \2)
//@ret r
//@spec
    ensures r.ok(), r.cache_size == cache_size, page_size <= r.page_size || page_size > MAX_PAGE_SIZE, MIN_BTREE_MIN_KEYS <= min_keys_per_page <= MAX_BTREE_MIN_KEYS ==> r.min_keys_per_page == min_keys_per_page
//@end
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfigBuilder / fn page_size
//@rewrite? ([\w]+)\s*\.clamp\(MIN_PAGE_SIZE, MAX_PAGE_SIZE\)\s*\.next_power_of_two\(\) ==> shim_npo2(shim_clamp(\1, MIN_PAGE_SIZE, MAX_PAGE_SIZE))
//@rewrite? (\w+)\.clamp\((MIN_BTREE_MIN_KEYS), (\w+)\) ==> shim_clamp(\1, \2, \3)
//@rewrite? (\w+)\.max\((\w+)\) ==> shim_max(\1, \2)
//@rewrite? (\w+)\.min\((\w+)\) ==> shim_min(\1, \2)
//@rewrite mut self, ==> self,
//@rewrite self\.config\. ==> me.config.
//@rewrite \bself\s*\}\s*$ ==> me }
//@ret r
//@spec
    ensures self.config.ok() ==> r.config.ok()
//@at start
let mut me = self;
//@end
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfigBuilder / fn cache_size
//@rewrite? ([\w]+)\s*\.clamp\(MIN_PAGE_SIZE, MAX_PAGE_SIZE\)\s*\.next_power_of_two\(\) ==> shim_npo2(shim_clamp(\1, MIN_PAGE_SIZE, MAX_PAGE_SIZE))
//@rewrite? (\w+)\.clamp\((MIN_BTREE_MIN_KEYS), (\w+)\) ==> shim_clamp(\1, \2, \3)
//@rewrite? (\w+)\.max\((\w+)\) ==> shim_max(\1, \2)
//@rewrite? (\w+)\.min\((\w+)\) ==> shim_min(\1, \2)
//@rewrite mut self, ==> self,
//@rewrite self\.config\. ==> me.config.
//@rewrite \bself\s*\}\s*$ ==> me }
//@ret r
//@spec
    ensures self.config.ok() ==> r.config.ok(), r.config.cache_size == size
//@at start
let mut me = self;
//@end
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfigBuilder / fn pool_size
//@rewrite? ([\w]+)\s*\.clamp\(MIN_PAGE_SIZE, MAX_PAGE_SIZE\)\s*\.next_power_of_two\(\) ==> shim_npo2(shim_clamp(\1, MIN_PAGE_SIZE, MAX_PAGE_SIZE))
//@rewrite? (\w+)\.clamp\((MIN_BTREE_MIN_KEYS), (\w+)\) ==> shim_clamp(\1, \2, \3)
//@rewrite? (\w+)\.max\((\w+)\) ==> shim_max(\1, \2)
//@rewrite? (\w+)\.min\((\w+)\) ==> shim_min(\1, \2)
//@rewrite mut self, ==> self,
//@rewrite self\.config\. ==> me.config.
//@rewrite \bself\s*\}\s*$ ==> me }
//@ret r
//@spec
    ensures self.config.ok() ==> r.config.ok()
//@at start
let mut me = self;
//@end
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfigBuilder / fn min_keys_per_page
//@rewrite? ([\w]+)\s*\.clamp\(MIN_PAGE_SIZE, MAX_PAGE_SIZE\)\s*\.next_power_of_two\(\) ==> shim_npo2(shim_clamp(\1, MIN_PAGE_SIZE, MAX_PAGE_SIZE))
//@rewrite? (\w+)\.clamp\((MIN_BTREE_MIN_KEYS), (\w+)\) ==> shim_clamp(\1, \2, \3)
//@rewrite? (\w+)\.max\((\w+)\) ==> shim_max(\1, \2)
//@rewrite? (\w+)\.min\((\w+)\) ==> shim_min(\1, \2)
//@rewrite mut self, ==> self,
//@rewrite self\.config\. ==> me.config.
//@rewrite \bself\s*\}\s*$ ==> me }
//@ret r
//@spec
    ensures self.config.ok() ==> r.config.ok()
//@at start
let mut me = self;
//@end
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfigBuilder / fn num_siblings_per_side
//@rewrite? ([\w]+)\s*\.clamp\(MIN_PAGE_SIZE, MAX_PAGE_SIZE\)\s*\.next_power_of_two\(\) ==> shim_npo2(shim_clamp(\1, MIN_PAGE_SIZE, MAX_PAGE_SIZE))
//@rewrite? (\w+)\.clamp\((MIN_BTREE_MIN_KEYS), (\w+)\) ==> shim_clamp(\1, \2, \3)
//@rewrite? (\w+)\.max\((\w+)\) ==> shim_max(\1, \2)
//@rewrite? (\w+)\.min\((\w+)\) ==> shim_min(\1, \2)
//@rewrite mut self, ==> self,
//@rewrite self\.config\. ==> me.config.
//@rewrite \bself\s*\}\s*$ ==> me }
//@ret r
//@spec
    ensures self.config.ok() ==> r.config.ok()
//@at start
let mut me = self;
//@end
//@extract crates/axmos-db/src/common/mod.rs : impl DBConfigBuilder / fn build
//@ret r
//@spec
    ensures r == self.config
//@end
// ------------------------------------------------------------------ the operating system and std (assumed contracts)
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ErrorKind { UnexpectedEof, InvalidInput, InvalidData, NotFound, ResourceBusy, OutOfMemory, Other }
pub struct IoError { pub k: ErrorKind }
impl IoError {
    pub fn new(k: ErrorKind) -> (r: IoError) ensures r.k == k { IoError { k } }
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
}
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; }
pub struct PathBuf {}
pub struct Path {}
pub uninterp spec fn journal_path(d: Path) -> PathBuf;
pub uninterp spec fn on_disk(p: PathBuf) -> Seq<u8>;
pub uninterp spec fn there(p: PathBuf) -> bool;
impl PathBuf { #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == there(*self) { unimplemented!() } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
/// what a write of `b` at `p` makes of a file
pub open spec fn splice(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    Seq::new((if p + b.len() > d.len() { p + b.len() } else { d.len() as int }) as nat, |i: int| if p <= i < p + b.len() { b[i - p] } else if i < d.len() { d[i] } else { 0u8 })
}
#[verifier::external_body] pub struct DBFile { p: u8 }
impl DBFile {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    /// the content has reached the disk
    pub uninterp spec fn synced(&self) -> bool;
    #[verifier::external_body] pub fn create(p: &PathBuf) -> (r: io::Result<DBFile>) ensures r is Ok ==> r->Ok_0.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn open(p: &PathBuf) -> (r: io::Result<DBFile>) ensures r is Ok ==> r->Ok_0.data() == on_disk(*p) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r is Ok ==> r->Ok_0.n == self.data().len() { unimplemented!() }
    #[verifier::external_body] pub fn seek(&mut self, s: SeekFrom) -> (r: io::Result<u64>)
        ensures final(self).data() == old(self).data(), r is Ok && s is Start ==> final(self).pos() == s->Start_0, r is Err ==> r->Err_0.k != ErrorKind::UnexpectedEof { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>) ensures r is Ok ==> final(self).data() == splice(old(self).data(), old(self).pos(), b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_exact(&mut self, b: &mut [u8]) -> (r: io::Result<()>)
        ensures final(self).data() == old(self).data(), final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(self).pos() + old(b)@.len() <= old(self).data().len() && final(b)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(b)@.len()),
            r is Err && r->Err_0.k == ErrorKind::UnexpectedEof ==> old(self).pos() + old(b)@.len() > old(self).data().len() { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self) -> (r: io::Result<()>) ensures r is Ok ==> final(self).data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self) -> (r: io::Result<()>) ensures r is Ok ==> self.synced() { unimplemented!() }
}
/// no file is longer than 2^63 bytes
#[verifier::external_body] pub proof fn axiom_file_len(f: DBFile) ensures f.data().len() < 0x4000_0000_0000_0000 {}
#[verifier::external_body] pub struct HashSet { p: u8 }
impl HashSet {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body] pub fn new() -> (r: HashSet) ensures r@ == Set::<u64>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, v: &u64) -> (r: bool) ensures r == self@.contains(*v) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: u64) -> (r: bool) ensures final(self)@ == old(self)@.insert(v) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<u64>::empty() { unimplemented!() }
}
/// `dst[a..b].copy_from_slice(src)`
#[verifier::external_body] pub fn shim_copy(dst: &mut [u8], a: usize, b: usize, src: &[u8])
    requires a <= b <= old(dst)@.len(), src@.len() == b - a
    ensures final(dst)@ == old(dst)@.take(a as int) + src@ + old(dst)@.skip(b as int) { unimplemented!() }
/// `&s[a..b]`
#[verifier::external_body] pub fn shim_sub(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
/// `s.fill(0)`
#[verifier::external_body] pub fn shim_fill0(s: &mut [u8]) ensures final(s)@ == zeros(old(s)@.len() as int) { unimplemented!() }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn le(v: u64) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(v) }
pub open spec fn unle(b: Seq<u8>) -> u64 { vstd::bytes::spec_u64_from_le_bytes(b) }
/// u64::to_le_bytes / u64::from_le_bytes
#[verifier::external_body] pub fn shim_le(v: u64) -> (r: Vec<u8>) ensures r@ == le(v) { unimplemented!() }
#[verifier::external_body] pub fn shim_unle(b: &[u8]) -> (r: u64) requires b@.len() == 8 ensures r == unle(b@) { unimplemented!() }
pub proof fn lemma_le(v: u64) ensures le(v).len() == 8, unle(le(v)) == v { vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes(); }
/// a block of memory: `M` is the header laid over its first bytes
#[verifier::external_body] #[verifier::reject_recursive_types(M)] pub struct MemBlock<M> { p: core::marker::PhantomData<M> }
impl<M> MemBlock<M> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(size: usize) -> (r: Self) requires size >= 4096 ensures r.bytes().len() == size { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body] pub fn as_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).bytes(), final(self).bytes() == final(r)@ { unimplemented!() }
}
pub struct OverflowPageHeader {}
/// `x.as_ptr() as usize`
#[verifier::external_body] pub fn shim_addr(s: &[u8]) -> usize { unimplemented!() }
// ------------------------------------------------------------------ the journal
//@extract crates/axmos-db/src/io/journal.rs : const JOURNAL_MAGIC
//@rewrite const JOURNAL_MAGIC ==> pub const JOURNAL_MAGIC
//@end
//@extract crates/axmos-db/src/io/journal.rs : const BLOCK
//@rewrite const BLOCK ==> pub const BLOCK
//@end
//@extract crates/axmos-db/src/io/journal.rs : const ACTIVE
//@rewrite const ACTIVE ==> pub const ACTIVE
//@end
//@extract crates/axmos-db/src/io/journal.rs : const COMPLETE
//@rewrite const COMPLETE ==> pub const COMPLETE
//@end
//@extract crates/axmos-db/src/io/journal.rs : enum JournalState
//@end
//@extract crates/axmos-db/src/io/journal.rs : struct Journal
//@rewrite HashSet<PageId> ==> HashSet
//@end
pub open spec fn sput(b: Seq<u8>, i: int, v: u64) -> Seq<u8> { b.take(8 * i) + le(v) + b.skip(8 * i + 8) }
pub open spec fn sget(b: Seq<u8>, i: int) -> u64 { unle(b.subrange(8 * i, 8 * i + 8)) }
pub proof fn lemma_put(b: Seq<u8>, i: int, v: u64) requires 0 <= i, 8 * i + 8 <= b.len()
    ensures sput(b, i, v).len() == b.len(), sget(sput(b, i, v), i) == v, forall|j: int| 0 <= j && 8 * j + 8 <= b.len() && j != i ==> #[trigger] sget(sput(b, i, v), j) == sget(b, j), sput(b, i, v).skip(8 * i + 8) =~= b.skip(8 * i + 8)
{
    lemma_le(v); let p = sput(b, i, v);
    assert(p.subrange(8 * i, 8 * i + 8) =~= le(v));
    assert forall|j: int| 0 <= j && 8 * j + 8 <= b.len() && j != i implies #[trigger] sget(p, j) == sget(b, j) by { assert(p.subrange(8 * j, 8 * j + 8) =~= b.subrange(8 * j, 8 * j + 8)); }
}
pub uninterp spec fn cks(id: PageId, content: Seq<u8>) -> u64;
pub open spec fn jhead(state: u64, ps: int) -> Seq<u8> { sput(sput(sput(zeros(BLOCK as int), 0, JOURNAL_MAGIC), 1, state), 2, ps as u64) }
pub open spec fn jent(id: PageId, c: Seq<u8>) -> Seq<u8> { sput(sput(sput(zeros(BLOCK as int), 0, JOURNAL_MAGIC), 1, id), 2, cks(id, c)) + c }
pub open spec fn jlog(es: Seq<(PageId, Seq<u8>)>) -> Seq<u8> decreases es.len() { if es.len() == 0 { seq![] } else { jlog(es.drop_last()) + jent(es.last().0, es.last().1) } }
/// a whole copy lies at p
pub open spec fn whole(j: Seq<u8>, ps: int, p: int) -> bool {
    p + BLOCK + ps <= j.len() && sget(j.skip(p), 0) == JOURNAL_MAGIC && sget(j.skip(p), 2) == cks(sget(j.skip(p), 1), j.subrange(p + BLOCK, p + BLOCK + ps))
}
/// what recovery makes of a file with the journal from p on
pub open spec fn replay(j: Seq<u8>, ps: int, p: int, d: Seq<u8>) -> Seq<u8> decreases j.len() - p when ps > 0 && p >= 0 {
    if whole(j, ps, p) { replay(j, ps, p + BLOCK + ps, splice(d, sget(j.skip(p), 1) * ps, j.subrange(p + BLOCK, p + BLOCK + ps))) } else { d }
}
/// the copies written back one after the other
pub open spec fn restore(es: Seq<(PageId, Seq<u8>)>, ps: int, k: int, d: Seq<u8>) -> Seq<u8> decreases es.len() - k { if k < 0 || k >= es.len() { d } else { restore(es, ps, k + 1, splice(d, es[k].0 * ps, es[k].1)) } }
pub open spec fn page(d: Seq<u8>, ps: int, id: int) -> Seq<u8> { d.subrange(id * ps, id * ps + ps) }
pub proof fn lemma_ranges(ps: int, a: int, b: int) requires ps > 0, a >= 0, b >= 0, a != b ensures a < b ==> a * ps + ps <= b * ps, a > b ==> b * ps + ps <= a * ps, a * ps >= 0
{ if a < b { assert(a * ps + ps <= b * ps) by (nonlinear_arith) requires a < b, ps > 0, a >= 0; } else { assert(b * ps + ps <= a * ps) by (nonlinear_arith) requires a > b, ps > 0, b >= 0; } assert(a * ps >= 0) by (nonlinear_arith) requires a >= 0, ps > 0; }
/// a page write leaves every other page alone
pub proof fn lemma_splice(d: Seq<u8>, ps: int, id: int, c: Seq<u8>) requires ps > 0, id >= 0, c.len() == ps
    ensures splice(d, id * ps, c).len() >= d.len(), id * ps + ps <= splice(d, id * ps, c).len(), page(splice(d, id * ps, c), ps, id) =~= c, id * ps + ps <= d.len() ==> splice(d, id * ps, c).len() == d.len(),
        forall|o: int| 0 <= o && o != id && o * ps + ps <= d.len() ==> #[trigger] page(splice(d, id * ps, c), ps, o) =~= page(d, ps, o)
{
    assert(id * ps >= 0) by (nonlinear_arith) requires id >= 0, ps > 0;
    assert forall|o: int| 0 <= o && o != id && o * ps + ps <= d.len() implies #[trigger] page(splice(d, id * ps, c), ps, o) =~= page(d, ps, o) by { lemma_ranges(ps, o, id); }
}
pub proof fn lemma_entry(j: Seq<u8>, a: Seq<u8>, id: PageId, c: Seq<u8>, b: Seq<u8>) requires j == a + jent(id, c) + b, c.len() > 0
    ensures whole(j, c.len() as int, a.len() as int), sget(j.skip(a.len() as int), 1) == id, j.subrange(a.len() + BLOCK, a.len() + BLOCK + c.len()) == c, jent(id, c).len() == BLOCK + c.len()
{
    let z = zeros(BLOCK as int); let h1 = sput(z, 0, JOURNAL_MAGIC); let h2 = sput(h1, 1, id); let h = sput(h2, 2, cks(id, c)); let p = a.len() as int;
    lemma_put(z, 0, JOURNAL_MAGIC); lemma_put(h1, 1, id); lemma_put(h2, 2, cks(id, c));
    assert forall|i: int| 0 <= i < 3 implies #[trigger] sget(j.skip(p), i) == sget(h, i) by { assert(j.skip(p).subrange(8 * i, 8 * i + 8) =~= h.subrange(8 * i, 8 * i + 8)); }
    assert(j.subrange(p + BLOCK, p + BLOCK + c.len()) =~= c);
}
/// recovery writes back exactly the copies that were taken (a torn copy at the end is left out)
pub proof fn thm_journal_replays(es: Seq<(PageId, Seq<u8>)>, ps: int, k: int, head: Seq<u8>, tail: Seq<u8>, d: Seq<u8>)
    requires 0 <= k <= es.len(), ps > 0, head.len() == BLOCK, forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.len() == ps, !whole(head + jlog(es) + tail, ps, BLOCK + jlog(es).len())
    ensures replay(head + jlog(es) + tail, ps, BLOCK + jlog(es.take(k)).len(), d) == restore(es, ps, k, d)
    decreases es.len() - k
{
    let j = head + jlog(es) + tail; let p = BLOCK + jlog(es.take(k)).len();
    if k == es.len() { assert(es.take(k) =~= es); assert(!whole(j, ps, p)); }
    else {
        let rest = lemma_log_split(es, k); let (id, c) = es[k];
        assert(j =~= (head + jlog(es.take(k))) + jent(id, c) + (rest + tail));
        lemma_entry(j, head + jlog(es.take(k)), id, c, rest + tail);
        assert(es.take(k + 1).drop_last() =~= es.take(k)); assert(es.take(k + 1).last() == es[k]);
        assert(p == (head + jlog(es.take(k))).len());
        thm_journal_replays(es, ps, k + 1, head, tail, splice(d, id * ps, c));
    }
}
pub proof fn lemma_log_split(es: Seq<(PageId, Seq<u8>)>, k: int) -> (rest: Seq<u8>) requires 0 <= k < es.len()
    ensures jlog(es) == jlog(es.take(k)) + jent(es[k].0, es[k].1) + rest decreases es.len()
{
    if k == es.len() - 1 { assert(es.drop_last() =~= es.take(k)); assert(jlog(es) =~= jlog(es.take(k)) + jent(es[k].0, es[k].1) + Seq::<u8>::empty()); Seq::empty() }
    else {
        let r = lemma_log_split(es.drop_last(), k);
        assert(es.drop_last().take(k) =~= es.take(k));
        let rest = r + jent(es.last().0, es.last().1);
        assert(jlog(es) =~= jlog(es.take(k)) + jent(es[k].0, es[k].1) + rest);
        rest
    }
}
pub open spec fn has_copy(es: Seq<(PageId, Seq<u8>)>, k: int, id: int) -> bool { exists|i: int| k <= i < es.len() && (#[trigger] es[i]).0 == id }
/// the file has this page as the checkpoint left it
pub open spec fn agree(d: Seq<u8>, base: Seq<u8>, ps: int, id: int) -> bool { id * ps + ps <= d.len() && page(d, ps, id) == page(base, ps, id) }
/// a file that still agrees with the checkpoint on every page without a copy is put back to the checkpoint
pub proof fn thm_rollback(es: Seq<(PageId, Seq<u8>)>, ps: int, k: int, d: Seq<u8>, base: Seq<u8>, limit: int)
    requires ps > 0, 0 <= k <= es.len(), limit * ps <= base.len(),
        forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0 < limit && es[i].1 == page(base, ps, es[i].0 as int),
        forall|id: int| 0 <= id < limit && !has_copy(es, k, id) ==> #[trigger] agree(d, base, ps, id)
    ensures forall|id: int| 0 <= id < limit ==> #[trigger] agree(restore(es, ps, k, d), base, ps, id)
    decreases es.len() - k
{
    if k < es.len() {
        let id0 = es[k].0 as int; lemma_ranges(ps, id0, limit); let n = splice(d, id0 * ps, es[k].1);
        lemma_splice(d, ps, id0, es[k].1);
        assert forall|id: int| 0 <= id < limit && !has_copy(es, k + 1, id) implies #[trigger] agree(n, base, ps, id) by {
            if id != id0 {
                if has_copy(es, k, id) { let i = choose|i: int| k <= i < es.len() && (#[trigger] es[i]).0 == id; assert(i != k); assert(has_copy(es, k + 1, id)); }
                assert(agree(d, base, ps, id)); assert(page(n, ps, id) == page(d, ps, id));
            }
        }
        thm_rollback(es, ps, k + 1, n, base, limit);
        assert(restore(es, ps, k, d) == restore(es, ps, k + 1, n));
        assert forall|id: int| 0 <= id < limit implies #[trigger] agree(restore(es, ps, k, d), base, ps, id) by { assert(agree(restore(es, ps, k + 1, n), base, ps, id)); }
    } else {
        assert forall|id: int| 0 <= id < limit implies #[trigger] agree(restore(es, ps, k, d), base, ps, id) by { assert(!has_copy(es, k, id)); assert(agree(d, base, ps, id)); }
    }
}
pub proof fn lemma_head(state: u64, ps: int) ensures jhead(state, ps).len() == BLOCK, forall|l: Seq<u8>| #[trigger] behind(jhead(state, ps) + l) =~= l
{ let z = zeros(BLOCK as int); lemma_put(z, 0, JOURNAL_MAGIC); lemma_put(sput(z, 0, JOURNAL_MAGIC), 1, state); lemma_put(sput(sput(z, 0, JOURNAL_MAGIC), 1, state), 2, ps as u64); }
/// what comes after the header block
pub open spec fn behind(d: Seq<u8>) -> Seq<u8> { if d.len() < BLOCK { seq![] } else { d.skip(BLOCK as int) } }
impl Journal {
    /// the journal file holds exactly these copies
    pub open spec fn holds(&self, state: u64, ps: int, es: Seq<(PageId, Seq<u8>)>) -> bool {
        &&& forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.len() == ps
        &&& match self.file { None => es.len() == 0, Some(f) => f.data() == jhead(state, ps) + jlog(es) && self.end == f.data().len() }
        &&& forall|id: u64| #[trigger] self.saved@.contains(id) <==> exists|i: int| 0 <= i < es.len() && #[trigger] es[i].0 == id
    }
    pub open spec fn wants(&self, id: int) -> bool { 0 <= id < self.limit && !self.saved@.contains(id as u64) }
    pub open spec fn forced(&self) -> bool { match self.file { Some(f) => f.synced(), None => true } }
}
//@extract crates/axmos-db/src/io/journal.rs : fn block
//@ret r
//@spec
    requires size >= 4096 ensures r.bytes().len() == size
//@end
//@extract crates/axmos-db/src/io/journal.rs : fn put
//@rewrite buffer\[([^\]]+?)\.\.([^\]]+?)\]\.copy_from_slice\(&value\.to_le_bytes\(\)\); ==> shim_copy(buffer, \1, \2, shim_le(value).as_slice());
//@spec
    requires index < 512, index * 8 + 8 <= old(buffer)@.len() ensures final(buffer)@ == sput(old(buffer)@, index as int, value), final(buffer)@.len() == old(buffer)@.len()
//@at start
proof { lemma_le(value); }
//@end
//@extract crates/axmos-db/src/io/journal.rs : fn get
//@rewrite let mut bytes = \[0u8; 8\];\s*bytes\.copy_from_slice\(&buffer\[([^\]]+?)\.\.([^\]]+?)\]\); ==> let bytes = shim_sub(buffer, \1, \2);
//@rewrite u64::from_le_bytes\(bytes\) ==> shim_unle(bytes)
//@ret r
//@spec
    requires index < 512, index * 8 + 8 <= buffer@.len() ensures r == sget(buffer@, index as int)
//@end
/// FNV over the bytes; only that it is a function is used
#[verifier::external_body] pub fn checksum(id: PageId, content: &[u8]) -> (r: u64) ensures r == cks(id, content@) { unimplemented!() }
impl Journal { #[verifier::external_body] pub fn path_in(dir: &Path) -> (r: PathBuf) ensures r == journal_path(*dir) { unimplemented!() } }
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn new
//@ret r
//@spec
    ensures r.holds(ACTIVE, ps_any(), seq![]), r.forced(), r.limit == 0, r.file is None, r.saved@ == Set::<u64>::empty()
//@end
pub uninterp spec fn ps_any() -> int;
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn set_limit
//@spec
    ensures *final(self) == (Journal { limit: pages, ..*old(self) })
//@end
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn needs
//@ret r
//@spec
    ensures r == self.wants(id as int)
//@end
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn write_header
//@rewrite bytes\.fill\(0\); ==> shim_fill0(bytes);
//@ret r
//@spec
    requires state == ACTIVE || state == COMPLETE, page_size <= 65536, old(file).data().len() == 0 || old(file).data().len() >= BLOCK
    ensures r is Ok ==> final(file).data() == jhead(state, page_size as int) + behind(old(file).data()) && final(file).synced()
//@at before file.seek
proof {
    let z = zeros(BLOCK as int); lemma_put(z, 0, JOURNAL_MAGIC); lemma_put(sput(z, 0, JOURNAL_MAGIC), 1, state); lemma_put(sput(sput(z, 0, JOURNAL_MAGIC), 1, state), 2, page_size as u64);
    assert(bytes@ == jhead(state, page_size as int)); assert(bytes@.len() == BLOCK);
    assert(splice(file.data(), 0, bytes@) =~= bytes@ + behind(file.data()));
}
//@end
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn save
//@rewrite bytes\.fill\(0\); ==> shim_fill0(bytes);
//@rewrite bytes\[BLOCK\.\.\]\.copy_from_slice\(content\); ==> let bl = bytes.len(); shim_copy(bytes, BLOCK, bl, content);
//@ret r
//@spec
    requires 4096 <= content@.len() <= 65536, exists|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, content@.len() as int, es)
    ensures r is Ok ==> final(self).limit == old(self).limit && forall|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, content@.len() as int, es) ==> final(self).holds(ACTIVE, content@.len() as int, es.push((id, content@)))
//@at before let Some(file) = self.file.as_mut() else
let ghost mid = *self; let ghost ps = content@.len() as int;
proof { assert(zeros(BLOCK as int).len() == BLOCK); lemma_put(zeros(BLOCK as int), 0, JOURNAL_MAGIC); axiom_file_len(mid.file->0);
    assert forall|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, ps, es) implies mid.holds(ACTIVE, ps, es) by {
        if old(self).file is None { let z = zeros(BLOCK as int); lemma_put(z, 0, JOURNAL_MAGIC); lemma_put(sput(z, 0, JOURNAL_MAGIC), 1, ACTIVE); lemma_put(sput(sput(z, 0, JOURNAL_MAGIC), 1, ACTIVE), 2, ps as u64); assert(mid.file->0.data() =~= jhead(ACTIVE, ps) + jlog(es)); }
    } }
//@at before file.seek
proof {
    let z = zeros(BLOCK as int); let zz = zeros(BLOCK + ps);
    lemma_le(JOURNAL_MAGIC); lemma_le(id); lemma_le(cks(id, content@));
    assert(bytes@ =~= jent(id, content@));
    assert forall|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, ps, es) implies splice(mid.file->0.data(), mid.end as int, bytes@) == jhead(ACTIVE, ps) + jlog(es.push((id, content@))) by {
        assert(mid.holds(ACTIVE, ps, es)); assert(es.push((id, content@)).drop_last() =~= es);
        assert(splice(mid.file->0.data(), mid.end as int, bytes@) =~= mid.file->0.data() + bytes@); assert(mid.file->0.data() + bytes@ =~= jhead(ACTIVE, ps) + jlog(es.push((id, content@))));
    }
}
//@at after self.saved.insert(id);
proof {
    assert forall|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, ps, es) implies self.holds(ACTIVE, ps, es.push((id, content@))) by {
        let n = es.push((id, content@)); assert(mid.holds(ACTIVE, ps, es));
        assert forall|x: u64| #[trigger] self.saved@.contains(x) <==> exists|i: int| 0 <= i < n.len() && #[trigger] n[i].0 == x by {
            if self.saved@.contains(x) { if x == id { assert(n[es.len() as int].0 == x); } else { let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i].0 == x; assert(n[i].0 == x); } }
            if exists|i: int| 0 <= i < n.len() && #[trigger] n[i].0 == x { let i = choose|i: int| 0 <= i < n.len() && #[trigger] n[i].0 == x; if i < es.len() { assert(es[i].0 == x); } }
        }
    }
}
//@end
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn sync
//@ret r
//@spec
    ensures r is Ok ==> self.forced()
//@end
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn complete
//@ret r
//@spec
    requires page_size <= 65536, exists|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, page_size as int, es)
    ensures r is Ok ==> final(self).saved == old(self).saved && final(self).limit == old(self).limit && final(self).forced() && forall|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).holds(ACTIVE, page_size as int, es) ==> final(self).holds(COMPLETE, page_size as int, es)
//@at start
proof { lemma_head(ACTIVE, page_size as int); lemma_head(COMPLETE, page_size as int); }
//@end
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn reset
//@ret r
//@spec
    ensures r is Ok ==> final(self).file is None && final(self).saved@ == Set::<u64>::empty() && final(self).limit == pages
//@end
/// a journal on disk this code may meet: its page size is one the engine uses, its copies belong inside a file of that size
pub open spec fn sane(j: Seq<u8>) -> bool {
    sget(j, 0) == JOURNAL_MAGIC && sget(j, 1) != COMPLETE ==> { let ps = sget(j, 2) as int; 4096 <= ps <= 65536 && forall|p: int| #[trigger] whole(j, ps, p) ==> sget(j.skip(p), 1) * ps < 0x4000_0000_0000_0000 }
}
pub open spec fn is_journal(p: PathBuf) -> bool { there(p) && on_disk(p).len() >= BLOCK && sget(on_disk(p), 0) == JOURNAL_MAGIC }
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn recover
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite &bytes\[BLOCK\.\.\] ==> shim_sub(bytes, BLOCK, bytes.len())
//@rewrite page\.as_mut\(\)\.copy_from_slice\((.*?)\);\s*\n ==> { let pb = page.as_mut(); let pl = pb.len(); shim_copy(pb, 0, pl, shim_sub(bytes, BLOCK, bytes.len())); }\n
//@ret r
//@spec
    requires sane(on_disk(journal_path(*dir)))
    ensures match r {
        Ok(JournalState::Clean) => !is_journal(journal_path(*dir)) && *final(database) == *old(database),
        Ok(JournalState::CheckpointComplete) => is_journal(journal_path(*dir)) && sget(on_disk(journal_path(*dir)), 1) == COMPLETE && *final(database) == *old(database),
        Ok(JournalState::RolledBack) => is_journal(journal_path(*dir)) && sget(on_disk(journal_path(*dir)), 1) != COMPLETE && final(database).synced()
            && final(database).data() == replay(on_disk(journal_path(*dir)), sget(on_disk(journal_path(*dir)), 2) as int, BLOCK as int, old(database).data()),
        Err(_) => true }
//@loop 0
    invariant 4096 <= page_size <= 65536, length == j.len(), file.data() == j, BLOCK <= position, position < 0x4000_0000_0000_0000, entry.bytes().len() == BLOCK + page_size, page.bytes().len() == page_size, j.len() < 0x4000_0000_0000_0000,
        replay(j, page_size as int, position as int, database.data()) == replay(j, page_size as int, BLOCK as int, old(database).data())
    ensures replay(j, page_size as int, position as int, database.data()) == database.data()
    decreases length - position
//@at before let bytes = header.as_ref();
let ghost j = file.data();
proof { axiom_file_len(file); assert(header.bytes() =~= j.subrange(0, BLOCK as int)); assert forall|i: int| 0 <= i < 512 implies #[trigger] sget(header.bytes(), i) == sget(j, i) by { assert(header.bytes().subrange(8 * i, 8 * i + 8) =~= j.subrange(8 * i, 8 * i + 8)); } }
//@at after let id = get(bytes, 1);
proof {
    assert forall|i: int| 0 <= i < 512 implies #[trigger] sget(entry.bytes(), i) == sget(j.skip(position as int), i) by { assert(entry.bytes().subrange(8 * i, 8 * i + 8) =~= j.skip(position as int).subrange(8 * i, 8 * i + 8)); }
    assert(entry.bytes().subrange(BLOCK as int, BLOCK + page_size) =~= j.subrange(position + BLOCK, position + BLOCK + page_size));
}
//@at before database.seek
proof { assert(whole(j, page_size as int, position as int)); }
//@end
// ------------------------------------------------------------------ the page cache
/// A frame as a value: its contents change only through latches, which the pager does not hold across these calls.
#[verifier::external_body] pub struct MemFrame { p: u8 }
/// the page number in the header of a page, and the link to the next free page
pub uninterp spec fn id_of(b: Seq<u8>) -> u64;
pub uninterp spec fn next_of(b: Seq<u8>) -> Option<PageId>;
/// the same page with another link
pub uninterp spec fn relinked(b: Seq<u8>, n: Option<PageId>) -> Seq<u8>;
/// the link lies in the header: changing it changes nothing else
#[verifier::external_body] pub proof fn axiom_relinked(b: Seq<u8>, n: Option<PageId>) ensures next_of(relinked(b, n)) == n, id_of(relinked(b, n)) == id_of(b), relinked(b, n).len() == b.len() {}
impl MemFrame {
    pub uninterp spec fn id(&self) -> PageId;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn dirty(&self) -> bool;
    /// nobody else holds it
    pub uninterp spec fn free(&self) -> bool;
    pub open spec fn ok(&self, ps: int) -> bool { self.bytes().len() == ps && id_of(self.bytes()) == self.id() }
    #[verifier::external_body] pub fn page_number(&self) -> (r: PageId) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn is_dirty(&self) -> (r: bool) ensures r == self.dirty() { unimplemented!() }
    #[verifier::external_body] pub fn is_free(&self) -> (r: bool) ensures r == self.free() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: MemFrame) ensures r.id() == self.id(), r.bytes() == self.bytes(), r.dirty() == self.dirty() { unimplemented!() }
    /// `mark_dirty` (a flag behind a shared reference, here returned as the changed frame)
    #[verifier::external_body] pub fn marked_dirty(self) -> (r: MemFrame) ensures r.id() == self.id(), r.bytes() == self.bytes(), r.dirty(), r.free() == self.free() { unimplemented!() }
    /// `with_bytes_mut(|bytes| ..)` used for reading
    #[verifier::external_body] pub fn shim_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
    /// turns the page into an unlinked free page; panics if it is in use
    #[verifier::external_body] pub fn dealloc(self) -> (r: MemFrame) requires self.free() ensures r.id() == self.id(), r.bytes().len() == self.bytes().len(), id_of(r.bytes()) == r.id(), next_of(r.bytes()) is None, r.free() { unimplemented!() }
    /// turns the page into an empty page of another kind; panics if it is in use
    #[verifier::external_body] pub fn reinit_as<H>(self) -> (r: MemFrame) requires self.free() ensures r.id() == self.id(), r.bytes().len() == self.bytes().len(), id_of(r.bytes()) == r.id(), r.free() { unimplemented!() }
    /// `MemFrame::from(Frame::new(block))`: the frame takes its number from the header of the block
    #[verifier::external_body] pub fn shim_frame<H>(b: MemBlock<H>) -> (r: MemFrame) ensures r.id() == id_of(b.bytes()), r.bytes() == b.bytes(), !r.dirty(), r.free() { unimplemented!() }
}
/// IndexMap<PageId, MemFrame>
#[verifier::external_body] pub struct IndexMap { p: u8 }
impl IndexMap {
    pub uninterp spec fn view(&self) -> Map<PageId, MemFrame>;
    pub uninterp spec fn keys(&self) -> Seq<PageId>;
    #[verifier::external_body] pub proof fn axiom_keys(&self) ensures forall|k: u64| #[trigger] self@.dom().contains(k) <==> exists|i: int| 0 <= i < self.keys().len() && #[trigger] self.keys()[i] == k, forall|i: int| 0 <= i < self.keys().len() ==> self@.dom().contains(#[trigger] self.keys()[i]) {}
    #[verifier::external_body] pub fn new() -> (r: IndexMap) ensures r@ == Map::<PageId, MemFrame>::empty(), r.keys().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: IndexMap) ensures r@ == Map::<PageId, MemFrame>::empty(), r.keys().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.keys().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.keys().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn shrink_to(&mut self, n: usize) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &PageId) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &PageId) -> (r: Option<&MemFrame>) ensures match r { Some(f) => self@.dom().contains(*k) && *f == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
    /// `*map.get_mut(k) = v` on a key it has
    #[verifier::external_body] pub fn insert(&mut self, k: PageId, v: MemFrame) -> (r: Option<MemFrame>) ensures final(self)@ == old(self)@.insert(k, v), final(self).keys() == if old(self)@.dom().contains(k) { old(self).keys() } else { old(self).keys().push(k) } { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove(&mut self, k: &PageId) -> (r: Option<MemFrame>)
        ensures match r { Some(f) => old(self)@.dom().contains(*k) && f == old(self)@[*k] && final(self)@ == old(self)@.remove(*k) && final(self).keys().len() == old(self).keys().len() - 1, None => !old(self)@.dom().contains(*k) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn get_index(&self, i: usize) -> (r: Option<(&PageId, &MemFrame)>)
        ensures match r { Some((k, f)) => i < self.keys().len() && *k == self.keys()[i as int] && self@.dom().contains(*k) && *f == self@[*k], None => i >= self.keys().len() } { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove_index(&mut self, i: usize) -> (r: Option<(PageId, MemFrame)>)
        ensures match r { Some((k, f)) => i < old(self).keys().len() && k == old(self).keys()[i as int] && f == old(self)@[k] && final(self)@ == old(self)@.remove(k) && final(self).keys().len() == old(self).keys().len() - 1, None => i >= old(self).keys().len() && *final(self) == *old(self) } { unimplemented!() }
    /// the next entry of `drain(..)`
    #[verifier::external_body] pub fn shim_drain_next(&mut self) -> (r: Option<(PageId, MemFrame)>)
        ensures match r { Some((k, f)) => old(self)@.dom().contains(k) && f == old(self)@[k] && final(self)@ == old(self)@.remove(k) && final(self).keys().len() == old(self).keys().len() - 1, None => old(self).keys().len() == 0 && *final(self) == *old(self) } { unimplemented!() }
}
pub struct MemoryStats {}
//@extract crates/axmos-db/src/io/cache.rs : struct PageCache
//@rewrite IndexMap<PageId, MemFrame> ==> IndexMap
//@end
impl PageCache {
    pub open spec fn has(&self, id: PageId) -> bool { self.frames@.dom().contains(id) }
    /// every frame lies under its own number
    pub open spec fn keyed(&self) -> bool { forall|k: u64| #[trigger] self.frames@.dom().contains(k) ==> self.frames@[k].id() == k }
}
pub open spec fn has_id(fs: Seq<MemFrame>, id: PageId) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).id() == id }
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn set_capacity
//@rewrite self\.frames\.reserve\((.*)\); ==> if true { self.frames.reserve(0); }
//@spec
    ensures final(self).frames == old(self).frames, final(self).cursor == old(self).cursor, final(self).capacity == capacity
//@end
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn get
//@rewrite? self\.stats\.\w+\(\); ==> 
//@ret r
//@spec
    ensures match r { Some(f) => self.has(*id) && f.id() == self.frames@[*id].id() && f.bytes() == self.frames@[*id].bytes() && f.dirty() == self.frames@[*id].dirty(), None => !self.has(*id) }
//@end
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn remove
//@ret r
//@spec
    ensures match r { Some(f) => old(self).has(id) && f == old(self).frames@[id] && f.free() && final(self).frames@ == old(self).frames@.remove(id) && final(self).frames.keys().len() == old(self).frames.keys().len() - 1,
        None => *final(self) == *old(self) && (old(self).has(id) ==> !old(self).frames@[id].free()) }, final(self).capacity == old(self).capacity
//@end
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn evict
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\.stats\.\w+\(\); ==> 
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\([^()]*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite for _ in 0\.\.self\.frames\.len\(\) ==> let flen = self.frames.len(); for i in 0..flen
//@rewrite return Ok\(self\s*\.frames\s*\.swap_remove_index\(self\.cursor\)\s*\.map\(\|\(_, victim\)\| victim\)\); ==> match self.frames.swap_remove_index(self.cursor) { Some((gk, victim)) => { assert(old(self).has(gk)); return Ok(Some(victim)); } None => { return Ok(None); } }
//@ret r
//@spec
    ensures match r {
        Ok(Some(f)) => f.free() && exists|k: u64| #[trigger] old(self).has(k) && f == old(self).frames@[k] && final(self).frames@ == old(self).frames@.remove(k) && final(self).frames.keys().len() == old(self).frames.keys().len() - 1,
        Ok(None) => old(self).frames.keys().len() == 0 && *final(self) == *old(self),
        Err(_) => final(self).frames == old(self).frames && forall|k: u64| #[trigger] old(self).has(k) ==> !old(self).frames@[k].free() }, final(self).capacity == old(self).capacity
//@loop 0
    invariant self.frames == old(self).frames, self.capacity == old(self).capacity, flen == n, c0 <= n, i == 0 ==> (self.cursor == c0 || c0 == n && self.cursor >= n), i > 0 ==> self.cursor == (if c0 + i <= n { c0 + i } else { c0 + i - n }),
        forall|p: int| 0 <= p < n && (c0 <= p < c0 + i || c0 <= p + n < c0 + i) ==> !old(self).frames@[#[trigger] old(self).frames.keys()[p]].free()
//@at loop 0 before
let ghost n = self.frames.keys().len() as int; let ghost c0 = if self.cursor >= n { n } else { self.cursor as int };
proof { self.frames.axiom_keys(); }
//@end
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn insert
//@rewrite? self\.stats\.\w+\(\); ==> 
//@rewrite if let Some\(old_frame\) = self\.frames\.get_mut\(&id\) \{\s*self\.stats\.cache_hit\(\);\s*\*old_frame = frame\s*\} ==> self.frames.insert(id, frame);
//@ret r
//@spec
    ensures final(self).capacity == old(self).capacity, match r {
        Ok(None) => final(self).frames@ == old(self).frames@.insert(frame.id(), frame),
        Ok(Some(e)) => !old(self).has(frame.id()) && e.free() && exists|k: u64| #[trigger] old(self).has(k) && e == old(self).frames@[k] && final(self).frames@ == old(self).frames@.remove(k).insert(frame.id(), frame),
        Err(_) => final(self).frames == old(self).frames },
        r is Ok ==> final(self).frames.keys().len() <= old(self).frames.keys().len() || final(self).frames.keys().len() <= old(self).capacity || old(self).frames.keys().len() == 0
//@end
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn clear
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@rewrite for \(_, frame\) in self\.frames\.drain\(\.\.\) ==> while let Some((gk, frame)) = self.frames.shim_drain_next()
//@rewrite Vec::with_capacity\(self\.frames\.len\(\)\) ==> Vec::<MemFrame>::new()
//@ret r
//@spec
    requires old(self).keyed()
    ensures final(self).frames@.dom() =~= Set::<u64>::empty(), final(self).capacity == old(self).capacity,
        forall|i: int| 0 <= i < r@.len() ==> old(self).has((#[trigger] r@[i]).id()) && r@[i] == old(self).frames@[r@[i].id()],
        forall|k: u64| #[trigger] old(self).has(k) ==> has_id(r@, k), forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).id() != (#[trigger] r@[j]).id()
//@loop 0
    invariant self.capacity == old(self).capacity, self.keyed(), forall|k: u64| #[trigger] self.frames@.dom().contains(k) ==> old(self).has(k) && self.frames@[k] == old(self).frames@[k] && !has_id(remaining_frames@, k),
        forall|i: int| 0 <= i < remaining_frames@.len() ==> old(self).has((#[trigger] remaining_frames@[i]).id()) && remaining_frames@[i] == old(self).frames@[remaining_frames@[i].id()],
        forall|k: u64| #[trigger] old(self).has(k) ==> self.has(k) || has_id(remaining_frames@, k), forall|i: int, j: int| 0 <= i < j < remaining_frames@.len() ==> (#[trigger] remaining_frames@[i]).id() != (#[trigger] remaining_frames@[j]).id()
    ensures self.frames.keys().len() == 0
    decreases self.frames.keys().len()
//@at loop 0 body-start
let ghost r0 = remaining_frames@; let ghost f0 = frame;
//@at loop 0 body-end
proof {
    assert(old(self).has(gk)); assert(f0.id() == gk);
    assert forall|k: u64| has_id(r0, k) implies has_id(remaining_frames@, k) by { let i = choose|i: int| 0 <= i < r0.len() && (#[trigger] r0[i]).id() == k; assert(remaining_frames@[i].id() == k); }
    assert(remaining_frames@[r0.len() as int] == f0); assert(has_id(remaining_frames@, f0.id()));
    assert forall|k: u64| has_id(remaining_frames@, k) && k != f0.id() implies has_id(r0, k) by { let i = choose|i: int| 0 <= i < remaining_frames@.len() && (#[trigger] remaining_frames@[i]).id() == k; assert(r0[i].id() == k); }
}
//@at loop 0 after
proof { self.frames.axiom_keys(); }
//@end
// ------------------------------------------------------------------ the pager
pub const MAGIC: u64 = 0x41786D6F734442;
pub type PageZero = MemBlock<PageZeroHeader>;
//@extract crates/axmos-db/src/storage/page.rs : const ABORTED_BITMAP_SIZE
//@end
//@extract crates/axmos-db/src/storage/page.rs : struct PageZeroHeader
//@attrs
#[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/io/pager.rs : struct Pager
//@end
/// the header laid over page zero
pub uninterp spec fn hdr_of(b: Seq<u8>) -> PageZeroHeader;
/// the header with a transaction written down as aborted (its contract: unit mvcc)
pub uninterp spec fn marked(h: PageZeroHeader, t: TransactionId) -> PageZeroHeader;
pub open spec fn marked_all(h: PageZeroHeader, ts: Seq<TransactionId>, n: int) -> PageZeroHeader decreases n { if n <= 0 { h } else { marked(marked_all(h, ts, n - 1), ts[n - 1]) } }
impl PageZeroHeader { #[verifier::external_body] pub fn mark_transaction_aborted(&mut self, t: TransactionId) ensures *final(self) == marked(*old(self), t) { unimplemented!() } }
impl MemBlock<PageZeroHeader> {
    #[verifier::external_body] pub fn metadata(&self) -> (r: &PageZeroHeader) ensures *r == hdr_of(self.bytes()) { unimplemented!() }
    #[verifier::external_body] pub fn metadata_mut(&mut self) -> (r: &mut PageZeroHeader) ensures *r == hdr_of(old(self).bytes()), hdr_of(final(self).bytes()) == *final(r), final(self).bytes().len() == old(self).bytes().len() { unimplemented!() }
}
#[verifier::external_body] pub struct WriteAheadLog { p: u8 }
impl WriteAheadLog {
    pub uninterp spec fn forced(&self) -> bool;
    pub uninterp spec fn emptied(&self) -> bool;
    #[verifier::external_body] pub fn flush(&mut self) -> (r: io::Result<()>) ensures r is Ok ==> final(self).forced() && final(self).emptied() == old(self).emptied() { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self) -> (r: io::Result<()>) ensures r is Ok ==> final(self).emptied() { unimplemented!() }
}
/// `P::alloc(id, size)`: an empty page with this number
#[verifier::external_body] pub fn shim_alloc<P>(id: PageId, size: usize) -> (r: MemBlock<P>) ensures r.bytes().len() == size, id_of(r.bytes()) == id { unimplemented!() }
/// `pages.retain(|page| page.is_dirty())`
#[verifier::external_body] pub fn shim_retain_dirty(v: &mut Vec<MemFrame>)
    ensures forall|i: int| 0 <= i < final(v)@.len() ==> (#[trigger] final(v)@[i]).dirty() && has_frame(old(v)@, final(v)@[i]), forall|i: int| 0 <= i < old(v)@.len() && (#[trigger] old(v)@[i]).dirty() ==> has_frame(final(v)@, old(v)@[i]),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() && #[trigger] final(v)@[i].id() == #[trigger] final(v)@[j].id() ==> exists|a: int, b: int| 0 <= a < b < old(v)@.len() && #[trigger] old(v)@[a].id() == #[trigger] old(v)@[b].id() { unimplemented!() }
pub open spec fn has_frame(fs: Seq<MemFrame>, f: MemFrame) -> bool { exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == f }
impl Pager {
    pub open spec fn h(&self) -> PageZeroHeader { self.db_header->0 }
    pub open spec fn ps(&self) -> int { self.h().page_size as int }
    pub open spec fn total(&self) -> int { self.h().total_pages as int }
    /// what the page holds now: in the cache, otherwise in the file
    pub open spec fn at(&self, id: int) -> Seq<u8> { if self.cache.has(id as u64) { self.cache.frames@[id as u64].bytes() } else { page(self.file.data(), self.ps(), id) } }
    pub open spec fn filed(&self, id: int) -> bool { id * self.ps() + self.ps() <= self.file.data().len() }
    /// the page is in the cache, or whole in the file; a clean frame is the page in the file
    pub open spec fn sound(&self, id: int) -> bool {
        if self.cache.has(id as u64) { let f = self.cache.frames@[id as u64]; f.ok(self.ps()) && f.id() == id && (!f.dirty() ==> self.filed(id) && page(self.file.data(), self.ps(), id) == f.bytes()) }
        else { self.filed(id) && id_of(page(self.file.data(), self.ps(), id)) == id }
    }
    /// a crash now leads back to this checkpoint
    pub open spec fn safe_unforced(&self, base: Seq<u8>) -> bool { exists|es: Seq<(PageId, Seq<u8>)>| #[trigger] self.kept(base, es) }
    pub open spec fn kept(&self, base: Seq<u8>, es: Seq<(PageId, Seq<u8>)>) -> bool {
        &&& self.journal.holds(ACTIVE, self.ps(), es)
        &&& self.journal.limit * self.ps() <= base.len()
        &&& forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0 < self.journal.limit && es[i].1 == page(base, self.ps(), es[i].0 as int)
        &&& forall|id: int| 0 <= id < self.journal.limit && !has_copy(es, 0, id) ==> #[trigger] agree(self.file.data(), base, self.ps(), id)
    }
    pub open spec fn safe(&self, base: Seq<u8>) -> bool { self.safe_unforced(base) && self.journal.forced() }
    pub open spec fn basic(&self) -> bool {
        &&& self.db_header is Some && 4096 <= self.ps() <= 65536 && 1 <= self.total() && self.h().total_pages < 0x0000_1000_0000_0000
        &&& forall|k: u64| #[trigger] self.cache.frames@.dom().contains(k) ==> 1 <= k < self.total()
        &&& exists|base: Seq<u8>| #[trigger] self.safe(base)
    }
    pub open spec fn wf_but(&self, x: int) -> bool { self.basic() && forall|id: int| 1 <= id < self.total() && id != x ==> #[trigger] self.sound(id) }
    pub open spec fn wf(&self) -> bool { self.wf_but(0) }
    /// every page but x holds what it held
    pub open spec fn same_but(&self, o: Pager, x: int) -> bool { self.total() == o.total() && self.ps() == o.ps() && forall|id: int| 1 <= id < self.total() && id != x ==> #[trigger] self.at(id) == o.at(id) }
    /// every checkpoint a crash leads back to before, it leads back to after
    pub open spec fn as_safe(&self, o: Pager) -> bool { forall|base: Seq<u8>| #[trigger] o.safe(base) ==> self.safe(base) }
    /// the free pages, from the first to the last
    pub open spec fn free_list(&self, fl: Seq<PageId>) -> bool {
        &&& self.h().first_free_page == if fl.len() == 0 { None::<PageId> } else { Some(fl[0]) }
        &&& self.h().last_free_page == if fl.len() == 0 { None::<PageId> } else { Some(fl[fl.len() - 1]) }
        &&& forall|i: int| 0 <= i < fl.len() ==> 1 <= #[trigger] fl[i] < self.total() && next_of(self.at(fl[i] as int)) == if i + 1 < fl.len() { Some(fl[i + 1]) } else { None::<PageId> }
        &&& forall|i: int, j: int| 0 <= i < j < fl.len() ==> #[trigger] fl[i] != #[trigger] fl[j]
    }
}
/// writing a page that has its copy, or that the checkpoint does not know, keeps the checkpoint within reach
pub proof fn lemma_safe_write(s: Pager, n: Pager, base: Seq<u8>, id: int, c: Seq<u8>)
    requires s.safe_unforced(base), !s.journal.wants(id), id >= 0, c.len() == s.ps(), s.ps() > 0, n.journal == s.journal, n.ps() == s.ps(), n.file.data() == splice(s.file.data(), id * s.ps(), c), id < 0x1_0000_0000_0000
    ensures n.safe_unforced(base)
{
    let ps = s.ps(); let es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] s.kept(base, es);
    lemma_splice(s.file.data(), ps, id, c);
    assert forall|o: int| 0 <= o < n.journal.limit && !has_copy(es, 0, o) implies #[trigger] agree(n.file.data(), base, ps, o) by {
        assert(agree(s.file.data(), base, ps, o));
        if o == id { assert(s.journal.saved@.contains(o as u64)); let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i].0 == o as u64; assert(es[i].0 == o); assert(has_copy(es, 0, o)); }
        assert(page(n.file.data(), ps, o) == page(s.file.data(), ps, o));
    }
    assert(n.kept(base, es));
}
pub proof fn lemma_safe_copy(s: Pager, n: Pager, base: Seq<u8>, id: int, c: Seq<u8>)
    requires s.safe_unforced(base), s.journal.wants(id), n.file.data() == s.file.data(), n.ps() == s.ps(), s.ps() > 0, s.filed(id), c == page(s.file.data(), s.ps(), id), n.journal.limit == s.journal.limit,
        forall|es: Seq<(PageId, Seq<u8>)>| #[trigger] s.journal.holds(ACTIVE, s.ps(), es) ==> n.journal.holds(ACTIVE, s.ps(), es.push((id as u64, c)))
    ensures n.safe_unforced(base), !n.journal.wants(id), forall|o: int| #[trigger] n.journal.wants(o) ==> s.journal.wants(o)
{
    let ps = s.ps(); let es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] s.kept(base, es); let e2 = es.push((id as u64, c));
    assert(s.journal.holds(ACTIVE, ps, es));
    if has_copy(es, 0, id) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == id; assert(es[i].0 == id as u64); assert(s.journal.saved@.contains(id as u64)); }
    assert(agree(s.file.data(), base, ps, id));
    assert forall|o: int| 0 <= o < n.journal.limit && !has_copy(e2, 0, o) implies #[trigger] agree(n.file.data(), base, ps, o) by {
        if has_copy(es, 0, o) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == o; assert(e2[i].0 == o); }
        assert(agree(s.file.data(), base, ps, o));
    }
    assert(n.kept(base, e2));
    assert(e2[es.len() as int].0 == id as u64);
    assert forall|o: int| #[trigger] n.journal.wants(o) implies s.journal.wants(o) by { if s.journal.saved@.contains(o as u64) { let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i].0 == o as u64; assert(e2[i].0 == o as u64); } }
}
pub proof fn lemma_offset(ps: int, id: int) requires 4096 <= ps <= 65536, 0 <= id < 0x1000_0000_0000 ensures 0 <= id * ps, id * ps + ps < 0x2000_0000_0000_0000, id as u64 * (ps as u64) == id * ps
{ assert(0 <= id * ps && id * ps <= 0x1000_0000_0000 * 65536) by (nonlinear_arith) requires 4096 <= ps <= 65536, 0 <= id < 0x1000_0000_0000; }
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn page_offset
//@rewrite? u64::from\(page_id\) ==> page_id
//@ret r
//@spec
    requires 4096 <= page_size <= 65536, page_id < 0x1000_0000_0000 ensures r == page_id * page_size
//@at start
proof { lemma_offset(page_size as int, page_id as int); }
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn header_unchecked
//@ret r
//@spec
    requires self.db_header is Some ensures *r == self.h()
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn header_unchecked_mut
//@ret r
//@spec
    requires old(self).db_header is Some ensures *r == old(self).h(), *final(self) == (Pager { db_header: Some(*final(r)), ..*old(self) })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn page_size
//@ret r
//@spec
    requires self.db_header is Some ensures r == self.ps()
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn first_free_page
//@ret r
//@spec
    requires self.db_header is Some ensures r == self.h().first_free_page
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn last_free_page
//@ret r
//@spec
    requires self.db_header is Some ensures r == self.h().last_free_page
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn get_next_page
//@ret r
//@spec
    requires old(self).db_header is Some, old(self).h().total_pages < u64::MAX
    ensures r == old(self).total(), *final(self) == (Pager { db_header: Some(PageZeroHeader { total_pages: (r + 1) as u64, ..old(self).h() }), ..*old(self) })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn total_allocated_pages
//@ret r
//@spec
    requires self.db_header is Some ensures r == self.total()
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn set_first_free_page
//@spec
    requires old(self).db_header is Some ensures *final(self) == (Pager { db_header: Some(PageZeroHeader { first_free_page: value, ..old(self).h() }), ..*old(self) })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn set_last_free_page
//@spec
    requires old(self).db_header is Some ensures *final(self) == (Pager { db_header: Some(PageZeroHeader { last_free_page: value, ..old(self).h() }), ..*old(self) })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn validate_alignment_of
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\([^()]*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite !\(value\)\.is_multiple_of\(align\) ==> value % align != 0
//@ret r
//@spec
    requires align > 0 ensures r is Ok <==> value % align == 0, r is Err ==> r->Err_0.k == ErrorKind::InvalidInput
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn write_block
//@rewrite? (content|buffer)\.as_ptr\(\) as usize ==> shim_addr(\1)
//@ret r
//@spec
    requires 4096 <= block_size <= 65536, start_page_number < 0x1000_0000_0000
    ensures *final(self) == (Pager { file: final(self).file, ..*old(self) }), r is Ok ==> final(self).file.data() == splice(old(self).file.data(), start_page_number * block_size, content@)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn read_block
//@rewrite? (content|buffer)\.as_ptr\(\) as usize ==> shim_addr(\1)
//@ret r
//@spec
    requires 4096 <= block_size <= 65536, start_page_number < 0x1000_0000_0000
    ensures *final(self) == (Pager { file: final(self).file, ..*old(self) }), final(self).file.data() == old(self).file.data(), final(buffer)@.len() == old(buffer)@.len(), r is Ok ==> start_page_number * block_size + old(buffer)@.len() <= old(self).file.data().len() && final(buffer)@ == old(self).file.data().subrange(start_page_number * block_size, start_page_number * block_size + old(buffer)@.len()),
        r is Err && r->Err_0.k == ErrorKind::UnexpectedEof ==> start_page_number * block_size + old(buffer)@.len() > old(self).file.data().len()
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn load_page_zero
//@ret r
//@spec
    requires 4096 <= block_size <= 65536
    ensures *final(self) == (Pager { file: final(self).file, ..*old(self) }), final(self).file.data() == old(self).file.data(), r is Ok ==> r->Ok_0.bytes().len() == block_size && block_size <= old(self).file.data().len() && r->Ok_0.bytes() == page(old(self).file.data(), block_size as int, 0)
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn journal_pages
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite pages: impl IntoIterator<Item = PageId> ==> pages: Vec<PageId>
//@rewrite for id in pages\b ==> let mut k: usize = 0; while k < pages.len()
//@ret r
//@spec
    requires old(self).db_header is Some, 4096 <= old(self).ps() <= 65536, forall|k: int| 0 <= k < pages@.len() ==> #[trigger] pages@[k] < 0x1000_0000_0000, exists|base: Seq<u8>| #[trigger] old(self).safe(base)
    ensures *final(self) == (Pager { file: final(self).file, journal: final(self).journal, ..*old(self) }), final(self).file.data() == old(self).file.data(),
        r is Ok ==> final(self).as_safe(*old(self)) && forall|k: int| 0 <= k < pages@.len() ==> !#[trigger] final(self).journal.wants(pages@[k] as int)
//@loop 0
    invariant *self == (Pager { file: self.file, journal: self.journal, ..*old(self) }), self.file.data() == old(self).file.data(), buffer.bytes().len() == page_size, forall|base: Seq<u8>| #[trigger] old(self).safe(base) ==> self.safe_unforced(base),
        !copied ==> self.journal.forced(), forall|j: int| 0 <= j < k ==> !#[trigger] self.journal.wants(pages@[j] as int), k <= pages@.len()
    decreases pages@.len() - k
//@at start
let ghost base0 = choose|base: Seq<u8>| #[trigger] old(self).safe(base);
//@at loop 0 body-start
let id = pages[k]; k = k + 1; let ghost s0 = *self;
proof { assert(old(self).safe(base0)); assert(s0.safe_unforced(base0)); lemma_offset(page_size as int, id as int); }
//@at before match self.read_block
proof {
    let es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] s0.kept(base0, es); assert(s0.journal.holds(ACTIVE, page_size as int, es));
    if has_copy(es, 0, id as int) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == id; assert(s0.journal.saved@.contains(id)); }
    assert(agree(s0.file.data(), base0, page_size as int, id as int));
}
//@at after copied = true;
proof {
    let c = page(s0.file.data(), page_size as int, id as int);
    assert forall|base: Seq<u8>| #[trigger] old(self).safe(base) implies self.safe_unforced(base) by { lemma_safe_copy(s0, *self, base, id as int, c); }
    lemma_safe_copy(s0, *self, base0, id as int, c);
}
//@end
/// after a frame came into the cache, and perhaps another was put back into the file
pub proof fn lemma_cached(o: Pager, n: Pager, f: MemFrame, out: Option<MemFrame>)
    requires o.wf_but(f.id() as int), 1 <= f.id() < o.total(), f.ok(o.ps()), f.dirty() || o.filed(f.id() as int) && page(o.file.data(), o.ps(), f.id() as int) == f.bytes(), !o.cache.has(f.id()),
        n.db_header == o.db_header, exists|base: Seq<u8>| #[trigger] n.safe(base),
        match out {
            None => n.cache.frames@ == o.cache.frames@.insert(f.id(), f) && n.file.data() == o.file.data(),
            Some(e) => o.cache.has(e.id()) && e == o.cache.frames@[e.id()] && n.cache.frames@ == o.cache.frames@.remove(e.id()).insert(f.id(), f) && if e.dirty() { n.file.data() == splice(o.file.data(), e.id() * o.ps(), e.bytes()) } else { n.file.data() == o.file.data() },
        }
    ensures n.wf(), n.same_but(o, f.id() as int), n.at(f.id() as int) == f.bytes(), n.cache.has(f.id())
{
    let ps = o.ps();
    assert(n.ps() == ps && n.total() == o.total());
    match out { Some(e) => { assert(o.sound(e.id() as int)); lemma_splice(o.file.data(), ps, e.id() as int, e.bytes()); }, None => {} }
    assert forall|id: int| 1 <= id < n.total() implies #[trigger] n.sound(id) && (id != f.id() ==> n.at(id) == o.at(id)) by {
        if id != f.id() {
            assert(o.sound(id));
            if out is Some && id != (out->0).id() && o.filed(id) { if (out->0).dirty() { assert(page(n.file.data(), ps, id) == page(o.file.data(), ps, id)); } }
        } else if out is Some && o.filed(id) { if (out->0).dirty() { assert(page(n.file.data(), ps, id) == page(o.file.data(), ps, id)); } }
    }
    assert forall|id: int| 1 <= id < n.total() && id != f.id() implies #[trigger] n.at(id) == o.at(id) by { assert(n.sound(id)); }
}
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn cache_frame
//@rewrite? self\.journal_pages\(\[(\w+)\]\) ==> self.journal_pages(vec![\1])
//@rewrite? (\w+)\s*\.with_bytes_mut\(\|bytes\| self\.write_block\((\w+), &bytes, page_size\)\)\? ==> self.write_block(\2, \1.shim_bytes(), page_size)?
//@ret r
//@spec
    requires old(self).wf_but(frame.id() as int), 1 <= frame.id() < old(self).total(), frame.ok(old(self).ps()), !old(self).cache.has(frame.id()),
        frame.dirty() || old(self).filed(frame.id() as int) && page(old(self).file.data(), old(self).ps(), frame.id() as int) == frame.bytes()
    ensures final(self).db_header == old(self).db_header, r is Ok ==> r->Ok_0 == frame.id() && final(self).wf() && final(self).same_but(*old(self), frame.id() as int) && final(self).at(frame.id() as int) == frame.bytes() && final(self).cache.has(frame.id()) && final(self).cache.frames@[frame.id()] == frame && final(self).as_safe(*old(self))
//@at start
let ghost base0 = choose|base: Seq<u8>| #[trigger] old(self).safe(base); let ghost f0 = frame; let ghost ps = old(self).ps(); let ghost mut out = None::<MemFrame>;
proof { assert(old(self).safe(base0)); assert forall|k: u64| #[trigger] old(self).cache.has(k) implies old(self).cache.frames@[k].id() == k && 1 <= k < old(self).total() by { assert(old(self).sound(k as int)); } }
//@at after let evicted_id = evicted.page_number();
let ghost s1 = *self;
proof {
    out = Some(evicted);
    assert(old(self).cache.has(evicted_id)); assert(old(self).sound(evicted_id as int));
    assert forall|base: Seq<u8>| #[trigger] old(self).safe(base) implies s1.safe(base) by { lemma_cache_only(*old(self), s1, base); }
    assert(s1.safe(base0)); lemma_offset(ps, evicted_id as int);
}
//@at before evicted.with_bytes_mut
let ghost s2 = *self;
//@at after#2 ?;
proof { assert forall|base: Seq<u8>| #[trigger] old(self).safe(base) implies self.safe(base) by { assert(s2.safe(base)); lemma_safe_write(s2, *self, base, evicted_id as int, evicted.bytes()); } }
//@at before Ok(id)
proof {
    if out is None { assert forall|base: Seq<u8>| #[trigger] old(self).safe(base) implies self.safe(base) by { lemma_cache_only(*old(self), *self, base); } }
    assert(self.safe(base0));
    lemma_cached(*old(self), *self, f0, out);
}
//@end
pub proof fn lemma_cache_only(s: Pager, n: Pager, base: Seq<u8>) requires s.safe(base), n.file.data() == s.file.data(), n.journal == s.journal, n.ps() == s.ps() ensures n.safe(base)
{ let es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] s.kept(base, es); assert forall|id: int| 0 <= id < n.journal.limit && !has_copy(es, 0, id) implies #[trigger] agree(n.file.data(), base, n.ps(), id) by { assert(agree(s.file.data(), base, s.ps(), id)); } assert(n.kept(base, es)); }
/// the free list depends on the header and the free pages alone
pub proof fn lemma_same_list(o: Pager, n: Pager, fl: Seq<PageId>, x: int)
    requires o.free_list(fl), n.same_but(o, x), n.h().first_free_page == o.h().first_free_page, n.h().last_free_page == o.h().last_free_page, forall|i: int| 0 <= i < fl.len() ==> #[trigger] fl[i] != x
    ensures n.free_list(fl)
{ assert forall|i: int| 0 <= i < fl.len() implies 1 <= #[trigger] fl[i] < n.total() && next_of(n.at(fl[i] as int)) == if i + 1 < fl.len() { Some(fl[i + 1]) } else { None::<PageId> } by { assert(n.at(fl[i] as int) == o.at(fl[i] as int)); } }
pub proof fn lemma_cached_frame(s: Pager, id: PageId) requires s.wf(), s.cache.has(id) ensures 1 <= id < s.total(), s.cache.frames@[id].ok(s.ps()), s.cache.frames@[id].id() == id { assert(s.sound(id as int)); }
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn read_page
//@rewrite? \bwhere\s[^{]*?,\s*(?=\{) ==> 
//@rewrite? MemBlock<P::Header> ==> MemBlock<P>
//@rewrite? P::alloc\( ==> shim_alloc::<P>(
//@rewrite? reinit_as::<P::Header> ==> reinit_as::<P>
//@rewrite? MemFrame::from\(Frame::new\((\w+)\)\) ==> MemFrame::shim_frame(\1)
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\([^()]*\))*\)),?\s*\) ==> IoError::new(\1)
//@ret r
//@spec
    requires old(self).wf(), id < old(self).total()
    ensures final(self).db_header == old(self).db_header, r is Ok ==> 1 <= id && r->Ok_0.id() == id && r->Ok_0.bytes() == old(self).at(id as int) && final(self).wf() && final(self).same_but(*old(self), 0) && final(self).cache.has(id) && final(self).as_safe(*old(self)),
        r is Ok && old(self).cache.has(id) ==> *final(self) == *old(self)
//@at start
let ghost base0 = choose|base: Seq<u8>| #[trigger] old(self).safe(base);
proof { assert(old(self).safe(base0)); if id > 0 { assert(old(self).sound(id as int)); lemma_offset(old(self).ps(), id as int); } }
//@at before self.cache_frame
let ghost s1 = *self;
proof {
    assert forall|base: Seq<u8>| #[trigger] old(self).safe(base) implies s1.safe(base) by { lemma_cache_only(*old(self), s1, base); }
    assert(s1.safe(base0));
    assert forall|o: int| 1 <= o < s1.total() && o != id implies #[trigger] s1.sound(o) by { assert(old(self).sound(o)); }
    assert(mem_page.bytes() == page(s1.file.data(), s1.ps(), id as int));
}
//@at after#2 ?;
proof {
    assert forall|o: int| 1 <= o < self.total() implies #[trigger] self.at(o) == old(self).at(o) by { if o != id { assert(self.at(o) == s1.at(o)); assert(s1.at(o) == old(self).at(o)); } }
    lemma_cached_frame(*self, id);
}
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn ensure_cached
//@rewrite? \bwhere\s[^{]*?,\s*(?=\{) ==> 
//@rewrite? MemBlock<P::Header> ==> MemBlock<P>
//@rewrite? P::alloc\( ==> shim_alloc::<P>(
//@rewrite? reinit_as::<P::Header> ==> reinit_as::<P>
//@rewrite? MemFrame::from\(Frame::new\((\w+)\)\) ==> MemFrame::shim_frame(\1)
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\([^()]*\))*\)),?\s*\) ==> IoError::new(\1)
//@ret r
//@spec
    requires old(self).wf(), id < old(self).total()
    ensures final(self).db_header == old(self).db_header, r is Ok ==> 1 <= id && final(self).wf() && final(self).same_but(*old(self), 0) && final(self).cache.has(id) && final(self).as_safe(*old(self)), r is Ok && old(self).cache.has(id) ==> *final(self) == *old(self)
//@end
impl MemFrame { #[verifier::external_body] pub fn shim_next(&self) -> (r: Option<PageId>) ensures r == next_of(self.bytes()) { unimplemented!() } }
impl PageCache {
    /// writes the link of the page under the write latch, which marks the frame dirty
    #[verifier::external_body] pub fn shim_relink(&mut self, id: PageId, n: Option<PageId>) requires old(self).has(id)
        ensures final(self).frames@.dom() == old(self).frames@.dom(), forall|k: u64| k != id ==> #[trigger] final(self).frames@[k] == old(self).frames@[k],
            ({ let f = final(self).frames@[id]; let g = old(self).frames@[id]; f.id() == g.id() && f.dirty() && f.bytes() == relinked(g.bytes(), n) }), final(self).capacity == old(self).capacity { unimplemented!() }
}
impl Pager {
    /// `with_page::<OverflowPage>(id, |p| p.next())`
    pub fn shim_page_next(&mut self, id: PageId) -> (r: io::Result<Option<PageId>>) requires old(self).wf(), id < old(self).total()
        ensures final(self).db_header == old(self).db_header, r is Ok ==> r->Ok_0 == next_of(old(self).at(id as int)) && final(self).wf() && final(self).same_but(*old(self), 0) && final(self).as_safe(*old(self)) && 1 <= id
    { let f = self.read_page::<OverflowPageHeader>(id)?; Ok(f.shim_next()) }
    /// `with_page_mut::<OverflowPage>(id, |p| p.metadata_mut().next = n)`
    pub fn shim_page_relink(&mut self, id: PageId, n: Option<PageId>) -> (r: io::Result<()>) requires old(self).wf(), id < old(self).total()
        ensures final(self).db_header == old(self).db_header, r is Ok ==> final(self).wf() && final(self).same_but(*old(self), id as int) && final(self).as_safe(*old(self)) && 1 <= id && final(self).at(id as int) == relinked(old(self).at(id as int), n)
    {
        let f = self.read_page::<OverflowPageHeader>(id)?; let ghost s1 = *self; let ghost base0 = choose|base: Seq<u8>| #[trigger] s1.safe(base);
        self.cache.shim_relink(id, n);
        proof {
            lemma_cached_frame(s1, id); axiom_relinked(s1.at(id as int), n); assert(s1.safe(base0));
            assert forall|base: Seq<u8>| #[trigger] s1.safe(base) implies self.safe(base) by { lemma_cache_only(s1, *self, base); }
            assert(s1.at(id as int) == old(self).at(id as int));
            assert forall|o: int| 1 <= o < self.total() && o != id implies #[trigger] self.at(o) == old(self).at(o) by { assert(s1.at(o) == old(self).at(o)); }
            assert forall|o: int| 1 <= o < self.total() implies #[trigger] self.sound(o) by { assert(s1.sound(o)); }
            assert(self.cache.frames@[id].ok(self.ps()));
        }
        Ok(())
    }
}
pub proof fn lemma_hdr(s: Pager, n: Pager, x: int) requires s.wf_but(x), n == (Pager { db_header: n.db_header, ..s }), n.db_header is Some, n.ps() == s.ps(), n.total() == s.total() ensures n.wf_but(x), n.as_safe(s), n.same_but(s, 0)
{
    let base0 = choose|base: Seq<u8>| #[trigger] s.safe(base); assert(s.safe(base0));
    assert forall|base: Seq<u8>| #[trigger] s.safe(base) implies n.safe(base) by { lemma_cache_only(s, n, base); }
    assert forall|id: int| 1 <= id < n.total() && id != x implies #[trigger] n.sound(id) by { assert(s.sound(id)); }
}
pub proof fn lemma_grown(s: Pager, n: Pager) requires s.wf(), s.total() < 0x0000_0fff_0000_0000, n == (Pager { db_header: n.db_header, ..s }), n.db_header is Some, n.ps() == s.ps(), n.total() == s.total() + 1 ensures n.wf_but(s.total()), n.as_safe(s), forall|id: int| 1 <= id < s.total() ==> #[trigger] n.at(id) == s.at(id)
{
    let base0 = choose|base: Seq<u8>| #[trigger] s.safe(base); assert(s.safe(base0));
    assert forall|base: Seq<u8>| #[trigger] s.safe(base) implies n.safe(base) by { lemma_cache_only(s, n, base); }
    assert forall|id: int| 1 <= id < n.total() && id != s.total() implies #[trigger] n.sound(id) by { assert(s.sound(id)); }
}
pub proof fn lemma_removed(s: Pager, n: Pager, id: PageId) requires s.wf(), n == (Pager { cache: n.cache, ..s }), n.cache.frames@ == s.cache.frames@.remove(id) ensures n.wf_but(id as int), n.as_safe(s), n.same_but(s, id as int), !n.cache.has(id)
{
    let base0 = choose|base: Seq<u8>| #[trigger] s.safe(base); assert(s.safe(base0));
    assert forall|base: Seq<u8>| #[trigger] s.safe(base) implies n.safe(base) by { lemma_cache_only(s, n, base); }
    assert forall|o: int| 1 <= o < n.total() && o != id implies #[trigger] n.sound(o) by { assert(s.sound(o)); }
}
pub proof fn lemma_chain(a: Pager, b: Pager, c: Pager, d: Pager, x: int) requires b.same_but(a, 0), c.same_but(b, x), d.same_but(c, x) ensures d.same_but(a, x)
{ assert forall|id: int| 1 <= id < d.total() && id != x implies #[trigger] d.at(id) == a.at(id) by { assert(d.at(id) == c.at(id)); assert(c.at(id) == b.at(id)); assert(b.at(id) == a.at(id)); } }
/// the first free page is taken off the list
pub proof fn lemma_pop(o: Pager, n: Pager, fl: Seq<PageId>)
    requires o.free_list(fl), fl.len() > 0, n.same_but(o, fl[0] as int), n.h().first_free_page == next_of(o.at(fl[0] as int)), n.h().last_free_page == if o.h().last_free_page == Some(fl[0]) { None::<PageId> } else { o.h().last_free_page }
    ensures n.free_list(fl.drop_first())
{
    let t = fl.drop_first();
    assert(next_of(o.at(fl[0] as int)) == if 1 < fl.len() { Some(fl[1]) } else { None::<PageId> });
    assert forall|i: int| 0 <= i < t.len() implies 1 <= #[trigger] t[i] < n.total() && next_of(n.at(t[i] as int)) == if i + 1 < t.len() { Some(t[i + 1]) } else { None::<PageId> } by { assert(t[i] == fl[i + 1]); assert(n.at(fl[i + 1] as int) == o.at(fl[i + 1] as int)); }
    if t.len() > 0 { assert(fl[fl.len() - 1] != fl[0]); assert(t[t.len() - 1] == fl[fl.len() - 1]); }
}
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn allocate_page
//@rewrite? \bwhere\s[^{]*?,\s*(?=\{) ==> 
//@rewrite? MemBlock<P::Header> ==> MemBlock<P>
//@rewrite? P::alloc\( ==> shim_alloc::<P>(
//@rewrite? reinit_as::<P::Header> ==> reinit_as::<P>
//@rewrite? MemFrame::from\(Frame::new\((\w+)\)\) ==> MemFrame::shim_frame(\1)
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\([^()]*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite? self\.with_page::<OverflowPage, _, _>\((\w+), \|(\w+)\| \2\.next\(\)\) ==> self.shim_page_next(\1)
//@rewrite? self\.with_page_mut::<OverflowPage, _, _>\((\w+), \|(\w+)\| \{\s*\2\.metadata_mut\(\)\.next = ([^;]+);\s*\}\) ==> self.shim_page_relink(\1, \3)
//@rewrite? \b(\w+)\.mark_dirty\(\); ==> let \1 = \1.marked_dirty();
//@ret r
//@spec
    requires old(self).wf(), exists|fl: Seq<PageId>| #[trigger] old(self).free_list(fl), old(self).total() < 0x0000_0fff_0000_0000
    ensures r is Ok ==> final(self).wf() && final(self).as_safe(*old(self)) && forall|fl: Seq<PageId>| #[trigger] old(self).free_list(fl) ==>
        if fl.len() > 0 { r->Ok_0 == fl[0] && final(self).free_list(fl.drop_first()) && final(self).same_but(*old(self), fl[0] as int) }
        else { r->Ok_0 == old(self).total() && final(self).free_list(fl) && final(self).total() == old(self).total() + 1 && forall|id: int| 1 <= id < old(self).total() ==> #[trigger] final(self).at(id) == old(self).at(id) }
//@at start
let ghost fl0 = choose|fl: Seq<PageId>| #[trigger] old(self).free_list(fl); let ghost o = *old(self); let ghost taken = old(self).h().first_free_page; let ghost mut s0 = *old(self);
//@at before self.set_first_free_page(next);
proof { s0 = *self; assert(fl0.len() > 0 && page_id == fl0[0]); }
//@at before self.ensure_cached
let ghost s1 = *self;
proof { lemma_hdr(s0, s1, 0); }
//@at after self.ensure_cached::<P>(page_id)?;
let ghost s2 = *self;
//@at before page.reinit_as
proof { lemma_removed(s2, *self, page_id); lemma_cached_frame(s2, page_id); }
//@at after let id = self.get_next_page();
proof { lemma_grown(o, *self); }
//@at before self.cache_frame(mem_page)
let ghost s3 = *self;
//@at before Ok(id)
proof {
    assert forall|fl: Seq<PageId>| #[trigger] o.free_list(fl) implies (if fl.len() > 0 { id == fl[0] && self.free_list(fl.drop_first()) && self.same_but(o, fl[0] as int) }
        else { id == o.total() && self.free_list(fl) && self.total() == o.total() + 1 && forall|p: int| 1 <= p < o.total() ==> #[trigger] self.at(p) == o.at(p) }) by {
        if fl.len() > 0 { lemma_chain(o, s0, s3, *self, fl[0] as int); lemma_pop(o, *self, fl); }
        else { assert forall|p: int| 1 <= p < o.total() implies #[trigger] self.at(p) == o.at(p) by { assert(self.at(p) == s3.at(p)); } }
    }
}
//@end
/// a freed page goes to the end of the list
pub proof fn lemma_push(o: Pager, n: Pager, fl: Seq<PageId>, id: PageId)
    requires o.free_list(fl), !fl.contains(id), 1 <= id < o.total(), n.total() == o.total(), n.ps() == o.ps(),
        forall|p: int| 1 <= p < o.total() && p != id && (fl.len() > 0 ==> p != fl[fl.len() - 1]) ==> #[trigger] n.at(p) == o.at(p),
        next_of(n.at(id as int)) is None, fl.len() > 0 ==> next_of(n.at(fl[fl.len() - 1] as int)) == Some(id),
        n.h().first_free_page == if fl.len() == 0 { Some(id) } else { o.h().first_free_page }, n.h().last_free_page == Some(id)
    ensures n.free_list(fl.push(id))
{
    let t = fl.push(id);
    assert forall|i: int| 0 <= i < t.len() implies 1 <= #[trigger] t[i] < n.total() && next_of(n.at(t[i] as int)) == if i + 1 < t.len() { Some(t[i + 1]) } else { None::<PageId> } by {
        if i < fl.len() { assert(t[i] == fl[i]); assert(fl.contains(fl[i])); if i + 1 < fl.len() { assert(fl[i] != fl[fl.len() - 1]); assert(n.at(fl[i] as int) == o.at(fl[i] as int)); assert(t[i + 1] == fl[i + 1]); } }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by { assert(t[i] == fl[i]); assert(fl.contains(fl[i])); if j < fl.len() { assert(t[j] == fl[j]); } }
}
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn dealloc_page
//@rewrite? \bwhere\s[^{]*?,\s*(?=\{) ==> 
//@rewrite? MemBlock<P::Header> ==> MemBlock<P>
//@rewrite? P::alloc\( ==> shim_alloc::<P>(
//@rewrite? reinit_as::<P::Header> ==> reinit_as::<P>
//@rewrite? MemFrame::from\(Frame::new\((\w+)\)\) ==> MemFrame::shim_frame(\1)
//@rewrite? IoError::new\(\s*(ErrorKind::\w+),\s*(?:"[^"]*"|format!\((?:[^()]|\([^()]*\))*\)),?\s*\) ==> IoError::new(\1)
//@rewrite? self\.with_page::<OverflowPage, _, _>\((\w+), \|(\w+)\| \2\.next\(\)\) ==> self.shim_page_next(\1)
//@rewrite? self\.with_page_mut::<OverflowPage, _, _>\((\w+), \|(\w+)\| \{\s*\2\.metadata_mut\(\)\.next = ([^;]+);\s*\}\) ==> self.shim_page_relink(\1, \3)
//@rewrite (\w+)\.mark_dirty\(\); ==> let \1 = \1.marked_dirty();
//@rewrite? \.ok_or_else\(\|\| \{ ==> .ok_or(
//@rewrite? (?<=\))\s*\}\)\?; ==> )?;
//@ret r
//@spec
    requires old(self).wf(), id < old(self).total(), exists|fl: Seq<PageId>| #[trigger] old(self).free_list(fl) && !fl.contains(id)
    ensures r is Ok ==> 1 <= id && final(self).wf() && final(self).as_safe(*old(self)) && final(self).total() == old(self).total() && final(self).ps() == old(self).ps() && forall|fl: Seq<PageId>| #[trigger] old(self).free_list(fl) && !fl.contains(id) ==>
        final(self).free_list(fl.push(id)) && forall|p: int| 1 <= p < old(self).total() && p != id && (fl.len() > 0 ==> p != fl[fl.len() - 1]) ==> #[trigger] final(self).at(p) == old(self).at(p)
//@at start
let ghost o = *old(self); let ghost fl0 = choose|fl: Seq<PageId>| #[trigger] old(self).free_list(fl) && !fl.contains(id);
//@at after self.ensure_cached::<P>(id)?;
let ghost s1 = *self; proof { lemma_cached_frame(s1, id); }
//@at before self.cache_frame
let ghost s2 = *self; proof { lemma_removed(s1, s2, id); }
//@at after self.cache_frame(deallocated_page)?;
let ghost s3 = *self;
proof {
    assert forall|p: int| 1 <= p < s3.total() && p != id implies #[trigger] s3.at(p) == o.at(p) by { assert(s3.at(p) == s2.at(p)); assert(s2.at(p) == s1.at(p)); assert(s1.at(p) == o.at(p)); }
}
//@at before if let Some(last_free_id) = self.last_free_page()
let ghost s4 = *self; proof { if s4 != s3 { lemma_hdr(s3, s4, 0); } if fl0.len() > 0 { assert(fl0.contains(fl0[fl0.len() - 1])); } }
//@at before self.set_last_free_page
let ghost s5 = *self;
//@at before Ok(())
proof {
    lemma_hdr(s5, *self, 0);
    assert forall|base: Seq<u8>| #[trigger] o.safe(base) implies self.safe(base) by { assert(s1.safe(base)); assert(s2.safe(base)); assert(s3.safe(base)); assert(s4.safe(base)); assert(s5.safe(base)); }
    assert forall|fl: Seq<PageId>| #[trigger] o.free_list(fl) && !fl.contains(id) implies self.free_list(fl.push(id)) && forall|p: int| 1 <= p < o.total() && p != id && (fl.len() > 0 ==> p != fl[fl.len() - 1]) ==> #[trigger] self.at(p) == o.at(p) by {
        let last = if fl.len() > 0 { fl[fl.len() - 1] as int } else { 0 };
        if fl.len() > 0 { assert(fl.contains(fl[fl.len() - 1])); }
        assert forall|p: int| 1 <= p < o.total() && p != id && p != last implies #[trigger] self.at(p) == o.at(p) by { assert(s5.at(p) == s4.at(p)); assert(s3.at(p) == o.at(p)); assert(s4.at(p) == s3.at(p)); }
        assert(s4.at(id as int) == s3.at(id as int));
        assert(s5.at(id as int) == s4.at(id as int)); if fl.len() > 0 { axiom_relinked(s4.at(last), Some(id)); }
        lemma_push(o, *self, fl, id);
    }
}
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn sync_header
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite for (\w+) in unfinished\b ==> for k in 0..unfinished.len()
//@ret r
//@spec
    requires old(self).db_header is Some, 4096 <= old(self).ps() <= 65536
    ensures *final(self) == (Pager { file: final(self).file, ..*old(self) }), r is Ok ==> exists|b: Seq<u8>| b.len() == old(self).ps() && hdr_of(b) == marked_all(old(self).h(), unfinished@, unfinished@.len() as int) && final(self).file.data() == #[trigger] splice(old(self).file.data(), 0, b)
//@loop 0
    invariant zero_from_disk.bytes().len() == page_size, hdr_of(zero_from_disk.bytes()) == marked_all(old(self).h(), unfinished@, k as int)
//@at loop 0 body-start
let txid = &unfinished[k];
//@end
/// what the writing of the first k frames made of the page
pub open spec fn written(d0: Seq<u8>, d: Seq<u8>, ps: int, fs: Seq<MemFrame>, k: int, id: int) -> bool {
    (forall|j: int| 0 <= j < k && #[trigger] fs[j].id() == id ==> id * ps + ps <= d.len() && page(d, ps, id) == fs[j].bytes())
    && ((forall|j: int| 0 <= j < k ==> #[trigger] fs[j].id() != id) && id * ps + ps <= d0.len() ==> id * ps + ps <= d.len() && page(d, ps, id) == page(d0, ps, id))
}
pub open spec fn all_written(d0: Seq<u8>, d: Seq<u8>, ps: int, fs: Seq<MemFrame>, k: int, total: int) -> bool { forall|id: int| 1 <= id < total ==> #[trigger] written(d0, d, ps, fs, k, id) }
pub open spec fn frames_ok(fs: Seq<MemFrame>, ps: int) -> bool { (forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).bytes().len() == ps && 1 <= fs[j].id() < 0x1000_0000_0000) && forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).id() != (#[trigger] fs[j]).id() }
pub proof fn lemma_written(d0: Seq<u8>, d: Seq<u8>, ps: int, fs: Seq<MemFrame>, k: int, total: int)
    requires 0 <= k < fs.len(), ps > 0, frames_ok(fs, ps), d.len() >= d0.len(), all_written(d0, d, ps, fs, k, total)
    ensures splice(d, fs[k].id() * ps, fs[k].bytes()).len() >= d0.len(), all_written(d0, splice(d, fs[k].id() * ps, fs[k].bytes()), ps, fs, k + 1, total)
{
    let x = fs[k].id() as int; let n = splice(d, x * ps, fs[k].bytes()); lemma_splice(d, ps, x, fs[k].bytes());
    assert forall|id: int| 1 <= id < total implies #[trigger] written(d0, n, ps, fs, k + 1, id) by {
        assert(written(d0, d, ps, fs, k, id));
        if id != x { if id * ps + ps <= d.len() { assert(page(n, ps, id) == page(d, ps, id)); } }
        assert forall|j: int| 0 <= j < k + 1 && #[trigger] fs[j].id() == id implies id * ps + ps <= n.len() && page(n, ps, id) == fs[j].bytes() by { if j < k { assert(fs[j].id() != fs[k].id()); } }
        if forall|j: int| 0 <= j < k + 1 ==> #[trigger] fs[j].id() != id { assert(fs[k].id() != id); }
    }
}
/// `pages.iter().map(|page| page.page_number()).chain(more)`
#[verifier::external_body] pub fn shim_ids(pages: &Vec<MemFrame>, more: Option<PageId>) -> (r: Vec<PageId>)
    ensures r@ == ids_of(pages@) + match more { Some(x) => seq![x], None => seq![] } { unimplemented!() }
pub open spec fn ids_of(fs: Seq<MemFrame>) -> Seq<PageId> { Seq::new(fs.len(), |i: int| fs[i].id()) }
impl Pager {
    /// `self.journal.complete(page_size)`: from here on a crash keeps the new content, which must therefore be on disk
    pub fn shim_complete(&mut self, page_size: usize) -> (r: io::Result<()>)
        requires old(self).file.synced(), old(self).cache.frames@.dom() =~= Set::<u64>::empty(), page_size <= 65536, exists|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).journal.holds(ACTIVE, page_size as int, es)
        ensures *final(self) == (Pager { journal: final(self).journal, ..*old(self) }), r is Ok ==> final(self).journal.forced() && (exists|es: Seq<(PageId, Seq<u8>)>| #[trigger] final(self).journal.holds(COMPLETE, page_size as int, es))
    { let ghost es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] self.journal.holds(ACTIVE, page_size as int, es); self.journal.complete(page_size)?; assert(self.journal.holds(COMPLETE, page_size as int, es)); Ok(()) }
    /// `self.wal.truncate()`: the log goes only when nothing of it is needed any more
    pub fn shim_wal_truncate(&mut self) -> (r: io::Result<()>)
        requires old(self).file.synced(), old(self).cache.frames@.dom() =~= Set::<u64>::empty(), old(self).journal.forced(), exists|es: Seq<(PageId, Seq<u8>)>| #[trigger] old(self).journal.holds(COMPLETE, old(self).ps(), es)
        ensures *final(self) == (Pager { wal: final(self).wal, ..*old(self) }), r is Ok ==> final(self).wal.emptied()
    { self.wal.truncate() }
    /// `self.journal.reset(pages)`: the journal goes only after the log
    pub fn shim_reset(&mut self, pages: u64) -> (r: io::Result<()>)
        requires old(self).wal.emptied(), old(self).wal.forced()
        ensures *final(self) == (Pager { journal: final(self).journal, ..*old(self) }), r is Ok ==> final(self).journal.file is None && final(self).journal.saved@ == Set::<u64>::empty() && final(self).journal.limit == pages
    { self.journal.reset(pages) }
}
pub proof fn lemma_checkpoint(o: Pager, n: Pager, fs: Seq<MemFrame>)
    requires o.wf(), n.db_header == o.db_header, n.cache.frames@.dom() =~= Set::<u64>::empty(), n.journal.file is None, n.journal.saved@ == Set::<u64>::empty(), n.journal.limit == o.total(), n.file.data().len() >= o.ps(),
        forall|id: int| 1 <= id < o.total() ==> #[trigger] written(o.file.data(), n.file.data(), o.ps(), fs, fs.len() as int, id),
        forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).dirty() && o.cache.has(fs[i].id()) && o.cache.frames@[fs[i].id()] == fs[i],
        forall|k: u64| #[trigger] o.cache.has(k) && o.cache.frames@[k].dirty() ==> has_id(fs, k)
    ensures n.wf(), n.same_but(o, 0), n.safe(n.file.data())
{
    let ps = o.ps(); let d = n.file.data(); let no = Seq::<(PageId, Seq<u8>)>::empty();
    assert forall|id: int| 1 <= id < n.total() implies #[trigger] n.sound(id) && n.at(id) == o.at(id) by {
        assert(o.sound(id)); assert(written(o.file.data(), d, ps, fs, fs.len() as int, id));
        if o.cache.has(id as u64) {
            let f = o.cache.frames@[id as u64];
            if f.dirty() { let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).id() == id as u64; assert(fs[i] == f); assert(fs[i].id() == id); }
            else { assert forall|j: int| 0 <= j < fs.len() implies #[trigger] fs[j].id() != id by { if fs[j].id() == id { assert(fs[j] == f); } } }
        } else { assert forall|j: int| 0 <= j < fs.len() implies #[trigger] fs[j].id() != id by {} }
        assert(n.filed(id));
    }
    assert forall|id: int| 1 <= id < n.total() implies #[trigger] n.at(id) == o.at(id) by { assert(n.sound(id)); }
    assert forall|id: int| 0 <= id < n.journal.limit implies #[trigger] agree(d, d, ps, id) by { if id > 0 { assert(n.sound(id)); assert(n.filed(id)); } else { assert(0 * ps == 0); } }
    if o.total() > 1 { assert(n.sound(o.total() - 1)); assert(n.filed(o.total() - 1)); assert((o.total() - 1) * ps + ps == o.total() * ps) by (nonlinear_arith); }
    let t = o.total(); assert(t * ps == (t - 1) * ps + ps) by (nonlinear_arith); if t == 1 { assert((t - 1) * ps == 0) by (nonlinear_arith) requires t == 1; }
    assert(n.journal.limit * ps <= d.len());
    assert(n.journal.holds(ACTIVE, ps, no)); assert(n.kept(d, no)); assert(n.safe(d));
}
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn checkpoint
//@attrs
#[verifier::loop_isolation(false)]
//@rewrite? self\.journal_pages\(\[(\w+)\]\) ==> self.journal_pages(vec![\1])
//@rewrite? (\w+)\s*\.with_bytes_mut\(\|bytes\| self\.write_block\((\w+), &bytes, page_size\)\)\? ==> self.write_block(\2, \1.shim_bytes(), page_size)?
//@rewrite pages\.retain\(\|page\| page\.is_dirty\(\)\); ==> shim_retain_dirty(&mut pages);
//@rewrite? self\.journal_pages\(pages\.iter\(\)\.map\(\|page\| page\.page_number\(\)\)\.chain\(\[PAGE_ZERO\]\)\)\? ==> self.journal_pages(shim_ids(&pages, Some(PAGE_ZERO)))?
//@rewrite? self\.journal_pages\(pages\.iter\(\)\.map\(\|page\| page\.page_number\(\)\)\)\? ==> self.journal_pages(shim_ids(&pages, None))?
//@rewrite for page in pages\b ==> for k in 0..pages.len()
//@rewrite? self\.journal\.complete\( ==> self.shim_complete(
//@rewrite? self\.wal\.truncate\( ==> self.shim_wal_truncate(
//@rewrite? self\.journal\.reset\( ==> self.shim_reset(
//@ret r
//@spec
    requires old(self).wf()
    ensures r is Ok ==> final(self).db_header == old(self).db_header && final(self).wf() && final(self).same_but(*old(self), 0) && final(self).cache.frames@.dom() =~= Set::<u64>::empty() && final(self).file.synced() && final(self).wal.emptied()
        && final(self).journal.limit == old(self).total() && final(self).safe(final(self).file.data()) && hdr_of(page(final(self).file.data(), old(self).ps(), 0)) == marked_all(old(self).h(), unfinished@, unfinished@.len() as int)
//@at start
let ghost o = *old(self); let ghost ps = old(self).ps(); let ghost base0 = choose|base: Seq<u8>| #[trigger] old(self).safe(base);
proof { assert(o.safe(base0)); assert forall|k: u64| #[trigger] o.cache.frames@.dom().contains(k) implies o.cache.frames@[k].id() == k && o.cache.frames@[k].ok(ps) && 1 <= k < o.total() by { assert(o.sound(k as int)); } }
//@at after let mut pages = self.cache.clear();
let ghost all = pages@;
//@at after pages.retain(|page| page.is_dirty());
let ghost fs = pages@;
proof {
    assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).dirty() && o.cache.has(fs[i].id()) && o.cache.frames@[fs[i].id()] == fs[i] by { assert(has_frame(all, fs[i])); let a = choose|a: int| 0 <= a < all.len() && #[trigger] all[a] == fs[i]; }
    assert forall|k: u64| #[trigger] o.cache.has(k) && o.cache.frames@[k].dirty() implies has_id(fs, k) by { assert(has_id(all, k)); let a = choose|a: int| 0 <= a < all.len() && (#[trigger] all[a]).id() == k; assert(has_frame(fs, all[a])); let b = choose|b: int| 0 <= b < fs.len() && #[trigger] fs[b] == all[a]; assert(fs[b].id() == k); }
    assert(frames_ok(fs, ps));
    lemma_cache_only(o, *self, base0); assert(self.safe(base0));
}
//@at loop 0 before
let ghost s1 = *self;
proof { assert(s1.safe(base0)); assert forall|i: int| 0 <= i < fs.len() implies !s1.journal.wants(#[trigger] fs[i].id() as int) by { assert((ids_of(fs) + seq![0u64])[i] == fs[i].id()); } assert((ids_of(fs) + seq![0u64])[fs.len() as int] == 0); assert(!s1.journal.wants(0)); }
//@loop 0
    invariant *self == (Pager { file: self.file, ..s1 }), self.safe(base0), self.file.data().len() >= o.file.data().len(), pages@ == fs, all_written(o.file.data(), self.file.data(), ps, fs, k as int, o.total())
//@at loop 0 body-start
let page = &pages[k]; let ghost sk = *self; proof {  assert(fs[k as int].id() < 0x1000_0000_0000); assert(!s1.journal.wants(fs[k as int].id() as int)); }
//@at loop 0 body-end
proof { lemma_written(o.file.data(), sk.file.data(), ps, fs, k as int, o.total()); lemma_safe_write(sk, *self, base0, fs[k as int].id() as int, fs[k as int].bytes()); }
//@at loop 0 after
let ghost s2 = *self;
//@at before self.file.sync_all
let ghost s3 = *self;
proof {
    let b = choose|b: Seq<u8>| b.len() == ps && hdr_of(b) == marked_all(o.h(), unfinished@, unfinished@.len() as int) && s3.file.data() == #[trigger] splice(s2.file.data(), 0, b);
    assert(0 * ps == 0); lemma_splice(s2.file.data(), ps, 0, b); lemma_safe_write(s2, s3, base0, 0, b); assert(page(s3.file.data(), ps, 0) == b);
    assert forall|id: int| 1 <= id < o.total() implies #[trigger] written(o.file.data(), s3.file.data(), ps, fs, fs.len() as int, id) by { assert(written(o.file.data(), s2.file.data(), ps, fs, fs.len() as int, id)); if id * ps + ps <= s2.file.data().len() { assert(page(s3.file.data(), ps, id) == page(s2.file.data(), ps, id)); } }
    let es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] s3.kept(base0, es); assert(s3.journal.holds(ACTIVE, ps, es));
}
//@at before self.wal.truncate
proof { assert(self.ps() == ps && page_size as int == ps); let es = choose|es: Seq<(PageId, Seq<u8>)>| #[trigger] self.journal.holds(COMPLETE, page_size as int, es); assert(self.journal.holds(COMPLETE, self.ps(), es)); }
//@at before Ok(())
proof { lemma_checkpoint(o, *self, fs); }
//@end
//@extract crates/axmos-db/src/common/mod.rs : const DEFAULT_CACHE_SIZE
//@end
pub const NMO: u32 = 4096;
/// u32::next_multiple_of; panics when the result does not fit
#[verifier::external_body] pub fn shim_nmo(x: u32, a: u32) -> (r: u32) requires a == 4096, x <= 65536 ensures r >= x, r < x + a, x == 4096 || x == 8192 || x == 16384 || x == 32768 || x == 65536 ==> r == x { x.next_multiple_of(a) }
/// `assert!(..)`: a panic unless it holds
pub fn shim_assert(b: bool) requires b {}
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn new
//@rewrite? (\w+)\.next_multiple_of\(PAGE_ALIGNMENT as u32\) ==> shim_nmo(\1, PAGE_ALIGNMENT as u32)
//@rewrite? \w+\.saturating_sub\(\w+\) ==> 0
//@ret r
//@spec
    requires page_size <= 65536 ensures r.page_number == page_number, r.total_pages == 1, r.first_free_page is None, r.last_free_page is None, r.magic == MAGIC, r.min_keys == min_keys, r.num_siblings_per_side == num_siblings_per_side, r.cache_size == cache_size, pow2(page_size as int) ==> r.page_size == page_size, r.last_created_transaction == 0, r.last_committed_transaction == 0, r.last_stored_object == 0
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZeroHeader / fn from_config
//@ret r
//@spec
    requires config.ok() ensures r.page_number == PAGE_ZERO, r.total_pages == 1, r.first_free_page is None, r.last_free_page is None, r.magic == MAGIC, r.page_size == config.page_size, r.min_keys == config.min_keys_per_page, r.num_siblings_per_side == config.num_siblings_per_side
//@end
//@extract crates/axmos-db/src/storage/page.rs : impl PageZero / fn from_config
//@header impl MemBlock<PageZeroHeader>
//@rewrite assert!\(\s*\((\w+)\.\.=(\w+)\)\.contains\(&([\w.]+)\)(?:[^()]|\([^()]*\))*\); ==> shim_assert(\1 <= \3 && \3 <= \2);
//@ret r
//@spec
    requires config.ok() ensures r.bytes().len() == config.page_size, ({ let h = hdr_of(r.bytes()); h.page_number == PAGE_ZERO && h.total_pages == 1 && h.first_free_page is None && h.last_free_page is None && h.magic == MAGIC && h.page_size == config.page_size && h.min_keys == config.min_keys_per_page && h.num_siblings_per_side == config.num_siblings_per_side })
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn alloc_page_zero
//@rewrite? config\.cache_size\.min\(u16::MAX as usize\) ==> shim_min(config.cache_size, u16::MAX as usize)
//@ret r
//@spec
    requires config.ok()
    ensures final(self).journal == old(self).journal, final(self).cache.frames == old(self).cache.frames, final(self).cache.capacity == config.cache_size, r is Ok ==> r->Ok_0.bytes().len() == config.page_size && final(self).file.data() == splice(old(self).file.data(), 0, r->Ok_0.bytes()) && ({ let h = hdr_of(r->Ok_0.bytes());
        h.total_pages == 1 && h.first_free_page is None && h.last_free_page is None && h.page_size == config.page_size && h.min_keys == config.min_keys_per_page && h.num_siblings_per_side == config.num_siblings_per_side && h.cache_size == (if config.cache_size <= 65535 { config.cache_size as int } else { 65535 }) })
//@at start
proof { assert(0 * config.page_size == 0); }
//@end
pub struct FilePath {}
pub uninterp spec fn dir_of(p: FilePath) -> Path;
pub uninterp spec fn db_data(p: FilePath) -> Seq<u8>;
/// `path.as_ref().parent().expect(..)`
#[verifier::external_body] pub fn shim_parent(p: &FilePath) -> (r: &Path) ensures *r == dir_of(*p) { unimplemented!() }
#[verifier::external_body] pub fn shim_open_db(p: &FilePath) -> (r: io::Result<DBFile>) ensures r is Ok ==> r->Ok_0.data() == db_data(*p) { unimplemented!() }
#[verifier::external_body] pub fn shim_create_db(p: &FilePath) -> (r: io::Result<DBFile>) ensures r is Ok ==> r->Ok_0.data() == Seq::<u8>::empty() { unimplemented!() }
/// the block size of the file system: a power of two between one and sixteen disk sectors of 4096 bytes (assumed)
#[verifier::external_body] pub fn shim_block_size(p: &FilePath) -> (r: io::Result<usize>) ensures r is Ok ==> 4096 <= r->Ok_0 <= 65536 { unimplemented!() }
pub struct LogPath {}
impl Path { #[verifier::external_body] pub fn join(&self, n: &str) -> LogPath { unimplemented!() } }
impl WriteAheadLog {
    #[verifier::external_body] pub fn open(p: LogPath) -> io::Result<WriteAheadLog> { unimplemented!() }
    #[verifier::external_body] pub fn create(p: LogPath) -> io::Result<WriteAheadLog> { unimplemented!() }
}
/// the header laid over page zero fits a block: a longer read of the same file shows the same header
#[verifier::external_body] pub proof fn axiom_hdr_prefix(d: Seq<u8>, a: int, b: int) requires 4096 <= a <= b, b <= d.len() ensures hdr_of(page(d, a, 0)) == hdr_of(page(d, b, 0)) {}
/// the file as some checkpoint left it
pub open spec fn recovered(p: FilePath) -> Seq<u8> {
    let j = journal_path(dir_of(p));
    if is_journal(j) && sget(on_disk(j), 1) != COMPLETE { replay(on_disk(j), sget(on_disk(j), 2) as int, BLOCK as int, db_data(p)) } else { db_data(p) }
}
//@extract crates/axmos-db/src/io/journal.rs : impl Journal / fn discard
//@ret r
//@spec
    ensures true
//@end
//@extract crates/axmos-db/src/io/cache.rs : impl PageCache / fn with_capacity
//@rewrite MemoryStats::default\(\) ==> MemoryStats {}
//@ret r
//@spec
    ensures r.capacity == capacity, r.frames@ == Map::<PageId, MemFrame>::empty(), r.frames.keys().len() == 0
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl<'a> FileOperations for Pager / fn create
//@header impl Pager
//@rewrite path: impl AsRef<Path> ==> path: &FilePath
//@rewrite \s+where\s+Self: Sized, ==> 
//@rewrite path\s*\.as_ref\(\)\s*\.parent\(\)\s*\.expect\("[^"]*"\) ==> shim_parent(path)
//@rewrite DBFile::create\(&path\) ==> shim_create_db(path)
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.file.data() == Seq::<u8>::empty() && r->Ok_0.cache.frames@ == Map::<PageId, MemFrame>::empty() && r->Ok_0.journal.holds(ACTIVE, ps_any(), seq![]) && r->Ok_0.journal.forced() && r->Ok_0.journal.file is None
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl<'a> FileOperations for Pager / fn open
//@header impl Pager
//@rewrite path: impl AsRef<Path> ==> path: &FilePath
//@rewrite \s+where\s+Self: Sized, ==> 
//@rewrite path\s*\.as_ref\(\)\s*\.parent\(\)\s*\.expect\("[^"]*"\) ==> shim_parent(path)
//@rewrite DBFile::open\(&path\) ==> shim_open_db(path)
//@rewrite FileSystem::block_size\(&path\) ==> shim_block_size(path)
//@ret r
//@spec
    requires sane(on_disk(journal_path(dir_of(*path))))
    ensures r is Ok ==> ({ let n = r->Ok_0; let d = recovered(*path);
        &&& n.file.data() == d && d.len() >= 4096 && n.db_header is Some && n.h() == hdr_of(page(d, 4096, 0))
        &&& n.cache.frames@ == Map::<PageId, MemFrame>::empty() && n.cache.capacity == if n.h().cache_size > 0 { n.h().cache_size as int } else { DEFAULT_CACHE_SIZE as int }
        &&& n.journal.limit == n.h().total_pages && n.journal.saved@ == Set::<u64>::empty() && n.journal.forced() && n.journal.file is None
        &&& is_journal(journal_path(dir_of(*path))) && sget(on_disk(journal_path(dir_of(*path))), 1) == COMPLETE ==> n.wal.emptied() })
//@at before pager.db_header
proof { axiom_hdr_prefix(recovered(*path), 4096, block_size as int); assert(page(recovered(*path), block_size as int, 0) == page_zero.bytes()); }
//@end
//@extract crates/axmos-db/src/io/pager.rs : impl Pager / fn from_config
//@rewrite path: impl AsRef<Path> ==> path: &FilePath
//@ret r
//@spec
    requires config.ok()
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.total() == 1 && r->Ok_0.free_list(seq![]) && r->Ok_0.cache.capacity == config.cache_size && r->Ok_0.ps() == config.page_size && r->Ok_0.h().min_keys == config.min_keys_per_page && r->Ok_0.h().num_siblings_per_side == config.num_siblings_per_side
//@at before Ok(pager)
proof { let d = pager.file.data(); let no = Seq::<(PageId, Seq<u8>)>::empty(); let ps = pager.ps(); assert(0 * ps == 0); assert(1 * ps == ps); assert(pager.journal.holds(ACTIVE, ps, no));
    assert forall|id: int| 0 <= id < pager.journal.limit implies #[trigger] agree(d, d, ps, id) by {} assert(pager.kept(d, no)); assert(pager.safe(d)); }
//@end
} // verus!
