// Included into the axmosdb crate as `axmosdb::verif` when it is built with --cfg axmos_verif.
// Re-exports and thin wrappers only: no behaviour of its own.
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub enum IoEvent {
    Write { path: PathBuf, offset: u64, data: Vec<u8> },
    SetLen { path: PathBuf, len: u64 },
    Sync { path: PathBuf },
}

pub struct IoTap {
    pub events: Vec<IoEvent>,
    pub recording: bool,
    /// fail every file operation from now on when it reaches 0
    pub fuse: Option<u64>,
}

pub static TAP: Mutex<IoTap> = Mutex::new(IoTap { events: Vec::new(), recording: false, fuse: None });

fn tap(e: impl FnOnce() -> IoEvent) -> io::Result<()> {
    let mut t = match TAP.lock() { Ok(t) => t, Err(p) => p.into_inner() };
    if let Some(n) = t.fuse {
        if n == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "injected I/O failure"));
        }
        t.fuse = Some(n - 1);
    }
    if t.recording {
        let ev = e();
        t.events.push(ev);
    }
    Ok(())
}

pub(crate) fn io_write(path: &Path, offset: u64, buf: &[u8]) -> io::Result<()> {
    tap(|| IoEvent::Write { path: path.to_path_buf(), offset, data: buf.to_vec() })
}
pub(crate) fn io_set_len(path: &Path, len: u64) -> io::Result<()> {
    tap(|| IoEvent::SetLen { path: path.to_path_buf(), len })
}
pub(crate) fn io_sync(path: &Path) -> io::Result<()> {
    tap(|| IoEvent::Sync { path: path.to_path_buf() })
}

// ---------------------------------------------------------------- trees and pages
pub mod trees {
    use crate::io::pager::{Pager, SharedPager, BtreeBuilder};
    use crate::multithreading::coordinator::Snapshot;
    use crate::schema::{Column, Schema, base::Relation};
    use crate::schema::{meta_index_schema, meta_table_schema};
    use crate::storage::core::traits::{BtreeMetadata, BtreeOps};
    use crate::storage::page::{BtreePage, OverflowPage};
    use crate::storage::tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef};
    use crate::tree::accessor::{Accessor, BtreeWriteAccessor};
    use crate::tree::bplustree::{Btree, SearchResult};
    use crate::tree::cell_ops::CellComparator;
    use crate::types::{Blob, DataType, DataTypeKind, UInt64};
    use crate::{DBConfig, Database};
    use std::cmp::Ordering;
    use std::collections::{BTreeMap, BTreeSet};
    use std::path::Path;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum KeyKind { Num, Text }
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub enum K { Num(u64), Text(String) }

    pub fn pager(cfg: DBConfig, path: &Path) -> SharedPager { SharedPager::from(Pager::from_config(cfg, path).unwrap()) }

    pub struct VTree { pub pager: SharedPager, pub root: u64, pub schema: Schema, pub min_keys: usize, pub sib: usize }

    impl VTree {
        pub fn new(pager: SharedPager, kind: KeyKind, min_keys: usize, sib: usize) -> VTree {
            let root = pager.write().allocate_page::<BtreePage>().unwrap();
            let k = match kind { KeyKind::Num => DataTypeKind::BigUInt, KeyKind::Text => DataTypeKind::Blob };
            let schema = Schema::new_table(vec![Column::new_with_defaults(k, "id"), Column::new_with_defaults(DataTypeKind::Blob, "data")]);
            VTree { pager, root, schema, min_keys, sib }
        }
        fn t(&self) -> Btree<BtreeWriteAccessor> {
            Btree::new(self.root, self.pager.clone(), self.min_keys, self.sib).with_accessor(BtreeWriteAccessor::new())
        }
        fn tuple(&self, k: &K, v: &str) -> Tuple {
            let kd = match k { K::Num(n) => DataType::BigUInt(UInt64(*n)), K::Text(s) => DataType::Blob(Blob::from(s.as_str())) };
            TupleBuilder::from_schema(&self.schema).build(&Row::new(Box::new([kd, DataType::Blob(Blob::from(v))])), 1).unwrap()
        }
        pub fn insert(&self, k: &K, v: &str) -> Result<(), String> { self.t().insert(self.root, self.tuple(k, v), &self.schema).map_err(|e| e.to_string()) }
        pub fn upsert(&self, k: &K, v: &str) -> Result<(), String> { self.t().upsert(self.root, self.tuple(k, v), &self.schema).map_err(|e| e.to_string()) }
        pub fn update(&self, k: &K, v: &str) -> Result<(), String> { self.t().update(self.root, self.tuple(k, v), &self.schema).map_err(|e| e.to_string()) }
        pub fn remove(&self, k: &K) -> Result<(), String> { self.t().remove_tuple(self.root, &self.tuple(k, ""), &self.schema).map_err(|e| e.to_string()) }
        fn decode(&self, b: &[u8]) -> Result<(K, String), String> {
            let l = TupleReader::from_schema(&self.schema).parse_last_version(b).map_err(|e| e.to_string())?;
            let r = TupleRef::new(b, l).to_row_with(&self.schema).map_err(|e| e.to_string())?;
            let k = match &r[0] { DataType::BigUInt(v) => K::Num(v.value()), DataType::Blob(b) => K::Text(b.as_str().unwrap().to_string()), _ => return Err("key type".into()) };
            let v = match &r[1] { DataType::Blob(b) => b.as_str().unwrap().to_string(), _ => return Err("value type".into()) };
            Ok((k, v))
        }
        pub fn get(&self, k: &K) -> Result<Option<(K, String)>, String> {
            let mut t = self.t();
            match t.search_tuple(&self.tuple(k, ""), &self.schema).map_err(|e| e.to_string())? {
                SearchResult::Found(p) => t.with_cell_at(p, |b| self.decode(b)).map_err(|e| e.to_string())?.map(Some),
                SearchResult::NotFound(_) => Ok(None),
            }
        }
        pub fn scan(&self) -> Result<Vec<(K, String)>, String> {
            let mut t = self.t();
            let mut v = vec![];
            if t.is_empty().map_err(|e| e.to_string())? { return Ok(v); }
            let ps: Vec<_> = t.iter_forward().map_err(|e| e.to_string())?.collect();
            drop(t);
            for p in ps {
                let p = p.map_err(|e| e.to_string())?;
                v.push(self.t().with_cell_at(p, |b| self.decode(b)).map_err(|e| e.to_string())??);
            }
            Ok(v)
        }
        pub fn dealloc(&self) -> Result<(), String> { self.t().dealloc().map_err(|e| e.to_string()) }
        pub fn height(&self) -> usize { self.t().height().unwrap_or(0) }
        pub fn audit(&self, own: &mut Owners) -> Result<usize, String> { audit_tree(&self.pager, self.root, &self.schema, "tree", own) }
    }

    /// page -> owner
    pub type Owners = BTreeMap<u64, String>;

    fn claim(own: &mut Owners, p: u64, who: String) -> Result<(), String> {
        if p == 0 { return Err(format!("{who} references page zero")); }
        if let Some(o) = own.insert(p, who.clone()) { return Err(format!("page {p} has two owners: {o} and {who}")); }
        Ok(())
    }

    struct Node { cells: Vec<(Vec<u8>, Option<u64>, Option<u64>, usize)>, right: Option<u64>, prev: Option<u64>, next: Option<u64>, leaf: bool }

    fn node(pager: &SharedPager, p: u64) -> Result<Node, String> {
        pager.write().with_page::<BtreePage, _, _>(p, |pg| {
            let n = pg.num_slots();
            let mut used = vec![];
            let mut cells = vec![];
            for i in 0..n {
                let c = pg.cell(i);
                let off = pg.slot_array()[i] as usize;
                used.push((off, c.metadata().size() as usize));
                cells.push((c.effective_data().to_vec(), c.overflow_page(), c.left_child(), c.len()));
            }
            used.sort();
            for w in used.windows(2) { if w[0].0 + w[0].1 > w[1].0 { return Err(format!("cells of page {p} overlap: {w:?}")); } }
            Ok(Node { cells, right: pg.right_child(), prev: pg.prev_sibling(), next: pg.next_sibling(), leaf: pg.is_leaf() })
        }).map_err(|e| format!("page {p}: {e}"))?
    }

    /// full payload of a cell, claiming its chain
    fn payload(pager: &SharedPager, c: &(Vec<u8>, Option<u64>, Option<u64>, usize), who: &str, own: &mut Owners) -> Result<Vec<u8>, String> {
        let Some(first) = c.1 else { return Ok(c.0.clone()) };
        let mut v = c.0[..c.0.len() - 8].to_vec();
        let mut cur = Some(first);
        while let Some(p) = cur {
            claim(own, p, format!("overflow chain of {who}"))?;
            let (d, n) = pager.write().with_page::<OverflowPage, _, _>(p, |o| (o.effective_data().to_vec(), o.metadata().next)).map_err(|e| format!("chain page {p}: {e}"))?;
            v.extend(d); cur = n;
        }
        Ok(v)
    }

    /// Structure and page ownership of one tree; returns the number of leaf cells.
    pub fn audit_tree(pager: &SharedPager, root: u64, schema: &Schema, name: &str, own: &mut Owners) -> Result<usize, String> {
        let ko = Tuple::keys_offset(schema.num_values());
        let cmp = |a: &[u8], b: &[u8]| -> Result<Ordering, String> {
            use crate::storage::cell::OwnedCell;
            let c = OwnedCell::new(b);
            CellComparator::new(schema, pager.clone()).compare_cell_payload(a, c.as_cell_ref(), ko).map_err(|e| e.to_string())
        };
        let mut level = vec![(root, None::<Vec<u8>>, None::<Vec<u8>>)];
        let mut total = 0;
        loop {
            let mut next = vec![];
            let mut leaf = None;
            let ids: Vec<u64> = level.iter().map(|l| l.0).collect();
            for (i, (p, lo, hi)) in level.iter().enumerate() {
                claim(own, *p, format!("{name} node"))?;
                let nd = node(pager, *p)?;
                if *leaf.get_or_insert(nd.leaf) != nd.leaf { return Err(format!("{name}: leaves at different depths (page {p})")); }
                let want_prev = if i > 0 { Some(ids[i - 1]) } else { None };
                let want_next = ids.get(i + 1).copied();
                if nd.prev != want_prev || nd.next != want_next { return Err(format!("{name}: page {p} links {:?}/{:?}, key order says {:?}/{:?}", nd.prev, nd.next, want_prev, want_next)); }
                let mut keys = vec![];
                for (j, c) in nd.cells.iter().enumerate() { keys.push(payload(pager, c, &format!("{name} page {p} cell {j}"), own)?); }
                for w in keys.windows(2) { if cmp(&w[0], &w[1])? != Ordering::Less { return Err(format!("{name}: keys of page {p} are not in order")); } }
                for k in &keys {
                    if let Some(lo) = lo { if cmp(k, lo)? == Ordering::Less { return Err(format!("{name}: page {p} has a key below its separator")); } }
                    if let Some(hi) = hi { if cmp(k, hi)? != Ordering::Less { return Err(format!("{name}: page {p} has a key not below its right separator")); } }
                }
                if nd.leaf { total += keys.len(); if keys.is_empty() && *p != root { return Err(format!("{name}: empty leaf {p}")); } }
                else {
                    if keys.is_empty() { return Err(format!("{name}: interior page {p} has no separators")); }
                    for j in 0..=keys.len() {
                        let child = if j == keys.len() { nd.right } else { nd.cells[j].2 };
                        let Some(ch) = child else { return Err(format!("{name}: page {p} child {j} missing")) };
                        let l = if j == 0 { lo.clone() } else { Some(keys[j - 1].clone()) };
                        let h = if j == keys.len() { hi.clone() } else { Some(keys[j].clone()) };
                        next.push((ch, l, h));
                    }
                }
            }
            if next.is_empty() { break; }
            level = next;
        }
        Ok(total)
    }

    /// claims the free list
    pub fn audit_free(pager: &SharedPager, own: &mut Owners) -> Result<usize, String> {
        let (first, last) = { let p = pager.read(); let h = p.header_unchecked(); (h.first_free_page, h.last_free_page) };
        let mut cur = first; let mut prev = None; let mut n = 0;
        while let Some(p) = cur {
            claim(own, p, "free list".into())?;
            n += 1; prev = Some(p);
            cur = pager.write().with_page::<OverflowPage, _, _>(p, |o| o.metadata().next).map_err(|e| format!("free page {p}: {e}"))?;
        }
        if prev != last { return Err(format!("the free list ends at {prev:?} but its recorded tail is {last:?}")); }
        Ok(n)
    }

    /// every page has an owner
    pub fn audit_total(pager: &SharedPager, own: &Owners) -> Result<(), String> {
        let total = pager.read().total_allocated_pages();
        let lost: Vec<u64> = (1..total).filter(|p| !own.contains_key(p)).collect();
        if !lost.is_empty() { return Err(format!("pages {lost:?} of {total} have no owner")); }
        if let Some((p, o)) = own.iter().next_back() { if *p >= total { return Err(format!("page {p} ({o}) is beyond the {total} pages of the file")); } }
        Ok(())
    }

    pub fn total_pages(pager: &SharedPager) -> u64 { pager.read().total_allocated_pages() }
    pub fn db_pager(db: &Database) -> SharedPager { db.pager.clone() }

    /// Relations in the catalog tree, whatever their visibility: (id, name, root, schema, xmin, xmax)
    pub fn relations(db: &Database) -> Result<Vec<(u64, String, u64, Schema, u64, Option<u64>)>, String> {
        let b = BtreeBuilder::default().with_pager(db.pager.clone());
        let sch = meta_table_schema();
        let mut t = b.build_tree(1);
        let mut out = vec![];
        if t.is_empty().map_err(|e| e.to_string())? { return Ok(out); }
        let ps: Vec<_> = t.iter_forward().map_err(|e| e.to_string())?.collect();
        drop(t);
        for p in ps {
            let p = p.map_err(|e| e.to_string())?;
            let r = b.build_tree(1).with_cell_at(p, |bytes| {
                let tu = Tuple::from_slice_unchecked(bytes).map_err(|e| e.to_string())?;
                let l = TupleReader::from_schema(&sch).parse_last_version(bytes).map_err(|e| e.to_string())?;
                let row = TupleRef::new(bytes, l).to_row_with(&sch).map_err(|e| e.to_string())?;
                let r = Relation::from_meta_table_row(row);
                Ok::<_, String>((r.object_id(), r.name().to_string(), r.root(), r.schema().clone(), tu.xmin(), tu.xmax()))
            }).map_err(|e| e.to_string())??;
            out.push(r);
        }
        Ok(out)
    }

    /// Every secondary index against its table, as a new transaction sees both; the differences.
    pub fn audit_indexes(db: &Database) -> Result<Vec<String>, String> {
        let mut h = db.coordinator.begin().map_err(|e| e.to_string())?;
        let snap = h.snapshot().clone();
        let b = BtreeBuilder::default().with_pager(db.pager.clone());
        let rows = |root: u64, sch: &Schema| -> Result<Vec<Row>, String> {
            let mut t = b.build_tree(root);
            let mut out = vec![];
            if t.is_empty().map_err(|e| e.to_string())? { return Ok(out); }
            let ps: Vec<_> = t.iter_forward().map_err(|e| e.to_string())?.collect();
            drop(t);
            for p in ps {
                let p = p.map_err(|e| e.to_string())?;
                if let Some(r) = b.build_tree(root).get_row_at(p, sch, &snap).map_err(|e| e.to_string())? { out.push(r); }
            }
            Ok(out)
        };
        let rels = rows(1, &meta_table_schema())?.into_iter().map(Relation::from_meta_table_row).collect::<Vec<_>>();
        let mut bad = vec![];
        for t in &rels {
            for ix in t.schema().get_indexes() {
                let Some(i) = rels.iter().find(|r| r.object_id() == ix.id()) else { bad.push(format!("index {} of {} does not exist", ix.id(), t.name())); continue };
                let cols = ix.indexed_column_ids();
                let mut want: Vec<String> = rows(t.root(), t.schema())?.iter().filter(|r| cols.iter().all(|c| !matches!(r[*c], DataType::Null))).map(|r| cols.iter().map(|c| format!("{}", r[*c])).chain([format!("{}", r[0])]).collect::<Vec<_>>().join("|")).collect();
                let mut have: Vec<String> = rows(i.root(), i.schema())?.iter().map(|r| r.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join("|")).collect();
                want.sort(); have.sort();
                if want != have { bad.push(format!("index {} of {}: entries {:?}, rows {:?}", i.name(), t.name(), have.iter().filter(|x| !want.contains(x)).take(3).collect::<Vec<_>>(), want.iter().filter(|x| !have.contains(x)).take(3).collect::<Vec<_>>())); }
            }
        }
        let _ = h.commit();
        Ok(bad)
    }

    /// Whole-file audit. `lost_ok`: tolerate pages without an owner (returned).
    pub fn audit_db(db: &Database) -> Result<(usize, Vec<u64>), String> {
        let pager = db.pager.clone();
        let mut own = Owners::new();
        audit_tree(&pager, 1, &meta_table_schema(), "meta table", &mut own)?;
        audit_tree(&pager, 2, &meta_index_schema(), "meta index", &mut own)?;
        for (id, name, root, schema, _, _) in relations(db)? {

            audit_tree(&pager, root, &schema, &format!("{name}#{id}"), &mut own)?;
        }
        let free = audit_free(&pager, &mut own)?;
        let total = pager.read().total_allocated_pages();
        let lost: Vec<u64> = (1..total).filter(|p| !own.contains_key(p)).collect();
        if let Some((p, o)) = own.iter().next_back() { if *p >= total { return Err(format!("page {p} ({o}) is beyond the {total} pages of the file")); } }
        Ok((free, lost))
    }
}

// ---------------------------------------------------------------- write-ahead log
pub mod wal {
    use crate::io::disk::FileOperations;
    use crate::io::wal::WriteAheadLog;
    use crate::storage::wal::{OwnedRecord, RecordRef, RecordType};
    use std::path::Path;

    /// (lsn, tid, prev, object, row, kind, undo, redo)
    pub type Rec = (u64, u64, Option<u64>, Option<u64>, Option<u64>, u8, Vec<u8>, Vec<u8>);
    pub const KINDS: [RecordType; 10] = [RecordType::Begin, RecordType::Commit, RecordType::Abort, RecordType::End, RecordType::Update, RecordType::Delete, RecordType::Insert, RecordType::Create, RecordType::Drop, RecordType::Alter];
    pub struct VWal(WriteAheadLog);
    fn rec(r: &RecordRef) -> Rec { let m = r.metadata(); (r.lsn(), r.tid(), m.prev_lsn, m.object_id, m.row_id, KINDS.iter().position(|k| *k == r.log_type()).unwrap_or(99) as u8, r.undo_payload().to_vec(), r.redo_payload().to_vec()) }
    impl VWal {
        pub fn create(p: &Path) -> Result<VWal, String> { WriteAheadLog::create(p).map(VWal).map_err(|e| e.to_string()) }
        pub fn open(p: &Path) -> Result<VWal, String> { WriteAheadLog::open(p).map(VWal).map_err(|e| e.to_string()) }
        pub fn next_lsn(&self) -> u64 { self.0.last_lsn().map(|l| l + 1).unwrap_or(0) }
        pub fn max(&self) -> usize { self.0.max_record_size() }
        pub fn push(&mut self, r: &Rec) -> Result<(), String> {
            self.0.push(OwnedRecord::new(r.0, r.1, r.2, r.3, r.4, KINDS[r.5 as usize], &r.6, &r.7)).map_err(|e| e.to_string())
        }
        pub fn force(&mut self) -> Result<(), String> { self.0.perform_flush().map_err(|e| e.to_string()) }
        pub fn truncate(&mut self) -> Result<(), String> { self.0.truncate().map_err(|e| e.to_string()) }
        pub fn read(&mut self, ahead: usize) -> Result<Vec<Rec>, String> {
            let mut r = self.0.reader(ahead).map_err(|e| e.to_string())?;
            let mut v = vec![];
            while let Some(x) = r.next_ref().map_err(|e| e.to_string())? { v.push(rec(&x)); }
            Ok(v)
        }
        /// (lsn, tid) pairs by transaction, undo set, redo set, redo order, first lsn, and every data record
        pub fn analysis(&mut self) -> Result<(Vec<(u64, Vec<u64>)>, Vec<u64>, Vec<u64>, Vec<u64>, Option<u64>, Vec<(u64, u8, Option<u64>, u64, Vec<u8>, Vec<u8>)>), String> {
            let a = self.0.run_analysis().map_err(|e| e.to_string())?;
            let mut ops = vec![];
            use crate::io::logger::Operation;
            fn d(l: u64, k: u8, o: &impl Operation) -> (u64, u8, Option<u64>, u64, Vec<u8>, Vec<u8>) { (l, k, o.object_id(), o.row_id().unwrap_or(0), o.undo().to_vec(), o.redo().to_vec()) }
            for (l, o) in &a.insert_ops { ops.push(d(*l, 6, o)); }
            for (l, o) in &a.delete_ops { ops.push(d(*l, 5, o)); }
            for (l, o) in &a.update_ops { ops.push(d(*l, 4, o)); }
            for (l, o) in &a.create_ops { ops.push(d(*l, 7, o)); }
            for (l, o) in &a.drop_ops { ops.push(d(*l, 8, o)); }
            for (l, o) in &a.alter_ops { ops.push(d(*l, 9, o)); }
            ops.sort();
            Ok((a.lsn_chains.iter().map(|(k, v)| (*k, v.clone())).collect(), a.needs_undo.iter().copied().collect(), a.needs_redo.iter().copied().collect(), a.redo_sequence(), a.start_redo_lsn, ops))
        }
    }
}

// ---------------------------------------------------------------- row versions
pub mod tuples {
    use crate::multithreading::coordinator::Snapshot;
    use crate::schema::Schema;
    use crate::storage::tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef};
    use crate::types::DataType;
    use std::collections::{HashMap, HashSet};

    pub struct VTuple(Tuple);
    pub struct VSchema(Schema);
    impl VSchema {
        pub fn table(k: &[crate::types::DataTypeKind]) -> VSchema { VSchema(Schema::new_table(k.iter().enumerate().map(|(i, k)| crate::schema::Column::new_with_defaults(*k, &format!("c{i}"))).collect())) }
        pub fn index(k: &[crate::types::DataTypeKind], keys: usize) -> VSchema { VSchema(Schema::new_index(k.iter().enumerate().map(|(i, k)| crate::schema::Column::new_with_defaults(*k, &format!("c{i}"))).collect(), keys)) }
    }
    pub fn snap(xid: u64, xmin: u64, xmax: Option<u64>, active: &[u64], aborted: &[u64]) -> Snapshot { Snapshot::new(xid, xmin, xmax, active.iter().copied().collect(), aborted.iter().copied().collect()) }
    pub fn committed_before(s: &Snapshot, x: u64) -> bool { s.is_committed_before_snapshot(x) }
    impl VTuple {
        pub fn build(s: &VSchema, row: Vec<DataType>, xmin: u64) -> Result<VTuple, String> { TupleBuilder::from_schema(&s.0).build(&Row::new(row.into_boxed_slice()), xmin).map(VTuple).map_err(|e| e.to_string()) }
        pub fn update(&mut self, s: &VSchema, m: &HashMap<usize, DataType>, xid: u64) -> Result<(), String> { self.0.add_version_with(m, xid, &s.0).map_err(|e| e.to_string()) }
        pub fn delete(&mut self, xid: u64) -> Result<(), String> { self.0.delete(xid).map_err(|e| e.to_string()) }
        pub fn undelete(&mut self) { self.0.undelete() }
        pub fn trim(&mut self, s: &VSchema, horizon: u64) -> Result<usize, String> { self.0.vaccum_with(horizon, &s.0).map_err(|e| e.to_string()) }
        pub fn bytes(&self) -> Vec<u8> { self.0.effective_data().to_vec() }
        pub fn from_bytes(b: &[u8]) -> Result<VTuple, String> { Tuple::from_slice_unchecked(b).map(VTuple).map_err(|e| e.to_string()) }
        pub fn xmin(&self) -> u64 { self.0.xmin() }
        pub fn xmax(&self) -> Option<u64> { self.0.xmax() }
        pub fn versions(&self, s: &VSchema) -> Result<usize, String> { self.0.num_versions_with(&s.0).map_err(|e| e.to_string()) }
        pub fn set_xmin(&mut self, x: u64) { let mut b = self.bytes(); b[..8].copy_from_slice(&x.to_ne_bytes()); self.0 = Tuple::from_slice_unchecked(&b).unwrap(); }
        pub fn last(&self, s: &VSchema) -> Result<Vec<DataType>, String> {
            let b = self.bytes(); let l = TupleReader::from_schema(&s.0).parse_last_version(&b).map_err(|e| e.to_string())?;
            TupleRef::new(&b, l).to_row_with(&s.0).map(|r| r.iter().cloned().collect()).map_err(|e| e.to_string())
        }
        pub fn see(&self, s: &VSchema, snap: &Snapshot) -> Result<Option<Vec<DataType>>, String> {
            let b = self.bytes();
            match TupleReader::from_schema(&s.0).parse_for_snapshot(&b, snap).map_err(|e| e.to_string())? {
                None => Ok(None),
                Some(l) => TupleRef::new(&b, l).to_row_with(&s.0).map(|r| Some(r.iter().cloned().collect())).map_err(|e| e.to_string()),
            }
        }
    }
}
