"""What decides each property: Verus units (units/<u>.rs), Kani harness prefixes, and whether the native stand-in runs.
level: 'proof' where theorems over contracts on the real functions state the property; 'other' where contracts are proved on the
functions that decide it and the rest of the path is covered by a bounded stand-in (executable contracts on the real code)."""
STD = ['std collections, iterators, strings and integer conversions behave as documented (assumed contracts in the unit header)']
LOCKS = ['locks and atomics are treated as exclusive access and Arc sharing is dropped (one call at a time); schedules are C14',
         'fewer than 2^63 transaction ids are ever handed out']
STANDIN = ' The rest of the path is a bounded stand-in: executable contracts run on the real code, labelled bounded.'
def P(level, units, technique, note, theorems=(), assumptions=(), **more):
    return dict(**more, level=level, units=list(units), technique=technique, note=note, theorems=list(theorems), assumptions=list(assumptions))
CBV = 'contract-based deductive verification (Verus) of functions extracted from /repo on every run'
MIX = CBV + '; executable contracts on the real code as bounded stand-in'
WALA = ['a log block is modelled as its header plus its payload bytes; `enc`/`hb` (block and record header to bytes) are assumed injective (axiom_enc, axiom_hb): in the code they are casts of repr(C) structs behind raw pointers',
        'DBFile read/write/seek/sync/truncate contracts are assumed (read returns what was written at that place; success unless the disk fails)',
        'file-system block size at most 65536 and such that the log block is at most 65536 bytes; fewer than 2^40 blocks and 2^32 entries per log',
        'BTreeMap/BTreeSet, the iterator chain and sort inside redo_sequence have assumed contracts']
QUERYA = ['Vec/Box comparison of rows, `sort_by` (a stable sort), and HashSet over the Eq/Hash of C19 have assumed contracts; floating-point operations are uninterpreted (same operands, same result)',
          'child operators and the scalar functions other than ABS, COALESCE and NULLIF are unspecified (Out::Any); statistics counters are dropped by the extraction']
PAGERA = ['a page frame is treated as a value: its contents change only through latches that are not held across a pager call; `free()` (the Arc count) is what is_free reports; dealloc/reinit_as/with_page/with_page_mut and the casts of page headers over bytes have assumed contracts (next_of, id_of, relinked)',
          'DBFile, IndexMap and HashSet have assumed contracts; the checksum is only assumed to be a function; a journal met on disk has a page size the engine uses and copies inside the file (sane); fewer than 2^44 pages; nothing is promised after an I/O error',
          'block size of the file system between 4096 and 65536; page zero header fits its first 4096 bytes']
CELLA = ['raw memory (Payload, MemBlock, the casts of headers and slots over bytes) has assumed contracts: a cell is what the bytes it covers say (axiom_cell), slots are two bytes each; header sizes 32 and 80 are checked by the layout directive of the verifier',
         'in `cells`, a page of an overflow chain is reached through the pager by contracts proved in the unit pager (alloc_overflow, dealloc_overflow, with_page)',
         'pages are at most 65536 bytes; `drain` and the raw cursors over cells are not under contract']
TREEA = ['in `tree`, a page is its sequence of cells (what the unit page proves of insert, push, remove, replace), a key is its rank in the order of C19, and the latches and the pager are a heap of pages']
PLANA = ['order and equality of values: axiom_order, decided by the contracts of C19; the outcome of an operator depends on its operands only (the unit query says what it is); errors an expression raises may differ between plans',
         'the memo: expressions of a group are equivalent (kept by the rules, assumed of what get_group returns), two different expressions do not share a 64-bit hash; column numbers are within the width of the inputs, fewer than 2^31 columns; a predicate with a subquery, CASE or aggregate is outside the preconditions (the rules leave it where it is)',
         'an index has an entry for exactly the rows without NULL in its columns (C07); closures are printed as structs or functions; physical implementation rules, costs and the search are not under contract (decided by the stand-in)']
DMLA = ['in `dml`, a tree is a map from the key of a tuple to its bytes (page, cells and tree are the units for that), the bytes of a key are assumed to determine its values (laid, kb), and tuples are the bytes the unit tuple decodes (xmin, xmax, row, versions)',
        'the catalog (get_relation, update_relation), the log (unit wal) and the write set (unit mvcc) are reached by contract; foreign keys are assumed to be checked without writing; preconditions: every index has a tree of its own, columns are in range, stored tuples decode']
PROPS = {
 'C01': P('other', ['wal', 'pager', 'dml'], MIX, 'Contracts proved: a flushed log is read back completely after reopen, analysis puts a transaction into the redo set exactly if its commit is in the log with no abort after it, redo_sequence and run_recovery apply exactly the operations of those transactions in log order; checkpoint forces the data file before it empties the log (Pager::checkpoint); every change of a row appends exactly the record that redoes it, under the id and with the bytes the tree got (DmlExecutor::insert_row/update/delete, TransactionLogger; the assignments redo derives from an update record give the new row, thm_replayed_update).' + STANDIN, ['thm_redo_is_committed', 'thm_image_unique', 'thm_journal_replays', 'thm_rollback', 'thm_replayed_update'], STD + WALA + PAGERA + DMLA),
 'C02': P('other', ['mvcc', 'wal'], MIX, 'Contracts proved: analysis of the log puts into the redo set no transaction with an abort or rollback record after its commit and none without a commit, and redo applies operations of those transactions only (run_analysis, redo_sequence, run_recovery); the aborted-transaction bitmap of page zero, reloading and collecting aborted ids, abort_all/unfinished: what a reopened database treats as aborted is exactly what was recorded.' + STANDIN, ['thm_redo_is_committed'], STD + LOCKS + WALA),
 'C03': P('other', ['mvcc', 'dml'], MIX, 'Contracts proved: abort puts the id into the aborted set of every later snapshot (thm_removed_rows_are_invisible, thm_snapshot_exact); a row change refused by a constraint or a write conflict has touched neither a tree nor the log (DmlExecutor::insert_row/update/delete check before they write), and every tuple and index entry written carries the id of its transaction.' + STANDIN, ['thm_snapshot_exact', 'thm_removed_rows_are_invisible'], STD + LOCKS + DMLA),
 'C04': P('proof', ['mvcc', 'tuple'], MIX, 'Proved: a snapshot taken at begin contains exactly the ids committed before it (thm_snapshot_exact, thm_snapshot_no_future); the version a row decodes to is exactly the one the snapshot is entitled to (parse_for_snapshot); two concurrent writers of one row cannot both commit (thm_first_committer_wins).' + STANDIN,
   ['thm_snapshot_exact', 'thm_snapshot_no_future', 'thm_first_committer_wins'], STD + LOCKS),
 'C05': P('other', ['query'], MIX, 'Proved, unbounded, against one denotational semantics of expressions `sem(expr, row)`: the whole expression evaluator (three-valued logic, comparison, arithmetic, LIKE, IN, BETWEEN, IS NULL, COALESCE, NULLIF, ABS), and over a ghost row sequence: filter, project, limit/offset, DISTINCT, materialize, sort (key extraction, NULL placement, stable multi-key order), aggregate accumulators (empty groups, NULL skipping, DISTINCT), nested-loop join of every join type (thm_join, thm_inner_join: the rows handed out are exactly the join of the inputs).' + STANDIN,
   ['thm_three_valued', 'thm_not_between_not_in', 'thm_empty_aggregates', 'thm_join', 'thm_inner_join'], STD + QUERYA),
 'C06': P('other', ['plan'], MIX, 'Proved, unbounded, over multisets of rows: the transformation rules of the optimizer (filter merge, pushing a filter below a join or a projection, join associativity and commutativity, filter to index scan) add to a group of the memo only expressions that compute the same rows; the column maps and predicate splitting they use; the bounds an index scan is given, its residual predicate and the entries an index has ask for exactly the rows of the predicate (asks, thm_entry), and the run-time scan decides them so (evaluate_bounds, thm_scan).' + STANDIN, ['thm_entry', 'thm_scan'], STD + PLANA),
 'C07': P('other', ['dml', 'mvcc'], MIX, 'Contracts proved: a row with NULL in a NOT NULL column is refused; a row is accepted only if, in every unique index, its key has no live entry of another row and no entry of an unfinished concurrent writer (ConstraintValidator; entries are looked up with the whole key, thm_unique); every accepted row without NULL in the key puts its entry into every index under its own id (maintain_secondary_indexes, build_index_entry), and a delete takes every entry away (DmlExecutor::delete); write-set validation: of two concurrent writers of one key only one commits (thm_first_committer_wins).' + STANDIN, ['thm_unique', 'thm_first_committer_wins'], STD + LOCKS + DMLA),
 'C08': P('other', ['wal', 'pager'], MIX, 'Proved: the write-ahead log part (what is forced is exactly what a reader finds; redo covers committed transactions only) and the checkpoint part: every page write outside a checkpoint keeps the previous checkpoint restorable (Pager::safe: journal_pages, cache_frame, read_page, allocate_page, dealloc_page), checkpoint forces the file before it completes the journal, completes the journal before it empties the log and empties the log before it drops the journal, and Journal::recover makes of the file exactly that checkpoint (thm_journal_replays, thm_rollback).' + STANDIN, ['thm_redo_is_committed', 'thm_journal_replays', 'thm_rollback'], STD + WALA + PAGERA),
 'C09': P('other', ['mvcc', 'pager'], MIX, 'Proved: handing out ids, the tracked range of the aborted bitmap and what lies outside it; checkpoint leaves every page in the file exactly as it was in memory and writes the header (Pager::checkpoint, sync_header), open reads back that header and nothing else (Pager::open ignores the configuration passed to it).' + STANDIN, [], STD + LOCKS + PAGERA),
 'C10': P('other', ['page', 'cells', 'tree'], MIX, 'Proved, for every page size, content and cell: a slotted page (defragment, insert, push, remove, replace, over the bytes of the page) keeps exactly the cells it should, in order, every other cell unchanged, no two cells and no slot overlapping, the free space counted exactly, and whatever fits is accepted; the fill thresholds; a cell holds exactly its payload, on the page or in a chain of overflow pages, and reads back as it (build_cell, reassemble); the descent reaches the leaf a key belongs to and finds the key exactly if it is there (page_search, find_slot: over a tree of any height). Rebalancing and iteration are the bounded part.' + STANDIN, [], STD + CELLA + TREEA),
 'C11': P('other', ['pager', 'cells'], MIX, 'Proved, for any number of pages and any cache content: the free list is a chain without repetition from its recorded head to its recorded tail; allocate_page takes the head if there is one and grows the file by exactly one page only if there is none; dealloc_page appends the page at the tail; both leave every other page byte for byte (Pager::free_list, same_but). Building a cell takes new pages only, all of them linked into its chain, and deallocating it gives back exactly every page of the chain, however long (build_cell, deallocate_cell). Who owns the remaining pages in use is the bounded part.' + STANDIN, [], STD + PAGERA + CELLA),
 'C12': P('other', ['pager', 'page', 'cells'], MIX, 'Proved: every configuration the builder accepts is one the engine can run with (DBConfig::ok) and reaches the header; whatever the cache size and whichever frame is evicted, every page keeps its content (PageCache::insert/evict/remove/clear, Pager::cache_frame/read_page: same_but), an evicted dirty page is written back before it is forgotten and the only other outcome is an error; whatever the page size and the minimum number of keys, pages and cells keep their content (units page and cells).' + STANDIN, [], STD + PAGERA + CELLA),
 'C13': P('other', ['mvcc', 'tuple'], MIX, 'Contracts proved: is_removable, cleanup/vacuum_transactions, clear_aborted_up_to, vaccum_with; thm_removed_rows_are_invisible and thm_trim_walk state that what VACUUM removes nobody can decode.' + STANDIN, ['thm_removed_rows_are_invisible', 'thm_trim_walk'], STD + LOCKS),
 'C15': P('other', ['mvcc', 'tuple'], MIX, 'The catalog is stored as rows with versions, and the contracts proved are those rows obey: a snapshot contains exactly what committed before it (thm_snapshot_exact), a catalog row decodes to exactly the version the snapshot is entitled to (parse_for_snapshot), VACUUM of the catalog removes only what nobody can decode (is_removable, thm_removed_rows_are_invisible, thm_trim_walk). Catalog, DDL executor and schema encoding are the bounded part.' + STANDIN, ['thm_snapshot_exact', 'thm_removed_rows_are_invisible', 'thm_trim_walk'], STD + LOCKS),
 'C16': P('other', ['query'], MIX, 'Proved: the expression evaluator and the operators of the query unit terminate and cannot overflow, index out of bounds or unwrap a missing value.' + STANDIN, [], STD + QUERYA),
 'C17': P('proof', ['wal'], MIX, 'Proved: every record is laid out and read back byte for byte (OwnedRecord::new/write_to, RecordRef accessors); try_push/push place it without touching earlier records and refuse exactly what does not fit; rotate/flush/open/truncate keep the file an image of exactly the appended records (inv, image, thm_image_unique); WalReader::new/reload_blocks/next_ref yield exactly the appended records, in order, each once, then end; push_to_log hands out consecutive sequence numbers; run_analysis classifies every record.' + STANDIN,
   ['thm_image_unique', 'thm_redo_is_committed'], STD + WALA),
 'C18': P('proof', ['tuple'], MIX, 'Proved: parse_last_version, parse_for_snapshot and parse_version decode exactly the version chain the bytes hold; NULL bits; trimming (vaccum_with) cuts exactly at the horizon and changes nothing a snapshot at or above it decodes (thm_trim_walk). Assumed: value decoders (axiom_de).' + STANDIN, ['thm_trim_walk'], STD),
 'C19': P('other', ['values'], CBV + '; Kani proof harnesses on the real crate (complete: loop-free, all values); executable contracts on the real code as bounded stand-in',
   'Proved (Verus, unbounded): the length prefix is read back exactly (zigzag, VarInt encode/value/from_encoded_bytes), stored texts decode to themselves (Blob/BlobRef constructors and accessors, reinterpret_cast, write_to), text comparison is the lexicographic order and its ties are exactly the identical texts and bytes (partial_cmp_blobs, eq, cmp; thm_lex_total, thm_equal_texts_are_identical, thm_enc_injective). '
   'Proved (Kani, all values of all numeric types, on the compiled crate): comparison and equality of any two numbers agree with their mathematical value, equal numbers hash alike, integer casts keep the value or refuse it, a cast to the same type is the identity bit for bit, write_to/deserialize round-trip at any cursor and touch only their own bytes.' + STANDIN,
   ['thm_enc_injective', 'thm_lex_total', 'thm_equal_texts_are_identical'], STD + ['texts are shorter than 2^63 bytes', 'Kani: the standard library as compiled by Kani; the cursor of the storage round trip ranges over 0..=24 (three periods of the alignment)'],
   kani={h: dict(functions=f) for h, f in (
    ('order_int_int', ['DataType::partial_cmp', 'DataType::eq', 'Number::compare']), ('order_int_float', ['DataType::partial_cmp', 'DataType::eq', 'Number::compare', 'Number::compare_integer', 'Number::canonical']),
    ('order_float_int', ['DataType::partial_cmp', 'DataType::eq', 'Number::compare', 'Number::compare_integer', 'Number::canonical']), *[(f'order_{x}', ['DataType::partial_cmp', 'DataType::eq', 'Number::compare']) for x in ('f32_f32', 'f32_f64', 'f64_f32', 'f64_f64')],
    ('hash_int_int', ['DataType::hash', 'Number::hash']), ('hash_int_float', ['DataType::hash', 'Number::hash']), *[(f'hash_{x}', ['DataType::hash', 'Number::hash']) for x in ('f32_f32', 'f32_f64', 'f64_f64')],
    ('cast_int', ['DataType::try_cast', 'TypeCast::try_cast (integers)']), ('cast_same', ['DataType::try_cast']), ('roundtrip', ['DataType::write_to', 'DataTypeKind::deserialize']))}),
 'C20': P('proof', ['tcp'], 'contract-based deductive verification (Verus) of tcp/mod.rs extracted from the source on every run',
   'Every encoder, decoder, framing and send/receive function of tcp/mod.rs carries a contract against one byte-level wire '
   'specification; round trip, rejection of every non-encoding, and the allocation bound are lemmas/postconditions, unbounded. '
   'Assumed: std Read/Write/String/Vec contracts listed in trusted_base. The TCP server loop is a bounded stand-in.',
   ['thm_req_roundtrip', 'thm_req_garbage', 'thm_resp_roundtrip', 'thm_resp_garbage', 'thm_frame_unique', 'thm_request_wire', 'thm_response_wire'],
   ['std::io::Read::read_exact / Write::write_all behave as their documentation says (assumed contracts)']),
}
NOT_APPLICABLE = {
 'C14': 'A statement about every schedule of client threads (deadlock freedom, latch order, serializability): the engine shares pages through parking_lot locks, Arc and thread pools behind raw-pointer frames; neither Verus nor Kani can attach contracts to that code (Kani has no threads; Verus would need the locks, frames and accessor rewritten with ghost permission tokens, i.e. a model), and sampling schedules is another family.',
}
