From ea6e71a10360fd26b22d0482ffb1f2157034a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 01/43] fix: reject wire messages that are not exact encodings
 of a request or response

Trailing bytes, invalid UTF-8 and counts larger than the frame were accepted
(and used as allocation sizes); they are protocol errors.
---
 crates/axmos-db/src/tcp/mod.rs | 55 +++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/crates/axmos-db/src/tcp/mod.rs b/crates/axmos-db/src/tcp/mod.rs
index c092253..f8af111 100644
--- a/crates/axmos-db/src/tcp/mod.rs
+++ b/crates/axmos-db/src/tcp/mod.rs
@@ -107,6 +107,11 @@ impl Request {
         let cmd = data[1];
         let payload = &data[2..];
 
+        // Commands without arguments carry no payload at all.
+        if matches!(cmd, 0x06 | 0x07 | 0x09 | 0x0A | 0x0B | 0x0C | 0xFF) && !payload.is_empty() {
+            return Err(TcpError::InvalidMessage("Unexpected payload".into()));
+        }
+
         match cmd {
             0x01 => {
                 let path = read_string(payload)?;
@@ -125,8 +130,8 @@ impl Request {
                 Ok(Self::Explain(sql))
             }
             0x05 => {
-                if payload.len() < 16 {
-                    return Err(TcpError::InvalidMessage("Analyze payload too short".into()));
+                if payload.len() != 16 {
+                    return Err(TcpError::InvalidMessage("Analyze payload size mismatch".into()));
                 }
                 let sample_rate = f64::from_le_bytes(payload[0..8].try_into().unwrap());
                 let max_sample_rows =
@@ -295,6 +300,19 @@ impl Response {
         let status = StatusCode::try_from(data[1])?;
         let payload = &data[2..];
 
+        // Statuses without arguments carry no payload at all.
+        if matches!(
+            status,
+            StatusCode::Pong
+                | StatusCode::Goodbye
+                | StatusCode::ShuttingDown
+                | StatusCode::Begin
+                | StatusCode::End
+        ) && !payload.is_empty()
+        {
+            return Err(TcpError::InvalidMessage("Unexpected payload".into()));
+        }
+
         match status {
             StatusCode::Ok => {
                 let msg = read_string(payload)?;
@@ -313,7 +331,9 @@ impl Response {
                 let col_count = u32::from_le_bytes(payload[0..4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut columns = Vec::with_capacity(col_count);
+                // The counts come from the peer: every string takes at least its four length
+                // bytes, so never reserve more than the message can actually hold.
+                let mut columns = Vec::with_capacity(col_count.min(payload.len() / 4));
 
                 for _ in 0..col_count {
                     let (col, len) = read_string_with_len(&payload[offset..])?;
@@ -328,7 +348,11 @@ impl Response {
                     u32::from_le_bytes(payload[offset..offset + 4].try_into().unwrap()) as usize;
                 offset += 4;
 
-                let mut data = Vec::with_capacity(row_count);
+                if col_count == 0 && row_count > 0 {
+                    return Err(TcpError::InvalidMessage("Rows without columns".into()));
+                }
+
+                let mut data = Vec::with_capacity(row_count.min(payload.len() / 4));
                 for _ in 0..row_count {
                     let mut row = Vec::with_capacity(col_count);
                     for _ in 0..col_count {
@@ -339,11 +363,15 @@ impl Response {
                     data.push(row);
                 }
 
+                if offset != payload.len() {
+                    return Err(TcpError::InvalidMessage("Trailing bytes after rows".into()));
+                }
+
                 Ok(Self::Rows { columns, data })
             }
             StatusCode::RowsAffected => {
-                if payload.len() < 8 {
-                    return Err(TcpError::InvalidMessage("Missing count".into()));
+                if payload.len() != 8 {
+                    return Err(TcpError::InvalidMessage("Count payload size mismatch".into()));
                 }
                 let count = u64::from_le_bytes(payload[0..8].try_into().unwrap());
                 Ok(Self::RowsAffected(count))
@@ -357,8 +385,8 @@ impl Response {
                 Ok(Self::Explain(plan))
             }
             StatusCode::VacuumComplete => {
-                if payload.len() < 24 {
-                    return Err(TcpError::InvalidMessage("Vacuum payload too short".into()));
+                if payload.len() != 24 {
+                    return Err(TcpError::InvalidMessage("Vacuum payload size mismatch".into()));
                 }
                 let tables_vacuumed =
                     u64::from_le_bytes(payload[0..8].try_into().unwrap()) as usize;
@@ -436,7 +464,10 @@ fn write_string(buf: &mut Vec<u8>, s: &str) {
 }
 
 fn read_string(data: &[u8]) -> Result<String, TcpError> {
-    let (s, _) = read_string_with_len(data)?;
+    let (s, consumed) = read_string_with_len(data)?;
+    if consumed != data.len() {
+        return Err(TcpError::InvalidMessage("Trailing bytes after string".into()));
+    }
     Ok(s)
 }
 
@@ -455,8 +486,10 @@ fn read_string_with_len(data: &[u8]) -> Result<(String, usize), TcpError> {
         )));
     }
 
-    let s = String::from_utf8_lossy(&data[4..4 + len]).into_owned();
-    Ok((s, 4 + len))
+    match String::from_utf8(data[4..4 + len].to_vec()) {
+        Ok(s) => Ok((s, 4 + len)),
+        Err(_) => Err(TcpError::InvalidMessage("Invalid UTF-8".into())),
+    }
 }
 
 pub fn read_message<R: Read>(reader: &mut R) -> Result<Vec<u8>, TcpError> {
-- 
2.43.0


From fe330d3fdd7cd5d7fd88327dc2ca0d7fd62ff83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 02/43] verification hook: facade module and file I/O events
 under cfg(axmos_verif)

---
 crates/axmos-db/src/io/disk/mod.rs | 9 +++++++++
 crates/axmos-db/src/lib.rs         | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/crates/axmos-db/src/io/disk/mod.rs b/crates/axmos-db/src/io/disk/mod.rs
index 014a576..3e4a8ac 100644
--- a/crates/axmos-db/src/io/disk/mod.rs
+++ b/crates/axmos-db/src/io/disk/mod.rs
@@ -154,6 +154,8 @@ impl Write for DBFile {
     }
 
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        #[cfg(axmos_verif)]
+        crate::verif::io_write(&self.p, self.f.stream_position()?, buf)?;
         self.f.write(buf)
     }
 }
@@ -171,6 +173,9 @@ impl FileOperations for DBFile {
             fs::create_dir_all(parent)?
         }
 
+        #[cfg(axmos_verif)]
+        crate::verif::io_set_len(path.as_ref(), 0)?;
+
         // We create the file with the following flags:
         let f = FileSystem::options()
             .create(true)
@@ -208,11 +213,15 @@ impl FileOperations for DBFile {
 
     // truncate the file to 0 len
     fn truncate(&mut self) -> io::Result<()> {
+        #[cfg(axmos_verif)]
+        crate::verif::io_set_len(&self.p, 0)?;
         self.f.set_len(0)
     }
 
     // sync the file to disk
     fn sync_all(&self) -> io::Result<()> {
+        #[cfg(axmos_verif)]
+        crate::verif::io_sync(&self.p)?;
         File::sync_all(&self.f)
     }
 }
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index e17afb4..9032e69 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -6,6 +6,7 @@
 #![allow(dead_code)]
 #![allow(unused_assignments)]
 #![allow(unused_variables)]
+#![allow(unexpected_cfgs)] // `axmos_verif`
 #![feature(slice_ptr_get)]
 #![feature(concat_bytes)]
 #![feature(str_from_raw_parts)]
@@ -24,6 +25,13 @@ pub mod tcp;
 mod tree;
 pub mod types;
 
+/// Verification hook (inactive unless built with `--cfg axmos_verif`): exposes crate internals to
+/// an external harness, whose facade is named by the `AXMOS_VERIF_FACADE` environment variable.
+#[cfg(axmos_verif)]
+pub mod verif {
+    include!(env!("AXMOS_VERIF_FACADE"));
+}
+
 pub use common::*;
 /// Jemalloc apparently has better alignment guarantees than rust's standard allocator.
 /// Rust's global system allocator does not seem to guarantee that allocations are aligned.
-- 
2.43.0


From 60f6fee8b5aed88b380cbb6f7807f2b8f5322f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 03/43] fix: the server answers malformed frames and oversized
 results, and keeps the columns of empty results

---
 crates/axmos-db/src/bin/axmos_server.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/bin/axmos_server.rs b/crates/axmos-db/src/bin/axmos_server.rs
index db28659..805a077 100644
--- a/crates/axmos-db/src/bin/axmos_server.rs
+++ b/crates/axmos-db/src/bin/axmos_server.rs
@@ -305,6 +305,8 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             Err(TcpError::Io(ref e)) if e.kind() == std::io::ErrorKind::UnexpectedEof => break,
             Err(e) => {
                 eprintln!("Request error: {}", e);
+                // The stream may be out of sync after a bad frame: answer it and hang up.
+                let _ = send_response(&mut writer, &Response::Error(format!("Protocol error: {}", e)));
                 break;
             }
         };
@@ -316,7 +318,13 @@ fn run_client_loop(stream: TcpStream, state: &Arc<SharedState>) -> Result<(), Tc
             break;
         }
 
-        send_response(&mut writer, &response)?;
+        match send_response(&mut writer, &response) {
+            // Nothing of an oversized message has been written: tell the client instead.
+            Err(e @ TcpError::MessageTooLarge(_)) => {
+                send_response(&mut writer, &Response::Error(format!("Result not sent: {}", e)))?
+            }
+            other => other?,
+        }
     }
 
     if let Some(mut session) = ctx.session.take() {
@@ -506,13 +514,9 @@ fn handle_close(state: &SharedState) -> Response {
 fn query_result_to_response(result: QueryResult) -> Response {
     match result {
         QueryResult::Rows(rows) => {
-            let columns = if rows.is_empty() {
-                vec![]
-            } else {
-                (0..rows.num_columns())
-                    .map(|i| rows.column(i).expect("Column not found").to_string())
-                    .collect()
-            };
+            let columns = (0..rows.num_columns())
+                .map(|i| rows.column(i).expect("Column not found").to_string())
+                .collect();
 
             let data: Vec<Vec<String>> = rows
                 .iterrows()
-- 
2.43.0


From e7d97b61e78fec73befdabbdd0a2ec6c1d8aa101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 04/43] fix: the WAL keeps every forced record: blocks are
 written at their own position and reopening appends after them

---
 crates/axmos-db/src/io/wal.rs      | 63 +++++++++++++++++-------------
 crates/axmos-db/src/storage/wal.rs |  5 ++-
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ecb5422..ede60c6 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -48,6 +48,20 @@ impl FileOperations for WriteAheadLog {
         let fs_block_size = FileSystem::block_size(&path)?;
         let default_block_size = WAL_BLOCK_SIZE.next_multiple_of(fs_block_size);
 
+        // A crash between truncating the file and rewriting block zero leaves an empty log.
+        if file.metadata()?.len() < default_block_size as u64 {
+            let header = BlockZero::alloc(0, default_block_size);
+            let mut wal = Self {
+                header,
+                current_block: None,
+                flush_queue: VecDeque::new(),
+                file,
+                block_size: default_block_size,
+            };
+            wal.write_header()?;
+            return Ok(wal);
+        }
+
         // Read block 0 (global header)
         let mut header_buf: BlockZero = BlockZero::new(default_block_size);
         file.seek(SeekFrom::Start(0))?;
@@ -147,7 +161,7 @@ impl WriteAheadLog {
     }
 
     pub(crate) fn last_lsn(&self) -> Option<Lsn> {
-        self.header.last_lsn()
+        self.header.metadata().wal_header.global_last_lsn
     }
 
     /// Runs the analysis phase of the ARIES recovery protocol.
@@ -301,14 +315,16 @@ impl WriteAheadLog {
         self.header.metadata_mut().wal_header.global_last_lsn = Some(lsn);
         self.header.metadata_mut().wal_header.total_entries += 1;
 
-        // Try to write to block zero first
+        // Block zero takes records until the first numbered block exists.
         if self.current_block.is_none() {
-            if self.header.available_space() >= record_size {
+            if self.header.metadata().wal_header.total_blocks <= 1
+                && self.header.available_space() >= record_size
+            {
                 self.header.try_push(lsn, record)?;
                 return Ok(());
             }
-            // Block zero is full, create first current_block
-            self.current_block = Some(WalBlock::new(self.block_size));
+            // Block zero is full, create the next numbered block
+            self.rotate_block()?;
         }
 
         // Write to current_block
@@ -354,42 +370,33 @@ impl WriteAheadLog {
         Ok(())
     }
 
-    pub fn perform_flush(&mut self) -> io::Result<()> {
-        // Block 0 always exists, additional blocks start at index 1
-        let mut block_number: u64 = 1;
-        let mut write_offset = self.block_size as u64;
+    /// Writes every block that holds unforced records at the position its number gives it.
+    fn write_wal_block(&mut self, block: &WalBlock) -> io::Result<()> {
+        let offset = block.metadata().block_number as u64 * self.block_size as u64;
+        self.file.seek(SeekFrom::Start(offset))?;
+        self.file.write_all(block.as_ref())
+    }
 
+    pub fn perform_flush(&mut self) -> io::Result<()> {
         // Flush queued blocks
         while let Some(block) = self.flush_queue.pop_front() {
-            self.file.seek(SeekFrom::Start(write_offset))?;
-            self.file.write_all(block.as_ref())?;
-            block_number += 1;
-            write_offset += self.block_size as u64;
+            self.write_wal_block(&block)?;
         }
 
-        // Flush current block if it has data
-        if let Some(ref block) = self.current_block {
-            if block.metadata().used_bytes > 0 {
-                self.file.seek(SeekFrom::Start(write_offset))?;
-                self.file.write_all(block.as_ref())?;
-                block_number += 1;
-            }
-        }
-
-        // Update header metadata
-        self.header.metadata_mut().wal_header.total_blocks = block_number;
-
+        // Write the current block. It stays in memory, because later records are appended to it.
         if let Some(block) = self.current_block.take() {
+            let result = self.write_wal_block(&block);
             self.header.metadata_mut().wal_header.last_block_used =
                 block.metadata().used_bytes as u32;
-        } else {
+            self.current_block = Some(block);
+            result?;
+        } else if self.header.metadata().wal_header.total_blocks <= 1 {
             self.header.metadata_mut().wal_header.last_block_used =
                 self.header.metadata().block_header.used_bytes as u32;
         }
 
         // Write block zero (siempre al principio)
-        self.file.seek(SeekFrom::Start(0))?;
-        self.file.write_all(self.header.as_ref())?;
+        self.write_header()?;
 
         self.file.sync_all()
     }
diff --git a/crates/axmos-db/src/storage/wal.rs b/crates/axmos-db/src/storage/wal.rs
index 24f9bfe..13b7899 100644
--- a/crates/axmos-db/src/storage/wal.rs
+++ b/crates/axmos-db/src/storage/wal.rs
@@ -408,14 +408,15 @@ pub(crate) type WalBlock = MemBlock<BlockHeader>;
 
 impl AvailableSpace for BlockZero {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity())
+        self.capacity()
             .saturating_sub(self.metadata().block_header.used_bytes as usize)
     }
 }
 
 impl AvailableSpace for WalBlock {
     fn available_space(&self) -> usize {
-        Self::usable_space(self.capacity()).saturating_sub(self.metadata().used_bytes as usize)
+        self.capacity()
+            .saturating_sub(self.metadata().used_bytes as usize)
     }
 }
 
-- 
2.43.0


From 632e5a0552887fcc22b4d4d43e1561b76bdb843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 05/43] fix: a panicking task no longer kills its worker thread

---
 crates/axmos-db/src/multithreading/threadpool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 5b21b80..56a902a 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -2,6 +2,7 @@ use std::{
     collections::VecDeque,
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult},
+    panic::{self, AssertUnwindSafe},
     sync::{
         Arc,
         atomic::{AtomicBool, Ordering},
@@ -126,7 +127,8 @@ impl Worker {
             {
                 match job {
                     Job::Task(task) => {
-                        let _ = task();
+                        // A panicking task must not take its worker down with it.
+                        let _ = panic::catch_unwind(AssertUnwindSafe(task));
                     }
                     Job::Shutdown => break,
                 }
-- 
2.43.0


From 95b07cc5649104c16e32c37f75f3f7a51280b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 06/43] fix: aborts are logged as aborts and finished sessions
 log nothing more

---
 crates/axmos-db/src/lib.rs             | 14 +++--------
 crates/axmos-db/src/runtime/context.rs | 34 ++++++++++++++++++++++++--
 crates/axmos-db/src/tcp/session.rs     |  8 ++----
 3 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 9032e69..59852d0 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -355,9 +355,7 @@ impl Database {
             let runner = QueryRunner::new(child, logger.clone());
             let result_guard = runner.prepare_and_run(&sql).map_err(box_err)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             Ok(result_guard)
         })?;
@@ -380,9 +378,7 @@ impl Database {
             let runner = QueryRunner::new(child, logger.clone());
             let result = runner.prepare_and_explain(&sql).map_err(box_err)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             Ok(result)
         })?;
@@ -407,9 +403,7 @@ impl Database {
 
             let results = runner.execute_all(&statements).map_err(box_err)?;
 
-            logger.log_commit().map_err(box_err)?;
-            tx_ctx.commit_transaction().map_err(box_err)?;
-            logger.log_end().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
 
             Ok(results)
         })?;
@@ -480,7 +474,7 @@ impl Database {
                 )
                 .map_err(box_err)?;
 
-            tx_ctx.commit_transaction().map_err(box_err)?;
+            tx_ctx.commit_logged(&logger).map_err(box_err)?;
             Ok(())
         })?;
 
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index c557820..fabd9ed 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -4,7 +4,7 @@ use parking_lot::RwLock;
 use super::RuntimeResult;
 use crate::{
     io::{
-        logger::{Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
+        logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
     multithreading::coordinator::{Snapshot, TransactionHandle},
@@ -125,7 +125,7 @@ impl TransactionLogger {
     }
 
     pub(crate) fn log_abort(&self) -> RuntimeResult<()> {
-        self.log_operation(Commit)?;
+        self.log_operation(Abort)?;
         Ok(())
     }
 
@@ -283,6 +283,36 @@ impl TransactionContext {
             .with_pager(self.pager().clone())
     }
 
+    /// Whether the transaction has neither been committed nor aborted yet.
+    pub(crate) fn is_open(&self) -> bool {
+        self.handle.read().can_commit()
+    }
+
+    /// Commits the transaction and makes the commit durable. A finished transaction is left alone.
+    pub(crate) fn commit_logged(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        if !self.is_open() {
+            return Ok(());
+        }
+        logger.log_commit()?;
+        if let Err(e) = self.commit_transaction() {
+            // The commit was refused, so its record must not count.
+            logger.log_abort()?;
+            logger.log_end()?;
+            return Err(e);
+        }
+        logger.log_end()
+    }
+
+    /// Aborts the transaction and logs the abort. A finished transaction is left alone.
+    pub(crate) fn abort_logged(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
+        if !self.is_open() {
+            return Ok(());
+        }
+        logger.log_abort()?;
+        self.abort_transaction()?;
+        logger.log_end()
+    }
+
     /// Commits the transaction: log commit, commit handle, end.
     pub(crate) fn commit_transaction(&self) -> RuntimeResult<()> {
         let mut h = self.handle.write();
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index eab65b6..f27ae70 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -28,16 +28,12 @@ impl Session {
     }
 
     pub fn commit_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_commit()?;
-        self.ctx.commit_transaction()?;
-        self.logger.log_end()?;
+        self.ctx.commit_logged(&self.logger)?;
         Ok(())
     }
 
     pub fn abort_transaction(&mut self) -> QueryRunnerResult<()> {
-        self.logger.log_abort()?;
-        self.ctx.abort_transaction()?;
-        self.logger.log_end()?;
+        self.ctx.abort_logged(&self.logger)?;
         Ok(())
     }
 
-- 
2.43.0


From a6588d6e12601eaccbce027bcf65df088b5c79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 07/43] fix: snapshots are taken atomically with begin and
 count committing transactions as unfinished

---
 .../src/multithreading/coordinator.rs         | 94 ++++++++++++++-----
 1 file changed, 73 insertions(+), 21 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 017347a..6d1e556 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -366,27 +366,67 @@ impl TransactionCoordinator {
 
     /// Create a snapshot of the database state for a given transaction id.
     pub fn snapshot(&self, txid: TransactionId) -> TransactionResult<Snapshot> {
-        // Collect active transaction ids
-        let active: HashSet<TransactionId> = self.transaction_set(TransactionState::Active);
+        let txs = self.transactions.read();
+        Ok(self.snapshot_of(&txs, txid))
+    }
+
+    /// Builds the snapshot of a transaction from the (locked) transaction table.
+    fn snapshot_of(
+        &self,
+        txs: &HashMap<TransactionId, TransactionMetadata>,
+        txid: TransactionId,
+    ) -> Snapshot {
+        // Collect the ids of the transactions that have not finished yet.
+        let active: HashSet<TransactionId> = txs
+            .iter()
+            .filter(|(_, entry)| {
+                matches!(
+                    entry.state(),
+                    TransactionState::Active | TransactionState::Committing
+                )
+            })
+            .map(|(id, _)| *id)
+            .collect();
 
         // Collect tracked aborted transaction ids
-        let aborted: HashSet<TransactionId> = self.transaction_set(TransactionState::Aborted);
+        let aborted: HashSet<TransactionId> = txs
+            .iter()
+            .filter(|(_, entry)| entry.state() == TransactionState::Aborted)
+            .map(|(id, _)| *id)
+            .collect();
 
         // xmin is the smallest active transaction ID (or our ID if none active)
         let xmin = active.iter().min().copied().unwrap_or(txid);
 
         // xmax is the last committed transaction from PageZero
-        let xmax = {
-            let last = self.get_last_committed();
-            if last == 0 { None } else { Some(last) }
-        };
+        let xmax = Some(self.get_last_committed());
+
+        Snapshot::new(txid, xmin, xmax, active, aborted)
+    }
 
-        Ok(Snapshot::new(txid, xmin, xmax, active, aborted))
+    /// Whether the transaction can still write.
+    pub fn is_active(&self, txid: TransactionId) -> bool {
+        self.transactions
+            .read()
+            .get(&txid)
+            .is_some_and(|entry| entry.is_active())
+    }
+
+    /// Whether the transaction is known to have been aborted.
+    pub fn is_aborted(&self, txid: TransactionId) -> bool {
+        self.transactions
+            .read()
+            .get(&txid)
+            .is_some_and(|entry| entry.state() == TransactionState::Aborted)
     }
 
     /// Begin a new transaction.
     /// Returns a [TransactionHandle] to the thread that requested the begin operation.
     pub fn begin(&self) -> TransactionResult<TransactionHandle> {
+        // The id, the snapshot and the table entry belong together: no other transaction may take
+        // its snapshot between them.
+        let mut txs = self.transactions.write();
+
         // Atomically get and increment the transaction ID in PageZero
         let txid = {
             let mut pager = self.pager.write();
@@ -396,16 +436,14 @@ impl TransactionCoordinator {
         };
 
         // Create snapshot
-        let snapshot = self.snapshot(txid)?;
+        let snapshot = self.snapshot_of(&txs, txid);
 
         let start_ts = self.commit_counter.load(Ordering::SeqCst);
 
         // Insert new transaction entry
-        {
-            let mut txs = self.transactions.write();
-            let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
-            txs.insert(txid, entry);
-        }
+        let entry = TransactionMetadata::new(txid, snapshot.clone(), start_ts);
+        txs.insert(txid, entry);
+        drop(txs);
 
         Ok(TransactionHandle {
             id: txid,
@@ -438,7 +476,7 @@ impl TransactionCoordinator {
             }
 
             ValidationResult::Conflict(id) => {
-                self.set_transaction_state(txid, TransactionState::Aborted)?;
+                self.abort(txid)?;
                 Err(TransactionError::WriteWriteConflict(txid, id))
             }
         }
@@ -579,7 +617,7 @@ impl TransactionCoordinator {
             *id >= min_active_xid
         });
         let final_count = self.transactions.read().len();
-        final_count.saturating_sub(current_count)
+        current_count.saturating_sub(final_count)
     }
 
     pub fn pager(&self) -> SharedPager {
@@ -589,16 +627,25 @@ impl TransactionCoordinator {
     /// Aborts all currently active transactions.
     /// Returns the list of transaction IDs that were aborted.
     pub fn abort_all(&self) -> Vec<TransactionId> {
-        let mut txs = self.transactions.write();
         let mut aborted = Vec::new();
+        {
+            let mut txs = self.transactions.write();
 
-        for (id, entry) in txs.iter_mut() {
-            if entry.state == TransactionState::Active {
-                entry.state = TransactionState::Aborted;
-                aborted.push(*id);
+            for (id, entry) in txs.iter_mut() {
+                if entry.state == TransactionState::Active {
+                    entry.state = TransactionState::Aborted;
+                    aborted.push(*id);
+                }
             }
         }
 
+        // Persist aborted state to page zero, as [Self::abort] does.
+        let mut pager = self.pager.write();
+        for id in aborted.iter() {
+            pager.mark_transaction_aborted(*id);
+        }
+        drop(pager);
+
         aborted
     }
 
@@ -695,6 +742,11 @@ impl TransactionHandle {
         self.commit_handle.is_some()
     }
 
+    /// The coordinator this handle can still commit or abort with.
+    pub(crate) fn coordinator(&self) -> Option<TransactionCoordinator> {
+        self.commit_handle.as_ref().map(|h| h.coordinator.clone())
+    }
+
     pub fn commit(&mut self) -> TransactionResult<()> {
         if let Some(handle) = self.commit_handle.take() {
             handle.commit(self.id())?;
-- 
2.43.0


From 9d56b6467c6eafa83494311e98ba3937d40fc3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 08/43] fix: concurrent writers of one row conflict instead of
 overwriting each other

---
 .../src/multithreading/coordinator.rs         | 22 +++++-----
 crates/axmos-db/src/runtime/context.rs        | 40 +++++++++++++++++--
 crates/axmos-db/src/runtime/dml.rs            |  6 +++
 crates/axmos-db/src/storage/tuple.rs          |  5 +--
 4 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 6d1e556..96e0eed 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -574,25 +574,21 @@ impl TransactionCoordinator {
         let write_set: Vec<LogicalId> = entry.write_set().keys().copied().collect();
 
         // Check if any tuple we wrote was committed after we started
-        {
-            let tuple_commits = self.tuple_commits.read();
-            for logical_id in &write_set {
-                if let Some(&last_commit_ts) = tuple_commits.get(logical_id)
-                    && last_commit_ts >= start_ts
-                {
-                    return Ok(ValidationResult::Conflict(*logical_id));
-                }
+        // The check and the recording of the commit are one step for all other commits.
+        let mut tuple_commits = self.tuple_commits.write();
+        for logical_id in &write_set {
+            if let Some(&last_commit_ts) = tuple_commits.get(logical_id)
+                && last_commit_ts >= start_ts
+            {
+                return Ok(ValidationResult::Conflict(*logical_id));
             }
         }
 
         // Validation passed, assign commit timestamp and record tuple commits
         let commit_ts = self.commit_counter.fetch_add(1, Ordering::SeqCst);
 
-        {
-            let mut tuple_commits = self.tuple_commits.write();
-            for logical_id in write_set {
-                tuple_commits.insert(logical_id, commit_ts);
-            }
+        for logical_id in write_set {
+            tuple_commits.insert(logical_id, commit_ts);
         }
 
         Ok(ValidationResult::Allowed)
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index fabd9ed..1b25535 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -7,13 +7,15 @@ use crate::{
         logger::{Abort, Alter, Begin, Commit, Create, Delete, DropOp, End, Insert, Operation, Update},
         pager::{BtreeBuilder, SharedPager},
     },
-    multithreading::coordinator::{Snapshot, TransactionHandle},
+    multithreading::coordinator::{
+        Snapshot, TransactionCoordinator, TransactionError, TransactionHandle,
+    },
     schema::catalog::SharedCatalog,
     tree::{
         accessor::{BtreeReadAccessor, BtreeWriteAccessor},
         bplustree::Btree,
     },
-    types::{ObjectId, PageId, RowId, TransactionId},
+    types::{LogicalId, ObjectId, PageId, RowId, TransactionId},
 };
 use std::sync::Arc;
 
@@ -24,6 +26,7 @@ pub(crate) struct ThreadContext {
     catalog: SharedCatalog,
     tid: TransactionId,
     snapshot: Snapshot,
+    coordinator: Option<TransactionCoordinator>,
 }
 
 impl ThreadContext {
@@ -38,9 +41,39 @@ impl ThreadContext {
             snapshot,
             pager,
             catalog,
+            coordinator: None,
         }
     }
 
+    pub(crate) fn with_coordinator(mut self, coordinator: Option<TransactionCoordinator>) -> Self {
+        self.coordinator = coordinator;
+        self
+    }
+
+    /// Registers that this transaction is about to replace or delete the given row, whose current
+    /// version was deleted by `deleted_by` (if any).
+    ///
+    /// Only a row whose deleter aborted can still be written. Anything else is a conflict.
+    pub(crate) fn record_write(
+        &self,
+        table: ObjectId,
+        row: RowId,
+        deleted_by: Option<TransactionId>,
+    ) -> RuntimeResult<()> {
+        let id = LogicalId::new(table, row);
+        let Some(coordinator) = self.coordinator.as_ref() else {
+            return Ok(());
+        };
+        if let Some(deleter) = deleted_by
+            && !self.snapshot.is_transaction_aborted(deleter)
+            && !coordinator.is_aborted(deleter)
+        {
+            return Err(TransactionError::WriteWriteConflict(self.tid, id).into());
+        }
+        coordinator.record_write(self.tid, id, 0)?;
+        Ok(())
+    }
+
     pub(crate) fn pager(&self) -> &SharedPager {
         &self.pager
     }
@@ -239,7 +272,8 @@ impl TransactionContext {
             self.snapshot(),
             self.pager().clone(),
             self.catalog().clone(),
-        ))
+        )
+        .with_coordinator(self.handle.read().coordinator()))
     }
 
     pub(crate) fn tid(&self) -> TransactionId {
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 28a9ef9..26f0083 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -294,6 +294,9 @@ impl DmlExecutor {
             return Ok(UpdateResult { updated: false });
         };
 
+        self.ctx
+            .record_write(table_id, row_id.value(), tuple.xmax())?;
+
         // Get the old row for index maintenance
         let old_row = btree
             .get_row_at(position, &schema, &snapshot)?
@@ -380,6 +383,9 @@ impl DmlExecutor {
             return Ok(DeleteResult { deleted: false });
         };
 
+        self.ctx
+            .record_write(table_id, row_id.value(), tuple.xmax())?;
+
         // Get the row for index maintenance
         let old_row = btree
             .get_row_at(position, &schema, &snapshot)?
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 555b247..64c3015 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1263,10 +1263,7 @@ impl Tuple {
     }
 
     pub(crate) fn delete(&mut self, xid: TransactionId) -> TupleResult<()> {
-        if self.is_deleted() {
-            return Ok(());
-        }
-
+        // An earlier mark can only come from a deleter that aborted, so it is replaced.
         let buffer = self.data.effective_data_mut();
         let (mut header, _) = TupleHeader::read_from(buffer, 0);
         header.xmax = xid as i64;
-- 
2.43.0


From fbc6027dbbb236e0986a019f342c2ee4d2d526f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 09/43] fix: VACUUM removes only rows whose deletion committed

---
 crates/axmos-db/src/schema/catalog.rs | 15 +++++++++++++--
 crates/axmos-db/src/storage/tuple.rs  |  8 ++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 92aa7a1..80cb346 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -422,13 +422,24 @@ impl Catalog {
                         let mut tuple = Tuple::from_slice_unchecked(bytes)?;
                         let xmin = tuple.xmin();
 
-                        let freed = if snapshot.is_transaction_aborted(xmin) || tuple.is_deleted() {
+                        // A deletion counts only if its transaction committed.
+                        let deleted = tuple
+                            .xmax()
+                            .is_some_and(|xmax| snapshot.is_committed_before_snapshot(xmax));
+
+                        let freed = if snapshot.is_transaction_aborted(xmin) || deleted {
                             let freed = tuple.full_data().len();
                             tuples_to_remove.push(tuple);
                             freed
                         } else {
+                            // The mark of an aborted deleter has to go before the record that it
+                            // aborted does.
+                            let undeleted = tuple.is_deleted();
+                            if undeleted {
+                                tuple.undelete();
+                            }
                             let freed = tuple.vaccum_with(oldest_active_xid, schema)?;
-                            if freed > 0 {
+                            if freed > 0 || undeleted {
                                 tuples_to_vaccum.push(tuple);
                             };
                             freed
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 64c3015..644358a 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1272,6 +1272,14 @@ impl Tuple {
         Ok(())
     }
 
+    /// Removes the mark of a deletion that was rolled back.
+    pub(crate) fn undelete(&mut self) {
+        let buffer = self.data.effective_data_mut();
+        let (mut header, _) = TupleHeader::read_from(buffer, 0);
+        header.xmax = -1;
+        header.write_to(buffer, 0);
+    }
+
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-- 
2.43.0


From 31c972780b541af5a89cf819cbb2d6457044a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 10/43] fix: a replaced or vacuumed cell no longer makes the
 page hand out occupied bytes

---
 crates/axmos-db/src/storage/cell.rs        | 18 ++++++++++--------
 crates/axmos-db/src/storage/core/buffer.rs |  6 ++++--
 crates/axmos-db/src/storage/tuple.rs       |  1 +
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/axmos-db/src/storage/cell.rs b/crates/axmos-db/src/storage/cell.rs
index dd2bb7a..bbf5ef9 100644
--- a/crates/axmos-db/src/storage/cell.rs
+++ b/crates/axmos-db/src/storage/cell.rs
@@ -379,10 +379,11 @@ impl OwnedCell {
         let mut payload = Payload::alloc_aligned(cell.len()).unwrap();
         payload.effective_data_mut()[..cell.len()].copy_from_slice(cell.effective_data());
 
-        Self {
-            header: *cell.metadata(),
-            payload,
-        }
+        // The copy does not keep the spare capacity of the original.
+        let mut header = *cell.metadata();
+        header.size = payload.capacity() as u64;
+
+        Self { header, payload }
     }
 
     /// Creates an OwnedCell from a CellMut by copying its data.
@@ -390,10 +391,11 @@ impl OwnedCell {
         let mut payload = Payload::alloc_aligned(cell.len()).unwrap();
         payload.effective_data_mut()[..cell.len()].copy_from_slice(cell.effective_data());
 
-        Self {
-            header: *cell.metadata(),
-            payload,
-        }
+        // The copy does not keep the spare capacity of the original.
+        let mut header = *cell.metadata();
+        header.size = payload.capacity() as u64;
+
+        Self { header, payload }
     }
 
     #[inline]
diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 9bdff50..ec21c02 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -826,7 +826,8 @@ where
                 .copy_from_slice(&new_cell.full_data());
             *old_cell.metadata_mut() = *new_cell.metadata();
 
-            self.free_space_pointer_down(free_bytes);
+            // The gained bytes are not next to the free space pointer: they can be used after a
+            // defragmentation only.
             self.add_free_space(free_bytes);
 
             return Ok(owned_cell);
@@ -855,6 +856,7 @@ where
             ));
         };
 
+        let freed = self.cell(index).storage_size() as u32;
         let cell = self.owned_cell(index);
 
         // Remove the index as if we removed from a Vec.
@@ -865,7 +867,7 @@ where
         // Cannot put more free space here as it would cause a misalignment.
         // Must correct later through defragmentation.
         // Thanks [miri]
-        self.add_free_space(cell.storage_size() as u32);
+        self.add_free_space(freed);
 
         // Decrease length.
         self.remove_slots(1);
diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 644358a..6c34081 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1351,6 +1351,7 @@ impl Tuple {
         let freed = self.data.len() - last_needed_end;
         if freed > 0 {
             self.data.realloc(last_needed_end)?;
+            self.data.shrink_to_fit()?;
         }
 
         Ok(freed)
-- 
2.43.0


From 090899aaef0c083243b96e1c208a267e1e212f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 11/43] fix: a session whose transaction has ended runs no more
 statements

---
 crates/axmos-db/src/runtime/context.rs | 29 ++++++++++++++++++++++++--
 crates/axmos-db/src/tcp/session.rs     |  6 ++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 1b25535..6536fd5 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -65,8 +65,7 @@ impl ThreadContext {
             return Ok(());
         };
         if let Some(deleter) = deleted_by
-            && !self.snapshot.is_transaction_aborted(deleter)
-            && !coordinator.is_aborted(deleter)
+            && !self.is_aborted(deleter)
         {
             return Err(TransactionError::WriteWriteConflict(self.tid, id).into());
         }
@@ -74,6 +73,23 @@ impl ThreadContext {
         Ok(())
     }
 
+    /// Whether the given transaction is known to have been rolled back.
+    pub(crate) fn is_aborted(&self, tid: TransactionId) -> bool {
+        self.snapshot.is_transaction_aborted(tid)
+            || self
+                .coordinator
+                .as_ref()
+                .is_some_and(|coordinator| coordinator.is_aborted(tid))
+    }
+
+    /// Whether an index entry that this transaction cannot see stands for a row that may still
+    /// become part of the committed data: its creator is unfinished or committed meanwhile.
+    pub(crate) fn is_concurrent(&self, creator: TransactionId) -> bool {
+        creator != self.tid
+            && !self.snapshot.is_committed_before_snapshot(creator)
+            && !self.is_aborted(creator)
+    }
+
     pub(crate) fn pager(&self) -> &SharedPager {
         &self.pager
     }
@@ -322,6 +338,15 @@ impl TransactionContext {
         self.handle.read().can_commit()
     }
 
+    /// Whether the transaction can still run statements: it has not been committed or rolled back,
+    /// by its owner or by VACUUM.
+    pub(crate) fn is_running(&self) -> bool {
+        let handle = self.handle.read();
+        handle
+            .coordinator()
+            .is_some_and(|coordinator| coordinator.is_active(handle.id()))
+    }
+
     /// Commits the transaction and makes the commit durable. A finished transaction is left alone.
     pub(crate) fn commit_logged(&self, logger: &TransactionLogger) -> RuntimeResult<()> {
         if !self.is_open() {
diff --git a/crates/axmos-db/src/tcp/session.rs b/crates/axmos-db/src/tcp/session.rs
index f27ae70..c85620a 100644
--- a/crates/axmos-db/src/tcp/session.rs
+++ b/crates/axmos-db/src/tcp/session.rs
@@ -43,6 +43,12 @@ impl Session {
     }
 
     fn execute_async(&self, sql: String) -> QueryRunnerResult<QueryResult> {
+        if !self.ctx.is_running() {
+            return Err(QueryError::Runtime(RuntimeError::Other(
+                "the transaction of this session has ended".to_string(),
+            )));
+        }
+
         let logger = self.logger.clone();
         // Build a temporary context for this thread
         // Cloning the handle creates an invalidated copy of itself that can fo everything but committing  or aborting.
-- 
2.43.0


From 2a659980a57fe588ee3f52bb229a325664a0a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 12/43] fix: index entries of rolled-back, concurrent and NULL
 keys; updates no longer rewrite the row id of an index entry

---
 crates/axmos-db/src/runtime/ddl.rs            |   4 +
 crates/axmos-db/src/runtime/dml.rs            | 221 +++++-------------
 crates/axmos-db/src/runtime/ops/index_scan.rs |  30 +--
 crates/axmos-db/src/runtime/validator.rs      |   7 +-
 crates/axmos-db/src/sql/planner/rules.rs      |  11 +
 5 files changed, 92 insertions(+), 181 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 16db50a..6f7c2a7 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -1077,6 +1077,10 @@ impl DdlExecutor {
                         entry_values.push(row[col_idx].clone());
                     }
                 }
+                // Rows with a NULL in an indexed column have no entry.
+                if entry_values.iter().any(DataType::is_null) {
+                    continue;
+                }
                 entry_values.push(DataType::BigUInt(UInt64(*value)));
 
                 index_entries.push(Row::new(entry_values.into_boxed_slice()));
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index 26f0083..cf9dbc3 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -18,7 +18,7 @@ use crate::{
         base::{IndexHandle, Relation},
     },
     sql::binder::bounds::BoundExpression,
-    storage::tuple::{Row, Tuple, TupleBuilder, TupleReader},
+    storage::tuple::{Row, Tuple, TupleBuilder, TupleReader, TupleRef},
     tree::bplustree::SearchResult,
     types::{DataType, ObjectId, RowId, UInt64},
 };
@@ -191,8 +191,8 @@ impl DmlExecutor {
             if let SearchResult::Found(position) = search_result {
                 let existing = btree.get_tuple_at_unchecked(position, &schema)?;
 
-                // If it is deleted we need to un-delete it
-                if existing.is_deleted() {
+                // If it is deleted or was rolled back we need to replace it
+                if existing.is_deleted() || self.ctx.is_aborted(existing.xmin()) {
                     btree.update(root, tuple, &schema)?;
                 };
 
@@ -207,8 +207,6 @@ impl DmlExecutor {
             &relation.get_indexes(),
             None,
             Some(full_row),
-            None,
-            &schema,
             row_id.value(),
         )?;
 
@@ -297,7 +295,7 @@ impl DmlExecutor {
         self.ctx
             .record_write(table_id, row_id.value(), tuple.xmax())?;
 
-        // Get the old row for index maintenance
+        // Get the old row for the validation
         let old_row = btree
             .get_row_at(position, &schema, &snapshot)?
             .expect("Tuple should exist");
@@ -314,12 +312,6 @@ impl DmlExecutor {
         let mut updated_tuple = tuple.clone();
         updated_tuple.add_version_with(&assignments, tid, &schema)?;
 
-        // Get the new row for index maintenance
-        let new_row = updated_tuple
-            .as_tuple_ref(&schema, &snapshot)
-            .expect("Updated tuple should be visible")
-            .to_row_with(&schema)?;
-
         // Log the update
         self.logger.log_update(
             table_id,
@@ -331,15 +323,8 @@ impl DmlExecutor {
         // Update the main table
         btree.update(root, updated_tuple, &schema)?;
 
-        // Maintain secondary indexes
-        self.maintain_secondary_indexes(
-            &relation.get_indexes(),
-            Some(old_row),
-            Some(new_row),
-            Some(assignments),
-            &schema,
-            row_id.value(),
-        )?;
+        // Secondary indexes keep the entry that the row was inserted with: it carries the row id
+        // only.
 
         Ok(UpdateResult { updated: true })
     }
@@ -407,8 +392,6 @@ impl DmlExecutor {
             &relation.get_indexes(),
             Some(old_row),
             None,
-            None,
-            &schema,
             row_id.value(),
         )?;
 
@@ -445,25 +428,30 @@ impl DmlExecutor {
     }
 
     /// Builds an index entry row from table values.
+    ///
+    /// Rows with a NULL in an indexed column have no entry.
     fn build_index_entry(
         values: &[DataType],
         index: &IndexHandle,
         index_schema: &Schema,
         row_id: RowId,
-    ) -> RuntimeResult<Row> {
+    ) -> RuntimeResult<Option<Row>> {
         let mut entry: Vec<DataType> = Vec::with_capacity(index_schema.num_keys() + 1);
 
         for col_idx in index.indexed_column_ids() {
             let value = values
                 .get(*col_idx)
                 .ok_or(RuntimeError::ColumnNotFound(*col_idx))?;
+            if value.is_null() {
+                return Ok(None);
+            }
             entry.push(value.clone());
         }
 
         // Append row ID as the last column
         entry.push(DataType::BigUInt(UInt64(row_id)));
 
-        Ok(Row::new(entry.into_boxed_slice()))
+        Ok(Some(Row::new(entry.into_boxed_slice())))
     }
 
     /// Maintains secondary indexes.
@@ -472,8 +460,6 @@ impl DmlExecutor {
         indexes: &[IndexHandle],
         old_values: Option<Row>,
         new_values: Option<Row>,
-        table_assignments: Option<HashMap<usize, DataType>>,
-        table_schema: &Schema,
         row_id: RowId,
     ) -> RuntimeResult<()> {
         let old_values = old_values.map(|r| r.into_inner());
@@ -483,11 +469,6 @@ impl DmlExecutor {
         let snapshot = self.ctx.snapshot();
         let tid = self.ctx.tid();
 
-        // Determine which columns were modified
-        let modified_columns: Option<HashSet<usize>> = table_assignments
-            .clone()
-            .map(|c| c.keys().copied().collect());
-
         for index in indexes {
             let index_relation =
                 self.ctx
@@ -496,149 +477,69 @@ impl DmlExecutor {
             let index_schema = index_relation.schema();
             let index_root = index_relation.root();
 
-            if let Some(modified) = modified_columns.as_ref() {
-                // Skip indexes not affected by this update
-                let index_affected = index
-                    .indexed_column_ids()
-                    .iter()
-                    .any(|col| modified.contains(col));
+            // The entry of the row before and after the operation.
+            let entry = |values: &Option<Box<[DataType]>>| match values {
+                Some(values) => Self::build_index_entry(values, index, index_schema, row_id),
+                None => Ok(None),
+            };
+            let old_entry = entry(&old_values)?;
+            let new_entry = entry(&new_values)?;
 
-                if !index_affected {
-                    continue;
-                }
+            // Skip indexes not affected by this operation
+            if old_entry.as_ref().map(Row::as_slice) == new_entry.as_ref().map(Row::as_slice) {
+                continue;
             }
 
             let mut index_btree = self.ctx.build_tree_mut(index_root);
 
-            match (
-                old_values.as_ref(),
-                new_values.as_ref(),
-                table_assignments.as_ref(),
-            ) {
-                // Insert operation
-                (None, Some(values), None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let existing =
-                            index_btree.get_tuple_at_unchecked(position, &index_schema)?;
-
-                        // If it is deleted we need to un-delete it
-                        if existing.is_deleted() {
-                            index_btree.update(index_root, index_tuple, index_schema)?;
-                        };
-
-                        // Otherwise there is nothing to do. Just keep the tuple there.
-                    } else {
-                        index_btree.insert(index_root, index_tuple, index_schema)?;
-                    }
-                }
-                // New values was set to [None] which means we are on a delete operation. Then we need to perform the maintenance in a different way.
-                // Delete operation
-                (Some(values), None, None) => {
-                    let index_row = Self::build_index_entry(&values, index, index_schema, row_id)?;
-                    let index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
-                    let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
-
-                    if let SearchResult::Found(position) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(position, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.delete(self.ctx.tid())?;
-                            index_btree.update(index_root, tuple, index_schema)?;
-                        }
-                    };
-                } // Update operation
-                (Some(old_values), Some(new_values), Some(assignments)) => {
-                    // Build the old index key for searching
-                    let old_index_row =
-                        Self::build_index_entry(&old_values, index, index_schema, row_id)?;
-                    let old_index_tuple =
-                        TupleBuilder::from_schema(index_schema).build(&old_index_row, tid)?;
-
-                    // Build new assignments for the index
-                    let index_assignments = self.build_index_assignments(
-                        &old_values,
-                        &assignments,
-                        index,
-                        index_schema,
-                    )?;
-
-                    // Search and update the index entry
-                    let mut index_btree = self.ctx.build_tree_mut(index_root);
-                    let search_result = index_btree.search_tuple(&old_index_tuple, index_schema)?;
-
-                    if let SearchResult::Found(pos) = search_result {
-                        let tuple_reader = TupleReader::from_schema(index_schema);
-
-                        // Update the index entry by adding a new version to it.
-                        let updated = index_btree.with_cell_at(pos, |bytes| {
-                            tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
-                            let tuple = Tuple::from_slice_unchecked(bytes).ok()?;
-                            Some(tuple)
-                        })?;
-
-                        if let Some(mut tuple) = updated {
-                            tuple.add_version_with(
-                                &index_assignments,
-                                snapshot.xid(),
-                                index_schema,
-                            )?;
-                            index_btree.update(index_root, tuple, index_schema)?;
+            // Delete the old entry, if it is the one of this row.
+            if let Some(index_row) = old_entry {
+                let index_tuple = TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
+                let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
+
+                if let SearchResult::Found(position) = search_result {
+                    let tuple_reader = TupleReader::from_schema(index_schema);
+
+                    let updated = index_btree.with_cell_at(position, |bytes| {
+                        let layout = tuple_reader.parse_for_snapshot(bytes, &snapshot).ok()??;
+                        let owner = TupleRef::new(bytes, layout)
+                            .value_with(0, index_schema)
+                            .ok()?
+                            .to_owned()?;
+                        if owner != DataType::BigUInt(UInt64(row_id)) {
+                            return None;
                         }
+                        Tuple::from_slice_unchecked(bytes).ok()
+                    })?;
+
+                    if let Some(mut tuple) = updated {
+                        tuple.delete(tid)?;
+                        index_btree.update(index_root, tuple, index_schema)?;
                     }
-                }
-                _ => return Err(RuntimeError::InvalidStatement),
+                };
             }
-        }
 
-        Ok(())
-    }
-
-    /// Builds assignment map for an index based on table assignments.
-    fn build_index_assignments(
-        &self,
-        old_values: &[DataType],
-        table_assignments: &HashMap<usize, DataType>,
-        index: &IndexHandle,
-        index_schema: &Schema,
-    ) -> RuntimeResult<HashMap<usize, DataType>> {
-        let mut index_assignments: HashMap<usize, DataType> = HashMap::new();
+            // Insert the new one.
+            if let Some(index_row) = new_entry {
+                let index_tuple = TupleBuilder::from_schema(index_schema).build(&index_row, tid)?;
+                let search_result = index_btree.search_tuple(&index_tuple, &index_schema)?;
 
-        for (index_col_idx, table_col_idx) in index.indexed_column_ids().iter().enumerate() {
-            // Check if this table column was modified
-            let Some(new_value) = table_assignments.get(table_col_idx) else {
-                continue;
-            };
+                if let SearchResult::Found(position) = search_result {
+                    let existing = index_btree.get_tuple_at_unchecked(position, &index_schema)?;
 
-            // Validate type compatibility
-            let index_col_type = index_schema
-                .column(index_col_idx)
-                .ok_or(RuntimeError::ColumnNotFound(index_col_idx))?
-                .datatype();
+                    // If it is deleted or was rolled back we need to replace it
+                    if existing.is_deleted() || self.ctx.is_aborted(existing.xmin()) {
+                        index_btree.update(index_root, index_tuple, index_schema)?;
+                    };
 
-            if index_col_type != new_value.kind() {
-                return Err(RuntimeError::TypeError(
-                    TypeSystemError::UnexpectedDataType(new_value.kind()),
-                ));
+                    // Otherwise there is nothing to do. Just keep the tuple there.
+                } else {
+                    index_btree.insert(index_root, index_tuple, index_schema)?;
+                }
             }
-
-            index_assignments.insert(index_col_idx, new_value.clone());
         }
 
-        Ok(index_assignments)
+        Ok(())
     }
 }
 
diff --git a/crates/axmos-db/src/runtime/ops/index_scan.rs b/crates/axmos-db/src/runtime/ops/index_scan.rs
index db3974c..1948079 100644
--- a/crates/axmos-db/src/runtime/ops/index_scan.rs
+++ b/crates/axmos-db/src/runtime/ops/index_scan.rs
@@ -163,18 +163,14 @@ impl Executor for IndexScan {
                 .as_ref()
                 .ok_or(RuntimeError::CursorUninitialized)?
                 .get_tree();
-            let maybe_row = tree
-                .get_row_at(next_pos, &self.index_schema, &snapshot)?
-                .filter(|r| {
-                    self.evaluate_index_predicate(r)
-                        .expect("Predicate evaluation failed")
-                });
-
-            if maybe_row.is_none() {
+            let Some(found_row) = tree.get_row_at(next_pos, &self.index_schema, &snapshot)? else {
+                continue;
+            };
+
+            if !self.evaluate_index_predicate(&found_row)? {
                 continue;
             }
 
-            let found_row = maybe_row.unwrap();
             let row_key_bytes = self.get_row_id_checked(&found_row)?.serialize()?;
 
             // Build the table tree
@@ -183,19 +179,17 @@ impl Executor for IndexScan {
                 table_tree.search(row_key_bytes.as_ref(), &self.table_schema)?;
 
             if let SearchResult::Found(found_pos) = actual_row_result {
-                let actual_row = tree
-                    .get_row_at(found_pos, &self.table_schema, &snapshot)?
-                    .filter(|r| {
-                        self.evaluate_residual_predicate(r)
-                            .expect("Predicate evaluation failed")
-                    });
-
-                if actual_row.is_none() {
+                let Some(actual_row) = tree.get_row_at(found_pos, &self.table_schema, &snapshot)?
+                else {
+                    continue;
+                };
+
+                if !self.evaluate_residual_predicate(&actual_row)? {
                     continue;
                 }
 
                 self.stats.rows_produced += 1;
-                return Ok(Some(actual_row.unwrap()));
+                return Ok(Some(actual_row));
             } else {
                 continue;
             }
diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 0e1a0c3..3e0eefb 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -9,7 +9,7 @@ use crate::{
     ObjectId, SerializationError, UInt64,
     runtime::context::ThreadContext,
     schema::{DatabaseItem, Schema, base::IndexHandle, catalog::CatalogError},
-    storage::tuple::{TupleError, TupleReader, TupleRef},
+    storage::tuple::{Tuple, TupleError, TupleReader, TupleRef},
     tree::bplustree::{BtreeError, SearchResult},
     types::{DataType, RowId},
 };
@@ -280,8 +280,9 @@ impl<'a> ConstraintValidator<'a> {
                     }
                     None => {
                         // Tuple is NOT visible (deleted or not yet committed)
-                        // No conflict
-                        Ok::<bool, TupleError>(false)
+                        // No conflict, unless another transaction may still commit it.
+                        let creator = Tuple::from_slice_unchecked(bytes)?.xmin();
+                        Ok::<bool, TupleError>(self.ctx.is_concurrent(creator))
                     }
                 }
             })??;
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index 84cddf6..c5986e8 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -1436,6 +1436,17 @@ impl FilterToIndexScanRule {
             return None;
         }
 
+        // The index has no entry for rows with a NULL in an indexed column. Such rows must be
+        // excluded by a bound on that column, or by its definition.
+        let bounds = range_start.iter().chain(range_end.iter()).flatten();
+        let bounded: std::collections::HashSet<usize> = bounds.map(|bound| bound.col_idx).collect();
+        let covered = indexed_columns.iter().enumerate().all(|(position, &col)| {
+            bounded.contains(&position) || scan.schema.column(col).is_some_and(|c| c.is_non_null)
+        });
+        if !covered {
+            return None;
+        }
+
         let mut index_scan = IndexScanOp::new(
             scan.table_id,
             index_handle.id(),
-- 
2.43.0


From a86b4992fb0a554bc3812bc07854b721ed59b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 13/43] fix: expressions follow three-valued logic and report
 arithmetic errors

---
 crates/axmos-db/src/runtime/eval.rs | 211 +++++++++++++++++++++-------
 1 file changed, 160 insertions(+), 51 deletions(-)

diff --git a/crates/axmos-db/src/runtime/eval.rs b/crates/axmos-db/src/runtime/eval.rs
index 7455be8..7879d6a 100644
--- a/crates/axmos-db/src/runtime/eval.rs
+++ b/crates/axmos-db/src/runtime/eval.rs
@@ -119,7 +119,7 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
                 Ok(vec![DataType::Bool(Bool(
-                    matches!(evaluated[0], DataType::Null) || *negated,
+                    matches!(evaluated[0], DataType::Null) != *negated,
                 ))])
             }
             BoundExpression::Between {
@@ -137,45 +137,54 @@ impl<'a> ExpressionEvaluator<'a> {
                     ));
                 };
 
-                Ok(vec![DataType::Bool(Bool(
-                    (inner[0] >= low[0] && inner[0] <= high[0]) || *negated,
-                ))])
+                let above = Self::compare(&low[0], &inner[0], |l, r| l <= r);
+                let below = Self::compare(&inner[0], &high[0], |l, r| l <= r);
+                let within = match (above, below) {
+                    (Some(false), _) | (_, Some(false)) => Some(false),
+                    (Some(true), Some(true)) => Some(true),
+                    _ => None,
+                };
+                Ok(vec![Self::truth_value(within, *negated)])
             }
             BoundExpression::Exists { query, negated } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries cannot be evaluated here".to_string(),
+                ))
             }
             BoundExpression::InList {
                 expr,
                 list,
                 negated,
             } => {
-                let mut set: HashSet<DataType> = HashSet::new();
-                for exp in list {
-                    let eval = self.evaluate(exp)?;
-                    for item in eval {
-                        set.insert(item);
-                    }
-                }
-
                 let evaluated = self.evaluate(expr)?;
-                if evaluated.len() > 1 {
+                if evaluated.len() != 1 {
                     return Err(EvaluationError::InvalidExpression(
                         "cannot apply unary operators to lists of values!".to_string(),
                     ));
                 };
-                Ok(vec![DataType::Bool(Bool(
-                    set.contains(&evaluated[0]) || *negated,
-                ))])
+
+                let mut items = Vec::new();
+                for exp in list {
+                    items.extend(self.evaluate(exp)?);
+                }
+                Ok(vec![Self::truth_value(
+                    Self::is_member(&evaluated[0], &items),
+                    *negated,
+                )])
             }
             BoundExpression::Subquery { query, result_type } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries cannot be evaluated here".to_string(),
+                ))
             }
             BoundExpression::InSubquery {
                 expr,
                 query,
                 negated,
             } => {
-                todo!("Subquery evaluation is not yet implemented")
+                Err(EvaluationError::InvalidExpression(
+                    "subqueries cannot be evaluated here".to_string(),
+                ))
             }
             BoundExpression::Function {
                 func,
@@ -188,6 +197,14 @@ impl<'a> ExpressionEvaluator<'a> {
                     let evaluated = self.evaluate(expr)?;
                     arg_list.extend(evaluated);
                 }
+
+                // All functions are strict, but those that are about NULLs.
+                if !matches!(func, ScalarFunction::Coalesce | ScalarFunction::NullIf)
+                    && arg_list.iter().any(DataType::is_null)
+                {
+                    return Ok(vec![DataType::Null]);
+                }
+
                 match func {
                     ScalarFunction::Abs => {
                         let result = Abs::call(arg_list)?;
@@ -269,7 +286,9 @@ impl<'a> ExpressionEvaluator<'a> {
                     }
                 }
             }
-            _ => unreachable!("Should not reach here when calling the evaluator"),
+            _ => Err(EvaluationError::InvalidExpression(
+                "expression cannot be evaluated here".to_string(),
+            )),
         }
     }
 
@@ -342,6 +361,96 @@ impl<'a> ExpressionEvaluator<'a> {
         Ok(DataType::Bool(Bool(result)))
     }
 
+    /// Compares two values. The result is unknown ([None]) if any of them is NULL.
+    fn compare(
+        left: &DataType,
+        right: &DataType,
+        test: fn(&DataType, &DataType) -> bool,
+    ) -> Option<bool> {
+        if left.is_null() || right.is_null() {
+            return None;
+        }
+        Some(test(left, right))
+    }
+
+    /// Whether the value is one of the items, in three-valued logic.
+    fn is_member(value: &DataType, items: &[DataType]) -> Option<bool> {
+        let mut unknown = false;
+        for item in items {
+            match Self::compare(value, item, |l, r| l == r) {
+                Some(true) => return Some(true),
+                Some(false) => {}
+                None => unknown = true,
+            }
+        }
+        if unknown { None } else { Some(false) }
+    }
+
+    /// Converts a three-valued truth value, or its negation, to a value.
+    fn truth_value(truth: Option<bool>, negated: bool) -> DataType {
+        match truth {
+            Some(truth) => DataType::Bool(Bool(truth != negated)),
+            None => DataType::Null,
+        }
+    }
+
+    /// Widens an integer value. Tells whether its type is unsigned too.
+    fn as_integer(value: &DataType) -> Option<(i128, bool)> {
+        match value {
+            DataType::Int(v) => Some((v.0 as i128, false)),
+            DataType::BigInt(v) => Some((v.0 as i128, false)),
+            DataType::UInt(v) => Some((v.0 as i128, true)),
+            DataType::BigUInt(v) => Some((v.0 as i128, true)),
+            _ => None,
+        }
+    }
+
+    /// The exact result of an integer operation, if it has one.
+    fn integer_arithmetic(op: BinaryOperator, left: i128, right: i128) -> Option<i128> {
+        match op {
+            BinaryOperator::Plus => left.checked_add(right),
+            BinaryOperator::Minus => left.checked_sub(right),
+            BinaryOperator::Multiply => left.checked_mul(right),
+            BinaryOperator::Divide => left.checked_div(right),
+            BinaryOperator::Modulo => left.checked_rem(right),
+            _ => None,
+        }
+    }
+
+    /// Arithmetic over the promoted types. Fails if the result does not exist or does not fit.
+    fn arithmetic(
+        op: BinaryOperator,
+        left: &DataType,
+        right: &DataType,
+    ) -> EvaluationResult<DataType> {
+        if let (Some((l, l_unsigned)), Some((r, r_unsigned))) =
+            (Self::as_integer(left), Self::as_integer(right))
+        {
+            let result = Self::integer_arithmetic(op, l, r);
+            let value = if l_unsigned && r_unsigned {
+                result
+                    .and_then(|v| u64::try_from(v).ok())
+                    .map(|v| DataType::BigUInt(v.into()))
+            } else {
+                result
+                    .and_then(|v| i64::try_from(v).ok())
+                    .map(|v| DataType::BigInt(v.into()))
+            };
+            return value.ok_or_else(|| {
+                EvaluationError::InvalidExpression(format!("{left} {op} {right} is out of range"))
+            });
+        }
+
+        let result = match op {
+            BinaryOperator::Plus => left.add(right),
+            BinaryOperator::Minus => left.sub(right),
+            BinaryOperator::Multiply => left.mul(right),
+            BinaryOperator::Divide => left.div(right),
+            _ => left.rem(right),
+        };
+        result.map_err(EvaluationError::from)
+    }
+
     fn string_like(
         str_lhs: &DataType,
         pattern: &DataType,
@@ -356,7 +465,7 @@ impl<'a> ExpressionEvaluator<'a> {
 
         // Convert back to Blob and wrap as Text
         Ok(DataType::Bool(Bool(
-            !negated && lhs_blob.like(pattern_blob.as_str()?)?,
+            negated != lhs_blob.like(pattern_blob.as_str()?)?,
         )))
     }
 
@@ -444,20 +553,12 @@ impl<'a> ExpressionEvaluator<'a> {
                 }
 
                 // Arithmetic operators use promoted operations (see the type system module for details)
-                BinaryOperator::Plus => {
-                    Ok(vec![left[0].add(&right[0]).map_err(EvaluationError::from)?])
-                }
-                BinaryOperator::Minus => {
-                    Ok(vec![left[0].sub(&right[0]).map_err(EvaluationError::from)?])
-                }
-                BinaryOperator::Multiply => {
-                    Ok(vec![left[0].mul(&right[0]).map_err(EvaluationError::from)?])
-                }
-                BinaryOperator::Divide => {
-                    Ok(vec![left[0].div(&right[0]).map_err(EvaluationError::from)?])
-                }
-                BinaryOperator::Modulo => {
-                    Ok(vec![left[0].rem(&right[0]).map_err(EvaluationError::from)?])
+                BinaryOperator::Plus
+                | BinaryOperator::Minus
+                | BinaryOperator::Multiply
+                | BinaryOperator::Divide
+                | BinaryOperator::Modulo => {
+                    Ok(vec![Self::arithmetic(bin_op, &left[0], &right[0])?])
                 }
 
                 // String operators
@@ -476,11 +577,11 @@ impl<'a> ExpressionEvaluator<'a> {
             }
         } else if right.len() > 1 {
             match bin_op {
-                BinaryOperator::In => {
-                    return Ok(vec![DataType::Bool(Bool(right.contains(&left[0])))]);
-                }
-                BinaryOperator::NotIn => {
-                    return Ok(vec![DataType::Bool(Bool(!right.contains(&left[0])))]);
+                BinaryOperator::In | BinaryOperator::NotIn if left.len() == 1 => {
+                    return Ok(vec![Self::truth_value(
+                        Self::is_member(&left[0], &right),
+                        bin_op == BinaryOperator::NotIn,
+                    )]);
                 }
                 _ => Err(EvaluationError::InvalidExpression(
                     "only in and not in operators can be applied to lists".to_string(),
@@ -511,8 +612,16 @@ impl<'a> ExpressionEvaluator<'a> {
                 )),
             },
             UnaryOperator::Minus => match operand {
-                DataType::BigInt(i) => Ok(DataType::BigInt((-i.0).into())),
-                DataType::Int(i) => Ok(DataType::Int((-i.0).into())),
+                DataType::BigInt(i) => i
+                    .0
+                    .checked_neg()
+                    .map(|v| DataType::BigInt(v.into()))
+                    .ok_or_else(|| EvaluationError::InvalidExpression(format!("-({i}) is out of range"))),
+                DataType::Int(i) => i
+                    .0
+                    .checked_neg()
+                    .map(|v| DataType::Int(v.into()))
+                    .ok_or_else(|| EvaluationError::InvalidExpression(format!("-({i}) is out of range"))),
                 DataType::Double(f) => Ok(DataType::Double((-f.0).into())),
                 DataType::Float(f) => Ok(DataType::Float((-f.0).into())),
                 _ => Err(EvaluationError::TypeError(
@@ -537,6 +646,13 @@ impl Callable for Abs {
         };
 
         let first = &args[0];
+        if matches!(first, DataType::Int(v) if v.0 == i32::MIN)
+            || matches!(first, DataType::BigInt(v) if v.0 == i64::MIN)
+        {
+            return Err(EvaluationError::InvalidExpression(format!(
+                "ABS({first}) is out of range"
+            )));
+        }
         Ok(first.abs())
     }
 }
@@ -644,18 +760,11 @@ struct NullIf;
 
 impl Callable for NullIf {
     fn call(args: Vec<DataType>) -> EvaluationResult<DataType> {
-        if args.len() != 1 || !matches!(args[1], DataType::Bool(_)) {
+        if args.len() != 2 {
             return Err(EvaluationError::InvalidArguments(ScalarFunction::NullIf));
         };
 
-        let condition = args[1]
-            .as_bool()
-            .ok_or(EvaluationError::TypeError(
-                TypeSystemError::UnexpectedDataType(args[1].kind()),
-            ))?
-            .value();
-
-        if condition {
+        if !args[0].is_null() && args[0] == args[1] {
             return Ok(DataType::Null);
         }
         Ok(args[0].clone())
-- 
2.43.0


From 8a022be97da3942c60d7c0efb39a29209b58d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 14/43] fix: NOT binds tighter than AND; trailing input is
 rejected; nesting is bounded

---
 crates/axmos-db/src/sql/parser/lexer.rs | 20 ++++++++---
 crates/axmos-db/src/sql/parser/mod.rs   | 46 +++++++++++++++++++++++--
 2 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index e4bfb20..881e62d 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -321,9 +321,18 @@ impl Lexer {
     /// If the next char is a [DOUBLE_QUOTE] tries to interpret anything until the next  [DOUBLE_QUOTE] as an identifier.
     /// Single-char tokens are pretty easy to peek any other way.
     pub fn next_token(&mut self) -> Token {
+        // Comments and characters that start no token are skipped.
+        loop {
+            if let Some(token) = self.scan_token() {
+                return token;
+            }
+        }
+    }
+
+    fn scan_token(&mut self) -> Option<Token> {
         self.skip_whitespace();
 
-        match self.current_char {
+        let token = match self.current_char {
             None => Token::Eof,
             Some(ESCAPE_QUOTE) => Token::StringLiteral(self.read_string()),
             Some(DOUBLE_QUOTE) => {
@@ -419,7 +428,7 @@ impl Lexer {
                         }
                         self.advance();
                     }
-                    self.next_token()
+                    return None;
                 } else {
                     Token::Minus
                 }
@@ -439,14 +448,15 @@ impl Lexer {
                     Token::Concat
                 } else {
                     // Single | is not a valid SQL operator, treat as unknown
-                    self.next_token()
+                    return None;
                 }
             }
             _ => {
                 self.advance();
-                self.next_token()
+                return None;
             }
-        }
+        };
+        Some(token)
     }
 
     /// Peek the next token, without advancing the cursor.
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index a404639..47b70af 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -39,8 +39,13 @@ pub type ParseResult<T> = Result<T, ParserError>;
 pub struct Parser {
     lexer: Lexer,
     current_token: Token,
+    depth: usize,
 }
 
+/// Deepest expression or subquery nesting the parser accepts. Every level costs stack in the parser and
+/// in everything that walks the tree afterwards, and running out of stack takes the whole process down.
+const MAX_NESTING: usize = 128;
+
 impl Parser {
     pub fn new(sql: &str) -> Self {
         let mut lexer = Lexer::new(sql);
@@ -48,6 +53,7 @@ impl Parser {
         Parser {
             lexer,
             current_token,
+            depth: 0,
         }
     }
 
@@ -88,19 +94,42 @@ impl Parser {
     /// Obtains the expression binding power using a Pratt Parsing approach.
     /// I recommend this read on Pratt Parsing: https://matklad.github.io/2020/04/13/simple-but-powerful-pratt-parsing.html
     fn parse_expr_bp(&mut self, min_bp: u8) -> ParseResult<Expr> {
+        self.enter()?;
         let mut lhs = self.parse_prefix()?;
 
+        // Each operator of a chain puts one more level on top of what was parsed so far.
+        let mut chain = 0;
         while let Some((l_bp, r_bp)) = self.infix_binding_power() {
             if l_bp < min_bp {
                 break;
             }
 
+            chain += 1;
+            if self.depth + chain > MAX_NESTING {
+                return Err(Self::nested_too_deeply());
+            }
             lhs = self.parse_infix(lhs, r_bp)?;
         }
 
+        self.depth -= 1;
         Ok(lhs)
     }
 
+    /// Counts one more level of nesting.
+    fn enter(&mut self) -> ParseResult<()> {
+        if self.depth >= MAX_NESTING {
+            return Err(Self::nested_too_deeply());
+        }
+        self.depth += 1;
+        Ok(())
+    }
+
+    fn nested_too_deeply() -> ParserError {
+        ParserError::InvalidExpression(format!(
+            "nested deeper than {MAX_NESTING} levels"
+        ))
+    }
+
     /// Given the current token, obtains the parsed prefix of the expression.
     fn parse_prefix(&mut self) -> ParseResult<Expr> {
         match &self.current_token {
@@ -249,12 +278,13 @@ impl Parser {
             // Token::Or => Some((1, 2)),
             // Token::And => Some((3, 4)),
             // ´´´
-            // By giving here the NOT operator a precedence of three, we are making sur it binds tighter than  AND & OR,
+            // By giving here the NOT operator a precedence of four (the right binding power of AND), we are making sure
+            // it binds tighter than AND & OR,
             // but looselier than +, - , * an unary operators.
             // This way, the expression: [NOT a AND b OR c], will be parsed as: (OR (AND (NOT a) b) c)
             Token::Not => {
                 self.next_token();
-                let expr = self.parse_expr_bp(3)?; // NOT precedence
+                let expr = self.parse_expr_bp(4)?; // NOT precedence
                 Ok(Expr::UnaryOp {
                     op: UnaryOperator::Not,
                     expr: Box::new(expr),
@@ -558,7 +588,17 @@ impl Parser {
         Ok(identifiers)
     }
 
+    /// Parses one statement, which must be the whole input up to an optional semicolon.
     pub fn parse(&mut self) -> ParseResult<Statement> {
+        let statement = self.parse_statement()?;
+        self.consume_if(&Token::Semicolon);
+        if self.current_token != Token::Eof {
+            return Err(ParserError::UnexpectedToken(self.current_token.to_string()));
+        }
+        Ok(statement)
+    }
+
+    fn parse_statement(&mut self) -> ParseResult<Statement> {
         match &self.current_token {
             Token::With => Ok(Statement::With(self.parse_with_statement()?)),
             Token::Select => Ok(Statement::Select(self.parse_select_statement()?)),
@@ -1172,6 +1212,7 @@ impl Parser {
     /// LIMIT n;
     /// ```
     fn parse_select_statement(&mut self) -> ParseResult<SelectStatement> {
+        self.enter()?;
         self.expect(Token::Select)?;
 
         let distinct = self.consume_if(&Token::Distinct);
@@ -1261,6 +1302,7 @@ impl Parser {
             None
         };
 
+        self.depth -= 1;
         Ok(SelectStatement {
             distinct,
             columns,
-- 
2.43.0


From deaeef609c0f307f220b13a5e228d401fa7ec92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 15/43] fix: plan rewrites keep column order, conditions and
 the identity of expressions

---
 crates/axmos-db/src/sql/planner/logical.rs |   3 +
 crates/axmos-db/src/sql/planner/memo.rs    |  58 +--
 crates/axmos-db/src/sql/planner/mod.rs     |   7 +-
 crates/axmos-db/src/sql/planner/rules.rs   | 508 +++++++++------------
 4 files changed, 233 insertions(+), 343 deletions(-)

diff --git a/crates/axmos-db/src/sql/planner/logical.rs b/crates/axmos-db/src/sql/planner/logical.rs
index b1c9739..ac1e3e1 100644
--- a/crates/axmos-db/src/sql/planner/logical.rs
+++ b/crates/axmos-db/src/sql/planner/logical.rs
@@ -268,6 +268,8 @@ pub struct JoinOp {
     pub left_schema: Schema,
     pub right_schema: Schema,
     pub output_schema: Schema,
+    /// Set on the joins made by swapping the inputs of another one.
+    pub swapped: bool,
 }
 
 impl JoinOp {
@@ -284,6 +286,7 @@ impl JoinOp {
             left_schema,
             right_schema,
             output_schema,
+            swapped: false,
         }
     }
 
diff --git a/crates/axmos-db/src/sql/planner/memo.rs b/crates/axmos-db/src/sql/planner/memo.rs
index 4617d12..058c540 100644
--- a/crates/axmos-db/src/sql/planner/memo.rs
+++ b/crates/axmos-db/src/sql/planner/memo.rs
@@ -214,61 +214,11 @@ impl Memo {
     }
 
     /// Hashes operator-specific data for deduplication.
+    ///
+    /// Everything an operator does is part of it: two filters over one input, or two projections of the
+    /// same width, are different expressions.
     fn hash_operator(&self, op: &LogicalOperator, hasher: &mut DefaultHasher) {
-        match op {
-            LogicalOperator::TableScan(scan) => {
-                scan.table_id.hash(hasher);
-                scan.table_name.hash(hasher);
-                scan.columns.hash(hasher);
-                // Note: predicate not hashed (structural comparison would be complex)
-            }
-            LogicalOperator::IndexScan(scan) => {
-                scan.table_id.hash(hasher);
-                scan.index_id.hash(hasher);
-                scan.index_columns.hash(hasher);
-            }
-            LogicalOperator::Project(proj) => {
-                proj.expressions.len().hash(hasher);
-                proj.output_schema.num_columns().hash(hasher);
-            }
-            LogicalOperator::Join(join) => {
-                std::mem::discriminant(&join.join_type).hash(hasher);
-            }
-            LogicalOperator::Aggregate(agg) => {
-                agg.group_by.len().hash(hasher);
-                agg.aggregates.len().hash(hasher);
-            }
-            LogicalOperator::Sort(sort) => {
-                sort.order_by.len().hash(hasher);
-            }
-            LogicalOperator::Limit(limit) => {
-                limit.limit.hash(hasher);
-                limit.offset.hash(hasher);
-            }
-            LogicalOperator::Insert(ins) => {
-                ins.table_id.hash(hasher);
-                ins.columns.hash(hasher);
-            }
-            LogicalOperator::Update(upd) => {
-                upd.table_id.hash(hasher);
-                upd.assignments.len().hash(hasher);
-            }
-            LogicalOperator::Delete(del) => {
-                del.table_id.hash(hasher);
-            }
-            LogicalOperator::Values(vals) => {
-                vals.rows.len().hash(hasher);
-                if let Some(first) = vals.rows.first() {
-                    first.len().hash(hasher);
-                }
-            }
-            LogicalOperator::Empty(_)
-            | LogicalOperator::Distinct(_)
-            | LogicalOperator::Filter(_)
-            | LogicalOperator::Materialize(_) => {
-                // These are determined by their children
-            }
-        }
+        format!("{op:?}").hash(hasher);
     }
 }
 
diff --git a/crates/axmos-db/src/sql/planner/mod.rs b/crates/axmos-db/src/sql/planner/mod.rs
index 7e3977e..a6b2c5e 100644
--- a/crates/axmos-db/src/sql/planner/mod.rs
+++ b/crates/axmos-db/src/sql/planner/mod.rs
@@ -355,8 +355,11 @@ impl<'a> CascadesOptimizer<'a> {
             cost: best_cost.unwrap(),
         });
 
-        if let Some(group) = memo.get_group_mut(group_id) {
-            group.set_winner(required.clone(), winner);
+        // Finding none within the cost limit does not mean that there is none.
+        if winner.is_some() || upper_bound >= self.config.upper_bound {
+            if let Some(group) = memo.get_group_mut(group_id) {
+                group.set_winner(required.clone(), winner);
+            }
         }
 
         Ok(best_cost)
diff --git a/crates/axmos-db/src/sql/planner/rules.rs b/crates/axmos-db/src/sql/planner/rules.rs
index c5986e8..07477c4 100644
--- a/crates/axmos-db/src/sql/planner/rules.rs
+++ b/crates/axmos-db/src/sql/planner/rules.rs
@@ -14,7 +14,11 @@ use crate::{
 };
 
 use super::{
-    PlannerError, PlannerResult, logical::*, memo::Memo, physical::*, prop::RequiredProperties,
+    PlannerError, PlannerResult,
+    logical::*,
+    memo::Memo,
+    physical::*,
+    prop::{LogicalProperties, RequiredProperties},
 };
 
 /// Base trait for all rules.
@@ -77,119 +81,100 @@ pub fn implementation_rules() -> Vec<Box<dyn ImplementationRule>> {
 
 // Helper functions
 
-/// Swaps left/right in a join condition.
-fn swap_join_condition(cond: &BoundExpression) -> BoundExpression {
-    match cond {
+/// Rewrites every column reference of an expression.
+///
+/// Returns `None` when `map` rejects a column or when the expression contains something whose column
+/// references cannot be rewritten from the outside (subqueries).
+fn map_columns(
+    expr: &BoundExpression,
+    map: &mut dyn FnMut(usize) -> Option<usize>,
+) -> Option<BoundExpression> {
+    let mut list = |exprs: &[BoundExpression]| -> Option<Vec<BoundExpression>> {
+        exprs.iter().map(|e| map_columns(e, map)).collect()
+    };
+
+    Some(match expr {
+        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
+            column_idx: map(c.column_idx)?,
+            ..*c
+        }),
+        BoundExpression::Literal { .. } => expr.clone(),
         BoundExpression::BinaryOp {
             left,
             op,
             right,
             result_type,
-        } => {
-            let swapped_op = match op {
-                BinaryOperator::Eq => BinaryOperator::Eq,
-                BinaryOperator::Lt => BinaryOperator::Gt,
-                BinaryOperator::Gt => BinaryOperator::Lt,
-                BinaryOperator::Le => BinaryOperator::Ge,
-                BinaryOperator::Ge => BinaryOperator::Le,
-                BinaryOperator::And => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::And,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                BinaryOperator::Or => {
-                    return BoundExpression::BinaryOp {
-                        left: Box::new(swap_join_condition(left)),
-                        op: BinaryOperator::Or,
-                        right: Box::new(swap_join_condition(right)),
-                        result_type: *result_type,
-                    };
-                }
-                _ => *op,
-            };
-            BoundExpression::BinaryOp {
-                left: right.clone(),
-                op: swapped_op,
-                right: left.clone(),
-                result_type: *result_type,
-            }
-        }
-        _ => cond.clone(),
-    }
-}
-
-/// Shifts column indices by offset.
-fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            let new_idx = c.column_idx as i32 + offset;
-            if new_idx < 0 {
-                None
-            } else {
-                Some(BoundExpression::ColumnBinding(Binding {
-                    column_idx: new_idx as usize,
-                    ..*c
-                }))
-            }
-        }
-        BoundExpression::BinaryOp {
-            left,
+        } => BoundExpression::BinaryOp {
+            left: Box::new(map_columns(left, map)?),
+            op: *op,
+            right: Box::new(map_columns(right, map)?),
+            result_type: *result_type,
+        },
+        BoundExpression::UnaryOp {
             op,
-            right,
+            expr,
             result_type,
-        } => Some(BoundExpression::BinaryOp {
-            left: Box::new(shift_columns(left, offset)?),
+        } => BoundExpression::UnaryOp {
             op: *op,
-            right: Box::new(shift_columns(right, offset)?),
+            expr: Box::new(map_columns(expr, map)?),
             result_type: *result_type,
-        }),
-        BoundExpression::Literal { .. } => Some(expr.clone()),
-        _ => Some(expr.clone()),
-    }
-}
-
-/// Checks if all columns in expr have index >= min.
-fn all_columns_ge(expr: &BoundExpression, min: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= min,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            all_columns_ge(left, min) && all_columns_ge(right, min)
-        }
-        BoundExpression::Literal { .. } => true,
-        _ => true,
-    }
+        },
+        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
+            expr: Box::new(map_columns(expr, map)?),
+            negated: *negated,
+        },
+        BoundExpression::InList {
+            expr,
+            list: items,
+            negated,
+        } => BoundExpression::InList {
+            list: list(items)?,
+            expr: Box::new(map_columns(expr, map)?),
+            negated: *negated,
+        },
+        BoundExpression::Between {
+            expr,
+            low,
+            high,
+            negated,
+        } => BoundExpression::Between {
+            expr: Box::new(map_columns(expr, map)?),
+            low: Box::new(map_columns(low, map)?),
+            high: Box::new(map_columns(high, map)?),
+            negated: *negated,
+        },
+        BoundExpression::Function {
+            func,
+            args,
+            distinct,
+            return_type,
+        } => BoundExpression::Function {
+            func: func.clone(),
+            args: list(args)?,
+            distinct: *distinct,
+            return_type: *return_type,
+        },
+        _ => return None,
+    })
 }
 
-/// Checks if any column in expr is in range [start, end).
-fn any_column_in_range(expr: &BoundExpression, start: usize, end: usize) -> bool {
-    match expr {
-        BoundExpression::ColumnBinding(c) => c.column_idx >= start && c.column_idx < end,
-        BoundExpression::BinaryOp { left, right, .. } => {
-            any_column_in_range(left, start, end) || any_column_in_range(right, start, end)
-        }
-        _ => false,
-    }
+/// The columns an expression refers to, or `None` if they cannot be told.
+fn columns_of(expr: &BoundExpression) -> Option<Vec<usize>> {
+    let mut columns = Vec::new();
+    map_columns(expr, &mut |c| {
+        columns.push(c);
+        Some(c)
+    })?;
+    Some(columns)
 }
 
-/// Combines predicates with AND.
-fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
-    preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
-        left: Box::new(a),
-        op: BinaryOperator::And,
-        right: Box::new(b),
-        result_type: DataTypeKind::Bool,
-    })
+/// Shifts column indices by offset.
+fn shift_columns(expr: &BoundExpression, offset: i32) -> Option<BoundExpression> {
+    map_columns(expr, &mut |c| usize::try_from(c as i64 + offset as i64).ok())
 }
 
-/// Collects predicates for columns >= offset.
-fn collect_predicates_for_range(
-    expr: &BoundExpression,
-    offset: usize,
-    out: &mut Vec<BoundExpression>,
-) {
+/// Splits a condition into the predicates it is the conjunction of.
+fn split_conjunction(expr: &BoundExpression, out: &mut Vec<BoundExpression>) {
     match expr {
         BoundExpression::BinaryOp {
             op: BinaryOperator::And,
@@ -197,77 +182,46 @@ fn collect_predicates_for_range(
             right,
             ..
         } => {
-            collect_predicates_for_range(left, offset, out);
-            collect_predicates_for_range(right, offset, out);
-        }
-        _ => {
-            if all_columns_ge(expr, offset) {
-                if let Some(s) = shift_columns(expr, -(offset as i32)) {
-                    out.push(s);
-                }
-            }
+            split_conjunction(left, out);
+            split_conjunction(right, out);
         }
+        _ => out.push(expr.clone()),
     }
 }
 
-/// Collects predicates involving columns in range [start, end).
-fn collect_predicates_involving_range(
-    expr: &BoundExpression,
-    start: usize,
-    end: usize,
-    out: &mut Vec<BoundExpression>,
-) {
-    match expr {
-        BoundExpression::BinaryOp {
-            op: BinaryOperator::And,
-            left,
-            right,
-            ..
-        } => {
-            collect_predicates_involving_range(left, start, end, out);
-            collect_predicates_involving_range(right, start, end, out);
-        }
-        _ => {
-            if any_column_in_range(expr, start, end) {
-                out.push(expr.clone());
-            }
-        }
-    }
+/// Combines predicates with AND.
+fn combine_predicates(preds: Vec<BoundExpression>) -> Option<BoundExpression> {
+    preds.into_iter().reduce(|a, b| BoundExpression::BinaryOp {
+        left: Box::new(a),
+        op: BinaryOperator::And,
+        right: Box::new(b),
+        result_type: DataTypeKind::Bool,
+    })
 }
 
-/// Extracts the B⋈C condition for associativity transform.
-fn extract_bc_condition(
+/// Distributes the conditions of (A⋈B)⋈C over A⋈(B⋈C).
+///
+/// Predicates that use no column of A go to the inner join (with their columns shifted accordingly), all
+/// others stay on the outer one, whose columns keep their positions.
+fn split_associative_condition(
     outer: &Option<BoundExpression>,
     inner: &Option<BoundExpression>,
     a_cols: usize,
-    b_cols: usize,
-) -> Option<BoundExpression> {
+) -> (Option<BoundExpression>, Option<BoundExpression>) {
     let mut preds = Vec::new();
-    if let Some(c) = outer {
-        collect_predicates_for_range(c, a_cols, &mut preds);
-    }
-    if let Some(c) = inner {
-        if let Some(s) = shift_columns(c, -(a_cols as i32)) {
-            preds.push(s);
-        }
+    for condition in [inner, outer].into_iter().flatten() {
+        split_conjunction(condition, &mut preds);
     }
-    combine_predicates(preds)
-}
 
-/// Extracts the A condition for associativity transform.
-fn extract_a_condition(
-    outer: &Option<BoundExpression>,
-    inner: &Option<BoundExpression>,
-    a_cols: usize,
-) -> Option<BoundExpression> {
-    let mut preds = Vec::new();
-    if let Some(c) = inner {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
-    }
-    if let Some(c) = outer {
-        collect_predicates_involving_range(c, 0, a_cols, &mut preds);
+    let mut a_preds = Vec::new();
+    let mut bc_preds = Vec::new();
+    for pred in preds {
+        match shift_columns(&pred, -(a_cols as i32)) {
+            Some(shifted) => bc_preds.push(shifted),
+            None => a_preds.push(pred),
+        }
     }
-    combine_predicates(preds)
+    (combine_predicates(a_preds), combine_predicates(bc_preds))
 }
 
 /// Classifies a predicate into left-only, right-only, or join predicates.
@@ -303,76 +257,18 @@ fn classify_predicates(
 
 /// Checks if expression uses left/right columns.
 fn check_column_usage(expr: &BoundExpression, left_cols: usize) -> (bool, bool) {
-    match expr {
-        BoundExpression::ColumnBinding(c) => {
-            if c.column_idx < left_cols {
-                (true, false)
-            } else {
-                (false, true)
-            }
-        }
-        BoundExpression::BinaryOp { left, right, .. } => {
-            let (l1, r1) = check_column_usage(left, left_cols);
-            let (l2, r2) = check_column_usage(right, left_cols);
-            (l1 || l2, r1 || r2)
-        }
-        BoundExpression::UnaryOp { expr, .. } | BoundExpression::IsNull { expr, .. } => {
-            check_column_usage(expr, left_cols)
-        }
-        BoundExpression::InList { expr, list, .. } => {
-            let (mut l, mut r) = check_column_usage(expr, left_cols);
-            for i in list {
-                let (l2, r2) = check_column_usage(i, left_cols);
-                l = l || l2;
-                r = r || r2;
-            }
-            (l, r)
-        }
-        BoundExpression::Between {
-            expr, low, high, ..
-        } => {
-            let (l1, r1) = check_column_usage(expr, left_cols);
-            let (l2, r2) = check_column_usage(low, left_cols);
-            let (l3, r3) = check_column_usage(high, left_cols);
-            (l1 || l2 || l3, r1 || r2 || r3)
-        }
-        _ => (false, false),
+    match columns_of(expr) {
+        Some(columns) => (
+            columns.iter().any(|&c| c < left_cols),
+            columns.iter().any(|&c| c >= left_cols),
+        ),
+        None => (true, true),
     }
 }
 
 /// Rewrites column references using a mapping.
-fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> BoundExpression {
-    match expr {
-        BoundExpression::ColumnBinding(c) => BoundExpression::ColumnBinding(Binding {
-            column_idx: mapping.get(c.column_idx).copied().unwrap_or(c.column_idx),
-            ..*c
-        }),
-        BoundExpression::BinaryOp {
-            left,
-            op,
-            right,
-            result_type,
-        } => BoundExpression::BinaryOp {
-            left: Box::new(rewrite_with_mapping(left, mapping)),
-            op: *op,
-            right: Box::new(rewrite_with_mapping(right, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::UnaryOp {
-            op,
-            expr,
-            result_type,
-        } => BoundExpression::UnaryOp {
-            op: *op,
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            result_type: *result_type,
-        },
-        BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
-            expr: Box::new(rewrite_with_mapping(expr, mapping)),
-            negated: *negated,
-        },
-        _ => expr.clone(),
-    }
+fn rewrite_with_mapping(expr: &BoundExpression, mapping: &[usize]) -> Option<BoundExpression> {
+    map_columns(expr, &mut |c| mapping.get(c).copied())
 }
 
 /// Creates a column reference expression.
@@ -409,11 +305,12 @@ impl TransformationRule for JoinCommutativityRule {
     fn matches(&self, expr: &LogicalExpr, _memo: &Memo) -> bool {
         matches!(
             &expr.op,
-            LogicalOperator::Join(j) if j.join_type == JoinType::Inner || j.join_type == JoinType::Cross
+            LogicalOperator::Join(j)
+                if !j.swapped && (j.join_type == JoinType::Inner || j.join_type == JoinType::Cross)
         )
     }
 
-    fn apply(&self, expr: &LogicalExpr, _memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
+    fn apply(&self, expr: &LogicalExpr, memo: &mut Memo) -> PlannerResult<Vec<LogicalExpr>> {
         let LogicalOperator::Join(join) = &expr.op else {
             return Ok(vec![]);
         };
@@ -421,20 +318,59 @@ impl TransformationRule for JoinCommutativityRule {
             return Ok(vec![]);
         }
 
-        let swapped_cond = join.condition.as_ref().map(swap_join_condition);
-        let new_join = JoinOp::new(
+        let left_cols = join.left_schema.num_columns();
+        let right_cols = join.right_schema.num_columns();
+
+        // Position in the rows of the swapped join of each column of this one.
+        let swapped_position = |c: usize| {
+            if c < left_cols {
+                right_cols + c
+            } else {
+                c - left_cols
+            }
+        };
+
+        let swapped_cond = match &join.condition {
+            Some(cond) => match map_columns(cond, &mut |c| Some(swapped_position(c))) {
+                Some(cond) => Some(cond),
+                None => return Ok(vec![]),
+            },
+            None => None,
+        };
+        let mut swapped = JoinOp::new(
             join.join_type,
             swapped_cond,
             join.right_schema.clone(),
             join.left_schema.clone(),
         );
+        swapped.swapped = true;
+        let swapped_schema = swapped.output_schema.clone();
 
-        Ok(vec![
+        let swapped_group = memo.insert_logical_expr(
             LogicalExpr::new(
-                LogicalOperator::Join(new_join),
+                LogicalOperator::Join(swapped),
                 vec![expr.children[1], expr.children[0]],
             )
-            .with_properties(expr.properties.clone()),
+            .with_properties(LogicalProperties {
+                schema: swapped_schema.clone(),
+                cardinality: expr.properties.cardinality,
+                avg_row_size: expr.properties.avg_row_size,
+                ..LogicalProperties::default()
+            }),
+        );
+
+        // The rows of this group have the left columns first.
+        let expressions = (0..left_cols + right_cols)
+            .map(|c| ProjectExpr {
+                expr: create_column_ref(swapped_position(c), &swapped_schema),
+                alias: None,
+            })
+            .collect();
+        let restore = ProjectOp::new(expressions, swapped_schema, join.output_schema.clone());
+
+        Ok(vec![
+            LogicalExpr::new(LogicalOperator::Project(restore), vec![swapped_group])
+                .with_properties(expr.properties.clone()),
         ])
     }
 }
@@ -496,45 +432,31 @@ impl TransformationRule for JoinAssociativityRule {
         let a_group = left_expr.children[0];
         let b_group = left_expr.children[1];
 
-        let a_props = memo
-            .get_group(a_group)
-            .map(|g| g.logical_props.clone())
-            .unwrap_or_default();
-        let b_props = memo
-            .get_group(b_group)
-            .map(|g| g.logical_props.clone())
-            .unwrap_or_default();
-        let c_props = memo
-            .get_group(c_group)
-            .map(|g| g.logical_props.clone())
-            .unwrap_or_default();
-
-        let a_cols = a_props.schema.num_columns();
-        let b_cols = b_props.schema.num_columns();
+        let a_schema = inner.left_schema.clone();
+        let (a_cond, bc_cond) = split_associative_condition(
+            &outer.condition,
+            &inner.condition,
+            a_schema.num_columns(),
+        );
 
         // Build B⋈C
-        let bc_expr = {
-            let bc_cond = extract_bc_condition(&outer.condition, &inner.condition, a_cols, b_cols);
-            let bc_join = JoinOp::new(
-                JoinType::Inner,
-                bc_cond,
-                b_props.schema.clone(),
-                c_props.schema.clone(),
-            );
+        let bc_join = JoinOp::new(
+            JoinType::Inner,
+            bc_cond,
+            inner.right_schema.clone(),
+            outer.right_schema.clone(),
+        );
+        let bc_schema = bc_join.output_schema.clone();
+        let bc_group = memo.insert_logical_expr(
             LogicalExpr::new(LogicalOperator::Join(bc_join), vec![b_group, c_group])
-        };
-
-        let a_cond = extract_a_condition(&outer.condition, &inner.condition, a_cols);
-
-        let bc_group = memo.insert_logical_expr(bc_expr);
+                .with_properties(LogicalProperties {
+                    schema: bc_schema.clone(),
+                    ..LogicalProperties::default()
+                }),
+        );
 
         // Build A⋈(B⋈C)
-        let bc_schema = memo
-            .get_group(bc_group)
-            .map(|g| g.logical_props.schema.clone())
-            .ok_or(PlannerError::InvalidState)?;
-
-        let a_bc_join = JoinOp::new(JoinType::Inner, a_cond, a_props.schema.clone(), bc_schema);
+        let a_bc_join = JoinOp::new(JoinType::Inner, a_cond, a_schema, bc_schema);
 
         Ok(vec![
             LogicalExpr::new(LogicalOperator::Join(a_bc_join), vec![a_group, bc_group])
@@ -694,10 +616,13 @@ impl TransformationRule for FilterPushdownJoinRule {
 
         // Push right predicates (shift indices)
         let new_right = if !right_preds.is_empty() {
-            let shifted: Vec<_> = right_preds
-                .into_iter()
-                .filter_map(|p| shift_columns(&p, -(left_cols as i32)))
-                .collect();
+            let Some(shifted) = right_preds
+                .iter()
+                .map(|p| shift_columns(p, -(left_cols as i32)))
+                .collect::<Option<Vec<_>>>()
+            else {
+                return Ok(vec![]);
+            };
             if let Some(pred) = combine_predicates(shifted) {
                 let f = FilterOp::new(pred, right_schema.clone());
                 memo.insert_logical_expr(LogicalExpr::new(
@@ -785,7 +710,9 @@ impl TransformationRule for FilterPushdownProjectRule {
             }
         }
 
-        let new_pred = rewrite_with_mapping(&filter.predicate, &mapping);
+        let Some(new_pred) = rewrite_with_mapping(&filter.predicate, &mapping) else {
+            return Ok(vec![]);
+        };
         let new_filter = FilterOp::new(new_pred, project_input_schema.clone());
 
         let filter_group = memo.insert_logical_expr(LogicalExpr::new(
@@ -969,22 +896,30 @@ impl ImplementationRule for JoinRule {
 
         // Hash join and Merge join are available for equi-joins
         if join.is_equi_join() {
-            let keys = join.extract_equi_keys();
-            if !keys.is_empty() {
-                let left_cols = join.left_schema.num_columns();
+            let left_cols = join.left_schema.num_columns();
 
-                // Create key expressions for left and right sides
-                // Note: extract_equi_keys returns indices in the combined output schema
-                // Left keys are already correct (0..left_cols)
-                // Right keys need to be adjusted by subtracting left_cols
+            // extract_equi_keys returns indices in the combined output schema, in the order they were
+            // written. Turn each pair into a column of the left and a column of the right input; pairs
+            // within one input, or of types that do not hash and order alike, are left to the nested loop.
+            let keys = join
+                .extract_equi_keys()
+                .into_iter()
+                .map(|(x, y)| {
+                    let (l, r) = (x.min(y), x.max(y));
+                    let r = r.checked_sub(left_cols).filter(|_| l < left_cols)?;
+                    let left_type = join.left_schema.column(l)?.datatype();
+                    let right_type = join.right_schema.column(r)?.datatype();
+                    (left_type == right_type).then_some((l, r))
+                })
+                .collect::<Option<Vec<_>>>()
+                .unwrap_or_default();
+            if !keys.is_empty() {
                 let (left_keys, right_keys): (Vec<_>, Vec<_>) = keys
                     .iter()
                     .map(|(l, r)| {
-                        // r is the index in the combined schema, convert to right-side index
-                        let right_idx = r.saturating_sub(left_cols);
                         (
                             create_column_ref(*l, &join.left_schema),
-                            create_column_ref(right_idx, &join.right_schema),
+                            create_column_ref(*r, &join.right_schema),
                         )
                     })
                     .unzip();
@@ -1001,19 +936,18 @@ impl ImplementationRule for JoinRule {
                     expr.children.clone(),
                 ));
 
+                // The merge join does not keep the right rows that found no match.
+                if !matches!(join.join_type, JoinType::Inner | JoinType::Left) {
+                    return Ok(impls);
+                }
+
                 // Merge join
                 // left_ordering uses indices relative to left schema (child 0)
                 // right_ordering uses indices relative to right schema (child 1)
                 let left_ordering: Vec<_> =
                     keys.iter().map(|(l, _)| OrderingSpec::asc(*l)).collect();
-                let right_ordering: Vec<_> = keys
-                    .iter()
-                    .map(|(_, r)| {
-                        // r is in combined schema, convert to right-side index
-                        let right_idx = r.saturating_sub(left_cols);
-                        OrderingSpec::asc(right_idx)
-                    })
-                    .collect();
+                let right_ordering: Vec<_> =
+                    keys.iter().map(|(_, r)| OrderingSpec::asc(*r)).collect();
                 let output_ordering: Vec<_> = left_keys.iter().map(|e| (e.clone(), true)).collect();
 
                 let mut merge_expr = PhysicalExpr::new(
-- 
2.43.0


From 3be4d1ff084403eed9b81b7a196351c553e06d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 16/43] fix: joins on NULL keys and outer joins of empty inputs

---
 crates/axmos-db/src/runtime/ops/join.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/join.rs b/crates/axmos-db/src/runtime/ops/join.rs
index 752ddcf..7ebf556 100644
--- a/crates/axmos-db/src/runtime/ops/join.rs
+++ b/crates/axmos-db/src/runtime/ops/join.rs
@@ -240,7 +240,10 @@ impl<Left: Executor, Right: Executor> Executor for NestedLoopJoin<Left, Right> {
                 self.unmatched_right_idx += 1;
 
                 if !self.right_matched[idx] {
-                    let row = nulls_with_right(&self.right_buffer[idx], self.left_cols);
+                    // There may have been no left row to tell the width of the left side.
+                    let right_row = &self.right_buffer[idx];
+                    let left_cols = self.output_schema.num_columns() - right_row.len();
+                    let row = nulls_with_right(right_row, left_cols);
                     self.stats.rows_produced += 1;
                     return Ok(Some(row));
                 }
@@ -467,7 +470,10 @@ impl<Left: Executor, Right: Executor> Executor for HashJoin<Left, Right> {
             let left_row = self.current_left_row.as_ref().unwrap();
             let left_key = self.current_left_key.as_ref().unwrap();
 
-            if let Some(bucket) = self.hash_table.get_mut(left_key) {
+            // NULL keys match nothing, not even each other.
+            let has_null = left_key.iter().any(|k| matches!(k, DataType::Null));
+
+            if let Some(bucket) = self.hash_table.get_mut(left_key).filter(|_| !has_null) {
                 while self.current_bucket_idx < bucket.len() {
                     let right_row = &bucket.rows[self.current_bucket_idx];
                     self.current_bucket_idx += 1;
@@ -575,7 +581,11 @@ impl<Left: Executor, Right: Executor> MergeJoin<Left, Right> {
 
     fn compare_keys(&self, left_keys: &[DataType], right_keys: &[DataType]) -> Ordering {
         for (l, r) in left_keys.iter().zip(right_keys.iter()) {
-            if matches!(l, DataType::Null) || matches!(r, DataType::Null) {
+            // A NULL matches nothing: skip the row that has it.
+            if matches!(l, DataType::Null) {
+                return Ordering::Less;
+            }
+            if matches!(r, DataType::Null) {
                 return Ordering::Greater;
             }
             match l.partial_cmp(r) {
-- 
2.43.0


From 57a3df65fa7e9a47591cfed8fca9f6523cd0b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 17/43] fix: deeply nested statements run on workers with room
 for them

---
 crates/axmos-db/src/multithreading/threadpool.rs | 11 +++++++++--
 crates/axmos-db/src/sql/parser/mod.rs            |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/multithreading/threadpool.rs b/crates/axmos-db/src/multithreading/threadpool.rs
index 56a902a..d1674a5 100644
--- a/crates/axmos-db/src/multithreading/threadpool.rs
+++ b/crates/axmos-db/src/multithreading/threadpool.rs
@@ -115,6 +115,9 @@ pub(crate) enum Job {
     Shutdown,
 }
 
+/// Deeply nested expressions are parsed, bound and evaluated recursively.
+const WORKER_STACK_SIZE: usize = 128 << 20;
+
 struct Worker {
     id: ThreadId,
     thread: Option<JoinHandle<()>>,
@@ -122,7 +125,7 @@ struct Worker {
 
 impl Worker {
     fn new(job_queue: Arc<JobQueue<Job>>, running: Arc<AtomicBool>) -> Worker {
-        let thread = thread::spawn(move || {
+        let run = move || {
             while let Some(job) = job_queue.pop_interruptible(Duration::from_millis(100), &running)
             {
                 match job {
@@ -133,7 +136,11 @@ impl Worker {
                     Job::Shutdown => break,
                 }
             }
-        });
+        };
+        let thread = thread::Builder::new()
+            .stack_size(WORKER_STACK_SIZE)
+            .spawn(run)
+            .expect("a worker thread is started");
 
         Worker {
             id: thread::current_id(),
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 47b70af..9b38e0e 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -44,7 +44,7 @@ pub struct Parser {
 
 /// Deepest expression or subquery nesting the parser accepts. Every level costs stack in the parser and
 /// in everything that walks the tree afterwards, and running out of stack takes the whole process down.
-const MAX_NESTING: usize = 128;
+const MAX_NESTING: usize = 1000;
 
 impl Parser {
     pub fn new(sql: &str) -> Self {
-- 
2.43.0


From d24d0f037f6f263684c417420199d6b5913a4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 18/43] fix: grouped queries project, filter and order their
 groups; COUNT ignores NULL and honours DISTINCT; a query without FROM has one
 row

---
 crates/axmos-db/src/runtime/ops/aggregate.rs | 109 +++++----
 crates/axmos-db/src/sql/binder/binder.rs     |   6 +-
 crates/axmos-db/src/sql/planner/plan.rs      | 233 ++++++++++++++-----
 3 files changed, 240 insertions(+), 108 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ops/aggregate.rs b/crates/axmos-db/src/runtime/ops/aggregate.rs
index be4da18..660de5d 100644
--- a/crates/axmos-db/src/runtime/ops/aggregate.rs
+++ b/crates/axmos-db/src/runtime/ops/aggregate.rs
@@ -1,5 +1,8 @@
 // src/runtime/ops/aggregate.rs
-use std::{collections::HashMap, vec::IntoIter};
+use std::{
+    collections::{HashMap, HashSet},
+    vec::IntoIter,
+};
 
 use crate::{
     runtime::{ExecutionStats, Executor, RuntimeError, RuntimeResult, eval::ExpressionEvaluator},
@@ -16,20 +19,53 @@ use crate::{
 #[derive(Clone, Debug)]
 enum Accumulator {
     Count { count: u64 },
-    Sum { sum: Option<DataType> },
-    Avg { sum: Option<DataType>, count: u64 },
+    Sum { sum: Total, count: u64 },
+    Avg { sum: Total, count: u64 },
     Min { min: Option<DataType> },
     Max { max: Option<DataType> },
 }
 
+/// Running total of a column. Integers are added up exactly, whatever their number and order.
+#[derive(Clone, Copy, Debug, Default)]
+struct Total {
+    integers: i128,
+    reals: f64,
+}
+
+impl Total {
+    fn add(&mut self, value: &DataType) -> RuntimeResult<()> {
+        match value {
+            DataType::Int(v) => self.integers += v.value() as i128,
+            DataType::BigInt(v) => self.integers += v.value() as i128,
+            DataType::UInt(v) => self.integers += v.value() as i128,
+            DataType::BigUInt(v) => self.integers += v.value() as i128,
+            DataType::Float(v) => self.reals += v.value() as f64,
+            DataType::Double(v) => self.reals += v.value(),
+            other => {
+                return Err(RuntimeError::TypeError(
+                    TypeSystemError::UnexpectedDataType(other.kind()),
+                ));
+            }
+        }
+        Ok(())
+    }
+
+    fn value(&self) -> f64 {
+        self.integers as f64 + self.reals
+    }
+}
+
 impl Accumulator {
     /// Create a new accumulator for the given aggregate function.
     fn new(func: &AggregateFunction) -> Self {
         match func {
             AggregateFunction::Count => Accumulator::Count { count: 0 },
-            AggregateFunction::Sum => Accumulator::Sum { sum: None },
+            AggregateFunction::Sum => Accumulator::Sum {
+                sum: Total::default(),
+                count: 0,
+            },
             AggregateFunction::Avg => Accumulator::Avg {
-                sum: None,
+                sum: Total::default(),
                 count: 0,
             },
             AggregateFunction::Min => Accumulator::Min { min: None },
@@ -39,8 +75,8 @@ impl Accumulator {
 
     /// Accumulate a new value into the aggregate state.
     fn accumulate(&mut self, value: &DataType) -> RuntimeResult<()> {
-        // Skip NULL values for most aggregates except COUNT
-        if matches!(value, DataType::Null) && !matches!(self, Accumulator::Count { .. }) {
+        // NULL values are no input to any aggregate.
+        if matches!(value, DataType::Null) {
             return Ok(());
         }
 
@@ -48,21 +84,8 @@ impl Accumulator {
             Accumulator::Count { count } => {
                 *count += 1;
             }
-            Accumulator::Sum { sum } => {
-                *sum = Some(match sum.take() {
-                    None => value.clone(),
-                    Some(current) => current
-                        .add(&value)
-                        .map_err(|e| RuntimeError::Other(format!("Sum error: {}", e)))?,
-                });
-            }
-            Accumulator::Avg { sum, count } => {
-                *sum = Some(match sum.take() {
-                    None => value.clone(),
-                    Some(current) => current
-                        .add(&value)
-                        .map_err(|e| RuntimeError::Other(format!("Sum error: {}", e)))?,
-                });
+            Accumulator::Sum { sum, count } | Accumulator::Avg { sum, count } => {
+                sum.add(value)?;
                 *count += 1;
             }
             Accumulator::Min { min } => {
@@ -97,25 +120,12 @@ impl Accumulator {
     fn finalize(self) -> RuntimeResult<DataType> {
         match self {
             Accumulator::Count { count } => Ok(DataType::BigInt((count as i64).into())),
-            Accumulator::Sum { sum } => Ok(sum.unwrap_or(DataType::Null)),
+            Accumulator::Sum { count: 0, .. } | Accumulator::Avg { count: 0, .. } => {
+                Ok(DataType::Null)
+            }
+            Accumulator::Sum { sum, .. } => Ok(DataType::Double(sum.value().into())),
             Accumulator::Avg { sum, count } => {
-                if count == 0 {
-                    return Ok(DataType::Null);
-                }
-                match sum {
-                    Some(s) => {
-                        let sum_f64 = s.to_f64().ok_or(RuntimeError::TypeError(
-                            TypeSystemError::UnexpectedDataType(s.kind()),
-                        ))?;
-                        if sum_f64.is_nan() {
-                            return Err(RuntimeError::Other(
-                                "Cannot compute average of non-numeric type".to_string(),
-                            ));
-                        }
-                        Ok(DataType::Double((sum_f64 / count as f64).into()))
-                    }
-                    None => Ok(DataType::Null),
-                }
+                Ok(DataType::Double((sum.value() / count as f64).into()))
             }
             Accumulator::Min { min } => Ok(min.unwrap_or(DataType::Null)),
             Accumulator::Max { max } => Ok(max.unwrap_or(DataType::Null)),
@@ -129,6 +139,8 @@ struct GroupBucket {
     key: Vec<DataType>,
     /// One accumulator per aggregate expression.
     accumulators: Vec<Accumulator>,
+    /// The values seen so far by each DISTINCT aggregate.
+    seen: Vec<HashSet<DataType>>,
 }
 
 impl GroupBucket {
@@ -139,6 +151,7 @@ impl GroupBucket {
                 .iter()
                 .map(|agg| Accumulator::new(&agg.func))
                 .collect(),
+            seen: vec![HashSet::new(); aggregates.len()],
         }
     }
 }
@@ -207,16 +220,14 @@ impl<Child: Executor> HashAggregate<Child> {
         // Accumulate the row
         let evaluator = ExpressionEvaluator::new(&row, &self.input_schema);
         for (i, agg_expr) in self.aggregates.iter().enumerate() {
-            let value = if agg_expr.arg.is_none() {
-                DataType::Null
-            } else if let Some(ref arg) = agg_expr.arg {
-                match arg {
-                    BoundExpression::Star => DataType::Null,
-                    other => evaluator.evaluate_as_single_value(other)?,
-                }
-            } else {
-                DataType::Null
+            let value = match &agg_expr.arg {
+                // Every row counts for COUNT(*).
+                None | Some(BoundExpression::Star) => DataType::Bool(true.into()),
+                Some(arg) => evaluator.evaluate_as_single_value(arg)?,
             };
+            if agg_expr.distinct && !bucket.seen[i].insert(value.clone()) {
+                continue;
+            }
             bucket.accumulators[i].accumulate(&value)?;
         }
 
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 71a13a8..969ce86 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -291,14 +291,14 @@ impl<'a> Binder<'a> {
             match item {
                 SelectItem::Star => {
                     // Expand star to all columns from all tables in scope
-                    // Skip column 0 (internal row_id) for each table
+                    // Skip column 0 (internal row_id) for each base table
                     if let Some(scope) = self.scopes.current() {
                         for entry in scope.iter() {
                             let offset = self.calculate_column_offset(entry.scope_index);
 
                             for (col_idx, col) in entry.schema.iter_columns().enumerate() {
-                                // Skip internal row_id column (always column 0)
-                                if col_idx == 0 {
+                                // Skip internal row_id column (always column 0 of a base table)
+                                if col_idx == 0 && entry.table_id.is_some() {
                                     continue;
                                 }
 
diff --git a/crates/axmos-db/src/sql/planner/plan.rs b/crates/axmos-db/src/sql/planner/plan.rs
index d91c573..6a9c53b 100644
--- a/crates/axmos-db/src/sql/planner/plan.rs
+++ b/crates/axmos-db/src/sql/planner/plan.rs
@@ -4,7 +4,7 @@
 //! logical operators that can be optimized by the Cascades optimizer.
 
 use crate::{
-    schema::{Schema, catalog::StatisticsProvider},
+    schema::{Schema, base::Column, catalog::StatisticsProvider},
     sql::{
         binder::bounds::*,
         parser::ast::JoinType,
@@ -51,10 +51,10 @@ impl<'a> Planner<'a> {
     }
 
     fn build_select(&mut self, select: &BoundSelect) -> PlannerResult<GroupId> {
-        // FROM clause
+        // FROM clause. Without one the expressions are evaluated once, over a row without columns.
         let from_group = match &select.from {
             Some(table_ref) => self.build_table_ref(table_ref)?,
-            None => self.build_empty(&select.schema)?,
+            None => self.build_values(&[vec![]], &Schema::new_table_with_num_keys(vec![], 0))?,
         };
 
         // WHERE clause
@@ -63,33 +63,39 @@ impl<'a> Planner<'a> {
             None => from_group,
         };
 
-        // GROUP BY / aggregates
-        let aggregated = if !select.group_by.is_empty() || self.has_aggregates(&select.columns) {
-            self.build_aggregate(filtered, &select.group_by, &select.columns, &select.schema)?
+        // GROUP BY / aggregates. Past this point the expressions of a grouped query refer to the groups.
+        let mut columns = select.columns.clone();
+        let mut having = select.having.clone();
+        let mut order_by = select.order_by.clone();
+
+        let mut outputs: Vec<&mut BoundExpression> = columns.iter_mut().map(|c| &mut c.expr).collect();
+        outputs.extend(having.iter_mut());
+        outputs.extend(order_by.iter_mut().map(|o| &mut o.expr));
+
+        let is_grouped =
+            !select.group_by.is_empty() || outputs.iter().any(|e| self.contains_aggregate(e));
+        let aggregated = if is_grouped {
+            self.build_aggregate(filtered, &select.group_by, outputs)?
         } else {
             filtered
         };
 
         // HAVING clause
-        let having_applied = match &select.having {
-            Some(pred) => self.build_filter(aggregated, pred.clone())?,
+        let having_applied = match having {
+            Some(pred) => self.build_filter(aggregated, pred)?,
             None => aggregated,
         };
 
         // ORDER BY (must go before the projection since it needs the full input schema)
-        let sorted = if !select.order_by.is_empty() {
+        let sorted = if !order_by.is_empty() {
             let input_props = self.get_group_properties(having_applied)?;
-            self.build_sort(having_applied, &select.order_by, &input_props.schema)?
+            self.build_sort(having_applied, &order_by, &input_props.schema)?
         } else {
             having_applied
         };
 
         // SELECT projection (after sort)
-        let projected = if !self.has_aggregates(&select.columns) {
-            self.build_project(sorted, &select.columns, &select.schema)?
-        } else {
-            sorted
-        };
+        let projected = self.build_project(sorted, &columns, &select.schema)?;
 
         // DISTINCT
         let distinct_applied = if select.distinct {
@@ -200,29 +206,160 @@ impl<'a> Planner<'a> {
         self.insert_with_properties(op, vec![left, right])
     }
 
+    /// Groups the input and makes `outputs` refer to the result, whose columns are the grouping
+    /// expressions followed by the aggregates.
     fn build_aggregate(
         &mut self,
         input: GroupId,
         group_by: &[BoundExpression],
-        columns: &[BoundSelectItem],
-        output_schema: &Schema,
+        mut outputs: Vec<&mut BoundExpression>,
     ) -> PlannerResult<GroupId> {
         let input_props = self.get_group_properties(input)?;
 
-        let mut aggregates = Vec::new();
-        for (idx, item) in columns.iter().enumerate() {
-            self.collect_aggregates(&item.expr, idx, &mut aggregates);
+        let mut grouped = group_by.to_vec();
+        for expr in &outputs {
+            Self::collect_aggregates(expr, &mut grouped);
+        }
+        for expr in &mut outputs {
+            **expr = Self::over_groups(expr, &grouped)?;
         }
 
+        let aggregates = grouped[group_by.len()..]
+            .iter()
+            .enumerate()
+            .filter_map(|(i, expr)| match expr {
+                BoundExpression::Aggregate {
+                    func,
+                    arg,
+                    distinct,
+                    ..
+                } => Some(AggregateExpr {
+                    func: *func,
+                    arg: arg.as_deref().cloned(),
+                    distinct: *distinct,
+                    output_idx: group_by.len() + i,
+                }),
+                _ => None,
+            })
+            .collect();
+        let output_columns = grouped
+            .iter()
+            .enumerate()
+            .map(|(i, expr)| Column::new_with_defaults(expr.data_type(), &format!("column_{i}")))
+            .collect();
+
         let op = LogicalOperator::Aggregate(AggregateOp::new(
             group_by.to_vec(),
             aggregates,
             input_props.schema.clone(),
-            output_schema.clone(),
+            Schema::new_table_with_num_keys(output_columns, 0),
         ));
         self.insert_with_properties(op, vec![input])
     }
 
+    /// Rewrites an expression of a grouped query over the columns of the groups.
+    fn over_groups(
+        expr: &BoundExpression,
+        grouped: &[BoundExpression],
+    ) -> PlannerResult<BoundExpression> {
+        if let Some(column_idx) = grouped.iter().position(|g| g == expr) {
+            return Ok(BoundExpression::ColumnBinding(Binding {
+                table_id: None,
+                scope_index: 0,
+                column_idx,
+                data_type: expr.data_type(),
+            }));
+        }
+
+        let list = |exprs: &[BoundExpression]| -> PlannerResult<Vec<BoundExpression>> {
+            exprs.iter().map(|e| Self::over_groups(e, grouped)).collect()
+        };
+        let boxed = |expr: &BoundExpression| Self::over_groups(expr, grouped).map(Box::new);
+
+        Ok(match expr {
+            BoundExpression::ColumnBinding(_) => {
+                return Err(PlannerError::Other(
+                    "columns of a grouped query must be grouped by or aggregated".to_string(),
+                ));
+            }
+            BoundExpression::BinaryOp {
+                left,
+                op,
+                right,
+                result_type,
+            } => BoundExpression::BinaryOp {
+                left: boxed(left)?,
+                op: *op,
+                right: boxed(right)?,
+                result_type: *result_type,
+            },
+            BoundExpression::UnaryOp {
+                op,
+                expr,
+                result_type,
+            } => BoundExpression::UnaryOp {
+                op: *op,
+                expr: boxed(expr)?,
+                result_type: *result_type,
+            },
+            BoundExpression::IsNull { expr, negated } => BoundExpression::IsNull {
+                expr: boxed(expr)?,
+                negated: *negated,
+            },
+            BoundExpression::InList {
+                expr,
+                list: items,
+                negated,
+            } => BoundExpression::InList {
+                expr: boxed(expr)?,
+                list: list(items)?,
+                negated: *negated,
+            },
+            BoundExpression::Between {
+                expr,
+                low,
+                high,
+                negated,
+            } => BoundExpression::Between {
+                expr: boxed(expr)?,
+                low: boxed(low)?,
+                high: boxed(high)?,
+                negated: *negated,
+            },
+            BoundExpression::Function {
+                func,
+                args,
+                distinct,
+                return_type,
+            } => BoundExpression::Function {
+                func: func.clone(),
+                args: list(args)?,
+                distinct: *distinct,
+                return_type: *return_type,
+            },
+            BoundExpression::Case {
+                operand,
+                when_then,
+                else_expr,
+                result_type,
+            } => BoundExpression::Case {
+                operand: operand.as_deref().map(boxed).transpose()?,
+                when_then: when_then
+                    .iter()
+                    .map(|(c, r)| {
+                        Ok((
+                            Self::over_groups(c, grouped)?,
+                            Self::over_groups(r, grouped)?,
+                        ))
+                    })
+                    .collect::<PlannerResult<_>>()?,
+                else_expr: else_expr.as_deref().map(boxed).transpose()?,
+                result_type: *result_type,
+            },
+            _ => expr.clone(),
+        })
+    }
+
     fn build_sort(
         &mut self,
         input: GroupId,
@@ -396,12 +533,6 @@ impl<'a> Planner<'a> {
         Ok(format!("table_{}", table_id))
     }
 
-    fn has_aggregates(&self, columns: &[BoundSelectItem]) -> bool {
-        columns
-            .iter()
-            .any(|item| self.contains_aggregate(&item.expr))
-    }
-
     fn contains_aggregate(&self, expr: &BoundExpression) -> bool {
         match expr {
             BoundExpression::Aggregate { .. } => true,
@@ -445,31 +576,21 @@ impl<'a> Planner<'a> {
     }
 
     fn collect_aggregates(
-        &self,
         expr: &BoundExpression,
-        output_idx: usize,
-        aggregates: &mut Vec<AggregateExpr>,
+        aggregates: &mut Vec<BoundExpression>,
     ) {
         match expr {
-            BoundExpression::Aggregate {
-                func,
-                arg,
-                distinct,
-                ..
-            } => {
-                aggregates.push(AggregateExpr {
-                    func: *func,
-                    arg: arg.as_ref().map(|a| *a.clone()),
-                    distinct: *distinct,
-                    output_idx,
-                });
+            BoundExpression::Aggregate { .. } => {
+                if !aggregates.contains(expr) {
+                    aggregates.push(expr.clone());
+                }
             }
             BoundExpression::BinaryOp { left, right, .. } => {
-                self.collect_aggregates(left, output_idx, aggregates);
-                self.collect_aggregates(right, output_idx, aggregates);
+                Self::collect_aggregates(left, aggregates);
+                Self::collect_aggregates(right, aggregates);
             }
             BoundExpression::UnaryOp { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
+                Self::collect_aggregates(expr, aggregates);
             }
             BoundExpression::Case {
                 operand,
@@ -478,36 +599,36 @@ impl<'a> Planner<'a> {
                 ..
             } => {
                 if let Some(op) = operand {
-                    self.collect_aggregates(op, output_idx, aggregates);
+                    Self::collect_aggregates(op, aggregates);
                 }
                 for (cond, result) in when_then {
-                    self.collect_aggregates(cond, output_idx, aggregates);
-                    self.collect_aggregates(result, output_idx, aggregates);
+                    Self::collect_aggregates(cond, aggregates);
+                    Self::collect_aggregates(result, aggregates);
                 }
                 if let Some(e) = else_expr {
-                    self.collect_aggregates(e, output_idx, aggregates);
+                    Self::collect_aggregates(e, aggregates);
                 }
             }
             BoundExpression::Function { args, .. } => {
                 for arg in args {
-                    self.collect_aggregates(arg, output_idx, aggregates);
+                    Self::collect_aggregates(arg, aggregates);
                 }
             }
             BoundExpression::InList { expr, list, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
+                Self::collect_aggregates(expr, aggregates);
                 for item in list {
-                    self.collect_aggregates(item, output_idx, aggregates);
+                    Self::collect_aggregates(item, aggregates);
                 }
             }
             BoundExpression::Between {
                 expr, low, high, ..
             } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
-                self.collect_aggregates(low, output_idx, aggregates);
-                self.collect_aggregates(high, output_idx, aggregates);
+                Self::collect_aggregates(expr, aggregates);
+                Self::collect_aggregates(low, aggregates);
+                Self::collect_aggregates(high, aggregates);
             }
             BoundExpression::IsNull { expr, .. } => {
-                self.collect_aggregates(expr, output_idx, aggregates);
+                Self::collect_aggregates(expr, aggregates);
             }
             _ => {}
         }
-- 
2.43.0


From 230239a59197b0213c4521adecdf41154ef478f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 19/43] fix: the page cache keeps its capacity and pinned
 frames, and finds any frame that can be evicted

---
 crates/axmos-db/src/io/cache.rs | 43 +++++++++++++++++----------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/crates/axmos-db/src/io/cache.rs b/crates/axmos-db/src/io/cache.rs
index a71fb24..87c5554 100644
--- a/crates/axmos-db/src/io/cache.rs
+++ b/crates/axmos-db/src/io/cache.rs
@@ -18,17 +18,17 @@ pub(crate) struct MemoryStats {
 impl MemoryStats {
     fn cache_hit(&self) {
         let current = self.cache_hits.get();
-        self.cache_hits.set(current + 1);
+        self.cache_hits.set(current.wrapping_add(1));
     }
 
     fn cache_miss(&self) {
         let current = self.cache_misses.get();
-        self.cache_misses.set(current + 1);
+        self.cache_misses.set(current.wrapping_add(1));
     }
 
     fn eviction(&self) {
         let current = self.frames_evicted.get();
-        self.frames_evicted.set(current + 1);
+        self.frames_evicted.set(current.wrapping_add(1));
     }
 }
 impl Display for MemoryStats {
@@ -115,7 +115,11 @@ impl PageCache {
 
     /// Removes a frame from the cache for deallocation.
     pub(crate) fn remove(&mut self, id: PageId) -> Option<MemFrame> {
-        self.frames.swap_remove(&id).filter(|frame| frame.is_free())
+        // A pinned frame stays where it is: dropping it here would lose its contents.
+        if !self.frames.get(&id)?.is_free() {
+            return None;
+        }
+        self.frames.swap_remove(&id)
     }
 
     pub fn evict(&mut self) -> io::Result<Option<MemFrame>> {
@@ -123,28 +127,26 @@ impl PageCache {
             return Ok(None);
         };
 
-        let mut found_victim = None;
-        // Attempt to iterate over all the frames.
-        while self.cursor <= self.frames.len() && found_victim.is_none() {
-            if let Some((pid, frame)) = self.frames.get_index(self.cursor) {
-                if frame.is_free() {
-                    self.stats.eviction();
-
-                    let (_, victim) = self.frames.swap_remove_index(self.cursor).unwrap();
+        // Sweep every frame once, resuming where the last sweep stopped.
+        for _ in 0..self.frames.len() {
+            if self.cursor >= self.frames.len() {
+                self.cursor = 0;
+            }
 
-                    found_victim = Some(victim);
-                    break;
-                }
-            };
+            if let Some((_, frame)) = self.frames.get_index(self.cursor)
+                && frame.is_free()
+            {
+                self.stats.eviction();
+                return Ok(self
+                    .frames
+                    .swap_remove_index(self.cursor)
+                    .map(|(_, victim)| victim));
+            }
 
             // Not evictable.
             self.cursor += 1;
         }
 
-        if found_victim.is_some() {
-            return Ok(found_victim);
-        };
-
         Err(IoError::new(
             ErrorKind::OutOfMemory,
             "Buffer pool got out of memory for new frames.",
@@ -180,7 +182,6 @@ impl PageCache {
         }
 
         self.cursor = 0;
-        self.capacity = 0;
         remaining_frames
     }
 }
-- 
2.43.0


From b6e50be7341097ee6c393cf5bf3df8a0326c668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 20/43] fix: freed pages are written back like any other
 change, never while in use; checkpoints reach the disk before the log goes;
 cache size survives reopening

---
 crates/axmos-db/src/io/pager.rs              | 41 +++++++++++---------
 crates/axmos-db/src/multithreading/frames.rs |  5 ++-
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index d797bad..13b8de5 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -71,6 +71,11 @@ impl<'a> FileOperations for Pager {
         };
 
         let page_zero = pager.load_page_zero(block_size)?;
+        // The size of the cache is one of the settings kept in the header.
+        let cache_size = page_zero.metadata().cache_size as usize;
+        if cache_size > 0 {
+            pager.cache.set_capacity(cache_size);
+        }
         pager.db_header = Some(*page_zero.metadata());
 
         Ok(pager)
@@ -129,7 +134,7 @@ impl Pager {
         let mut page_zero: PageZero = PageZero::from_config(config);
         page_zero.metadata_mut().page_size = config.page_size as u32;
         page_zero.metadata_mut().min_keys = config.min_keys_per_page as u8;
-        page_zero.metadata_mut().cache_size = config.cache_size as u16;
+        page_zero.metadata_mut().cache_size = config.cache_size.min(u16::MAX as usize) as u16;
         page_zero.metadata_mut().num_siblings_per_side = config.num_siblings_per_side as u8;
 
         self.write_block(PAGE_ZERO, page_zero.as_ref(), config.page_size as usize)?;
@@ -488,10 +493,23 @@ impl Pager {
             ));
         };
 
-        let first_free_page = self.first_free_page();
+        // The frame must be ours alone: nobody may be using a page that is about to become free.
+        self.ensure_cached::<P>(id)?;
+        let mem_page = self.cache.remove(id).ok_or_else(|| {
+            IoError::new(
+                ErrorKind::ResourceBusy,
+                format!("cannot deallocate page {id}: it is in use"),
+            )
+        })?;
+
+        // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
+        // Like any other change it reaches the disk when the frame is written back.
+        let deallocated_page = mem_page.dealloc();
+        deallocated_page.mark_dirty();
+        self.cache_frame(deallocated_page)?;
 
         // Set the first free page in the header
-        if first_free_page.is_none() {
+        if self.first_free_page().is_none() {
             self.set_first_free_page(Some(id));
         };
 
@@ -505,20 +523,6 @@ impl Pager {
         // The new last free page must be the one we have deallocated.
         self.set_last_free_page(Some(id));
 
-        self.ensure_cached::<P>(id)?;
-
-        // We need to ensure that the frame is free
-        if let Some(mem_page) = self.cache.remove(id) {
-            let page_size = self.page_size();
-
-            // [MemPage::dealloc] consumes itself and creates a new MemPage with an overflow header.
-            let deallocated_page = mem_page.dealloc();
-
-            // Here the write needs to write as an overflow page , regardless of the value of [P]
-            deallocated_page.with_bytes(|bytes| self.write_block(id, bytes, page_size))?;
-            self.cache_frame(deallocated_page)?;
-        };
-
         Ok(())
     }
 
@@ -555,7 +559,8 @@ impl Write for Pager {
 
         self.sync_header()?;
 
-        self.file.flush()?;
+        // The log may only go once everything it covers is on disk.
+        self.file.sync_all()?;
         self.wal.truncate()?;
         self.wal.flush()?;
         Ok(())
diff --git a/crates/axmos-db/src/multithreading/frames.rs b/crates/axmos-db/src/multithreading/frames.rs
index 2e36692..8e2172a 100644
--- a/crates/axmos-db/src/multithreading/frames.rs
+++ b/crates/axmos-db/src/multithreading/frames.rs
@@ -3,7 +3,7 @@ use crate::{
     storage::{
         Allocatable, Identifiable,
         core::{buffer::MemBlock, traits::Buffer},
-        page::{BtreePage, OverflowPage, PageZero},
+        page::{BtreePage, OverflowPage, OverflowPageHeader, PageZero},
     },
     types::PageId,
 };
@@ -233,6 +233,9 @@ impl MemFrame {
                 let lock = Arc::try_unwrap(arc.inner)
                     .expect("Cannot dealloc: other references to this page exist");
                 let mut page = lock.into_inner();
+                // A free page links to nothing until another page is freed after it.
+                let (id, size) = (page.id(), page.size());
+                *page.metadata_mut() = OverflowPageHeader::alloc(id, size);
                 page.data_mut().fill(0);
                 Self::from(Frame::new(page))
             }
-- 
2.43.0


From ff986e2b8a179d5f63827672552186e169b90b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 21/43] fix: recovery replays committed transactions in log
 order on top of the last checkpoint, which a rollback journal keeps intact

---
 crates/axmos-db/src/io/journal.rs             | 223 +++++++++
 crates/axmos-db/src/io/mod.rs                 |   1 +
 crates/axmos-db/src/io/pager.rs               | 105 +++-
 crates/axmos-db/src/io/recovery.rs            | 449 ++++--------------
 crates/axmos-db/src/io/wal.rs                 |  23 +
 crates/axmos-db/src/lib.rs                    |  66 ++-
 .../src/multithreading/coordinator.rs         |  15 +
 crates/axmos-db/src/runtime/context.rs        |  16 +
 crates/axmos-db/src/runtime/dml.rs            |  17 +-
 crates/axmos-db/src/storage/page.rs           |   6 +
 10 files changed, 512 insertions(+), 409 deletions(-)
 create mode 100644 crates/axmos-db/src/io/journal.rs

diff --git a/crates/axmos-db/src/io/journal.rs b/crates/axmos-db/src/io/journal.rs
new file mode 100644
index 0000000..ba56072
--- /dev/null
+++ b/crates/axmos-db/src/io/journal.rs
@@ -0,0 +1,223 @@
+//! Rollback journal of the database file.
+//!
+//! Recovery replays the log on top of the last checkpoint, so the database file has to be found as
+//! that checkpoint left it. Pages are overwritten before the next checkpoint is complete all the
+//! same: when the cache evicts a dirty page, and while the checkpoint itself is being written.
+//! Before a page of the last checkpoint is overwritten for the first time, its contents are copied
+//! here. Opening the database after a crash copies them back.
+use crate::{
+    PAGE_ALIGNMENT,
+    io::disk::{DBFile, FileOperations},
+    storage::{core::buffer::MemBlock, page::OverflowPageHeader},
+    types::PageId,
+};
+
+use std::{
+    collections::HashSet,
+    fs,
+    io::{self, Read, Seek, SeekFrom, Write},
+    path::{Path, PathBuf},
+};
+
+const JOURNAL_MAGIC: u64 = 0x4C4E524A4D5841;
+const BLOCK: usize = PAGE_ALIGNMENT;
+
+/// The database file has to be put back as the last checkpoint left it.
+const ACTIVE: u64 = 1;
+/// The next checkpoint is complete: the journal and the log it covers are obsolete.
+const COMPLETE: u64 = 2;
+
+/// What the journal found on open asks for.
+pub(crate) enum JournalState {
+    Clean,
+    RolledBack,
+    CheckpointComplete,
+}
+
+pub(crate) struct Journal {
+    path: PathBuf,
+    file: Option<DBFile>,
+    /// Pages which already have their copy.
+    saved: HashSet<PageId>,
+    /// Number of pages of the database at the last checkpoint. The rest need no copy.
+    limit: u64,
+    /// Position of the next copy.
+    end: u64,
+}
+
+fn block(size: usize) -> MemBlock<OverflowPageHeader> {
+    MemBlock::new(size)
+}
+
+fn put(buffer: &mut [u8], index: usize, value: u64) {
+    buffer[index * 8..index * 8 + 8].copy_from_slice(&value.to_le_bytes());
+}
+
+fn get(buffer: &[u8], index: usize) -> u64 {
+    let mut bytes = [0u8; 8];
+    bytes.copy_from_slice(&buffer[index * 8..index * 8 + 8]);
+    u64::from_le_bytes(bytes)
+}
+
+fn checksum(id: PageId, content: &[u8]) -> u64 {
+    content
+        .iter()
+        .fold(0xcbf29ce484222325 ^ id, |hash, byte| {
+            (hash ^ u64::from(*byte)).wrapping_mul(0x100000001b3)
+        })
+}
+
+impl Journal {
+    pub(crate) fn path_in(dir: &Path) -> PathBuf {
+        dir.join("axmos.journal")
+    }
+
+    pub(crate) fn new(dir: &Path) -> Self {
+        Self {
+            path: Self::path_in(dir),
+            file: None,
+            saved: HashSet::new(),
+            limit: 0,
+            end: 0,
+        }
+    }
+
+    pub(crate) fn remove(dir: &Path) -> io::Result<()> {
+        let path = Self::path_in(dir);
+        if path.exists() {
+            fs::remove_file(path)?;
+        }
+        Ok(())
+    }
+
+    pub(crate) fn set_limit(&mut self, pages: u64) {
+        self.limit = pages;
+    }
+
+    /// Whether the page has to be copied before it is overwritten.
+    pub(crate) fn needs(&self, id: PageId) -> bool {
+        id < self.limit && !self.saved.contains(&id)
+    }
+
+    fn write_header(file: &mut DBFile, state: u64, page_size: usize) -> io::Result<()> {
+        let mut header = block(BLOCK);
+        let bytes = header.as_mut();
+        bytes.fill(0);
+        put(bytes, 0, JOURNAL_MAGIC);
+        put(bytes, 1, state);
+        put(bytes, 2, page_size as u64);
+        file.seek(SeekFrom::Start(0))?;
+        file.write_all(bytes)?;
+        file.sync_all()
+    }
+
+    /// Appends the current contents of a page. They count once [Journal::sync] returns.
+    pub(crate) fn save(&mut self, id: PageId, content: &[u8]) -> io::Result<()> {
+        if self.file.is_none() {
+            let mut file = DBFile::create(&self.path)?;
+            Self::write_header(&mut file, ACTIVE, content.len())?;
+            self.end = BLOCK as u64;
+            self.file = Some(file);
+        }
+        let Some(file) = self.file.as_mut() else {
+            return Ok(());
+        };
+
+        let mut entry = block(BLOCK + content.len());
+        let bytes = entry.as_mut();
+        bytes.fill(0);
+        put(bytes, 0, JOURNAL_MAGIC);
+        put(bytes, 1, id);
+        put(bytes, 2, checksum(id, content));
+        bytes[BLOCK..].copy_from_slice(content);
+        file.seek(SeekFrom::Start(self.end))?;
+        file.write_all(bytes)?;
+        self.end += bytes.len() as u64;
+        self.saved.insert(id);
+        Ok(())
+    }
+
+    pub(crate) fn sync(&self) -> io::Result<()> {
+        match self.file.as_ref() {
+            Some(file) => file.sync_all(),
+            None => Ok(()),
+        }
+    }
+
+    /// The next checkpoint is on disk: from here on the copies must not be used.
+    pub(crate) fn complete(&mut self, page_size: usize) -> io::Result<()> {
+        match self.file.as_mut() {
+            Some(file) => Self::write_header(file, COMPLETE, page_size),
+            None => Ok(()),
+        }
+    }
+
+    /// Starts over after a checkpoint of the given number of pages.
+    pub(crate) fn reset(&mut self, pages: u64) -> io::Result<()> {
+        if let Some(mut file) = self.file.take() {
+            file.truncate()?;
+            file.sync_all()?;
+        }
+        self.saved.clear();
+        self.limit = pages;
+        Ok(())
+    }
+
+    /// Brings the database file back to a checkpoint after a crash.
+    pub(crate) fn recover(dir: &Path, database: &mut DBFile) -> io::Result<JournalState> {
+        let path = Self::path_in(dir);
+        if !path.exists() {
+            return Ok(JournalState::Clean);
+        }
+        let mut file = DBFile::open(&path)?;
+        let length = file.metadata()?.len();
+        if length < BLOCK as u64 {
+            return Ok(JournalState::Clean);
+        }
+
+        let mut header = block(BLOCK);
+        file.seek(SeekFrom::Start(0))?;
+        file.read_exact(header.as_mut())?;
+        let bytes = header.as_ref();
+        if get(bytes, 0) != JOURNAL_MAGIC {
+            return Ok(JournalState::Clean);
+        }
+        if get(bytes, 1) == COMPLETE {
+            return Ok(JournalState::CheckpointComplete);
+        }
+
+        let page_size = get(bytes, 2) as usize;
+        let mut position = BLOCK as u64;
+        let mut entry = block(BLOCK + page_size);
+        let mut page = block(page_size);
+        while position + (BLOCK + page_size) as u64 <= length {
+            file.seek(SeekFrom::Start(position))?;
+            file.read_exact(entry.as_mut())?;
+            let bytes = entry.as_ref();
+            let id = get(bytes, 1);
+            // A copy that is not whole was never needed: its page has not been overwritten.
+            if get(bytes, 0) != JOURNAL_MAGIC || get(bytes, 2) != checksum(id, &bytes[BLOCK..]) {
+                break;
+            }
+            page.as_mut().copy_from_slice(&bytes[BLOCK..]);
+            database.seek(SeekFrom::Start(id * page_size as u64))?;
+            database.write_all(page.as_ref())?;
+            position += (BLOCK + page_size) as u64;
+        }
+        database.sync_all()?;
+        Ok(JournalState::RolledBack)
+    }
+
+    /// Empties the journal found on open.
+    pub(crate) fn discard(dir: &Path) -> io::Result<()> {
+        let path = Self::path_in(dir);
+        if path.exists() {
+            let mut file = DBFile::open(&path)?;
+            if file.metadata()?.len() > 0 {
+                file.truncate()?;
+                file.sync_all()?;
+            }
+        }
+        Ok(())
+    }
+}
diff --git a/crates/axmos-db/src/io/mod.rs b/crates/axmos-db/src/io/mod.rs
index 1c0e0a3..7e60990 100644
--- a/crates/axmos-db/src/io/mod.rs
+++ b/crates/axmos-db/src/io/mod.rs
@@ -4,6 +4,7 @@
 //! from disk, as well as caching frequently accessed data in memory to improve performance.
 pub mod cache;
 pub mod disk;
+pub mod journal;
 pub mod logger;
 pub mod recovery;
 
diff --git a/crates/axmos-db/src/io/pager.rs b/crates/axmos-db/src/io/pager.rs
index 13b8de5..a95b980 100644
--- a/crates/axmos-db/src/io/pager.rs
+++ b/crates/axmos-db/src/io/pager.rs
@@ -4,6 +4,7 @@ use crate::{
     io::{
         cache::PageCache,
         disk::{DBFile, FileOperations, FileSystem, FileSystemBlockSize},
+        journal::{Journal, JournalState},
         logger::Operation,
         wal::{AnalysisResult, WriteAheadLog},
     },
@@ -30,6 +31,7 @@ pub struct Pager {
     file: DBFile,
     wal: WriteAheadLog,
     cache: PageCache,
+    journal: Journal,
     db_header: Option<PageZeroHeader>, // Page zero header is always in memory
 }
 
@@ -43,11 +45,13 @@ impl<'a> FileOperations for Pager {
         let wal_path = dir.join("axmos.log");
         let wal = WriteAheadLog::create(wal_path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE as usize);
+        Journal::discard(dir)?;
 
         Ok(Self {
             file,
             cache,
             wal,
+            journal: Journal::new(dir),
             db_header: None,
         })
     }
@@ -56,17 +60,25 @@ impl<'a> FileOperations for Pager {
     where
         Self: Sized,
     {
-        let file = DBFile::open(&path)?;
+        let mut file = DBFile::open(&path)?;
         let block_size = FileSystem::block_size(&path)?;
         let cache = PageCache::with_capacity(DEFAULT_CACHE_SIZE);
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
-        let wal = WriteAheadLog::open(wal_path)?;
+        let mut wal = WriteAheadLog::open(wal_path)?;
+
+        // The file has to be as some checkpoint left it, and the log has to start there.
+        if let JournalState::CheckpointComplete = Journal::recover(dir, &mut file)? {
+            wal.truncate()?;
+            wal.flush()?;
+        }
+        Journal::discard(dir)?;
 
         let mut pager = Self {
             file,
             cache,
             wal,
+            journal: Journal::new(dir),
             db_header: None,
         };
 
@@ -77,6 +89,7 @@ impl<'a> FileOperations for Pager {
             pager.cache.set_capacity(cache_size);
         }
         pager.db_header = Some(*page_zero.metadata());
+        pager.journal.set_limit(page_zero.metadata().total_pages);
 
         Ok(pager)
     }
@@ -86,6 +99,7 @@ impl<'a> FileOperations for Pager {
         let dir = path.as_ref().parent().expect("Not a directory");
         let wal_path = dir.join("axmos.log");
         WriteAheadLog::remove(&wal_path)?;
+        Journal::remove(dir)?;
         Ok(())
     }
 
@@ -99,6 +113,7 @@ impl<'a> FileOperations for Pager {
         self.file.truncate()?;
         self.cache.clear();
         self.wal.truncate()?;
+        self.journal.reset(0)?;
         Ok(())
     }
 }
@@ -124,6 +139,7 @@ impl Pager {
         let mut pager = Pager::create(path)?;
         let page_zero = pager.alloc_page_zero(config)?;
         pager.db_header = Some(*page_zero.metadata());
+        pager.journal.set_limit(page_zero.metadata().total_pages);
         Ok(pager)
     }
 
@@ -142,15 +158,69 @@ impl Pager {
         Ok(page_zero)
     }
 
-    /// Syncs the header to the disk.
-    fn sync_header(&mut self) -> io::Result<()> {
+    /// Syncs the header to the disk. The transactions in `unfinished` are written down as aborted:
+    /// that is what they are if the database is opened without them having committed.
+    fn sync_header(&mut self, unfinished: &[TransactionId]) -> io::Result<()> {
         let page_size = self.page_size();
         let mut zero_from_disk = self.load_page_zero(page_size)?;
         *zero_from_disk.metadata_mut() = *self.header_unchecked();
+        for txid in unfinished {
+            zero_from_disk.metadata_mut().mark_transaction_aborted(*txid);
+        }
         self.write_block(PAGE_ZERO, zero_from_disk.as_ref(), page_size)?;
         Ok(())
     }
 
+    /// Copies the pages to the journal as they are on disk, where they still have to be.
+    fn journal_pages(&mut self, pages: impl IntoIterator<Item = PageId>) -> io::Result<()> {
+        let page_size = self.page_size();
+        let mut buffer: MemBlock<PageZeroHeader> = MemBlock::new(page_size);
+        let mut copied = false;
+        for id in pages {
+            if !self.journal.needs(id) {
+                continue;
+            }
+            match self.read_block(id, buffer.as_mut(), page_size) {
+                Ok(()) => {}
+                // The page was never written: there is nothing to go back to.
+                Err(e) if e.kind() == ErrorKind::UnexpectedEof => continue,
+                Err(e) => return Err(e),
+            }
+            self.journal.save(id, buffer.as_ref())?;
+            copied = true;
+        }
+        if copied {
+            self.journal.sync()?;
+        }
+        Ok(())
+    }
+
+    /// Writes every change to disk and empties the log. `unfinished` are the transactions that have
+    /// neither committed nor aborted.
+    pub(crate) fn checkpoint(&mut self, unfinished: &[TransactionId]) -> io::Result<()> {
+        let page_size = self.page_size();
+        self.wal.flush()?;
+        let mut pages = self.cache.clear();
+        pages.retain(|page| page.is_dirty());
+
+        self.journal_pages(pages.iter().map(|page| page.page_number()).chain([PAGE_ZERO]))?;
+        for page in pages {
+            let page_number = page.page_number();
+            page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, page_size))?;
+        }
+
+        self.sync_header(unfinished)?;
+
+        // The log may only go once everything it covers is on disk.
+        self.file.sync_all()?;
+        self.journal.complete(page_size)?;
+        self.wal.truncate()?;
+        self.wal.flush()?;
+        let total_pages = self.header_unchecked().total_pages;
+        self.journal.reset(total_pages)?;
+        Ok(())
+    }
+
     /// Push a record to the write ahead log (implementation is not complete)
     pub(crate) fn push_to_log<O: Operation>(
         &mut self,
@@ -175,6 +245,10 @@ impl Pager {
         self.header_unchecked_mut().mark_transaction_aborted(txid);
     }
 
+    pub(crate) fn clear_transaction_aborted(&mut self, txid: TransactionId) {
+        self.header_unchecked_mut().clear_transaction_aborted(txid);
+    }
+
     pub(crate) fn get_aborted_transactions(&self) -> Vec<TransactionId> {
         self.header_unchecked().get_aborted_transactions()
     }
@@ -424,6 +498,7 @@ impl Pager {
 
             if evicted.is_dirty() {
                 let page_size = self.page_size();
+                self.journal_pages([evicted_id])?;
                 evicted.with_bytes_mut(|bytes| self.write_block(evicted_id, &bytes, page_size))?;
             };
         };
@@ -530,10 +605,6 @@ impl Pager {
         self.wal.run_analysis()
     }
 
-    pub fn truncate_wal(&mut self) -> io::Result<()> {
-        self.wal.truncate()
-    }
-
     pub fn flush_wal(&mut self) -> io::Result<()> {
         self.wal.flush()
     }
@@ -547,23 +618,7 @@ impl Write for Pager {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        let block_size = self.page_size();
-        self.wal.flush()?;
-        let pages = self.cache.clear();
-        for page in pages {
-            let page_number = page.page_number();
-            if page.is_dirty() {
-                page.with_bytes_mut(|bytes| self.write_block(page_number, &bytes, block_size))?;
-            };
-        }
-
-        self.sync_header()?;
-
-        // The log may only go once everything it covers is on disk.
-        self.file.sync_all()?;
-        self.wal.truncate()?;
-        self.wal.flush()?;
-        Ok(())
+        self.checkpoint(&[])
     }
 }
 
diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index e1638f6..b109ef2 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -5,22 +5,31 @@ use crate::{
         wal::AnalysisResult,
     },
     runtime::{
-        RuntimeResult,
+        RuntimeError, RuntimeResult,
         context::{ThreadContext, TransactionLogger},
         ddl::{
             AlterTableInstr, CreateIndexInstr, CreateTableInstr, DdlExecutor, DdlInstruction,
-            DropIndexInstr, DropTableInstr,
+            DdlResult, DropTableInstr,
         },
         dml::DmlExecutor,
     },
     storage::tuple::Row,
+    types::{ObjectId, RowId},
 };
 
-use std::io::{Error as IoError, ErrorKind};
+use std::collections::HashMap;
 
+/// Replays the log on top of the last checkpoint.
+///
+/// The database file is as the last checkpoint left it (see [crate::io::journal]), so there is
+/// nothing to undo in it: whatever unfinished transactions had written by then carries the id of a
+/// transaction that counts as aborted. What is left to do is to repeat the operations of the
+/// committed transactions, in the order they happened.
 pub struct WalRecuperator {
     dml_executor: DmlExecutor,
     ddl_executor: DdlExecutor,
+    /// Identifiers that the objects created by the log have now.
+    objects: HashMap<ObjectId, ObjectId>,
 }
 
 impl WalRecuperator {
@@ -28,399 +37,115 @@ impl WalRecuperator {
         Self {
             dml_executor: DmlExecutor::new(ctx.clone(), logger.clone()),
             ddl_executor: DdlExecutor::new(ctx, logger),
+            objects: HashMap::new(),
         }
     }
 
     /// Runs the recovery
     pub(crate) fn run_recovery(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        self.run_undo(&analysis)?;
-        self.run_redo(&analysis)?;
-
-        Ok(())
-    }
-
-    /// Run all the undo.
-    pub(crate) fn run_undo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_undo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.undo_delete(delete_operation)?;
-                }
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.undo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.undo_insert(insert_operation)?;
-                }
-
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.undo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.undo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.undo_drop(drop_operation)?;
-                }
+        for lsn in analysis.redo_sequence() {
+            if let Some(create_operation) = analysis.create_ops.get(&lsn) {
+                self.redo_create(create_operation)?;
+            } else if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
+                self.redo_alter(alter_operation)?;
+            } else if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
+                self.redo_drop(drop_operation)?;
+            } else if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
+                self.redo_delete(delete_operation)?;
+            } else if let Some(update_operation) = analysis.update_ops.get(&lsn) {
+                self.redo_update(update_operation)?;
+            } else if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
+                self.redo_insert(insert_operation)?;
             }
         }
 
         Ok(())
     }
 
-    /// Run all the redo.
-    pub(crate) fn run_redo(&mut self, analysis: &AnalysisResult) -> RuntimeResult<()> {
-        for redo_transaction in analysis.needs_redo.iter() {
-            // Reapply all the operations of this transaction
-            for lsn in analysis.try_iter_lsn(redo_transaction).ok_or(IoError::new(
-                ErrorKind::NotSeekable,
-                "transaction not found in th write ahead analysis",
-            ))? {
-                if let Some(create_operation) = analysis.create_ops.get(&lsn) {
-                    self.redo_create(create_operation)?;
-                }
-                if let Some(alter_operation) = analysis.alter_ops.get(&lsn) {
-                    self.redo_alter(alter_operation)?;
-                }
-                if let Some(drop_operation) = analysis.drop_ops.get(&lsn) {
-                    self.redo_drop(drop_operation)?;
-                }
-
-                if let Some(delete_operation) = analysis.delete_ops.get(&lsn) {
-                    self.redo_delete(delete_operation)?;
-                }
-
-                if let Some(update_operation) = analysis.update_ops.get(&lsn) {
-                    self.redo_update(update_operation)?;
-                }
-
-                if let Some(insert_operation) = analysis.insert_ops.get(&lsn) {
-                    self.redo_insert(insert_operation)?;
-                }
-            }
-        }
-
-        Ok(())
-    }
-
-    /// Recovers a CREATE operation during redo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the redo
-    /// payload and executes it to recreate the table/index.
-    fn redo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Try to deserialize as CreateTableInstr first
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        // Try CreateIndexInstr
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        // Fallback: try generic DdlInstruction
-        if let Ok(instruction) = DdlInstruction::from_bytes(redo_bytes) {
-            self.ddl_executor.execute_instruction(&instruction)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers a CREATE operation during undo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the undo
-    /// payload and executes it to remove the created table/index.
-    fn undo_create(&mut self, create_op: &Create) -> RuntimeResult<()> {
-        let object_id = create_op
-            .row_id()
-            .expect("Object ID must be set for CREATE logs");
-
-        // The undo of CREATE is DROP
-        // We need to get the redo bytes to know what type of object was created
-        let redo_bytes = create_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Determine if it's a table or index and execute the inverse
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_table_instr.inverse(object_id);
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(redo_bytes) {
-            let drop_instr = create_index_instr.inverse(object_id);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers a DROP operation during redo phase.
-    ///
-    /// Deserializes the DropTableInstr or DropIndexInstr from the redo
-    /// payload and executes it to remove the table/index.
-    fn redo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let object_id = drop_op
-            .row_id()
-            .expect("Object ID must be set for DROP logs");
-
-        // The undo bytes contain the CreateTableInstr needed to restore
-        // But for redo, we just need to drop by object_id
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // Get the table/index name from the undo instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropTableInstr::new(
-                create_table_instr.table_name,
-                object_id,
-                true,
-                true, // if_exists = true for recovery
-            );
-            let instr = DdlInstruction::DropTable(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let drop_instr = DropIndexInstr::new(create_index_instr.index_name, object_id, true);
-            let instr = DdlInstruction::DropIndex(drop_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers a DROP operation during undo phase.
-    ///
-    /// Deserializes the CreateTableInstr or CreateIndexInstr from the undo
-    /// payload and executes it to restore the dropped table/index.
-    fn undo_drop(&mut self, drop_op: &DropOp) -> RuntimeResult<()> {
-        let undo_bytes = drop_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        // The undo of DROP is CREATE - restore from the saved instruction
-        if let Ok(create_table_instr) = CreateTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateTable(create_table_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-            return Ok(());
-        }
-
-        if let Ok(create_index_instr) = CreateIndexInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::CreateIndex(create_index_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
-    }
-
-    /// Recovers an ALTER operation during redo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the redo payload and applies
-    /// the alteration to the table.
-    fn redo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let redo_bytes = alter_op.redo();
-
-        if redo_bytes.is_empty() {
-            return Ok(());
-        }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(redo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
+    /// The identifier that an object of the log has now.
+    fn object(&self, logged: ObjectId) -> ObjectId {
+        self.objects.get(&logged).copied().unwrap_or(logged)
     }
 
-    /// Recovers an ALTER operation during undo phase.
-    ///
-    /// Deserializes the AlterTableInstr from the undo payload (which contains
-    /// the inverse operation) and applies it to restore the previous state.
-    fn undo_alter(&mut self, alter_op: &Alter) -> RuntimeResult<()> {
-        let undo_bytes = alter_op.undo();
-
-        if undo_bytes.is_empty() {
-            return Ok(());
+    fn target(&self, operation: &impl Operation) -> RuntimeResult<(ObjectId, RowId)> {
+        match (operation.object_id(), operation.row_id()) {
+            (Some(table), Some(row)) => Ok((self.object(table), row)),
+            _ => Err(RuntimeError::Other(
+                "log record without table or row".to_string(),
+            )),
         }
-
-        if let Ok(alter_instr) = AlterTableInstr::from_bytes(undo_bytes) {
-            let instr = DdlInstruction::AlterTable(alter_instr);
-            self.ddl_executor.execute_instruction(&instr)?;
-        }
-
-        Ok(())
     }
 
-    // DML Undo operations
-    fn undo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
+    /// Decodes a logged row.
+    fn decode(&self, table_id: ObjectId, bytes: &[u8]) -> RuntimeResult<(Row, Vec<usize>)> {
+        let ctx = self.dml_executor.ctx();
+        let table =
+            ctx.catalog()
+                .get_relation(table_id, &ctx.tree_builder(), ctx.snapshot())?;
         let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(delete_op.undo(), schema, &snapshot)?
+        Ok((
+            Row::from_bytes_checked(bytes, schema)?,
+            schema.column_indexes().to_vec(),
+        ))
+    }
+
+    fn redo_create(&mut self, operation: &Create) -> RuntimeResult<()> {
+        let bytes = operation.redo();
+        let instruction = if let Ok(table) = CreateTableInstr::from_bytes(bytes) {
+            DdlInstruction::CreateTable(table)
+        } else {
+            let mut index = CreateIndexInstr::from_bytes(bytes)?;
+            index.table_id = self.object(index.table_id);
+            DdlInstruction::CreateIndex(index)
+        };
+
+        let created = self.ddl_executor.execute_instruction(&instruction)?;
+        if let (
+            DdlResult::TableCreated { object_id, .. } | DdlResult::IndexCreated { object_id, .. },
+            Some(logged),
+        ) = (created, operation.row_id())
         {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
+            self.objects.insert(logged, object_id);
         }
         Ok(())
     }
 
-    fn undo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                self.dml_executor
-                    .update_row(table_id, &row_id, &redo_row, &undo_row)?;
-            }
-        }
+    fn redo_drop(&mut self, operation: &DropOp) -> RuntimeResult<()> {
+        let mut instruction = DropTableInstr::from_bytes(operation.redo())?;
+        instruction.table_id = self.object(instruction.table_id);
+        self.ddl_executor
+            .execute_instruction(&DdlInstruction::DropTable(instruction))?;
         Ok(())
     }
 
-    fn undo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = insert_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
+    fn redo_alter(&mut self, operation: &Alter) -> RuntimeResult<()> {
+        let mut instruction = AlterTableInstr::from_bytes(operation.redo())?;
+        instruction.table_id = self.object(instruction.table_id);
+        self.ddl_executor
+            .execute_instruction(&DdlInstruction::AlterTable(instruction))?;
         Ok(())
     }
 
-    // DML Redo operations
-
-    fn redo_delete(&mut self, delete_op: &Delete) -> RuntimeResult<()> {
-        let table_id = delete_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = delete_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        self.dml_executor.delete(table_id, &row_id)?;
+    fn redo_delete(&mut self, operation: &Delete) -> RuntimeResult<()> {
+        let (table_id, row_id) = self.target(operation)?;
+        self.dml_executor.delete(table_id, &UInt64::from(row_id))?;
         Ok(())
     }
 
-    fn redo_update(&mut self, update_op: &Update) -> RuntimeResult<()> {
-        let table_id = update_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-        let row_id = update_op
-            .row_id()
-            .map(|r| UInt64::from(r))
-            .expect("Row id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(undo_row) =
-            Row::from_bytes_checked_with_snapshot(update_op.undo(), schema, &snapshot)?
-        {
-            if let Some(redo_row) =
-                Row::from_bytes_checked_with_snapshot(update_op.redo(), schema, &snapshot)?
-            {
-                // Redo: apply new state
-                self.dml_executor
-                    .update_row(table_id, &row_id, &undo_row, &redo_row)?;
-            }
-        }
+    fn redo_update(&mut self, operation: &Update) -> RuntimeResult<()> {
+        let (table_id, row_id) = self.target(operation)?;
+        let (old_row, _) = self.decode(table_id, operation.undo())?;
+        let (new_row, _) = self.decode(table_id, operation.redo())?;
+        self.dml_executor
+            .update_row(table_id, &UInt64::from(row_id), &old_row, &new_row)?;
         Ok(())
     }
 
-    fn redo_insert(&mut self, insert_op: &Insert) -> RuntimeResult<()> {
-        let table_id = insert_op
-            .object_id()
-            .expect("Table id must be set for DML logs");
-
-        let builder = self.dml_executor.ctx().tree_builder();
-        let snapshot = self.dml_executor.ctx().snapshot();
-
-        let table = self
-            .dml_executor
-            .ctx()
-            .catalog()
-            .get_relation(table_id, &builder, &snapshot)?;
-
-        let schema = table.schema();
-
-        if let Some(row) =
-            Row::from_bytes_checked_with_snapshot(insert_op.redo(), schema, &snapshot)?
-        {
-            let columns = schema.column_indexes();
-            self.dml_executor.insert(table_id, &columns, &row)?;
-        }
+    fn redo_insert(&mut self, operation: &Insert) -> RuntimeResult<()> {
+        let (table_id, row_id) = self.target(operation)?;
+        let (row, columns) = self.decode(table_id, operation.redo())?;
+        self.dml_executor
+            .insert_row(table_id, Some(UInt64::from(row_id)), &columns, &row)?;
         Ok(())
     }
 }
diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index ede60c6..433ec2a 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -153,6 +153,29 @@ impl AnalysisResult {
     pub(crate) fn try_iter_lsn(&self, id: &TransactionId) -> Option<std::slice::Iter<'_, Lsn>> {
         self.lsn_chains.get(id).map(|vec| vec.iter())
     }
+
+    /// Whether the log holds any record.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.lsn_chains.is_empty()
+    }
+
+    /// The highest transaction id in the log.
+    pub(crate) fn last_transaction(&self) -> Option<TransactionId> {
+        self.lsn_chains.keys().next_back().copied()
+    }
+
+    /// The records of the transactions to redo, in the order they were logged.
+    pub(crate) fn redo_sequence(&self) -> Vec<Lsn> {
+        let mut sequence: Vec<Lsn> = self
+            .needs_redo
+            .iter()
+            .filter_map(|tid| self.lsn_chains.get(tid))
+            .flatten()
+            .copied()
+            .collect();
+        sequence.sort_unstable();
+        sequence
+    }
 }
 impl WriteAheadLog {
     /// Maximum record size that can fit in a single block
diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index 59852d0..f3649a9 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -249,8 +249,6 @@ impl Database {
 
         // Create transaction coordinator with last transaction
         let coordinator = TransactionCoordinator::new(pager.clone());
-        // Load persisted aborted transactions from page zero
-        coordinator.load_aborted_transactions();
 
         // Create task runner
         let task_runner =
@@ -268,6 +266,9 @@ impl Database {
         // Run recovery
         db.run_recovery()?;
 
+        // Load persisted aborted transactions from page zero
+        db.coordinator.load_aborted_transactions();
+
         Ok(db)
     }
 
@@ -311,30 +312,51 @@ impl Database {
     }
 
     /// Runs WAL recovery to restore database to consistent state.
+    ///
+    /// The log stays as it is until a checkpoint covers everything that was recovered, so recovery
+    /// can be repeated from the start if it is interrupted.
     fn run_recovery(&self) -> DatabaseResult<()> {
-        let (tx_ctx, logger) = Self::begin_transaction(
-            self.coordinator.clone(),
-            self.pager.clone(),
-            self.catalog.clone(),
-        )?;
-        let child = tx_ctx.create_child()?;
-        let pager = self.pager.clone();
-        // Begin a recovery transaction
-        self.task_runner.run(move |ctx| {
-            let mut recuperator = WalRecuperator::new(child, logger.clone());
+        let analysis = {
+            let mut pager = self.pager.write();
+            let analysis = pager.run_analysis()?;
+            if analysis.is_empty() {
+                return Ok(());
+            }
 
-            // Run analysis INSIDE the closure using the cloned pager
-            let analysis = pager.write().run_analysis().map_err(box_err)?;
+            // No transaction of the log may be taken for a new one.
+            if let Some(last) = analysis.last_transaction() {
+                let created = pager.get_last_created_transaction().max(last + 1);
+                pager.set_last_created_transaction(created);
+            }
+            // What the committed ones had written by the checkpoint counts.
+            for tid in analysis.needs_redo.iter() {
+                pager.clear_transaction_aborted(*tid);
+                let committed = pager.get_last_committed_transaction().max(*tid);
+                pager.set_last_committed_transaction(committed);
+            }
+            // And what the others had written does not.
+            for tid in analysis.needs_undo.iter() {
+                pager.mark_transaction_aborted(*tid);
+            }
+            analysis
+        };
+        self.coordinator.load_aborted_transactions();
 
-            // Run recovery through recuperator
+        // Begin a recovery transaction
+        let handle = self.coordinator.begin()?;
+        let logger = TransactionLogger::silent(handle.id(), self.pager.clone());
+        let tx_ctx = TransactionContext::new(self.pager.clone(), self.catalog.clone(), handle)?;
+        let child = tx_ctx.create_child()?;
+        let pager = self.pager.clone();
+        self.task_runner.run(move |_ctx| {
+            let mut recuperator = WalRecuperator::new(child, logger);
             recuperator.run_recovery(&analysis).map_err(box_err)?;
 
-            // Truncate WAL
-            pager.write().truncate_wal().map_err(box_err)?;
-
             // Commit recovery transaction
             tx_ctx.commit_transaction().map_err(box_err)?;
 
+            pager.write().checkpoint(&[]).map_err(box_err)?;
+
             Ok(())
         })?;
 
@@ -413,7 +435,8 @@ impl Database {
 
     /// Flushes all pending writes to disk.
     pub fn flush(&self) -> DatabaseResult<()> {
-        self.pager.write().flush()?;
+        let unfinished: Vec<_> = self.coordinator.unfinished();
+        self.pager.write().checkpoint(&unfinished)?;
         Ok(())
     }
 
@@ -524,7 +547,10 @@ impl Database {
             tx_ctx.commit_transaction().map_err(box_err)?;
 
             // Flush everything to disk
-            pager.write().flush().map_err(box_err)?;
+            pager
+                .write()
+                .checkpoint(&coordinator.unfinished())
+                .map_err(box_err)?;
 
             Ok(stats)
         })?;
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index 96e0eed..b58615f 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -404,6 +404,21 @@ impl TransactionCoordinator {
         Snapshot::new(txid, xmin, xmax, active, aborted)
     }
 
+    /// The transactions that have neither committed nor aborted.
+    pub fn unfinished(&self) -> Vec<TransactionId> {
+        self.transactions
+            .read()
+            .iter()
+            .filter(|(_, entry)| {
+                matches!(
+                    entry.state(),
+                    TransactionState::Active | TransactionState::Committing
+                )
+            })
+            .map(|(id, _)| *id)
+            .collect()
+    }
+
     /// Whether the transaction can still write.
     pub fn is_active(&self, txid: TransactionId) -> bool {
         self.transactions
diff --git a/crates/axmos-db/src/runtime/context.rs b/crates/axmos-db/src/runtime/context.rs
index 6536fd5..fd2238e 100644
--- a/crates/axmos-db/src/runtime/context.rs
+++ b/crates/axmos-db/src/runtime/context.rs
@@ -148,6 +148,8 @@ pub(crate) struct TransactionLogger {
     tid: TransactionId,
     pager: SharedPager,
     last_lsn: Arc<RwLock<u64>>,
+    /// Recovery works from the log and adds nothing to it.
+    silent: bool,
 }
 
 impl Clone for TransactionLogger {
@@ -156,6 +158,7 @@ impl Clone for TransactionLogger {
             tid: self.tid,
             pager: self.pager.clone(),
             last_lsn: Arc::clone(&self.last_lsn),
+            silent: self.silent,
         }
     }
 }
@@ -166,8 +169,18 @@ impl TransactionLogger {
             tid: xid,
             pager,
             last_lsn: Arc::new(RwLock::new(last_lsn)),
+            silent: false,
         }
     }
+
+    /// A logger which logs nothing.
+    pub(crate) fn silent(xid: TransactionId, pager: SharedPager) -> Self {
+        Self {
+            silent: true,
+            ..Self::new(xid, pager, 0)
+        }
+    }
+
     pub(crate) fn log_commit(&self) -> RuntimeResult<()> {
         self.log_operation(Commit)?;
         Ok(())
@@ -190,6 +203,9 @@ impl TransactionLogger {
     }
 
     fn log_operation<O: Operation>(&self, operation: O) -> RuntimeResult<()> {
+        if self.silent {
+            return Ok(());
+        }
         let new_last_lsn =
             self.pager
                 .write()
diff --git a/crates/axmos-db/src/runtime/dml.rs b/crates/axmos-db/src/runtime/dml.rs
index cf9dbc3..70208fa 100644
--- a/crates/axmos-db/src/runtime/dml.rs
+++ b/crates/axmos-db/src/runtime/dml.rs
@@ -151,6 +151,17 @@ impl DmlExecutor {
         table_id: ObjectId,
         columns: &[usize],
         values: &Row,
+    ) -> RuntimeResult<InsertResult> {
+        self.insert_row(table_id, None, columns, values)
+    }
+
+    /// Inserts a row, under the given row id if there is one.
+    pub(crate) fn insert_row(
+        &mut self,
+        table_id: ObjectId,
+        row_id: Option<UInt64>,
+        columns: &[usize],
+        values: &Row,
     ) -> RuntimeResult<InsertResult> {
         let tree_builder = self.ctx.tree_builder();
         let snapshot = self.ctx.snapshot().clone();
@@ -162,8 +173,10 @@ impl DmlExecutor {
             .catalog()
             .get_relation(table_id, &tree_builder, &snapshot)?;
 
-        let row_id = relation.next_row_id();
-        relation.increment_row_id();
+        let row_id = row_id.unwrap_or(relation.next_row_id());
+        while relation.next_row_id() <= row_id {
+            relation.increment_row_id();
+        }
 
         let schema = relation.schema().clone();
         let root = relation.root();
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 544012f..50990e1 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -142,6 +142,12 @@ impl PageZeroHeader {
         }
     }
 
+    pub(crate) fn clear_transaction_aborted(&mut self, txid: TransactionId) {
+        if txid < MAX_TRACKED_ABORTED_TXS as u64 {
+            self.aborted_txs_bitmap[(txid / 8) as usize] &= !(1 << (txid % 8));
+        }
+    }
+
     pub(crate) fn is_transaction_aborted(&self, txid: TransactionId) -> bool {
         if txid >= MAX_TRACKED_ABORTED_TXS as u64 {
             return false;
-- 
2.43.0


From d156eb75a37137c6812aa53703cd080c432ea9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 22/43] fix: booleans are written into their own byte of a row

---
 crates/axmos-db/src/types/bool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/types/bool.rs b/crates/axmos-db/src/types/bool.rs
index 23d3533..3265bd2 100644
--- a/crates/axmos-db/src/types/bool.rs
+++ b/crates/axmos-db/src/types/bool.rs
@@ -121,7 +121,7 @@ impl<'a> TypeRef<'a> for BoolRef<'a> {
     }
 
     fn as_bytes(&self) -> &[u8] {
-        &[]
+        std::slice::from_ref(self.0)
     }
 }
 
@@ -286,7 +286,10 @@ impl Hashable for Bool {
 
 impl SerializableType for Bool {
     fn write_to(&self, writer: &mut [u8], cursor: usize) -> SerializationResult<usize> {
-        writer[cursor..].copy_from_slice(&[self.0 as u8]);
+        let Some(slot) = writer.get_mut(cursor) else {
+            return Err(SerializationError::UnexpectedEof);
+        };
+        *slot = self.0 as u8;
         Ok(cursor + 1)
     }
 }
-- 
2.43.0


From daaa925b47f7e48286bfa6713f65caef4112973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 23/43] fix: defragmenting a page moves cells whose old and new
 place overlap

---
 crates/axmos-db/src/storage/core/buffer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index ec21c02..503ea59 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -891,13 +891,15 @@ where
             // obtained all the offsets from the slot array, which should always
             // be in a valid state. If that holds true, then casting the
             // dereferencing the cell pointer should be safe as well.
-            unsafe {
+            let size = unsafe {
                 let cell = self.item_at_offset(offset as u64);
-                let cell_ref = CellRef::from_raw(cell);
-                let size = cell_ref.total_size();
-                destination_offset -= size as usize;
-                self.write_item_to_offset(destination_offset as u64, cell_ref);
-            }
+                CellRef::from_raw(cell).total_size()
+            };
+            destination_offset -= size;
+            // The cell may move by less than its own size: source and destination can overlap.
+            let source = offset as usize;
+            self.data_mut()
+                .copy_within(source..source + size, destination_offset);
             self.slot_array_mut()[i] = destination_offset as u16;
         }
 
-- 
2.43.0


From d75e2e0e9af95994d8b4b9b58e74420bfa482fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 24/43] fix: numbers compare and hash by value, exactly, with a
 total order

---
 crates/axmos-db/src/types/macros/datatype.rs | 82 +++++++++-----------
 crates/axmos-db/src/types/mod.rs             |  6 +-
 crates/axmos-db/src/types/number.rs          | 64 +++++++++++++++
 3 files changed, 106 insertions(+), 46 deletions(-)
 create mode 100644 crates/axmos-db/src/types/number.rs

diff --git a/crates/axmos-db/src/types/macros/datatype.rs b/crates/axmos-db/src/types/macros/datatype.rs
index 5241034..cc3741c 100644
--- a/crates/axmos-db/src/types/macros/datatype.rs
+++ b/crates/axmos-db/src/types/macros/datatype.rs
@@ -13,16 +13,11 @@ macro_rules! impl_datatype_partial_eq {
                     (Self::Bool(a), Self::Bool(b)) => a == b,
                     (Self::Blob(a), Self::Blob(b)) => a == b,
 
-                    // Numeric types are promoted to f64 to compare
-                    (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x == y,
-                            _ => false,
-                        }
-                    }
-
-                    // Different type categories are not equal
-                    _ => false,
+                    // Numeric types are equal if their values are; other categories are not equal
+                    (a, b) => match (a.number(), b.number()) {
+                        (Some(x), Some(y)) => x.compare(y).is_eq(),
+                        _ => false,
+                    },
                 }
             }
         }
@@ -44,16 +39,11 @@ macro_rules! impl_datatype_partial_ord {
                     // Blob uses lexicographic ordering
                     (Self::Blob(a), Self::Blob(b)) => a.partial_cmp(b),
 
-                    // Numeric types are promoted to f64 and compared
-                    (a, b) if a.is_numeric() && b.is_numeric() => {
-                        match (a.to_f64(), b.to_f64()) {
-                            (Some(x), Some(y)) => x.partial_cmp(&y),
-                            _ => None,
-                        }
-                    }
-
-                    // Different type categories cannot be compared
-                    _ => None,
+                    // Numeric types compare by value; other categories cannot be compared
+                    (a, b) => match (a.number(), b.number()) {
+                        (Some(x), Some(y)) => Some(x.compare(y)),
+                        _ => None,
+                    },
                 }
             }
         }
@@ -69,6 +59,26 @@ macro_rules! impl_datatype_ord_traits {
     };
 }
 
+/// Macro to obtain the mathematical value of the numeric datatypes
+#[macro_export]
+macro_rules! impl_datatype_number {
+    ($($type_name:tt)+) => {
+        impl $($type_name)+ {
+            fn number(&self) -> Option<Number> {
+                match self {
+                    Self::Int(v) => Some(Number::Integer(v.0 as i128)),
+                    Self::BigInt(v) => Some(Number::Integer(v.0 as i128)),
+                    Self::UInt(v) => Some(Number::Integer(v.0 as i128)),
+                    Self::BigUInt(v) => Some(Number::Integer(v.0 as i128)),
+                    Self::Float(v) => Some(Number::Float(v.0 as f64)),
+                    Self::Double(v) => Some(Number::Float(v.0)),
+                    Self::Null | Self::Bool(_) | Self::Blob(_) => None,
+                }
+            }
+        }
+    };
+}
+
 #[macro_export]
 macro_rules! impl_datatype_hash {
     ($($type_name:tt)+) => {
@@ -82,35 +92,17 @@ macro_rules! impl_datatype_hash {
                         1u8.hash(state);
                         (b.value() as u8).hash(state);
                     }
-                    // Numerics are converted to bits using the same discriminant
-                    Self::Int(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::UInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::BigUInt(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Float(v) => {
-                        2u8.hash(state);
-                        (v.0 as f64).to_bits().hash(state);
-                    }
-                    Self::Double(v) => {
-                        2u8.hash(state);
-                        v.0.to_bits().hash(state);
-                    }
                     Self::Blob(b) => {
                         3u8.hash(state);
                         b.as_ref().hash(state);
                     }
+                    // Numerics of the same value share their hash
+                    numeric => {
+                        2u8.hash(state);
+                        if let Some(number) = numeric.number() {
+                            number.hash(state);
+                        }
+                    }
                 }
             }
         }
diff --git a/crates/axmos-db/src/types/mod.rs b/crates/axmos-db/src/types/mod.rs
index d41262f..c8dd5a7 100644
--- a/crates/axmos-db/src/types/mod.rs
+++ b/crates/axmos-db/src/types/mod.rs
@@ -9,7 +9,7 @@ use std::{
 };
 
 use crate::arithmetic_op;
-use crate::types::core::TypeCast;
+use crate::types::{core::TypeCast, number::Number};
 use rkyv::rancor::Error as RkyvError;
 pub(crate) mod core;
 pub(crate) mod macros;
@@ -19,6 +19,7 @@ use axmos_derive::AutogeneratedDataType;
 pub mod blob;
 pub mod bool;
 pub mod id;
+mod number;
 pub mod numeric;
 pub mod varint;
 
@@ -279,6 +280,9 @@ pub enum DataType {
 
     Blob(Blob),
 }
+crate::impl_datatype_number!(DataType);
+crate::impl_datatype_number!(DataTypeRef<'_>);
+
 crate::impl_datatype_ord_traits!(DataType);
 crate::impl_datatype_ord_traits!(DataTypeRef<'_>);
 
diff --git a/crates/axmos-db/src/types/number.rs b/crates/axmos-db/src/types/number.rs
new file mode 100644
index 0000000..dd635b1
--- /dev/null
+++ b/crates/axmos-db/src/types/number.rs
@@ -0,0 +1,64 @@
+use std::{
+    cmp::Ordering,
+    hash::{Hash, Hasher},
+};
+
+/// Every double of this magnitude (2^127) or more is out of the range of [`i128`].
+const INTEGER_LIMIT: f64 = 170_141_183_460_469_231_731_687_303_715_884_105_728.0;
+
+/// The mathematical value of a numeric datatype.
+#[derive(Debug, Clone, Copy)]
+pub(crate) enum Number {
+    Integer(i128),
+    Float(f64),
+}
+
+impl Number {
+    /// Whole numbers have a single representation, whatever datatype they come from.
+    fn canonical(self) -> Self {
+        match self {
+            Self::Float(f) if f.abs() < INTEGER_LIMIT && f as i128 as f64 == f => {
+                Self::Integer(f as i128)
+            }
+            other => other,
+        }
+    }
+
+    /// Total order by value. NaN is equal to itself and greater than any other number.
+    pub(crate) fn compare(self, other: Self) -> Ordering {
+        match (self.canonical(), other.canonical()) {
+            (Self::Integer(a), Self::Integer(b)) => a.cmp(&b),
+            (Self::Integer(a), Self::Float(b)) => Self::compare_integer(a, b),
+            (Self::Float(a), Self::Integer(b)) => Self::compare_integer(b, a).reverse(),
+            (Self::Float(a), Self::Float(b)) => a
+                .partial_cmp(&b)
+                .unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())),
+        }
+    }
+
+    /// Compares an integer to a float that is not a whole number in the range of [`i128`].
+    fn compare_integer(integer: i128, float: f64) -> Ordering {
+        if float.is_nan() || float >= INTEGER_LIMIT {
+            return Ordering::Less;
+        }
+        if float <= -INTEGER_LIMIT {
+            return Ordering::Greater;
+        }
+        // The conversion drops the fraction, towards zero.
+        integer.cmp(&(float as i128)).then(if float > 0.0 {
+            Ordering::Less
+        } else {
+            Ordering::Greater
+        })
+    }
+}
+
+impl Hash for Number {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        match self.canonical() {
+            Self::Integer(i) => i.hash(state),
+            Self::Float(f) if f.is_nan() => f64::NAN.to_bits().hash(state),
+            Self::Float(f) => f.to_bits().hash(state),
+        }
+    }
+}
-- 
2.43.0


From 14779e53df73c26509330e27b7447a97413cd00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 25/43] fix: number literals keep their value and type; ORDER
 BY expressions are over the input

---
 crates/axmos-db/src/sql/binder/analyzer.rs | 21 +++++++++---
 crates/axmos-db/src/sql/binder/binder.rs   | 29 ++++++++++++-----
 crates/axmos-db/src/sql/parser/ast.rs      |  6 ++++
 crates/axmos-db/src/sql/parser/lexer.rs    | 25 ++++++++++++---
 crates/axmos-db/src/sql/parser/mod.rs      | 37 +++++++++++++++-------
 5 files changed, 89 insertions(+), 29 deletions(-)

diff --git a/crates/axmos-db/src/sql/binder/analyzer.rs b/crates/axmos-db/src/sql/binder/analyzer.rs
index 34f6f04..d20a2e5 100644
--- a/crates/axmos-db/src/sql/binder/analyzer.rs
+++ b/crates/axmos-db/src/sql/binder/analyzer.rs
@@ -291,9 +291,13 @@ impl Analyzer {
                 Ok(())
             }
             // Literals don't need validation
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null | Expr::Star => {
-                Ok(())
-            }
+            Expr::Number(_)
+            | Expr::Integer(_)
+            | Expr::Decimal(_)
+            | Expr::String(_)
+            | Expr::Boolean(_)
+            | Expr::Null
+            | Expr::Star => Ok(()),
         }
     }
 
@@ -330,6 +334,8 @@ impl Analyzer {
     /// Validates literal values against expected column types
     fn validate_return_type(&mut self, dtype: DataTypeKind, value: &Expr) -> AnalyzerResult<()> {
         match value {
+            Expr::Integer(i) => self.validate_return_type(dtype, &Expr::Number(*i as f64))?,
+            Expr::Decimal(f) => self.validate_return_type(dtype, &Expr::Number(*f))?,
             Expr::Number(f) => match dtype {
                 DataTypeKind::Int => {
                     Self::validate_bounds(*f, i32::MIN as f64, i32::MAX as f64)?;
@@ -401,7 +407,7 @@ impl Analyzer {
     /// Infers the data type of an expression.
     fn infer_expr_type(&self, expr: &Expr) -> AnalyzerResult<DataTypeKind> {
         match expr {
-            Expr::Number(_) => Ok(DataTypeKind::Double),
+            Expr::Number(_) | Expr::Integer(_) | Expr::Decimal(_) => Ok(DataTypeKind::Double),
             Expr::String(_) => Ok(DataTypeKind::Blob),
             Expr::Boolean(_) => Ok(DataTypeKind::Bool),
             Expr::Null => Ok(DataTypeKind::Null),
@@ -871,7 +877,12 @@ impl Analyzer {
     /// Validates expressions that don't require table scope (literals, simple expressions)
     fn validate_literal_expr(&self, expr: &Expr) -> AnalyzerResult<()> {
         match expr {
-            Expr::Number(_) | Expr::String(_) | Expr::Boolean(_) | Expr::Null => Ok(()),
+            Expr::Number(_)
+            | Expr::Integer(_)
+            | Expr::Decimal(_)
+            | Expr::String(_)
+            | Expr::Boolean(_)
+            | Expr::Null => Ok(()),
             Expr::UnaryOp { expr, .. } => self.validate_literal_expr(expr),
             Expr::BinaryOp { left, right, .. } => {
                 self.validate_literal_expr(left)?;
diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index 969ce86..a8b2e24 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -154,14 +154,7 @@ impl<'a> Binder<'a> {
         // Bind SELECT columns and collect output info
         let (columns, output_names) = self.bind_select_items(&stmt.columns)?;
 
-        // Register output aliases for ORDER BY resolution
-        for (i, item) in columns.iter().enumerate() {
-            if let Some(scope) = self.scopes.current_mut() {
-                scope.add_output_alias(output_names[i].clone(), item.expr.data_type());
-            }
-        }
-
-        // Bind ORDER BY (can reference output aliases)
+        // Bind ORDER BY: a bare output name is that output, any other expression is over the input.
         let order_by: Vec<BoundOrderBy> = stmt
             .order_by
             .iter()
@@ -743,6 +736,10 @@ impl<'a> Binder<'a> {
     fn bind_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
+            Expr::Decimal(n) => Ok(BoundExpression::Literal {
+                value: DataType::Double((*n).into()),
+            }),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -974,6 +971,10 @@ impl<'a> Binder<'a> {
     fn bind_literal_expr(&mut self, expr: &Expr) -> BinderResult<BoundExpression> {
         match expr {
             Expr::Number(n) => Ok(self.bind_number(*n)),
+            Expr::Integer(n) => Ok(self.bind_integer(*n)),
+            Expr::Decimal(n) => Ok(BoundExpression::Literal {
+                value: DataType::Double((*n).into()),
+            }),
             Expr::String(s) => Ok(BoundExpression::Literal {
                 value: DataType::Blob(s.as_str().into()),
             }),
@@ -1024,6 +1025,18 @@ impl<'a> Binder<'a> {
         BoundExpression::Literal { value }
     }
 
+    fn bind_integer(&self, n: i128) -> BoundExpression {
+        let value = if let Ok(n) = i64::try_from(n) {
+            DataType::BigInt(n.into())
+        } else if let Ok(n) = u64::try_from(n) {
+            DataType::BigUInt(n.into())
+        } else {
+            DataType::Double((n as f64).into())
+        };
+
+        BoundExpression::Literal { value }
+    }
+
     fn try_parse_aggregate(&self, name: &str) -> Option<AggregateFunction> {
         match name {
             "COUNT" => Some(AggregateFunction::Count),
diff --git a/crates/axmos-db/src/sql/parser/ast.rs b/crates/axmos-db/src/sql/parser/ast.rs
index 5ec3666..007e607 100644
--- a/crates/axmos-db/src/sql/parser/ast.rs
+++ b/crates/axmos-db/src/sql/parser/ast.rs
@@ -9,6 +9,10 @@ pub(crate) trait Simplify {
 pub(crate) enum Expr {
     // Literals
     Number(f64),
+    /// A whole number too large to be held exactly by [`Expr::Number`].
+    Integer(i128),
+    /// A whole number written with a decimal point.
+    Decimal(f64),
     String(String),
     Boolean(bool),
     Null,
@@ -783,6 +787,8 @@ impl Display for Expr {
     fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
         match self {
             Expr::Number(n) => write!(f, "{n}"),
+            Expr::Integer(n) => write!(f, "{n}"),
+            Expr::Decimal(n) => write!(f, "{n:?}"),
             Expr::String(s) => write!(f, "'{s}'"),
             Expr::Boolean(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
             Expr::Null => write!(f, "NULL"),
diff --git a/crates/axmos-db/src/sql/parser/lexer.rs b/crates/axmos-db/src/sql/parser/lexer.rs
index 881e62d..f58c0b6 100644
--- a/crates/axmos-db/src/sql/parser/lexer.rs
+++ b/crates/axmos-db/src/sql/parser/lexer.rs
@@ -123,6 +123,10 @@ pub enum Token {
     Identifier(String),
     StringLiteral(String),
     NumberLiteral(f64),
+    /// A whole number too large to be held exactly by a [`Token::NumberLiteral`].
+    IntegerLiteral(i128),
+    /// A whole number written with a decimal point.
+    DecimalLiteral(f64),
 
     // Symbols and operators
     Star,      // *
@@ -153,6 +157,8 @@ impl fmt::Display for Token {
             Token::Identifier(s) => write!(f, "{s}"),
             Token::StringLiteral(s) => write!(f, "'{s}'"),
             Token::NumberLiteral(n) => write!(f, "{n}"),
+            Token::IntegerLiteral(n) => write!(f, "{n}"),
+            Token::DecimalLiteral(n) => write!(f, "{n:?}"),
             Token::Star => write!(f, "*"),
             Token::Comma => write!(f, ","),
             Token::Dot => write!(f, "."),
@@ -179,6 +185,8 @@ impl fmt::Display for Token {
 /// ESCAPE QUOTE IS A CONSTANT FOR THE LEXER PROGRAM.
 const ESCAPE_QUOTE: char = '\'';
 const DOUBLE_QUOTE: char = '"';
+/// Whole numbers up to this one (2^53) have an exact floating point representation.
+const MAX_EXACT_NUMBER: f64 = 9_007_199_254_740_992.0;
 const DECIMAL_MARKER: char = '.';
 const UNDERSCORE: char = '_';
 const STAR: char = '*';
@@ -282,11 +290,13 @@ impl Lexer {
 
     // Read a number from the input buffer.
     // On my implementation, decimals are represented with dots.
-    fn read_number(&mut self) -> f64 {
+    fn read_number(&mut self) -> Token {
         let mut num_str = String::new();
+        let mut has_marker = false;
 
         while let Some(ch) = self.current_char {
-            if ch.is_ascii_digit() || ch == DECIMAL_MARKER {
+            if ch.is_ascii_digit() || (ch == DECIMAL_MARKER && !has_marker) {
+                has_marker |= ch == DECIMAL_MARKER;
                 num_str.push(ch);
                 self.advance();
             } else {
@@ -294,7 +304,14 @@ impl Lexer {
             }
         }
 
-        num_str.parse().unwrap_or(0.0)
+        let number: f64 = num_str.parse().unwrap_or(0.0);
+        if has_marker && number.fract() == 0.0 {
+            return Token::DecimalLiteral(number);
+        }
+        match num_str.parse::<i128>() {
+            Ok(integer) if number >= MAX_EXACT_NUMBER => Token::IntegerLiteral(integer),
+            _ => Token::NumberLiteral(number),
+        }
     }
 
     /// Read an identifier from the input buffer.
@@ -348,7 +365,7 @@ impl Lexer {
                 }
                 Token::Identifier(ident)
             }
-            Some(ch) if ch.is_ascii_digit() => Token::NumberLiteral(self.read_number()),
+            Some(ch) if ch.is_ascii_digit() => self.read_number(),
             Some(ch) if ch.is_alphabetic() || ch == '_' => {
                 let ident = self.read_identifier();
                 keyword_to_token(&ident)
diff --git a/crates/axmos-db/src/sql/parser/mod.rs b/crates/axmos-db/src/sql/parser/mod.rs
index 9b38e0e..cb9b66e 100644
--- a/crates/axmos-db/src/sql/parser/mod.rs
+++ b/crates/axmos-db/src/sql/parser/mod.rs
@@ -138,6 +138,16 @@ impl Parser {
                 self.next_token();
                 Ok(Expr::Number(num))
             }
+            Token::IntegerLiteral(n) => {
+                let num = *n;
+                self.next_token();
+                Ok(Expr::Integer(num))
+            }
+            Token::DecimalLiteral(n) => {
+                let num = *n;
+                self.next_token();
+                Ok(Expr::Decimal(num))
+            }
             Token::StringLiteral(s) => {
                 let string = s.clone();
                 self.next_token();
@@ -260,18 +270,21 @@ impl Parser {
             Token::Minus => {
                 self.next_token();
                 // Special case: if next token is a number, combine into negative number
-                if let Token::NumberLiteral(n) = self.current_token {
-                    let num = -n;
-                    self.next_token();
-                    Ok(Expr::Number(num))
-                } else {
-                    // Regular unary minus for expressions
-                    let expr = self.parse_expr_bp(9)?;
-                    Ok(Expr::UnaryOp {
-                        op: UnaryOperator::Minus,
-                        expr: Box::new(expr),
-                    })
-                }
+                let negated = match self.current_token {
+                    Token::NumberLiteral(n) => Expr::Number(-n),
+                    Token::IntegerLiteral(n) => Expr::Integer(-n),
+                    Token::DecimalLiteral(n) => Expr::Decimal(-n),
+                    _ => {
+                        // Regular unary minus for expressions
+                        let expr = self.parse_expr_bp(9)?;
+                        return Ok(Expr::UnaryOp {
+                            op: UnaryOperator::Minus,
+                            expr: Box::new(expr),
+                        });
+                    }
+                };
+                self.next_token();
+                Ok(negated)
             }
             // If you take a look at the infix table:
             // ´´´rust
-- 
2.43.0


From 057a3810d943915cb4ae84c63f673d5f78200145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 26/43] fix: dividers own their overflow chains; merged
 interior nodes keep their separators

---
 crates/axmos-db/src/tree/bplustree.rs | 110 +++++++++++++++++---------
 1 file changed, 73 insertions(+), 37 deletions(-)

diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 3b8ea81..6bdc796 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -1030,7 +1030,7 @@ where
         // Choose the appropiate cell to propagate based on the type of page.
         // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
         let mut propagated_cell = if was_leaf {
-            right_cells.first().unwrap().clone()
+            self.copy_cell(right_cells.first().unwrap().clone())?
         } else {
             left_cells.last().unwrap().clone()
         };
@@ -1158,6 +1158,52 @@ where
         (total_size_in_each_page, number_of_cells_per_page)
     }
 
+    /// Copies a cell together with its overflow chain.
+    ///
+    /// Dividers are copies of leaf cells. The chain of the leaf cell is deallocated when the cell is updated or removed,
+    /// so the divider must have its own.
+    fn copy_cell(&self, cell: OwnedCell) -> BtreeResult<OwnedCell> {
+        let Some(mut source) = cell.overflow_page() else {
+            return Ok(cell);
+        };
+
+        let first = self.pager.write().allocate_page::<OverflowPage>()?;
+        let mut target = first;
+
+        loop {
+            let (data, next_source) =
+                self.pager
+                    .write()
+                    .with_page::<OverflowPage, _, _>(source, |page| {
+                        (page.effective_data().to_vec(), page.metadata().next)
+                    })?;
+
+            let next_target = next_source
+                .map(|_| self.pager.write().allocate_page::<OverflowPage>())
+                .transpose()?;
+
+            self.pager
+                .write()
+                .with_page_mut::<OverflowPage, _, _>(target, |page| {
+                    page.push_bytes(&data);
+                    page.metadata_mut().next = next_target;
+                })?;
+
+            match (next_source, next_target) {
+                (Some(next_source), Some(next_target)) => {
+                    source = next_source;
+                    target = next_target;
+                }
+                _ => break,
+            }
+        }
+
+        let first_part_len = cell.len() - std::mem::size_of::<PageId>();
+        let mut copied = OwnedCell::new_overflow(&cell.effective_data()[..first_part_len], first);
+        copied.set_left_child(cell.metadata().left_child());
+        Ok(copied)
+    }
+
     /// Full balance algorithm.
     /// The description of this algorithm can be found on original SQLite docs: https://sqlite.org/btreemodule.html
     /// The main idea is that you have to take as many pages as specified, recompute a balanced distribution, and redistribute the cells accordingly.
@@ -1272,7 +1318,7 @@ where
         let slot_to_remove = siblings[0].slot();
 
         // Make copies of cells in order.
-        for (i, sibling) in siblings.iter().enumerate() {
+        for sibling in siblings.iter() {
             // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
             let sibling_page_id = sibling.entry();
 
@@ -1282,37 +1328,24 @@ where
             // Extract this node's cells and return the right child.
             let right_child = page.right_child();
 
-            // If we are not the last sibling we can safely link with the next in the chain.
-            // If we are the last sibling we use the right frontier.
-            // If there is no right frontier we are the parent's right most and there is no [next].
-            let next_sibling = siblings
-                .get(i + 1)
-                .map(|s| s.entry())
-                .or(right_frontier_in_parent.map(|f| f.entry()));
-
-            // If the right child is different from None and the next sibling too,
-            // extract the first cell of the first child on our next sibling and allocate a new cell.
-            // This always happens on interior nodes rebalancing, as right_child is not set on leaf nodes.
-            if let Some(right_most_child_id) = right_child
-                && let Some(next_id) = next_sibling
-            {
-                let next_page = self.get_page_mut(next_id)?;
-
-                // Obtain the first child
-                if let Some(first_child_id) = next_page.child(0) {
-                    let child_page = self.get_page_mut(first_child_id)?;
-                    let mut cell = child_page.owned_cell(0);
-
-                    // Make the copied cell point to our right child and push it to the chain.
-                    cell.set_left_child(Some(right_most_child_id));
-                    cells.push_back(cell);
-                };
+            // Remove our entry from the parent node.
+            let parent_page = self.get_page_mut(parent_page_id)?;
+            let separator = (slot_to_remove < parent_page.num_slots())
+                .then(|| parent_page.remove(slot_to_remove))
+                .transpose()?;
+
+            let Some(mut separator) = separator else {
+                continue;
             };
 
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Remove our entry from the parent node.
-            if slot_to_remove < parent_page.num_slots() {
-                parent_page.remove(slot_to_remove)?;
+            if let Some(right_most_child_id) = right_child {
+                // On interior nodes the entry that separated us from the next sibling comes down,
+                // pointing to our right child.
+                separator.set_left_child(Some(right_most_child_id));
+                cells.push_back(separator);
+            } else {
+                // The entries over the leaf nodes are built again from the new first cells.
+                CellDeallocator::new(self.pager.clone()).deallocate_cell(separator)?;
             };
         }
 
@@ -1409,8 +1442,7 @@ where
             // Note that the last node's  next is the right frontier, which gets propagated afterwards.
             if i < siblings.len() - 1 && is_leaf {
                 // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = cells.front().unwrap().clone();
-                current_iter_page.set_right_child(divider.left_child());
+                let mut divider = self.copy_cell(cells.front().unwrap().clone())?;
                 divider.set_left_child(Some(current_iter_id));
                 let parent_page = self.get_page_mut(parent_page_id)?;
                 parent_page.insert(current_iter_slot, divider)?;
@@ -1443,7 +1475,8 @@ where
             let last_sibling_id = last_sibling.entry();
             let last_sibling_slot = last_sibling.slot();
 
-            let mut divider_cell = page.owned_cell(0);
+            let divider_cell = page.owned_cell(0);
+            let mut divider_cell = self.copy_cell(divider_cell)?;
             divider_cell.set_left_child(Some(last_sibling_id));
             let parent_page = self.get_page_mut(parent_page_id)?;
             parent_page.insert(last_sibling_slot, divider_cell)?;
@@ -1604,12 +1637,14 @@ where
         // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
         let divider = match direction {
             BorrowDirection::RightToLeft => {
-                let mut separator = self.get_page_mut(source_page_id)?.owned_cell(0);
+                let separator = self.get_page_mut(source_page_id)?.owned_cell(0);
+                let mut separator = self.copy_cell(separator)?;
                 separator.set_left_child(Some(target_page_id));
                 separator
             }
             BorrowDirection::LeftToRight => {
-                let mut separator = self.get_page_mut(target_page_id)?.owned_cell(0);
+                let separator = self.get_page_mut(target_page_id)?.owned_cell(0);
+                let mut separator = self.copy_cell(separator)?;
                 separator.set_left_child(Some(source_page_id));
                 separator
             }
@@ -1619,7 +1654,8 @@ where
         if parent_page.num_slots() == separator_slot {
             parent_page.set_right_child(divider.left_child());
         } else {
-            parent_page.replace(separator_slot, divider)?;
+            let old_divider = parent_page.replace(separator_slot, divider)?;
+            CellDeallocator::new(self.pager.clone()).deallocate_cell(old_divider)?;
         };
 
         Ok(())
-- 
2.43.0


From c7c6953943a528f3137105b38b4b440f40848c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 27/43] fix: balancing never overfills a node nor leaves one
 out of its parent

---
 crates/axmos-db/src/storage/core/buffer.rs |    6 +
 crates/axmos-db/src/storage/core/traits.rs |    3 +
 crates/axmos-db/src/tree/bplustree.rs      | 1013 ++++++--------------
 crates/axmos-db/src/tree/cell_ops.rs       |    3 +-
 4 files changed, 284 insertions(+), 741 deletions(-)

diff --git a/crates/axmos-db/src/storage/core/buffer.rs b/crates/axmos-db/src/storage/core/buffer.rs
index 503ea59..6fe0bb9 100644
--- a/crates/axmos-db/src/storage/core/buffer.rs
+++ b/crates/axmos-db/src/storage/core/buffer.rs
@@ -642,6 +642,12 @@ where
         !self.has_space_for(mem::size_of::<Slot>() + CELL_HEADER_SIZE + mem::size_of::<PageId>())
     }
 
+    /// Total storage size of the cells that a page can hold without being in overflow state.
+    fn max_balanced_size(&self) -> usize {
+        Self::overflow_threshold(self.capacity())
+            .saturating_sub(mem::size_of::<Slot>() + CELL_HEADER_SIZE + mem::size_of::<PageId>())
+    }
+
     /// Read-only reference to a cell.
     fn cell(&self, index: usize) -> CellRef<'_> {
         unsafe { CellRef::from_raw(self.get_cell_at(index)) }
diff --git a/crates/axmos-db/src/storage/core/traits.rs b/crates/axmos-db/src/storage/core/traits.rs
index 51acb1b..fbbd4f4 100644
--- a/crates/axmos-db/src/storage/core/traits.rs
+++ b/crates/axmos-db/src/storage/core/traits.rs
@@ -237,6 +237,9 @@ pub(crate) trait BtreeOps:
     /// We need at least 2 bytes for the last cell slot and 4 extra bytes to store the pointer to an overflow page
     fn has_overflown(&self) -> bool;
 
+    /// Total storage size of the cells that a page can hold without being in overflow state.
+    fn max_balanced_size(&self) -> usize;
+
     /// Read-only reference to a cell.
     fn cell(&self, index: usize) -> CellRef<'_>;
 
diff --git a/crates/axmos-db/src/tree/bplustree.rs b/crates/axmos-db/src/tree/bplustree.rs
index 6bdc796..3822624 100644
--- a/crates/axmos-db/src/tree/bplustree.rs
+++ b/crates/axmos-db/src/tree/bplustree.rs
@@ -20,8 +20,8 @@ use super::{
 };
 
 use std::{
-    cmp::{Ordering, Reverse},
-    collections::{BTreeMap, BinaryHeap, HashSet, VecDeque},
+    cmp::Ordering,
+    collections::{BTreeMap, HashSet, VecDeque},
     error::Error,
     fmt::{Display, Formatter, Result as FmtResult, Write},
     fs,
@@ -681,11 +681,6 @@ where
     }
 }
 
-enum BorrowDirection {
-    RightToLeft,
-    LeftToRight,
-}
-
 /// Mutable / Write only accessor.
 impl<Acc> Btree<Acc>
 where
@@ -932,230 +927,67 @@ where
         Ok(())
     }
 
-    /// Balance shallower algorithm inspired by SQLite (balance shallower)
-    /// https://sqlite.org/btreemodule.html
-    /// The balance shallower algorithm decreases the height of the tree when the root node has only one child.
-    /// [root] -----|
-    ///         [right child] ----|
-    ///                          [right grandchild]
+    /// Splits a sorted list of cells among as many pages as they need.
     ///
-    /// 1. Drains the right child cells.
-    /// 2. Pushes them to the root node.
-    /// 3. The right child gets deallocated.
-    /// 4. The right grandchild becomes the new right-child.
-    fn balance_shallower(&mut self) -> BtreeResult<()> {
-        let is_empty = self.get_page_mut(self.root)?.is_empty();
-        let is_leaf = self.get_page_mut(self.root)?.is_leaf();
-
-        // Check if the root has actually underflown.
-        if !is_empty || is_leaf {
-            return Ok(());
-        };
-
-        // Safe to unwrap since we already checked that we are not at a leaf node.
-        let right_child_id = self.get_page_mut(self.root)?.right_child().unwrap();
-        let child_page = self.get_page_mut(right_child_id)?;
-
-        // Get the right child of the child (can be None).
-        let optional_grand_child_id = child_page.right_child();
-        let cells = child_page.drain(..).collect::<Vec<OwnedCell>>();
-
-        // Release the child's latch and deallocate.
-        self.accessor_mut()?.release(right_child_id);
-        self.pager
-            .write()
-            .dealloc_page::<BtreePage>(right_child_id)?;
-
-        let root_page = self.get_page_mut(self.root)?;
-        // Refill the old root (we have checked at the beginning that it was empty)
-        for cell in cells {
-            root_page.push(cell)?;
-        }
-
-        // Re-set the root to point to the old grand child , a we have removed the node in the middle.
-        root_page.set_right_child(optional_grand_child_id);
-
-        Ok(())
-    }
-
-    /// Splits a mutable slice of cells into two parts, assuming they are sorted by key.
-    /// Useful for cell redistribution.
-    fn split_cells(mut cells: Vec<OwnedCell>) -> (Vec<OwnedCell>, Vec<OwnedCell>) {
-        // Assumes cells are sorted
-        let sizes: Vec<usize> = cells.iter().map(|cell| cell.total_size()).collect();
-        let total_size: usize = sizes.iter().sum();
-        let half_size = total_size.div_ceil(2);
-
-        // Look for the point where the accumulated result crosses the mid point.
-        let mut acc = 0;
-        let split_index = sizes
-            .iter()
-            .position(|&s| {
-                acc += s;
-                acc >= half_size
-            })
-            .unwrap_or(cells.len().div_ceil(2));
-
-        // Divide the vector
-        let right = cells.split_off(split_index);
-        let left = cells;
-
-        (left, right)
-    }
-
-    /// Balance deeper algorithm inspired by SQLite [balance deeper].
-    /// Balance deeper is the opposite of balance shallower in the sense that it will allocate two new nodes when the root becomes full, increasing the depth of the tree by one.
-    /// The cell in the middle gets propagated upwards.
-    /// We also need to fix the pointers in the frontiers between the two new nodes to maintain the leaf node's linked list.
-    fn balance_deeper(&mut self) -> BtreeResult<()> {
-        let page_size = self.pager.write().page_size();
-        // Allocate new left and right childs
-        let new_left = self.pager.write().allocate_page::<BtreePage>()?;
-        let new_right = self.pager.write().allocate_page::<BtreePage>()?;
-
-        // Obtain root page metadata
-
-        let optional_old_right_id = self.get_page_mut(self.root)?.right_child();
-        let was_leaf = self.get_page_mut(self.root)?.is_leaf();
-
-        // drain the root node.
-        let cells = self
-            .get_page_mut(self.root)?
-            .drain(..)
-            .collect::<Vec<OwnedCell>>();
-
-        // Split the cell's array.
-        let (mut left_cells, right_cells) = Self::split_cells(cells);
-
-        // Choose the appropiate cell to propagate based on the type of page.
-        // We need to copy  because we also need to insert it on the new leaves (this is a Bplustree, so the data must reside on the leaf pages.)
-        let mut propagated_cell = if was_leaf {
-            self.copy_cell(right_cells.first().unwrap().clone())?
-        } else {
-            left_cells.last().unwrap().clone()
-        };
-        propagated_cell.set_left_child(Some(new_left));
-
-        {
-            let current_root_page = self.get_page_mut(self.root)?;
-            // Now we move part of the cells to one node and the other part to the other node.
-            current_root_page.set_right_child(Some(new_right));
-            current_root_page.push(propagated_cell)?;
-        }
-
-        // In case we were splitting an interior node we need to account that the last cell must be used as the right child of the new allocated pages.
-
-        let (cells_for_left, right_child) = if was_leaf {
-            (left_cells, None)
-        } else if let Some(last) = left_cells.pop() {
-            (left_cells, last.left_child())
-        } else {
-            (left_cells, None)
-        };
-
-        {
-            let left_page = self.get_page_mut(new_left)?;
-
-            // Push the owned cells to the left page.
-            for cell in cells_for_left {
-                left_page.push(cell)?;
-            }
-
-            left_page.set_right_child(right_child);
-            left_page.set_next_sibling(Some(new_right));
-            left_page.set_prev_sibling(None);
-        }
-
-        {
-            let right_page = self.get_page_mut(new_right)?;
-            // Now do the same with the other page.
-            for cell in right_cells {
-                right_page.push(cell)?;
+    /// Every page takes at least one cell and as many as its capacity allows, and afterwards the pages that are below the
+    /// minimum take cells from the page at their left, if it can spare them.
+    ///
+    /// Returns the index of the first cell of each page. Between two pages there are `gap` cells that belong to none of them:
+    /// zero for leaf nodes, one for interior nodes (the separator that goes to the parent).
+    fn distribute_cells(
+        sizes: &[usize],
+        gap: usize,
+        capacity: usize,
+        minimum: usize,
+    ) -> Vec<usize> {
+        let mut starts = vec![0];
+        let mut used = 0;
+        let mut i = 0;
+
+        while i < sizes.len() {
+            let start = starts[starts.len() - 1];
+            if i > start && used + sizes[i] > capacity {
+                if i + gap < sizes.len() {
+                    i += gap;
+                    starts.push(i);
+                    used = 0;
+                } else if i > start + gap {
+                    // The last cell cannot be a separator, so it is the cell before it.
+                    starts.push(i);
+                    used = 0;
+                }
             }
-
-            right_page.set_prev_sibling(Some(new_left));
-            right_page.set_next_sibling(None);
-            right_page.set_right_child(optional_old_right_id);
+            used += sizes[i];
+            i += 1;
         }
 
-        // Fix the frontier links.
-        // The right child of the left page must be linked with the left most child of the right page to maintain proper ordering.
-        let left_right_most = self.get_page_mut(new_left)?.right_child();
-        let right_left_most = self.get_page_mut(new_right)?.cell(0).left_child();
-
-        if let Some(page_id) = left_right_most {
-            let page = self.get_page_mut(page_id)?;
-            page.set_next_sibling(right_left_most);
-        };
-
-        if let Some(page_id) = right_left_most {
-            let page = self.get_page_mut(page_id)?;
-            page.set_prev_sibling(left_right_most);
-        };
-
-        Ok(())
-    }
-
-    // Computes the best cell distribution given a list of cells.
-    //
-    // The cell distribution computation is part of the rebalance algorithm.
-    //
-    // It is done once before the actual redistribution in order to know in advance where do we have to put cells on.
-    // This way cells are moved only once in memory
-    fn compute_best_cell_distribution(
-        cells: &VecDeque<OwnedCell>,
-        page_size: usize,
-    ) -> (Vec<usize>, Vec<usize>) {
-        // Obtain the maximum data that we can fit on this page.
-        let usable_space = BtreePage::overflow_threshold(page_size);
-
-        // These two arrays track the redistribution computation of the rebalancing algorithm.
-        let mut total_size_in_each_page = vec![0];
-        let mut number_of_cells_per_page = vec![0];
-
-        // We keep pushing cells to the bucket until we exhaust it.
-        // Once done, we create a new bucket an advance the cursor.
-        for cell in cells {
-            let bucket = number_of_cells_per_page.len() - 1;
-
-            // If we can add the cell, we push it to the current bucket.
-            if total_size_in_each_page[bucket] + cell.storage_size() <= usable_space {
-                number_of_cells_per_page[bucket] += 1;
-                total_size_in_each_page[bucket] += cell.storage_size();
+        let mut page = starts.len() - 1;
+        while page > 0 {
+            let end = if page + 1 < starts.len() {
+                starts[page + 1] - gap
             } else {
-                // If not, we create a new bucket and append this cell to it.
-                number_of_cells_per_page.push(1);
-                total_size_in_each_page.push(cell.storage_size());
+                sizes.len()
             };
-        }
 
-        // Account for underflow towards the right.
-        // At least two pages are needed in order to be able to account for that underflow.
-        if number_of_cells_per_page.len() >= 2 {
-            // The divider cell will be the first cell of the last page.
-            let mut divider_cell = cells.len() - number_of_cells_per_page.last().unwrap() - 1;
-
-            // Iterate backwards, moving cells towards the right.
-            for i in (1..=(total_size_in_each_page.len() - 1)).rev() {
-                while total_size_in_each_page[i] < BtreePage::underflow_threshold(page_size) {
-                    number_of_cells_per_page[i] += 1;
-                    total_size_in_each_page[i] += &cells[divider_cell].storage_size();
-
-                    number_of_cells_per_page[i - 1] -= 1;
-                    total_size_in_each_page[i - 1] -= &cells[divider_cell - 1].storage_size();
-                    divider_cell -= 1;
-                }
+            let mut used = 0;
+            let mut i = starts[page];
+            while i < end {
+                used += sizes[i];
+                i += 1;
             }
 
-            // Second page has more data than the first one, make a little
-            // adjustment to keep it left biased.
-            if total_size_in_each_page[0] < BtreePage::underflow_threshold(page_size) {
-                number_of_cells_per_page[0] += 1;
-                number_of_cells_per_page[1] -= 1;
-            };
-        };
+            while used < minimum
+                && starts[page] >= starts[page - 1] + gap + 2
+                && used + sizes[starts[page] - 1] <= capacity
+            {
+                starts[page] -= 1;
+                used += sizes[starts[page]];
+            }
+
+            page -= 1;
+        }
 
-        (total_size_in_each_page, number_of_cells_per_page)
+        starts
     }
 
     /// Copies a cell together with its overflow chain.
@@ -1204,382 +1036,271 @@ where
         Ok(copied)
     }
 
+    /// Takes all the cells of a node, together with its right child.
+    fn take_node(&mut self, page_id: PageId) -> BtreeResult<(Vec<OwnedCell>, Option<PageId>)> {
+        let page = self.get_page_mut(page_id)?;
+        let cells = page.drain(..).collect();
+        Ok((cells, page.right_child()))
+    }
+
+    /// Writes the cells and the right child of an empty node.
+    fn fill_node(
+        &mut self,
+        page_id: PageId,
+        cells: Vec<OwnedCell>,
+        right_child: Option<PageId>,
+    ) -> BtreeResult<()> {
+        let page = self.get_page_mut(page_id)?;
+        for cell in cells {
+            page.push(cell)?;
+        }
+        page.set_right_child(right_child);
+        Ok(())
+    }
+
     /// Full balance algorithm.
     /// The description of this algorithm can be found on original SQLite docs: https://sqlite.org/btreemodule.html
     /// The main idea is that you have to take as many pages as specified, recompute a balanced distribution, and redistribute the cells accordingly.
     /// Afterwards, propagate the pointers as required.
     fn balance(&mut self, page_id: PageId) -> BtreeResult<()> {
-        let is_root = self.is_root(page_id);
-        // Read the page size from the pager.
-        let page_size = self.pager.write().page_size();
-        let status = self.check_node_status(page_id)?;
-
         // Nothing to do, the node is balanced.
-        if matches!(status, NodeStatus::Balanced) {
-            return Ok(());
-        };
-
-        // Root underflow.
-        if is_root && matches!(status, NodeStatus::Underflow) {
-            return self.balance_shallower();
-        };
-
-        // Root overflow.
-        if is_root && matches!(status, NodeStatus::Overflow) {
-            return self.balance_deeper();
-        };
-
-        // Pop the last visited position from the stack.
-        // During balance, we propagate upwards, therefore we use the stack in the opposite way as we do when we traverse down, popping as we call it on each node and using the popped position to identify where we are at in the tree.
-        let parent_position = self
-            .accessor_mut()?
-            .pop_position()
-            .ok_or(BtreeError::TraversalEmpty)?;
-
-        // Internal/Leaf node Overflow/Underflow.
-        self.balance_siblings(page_id, &parent_position)?;
-
-        // No need to fuck anything else up.
         if matches!(self.check_node_status(page_id)?, NodeStatus::Balanced) {
             return Ok(());
         };
 
-        let parent_page_id = parent_position.entry();
-        let (parent_prev, last_parent_slot, parent_next) = {
-            let parent_page = self.get_page_mut(parent_page_id)?;
-
-            // Get metadata about the parent
-            let parent_prev = parent_page.prev_sibling();
-            let last_parent_slot = parent_page.num_slots();
-            let parent_next = parent_page.next_sibling();
-            (parent_prev, last_parent_slot, parent_next)
-        };
+        let (cells, right_child) = self.take_node(page_id)?;
+        self.store_node(page_id, cells, right_child)
+    }
 
-        // Check if we are about to rebalance a leaf node (we will need it later).
-        let is_leaf = self.get_page_mut(page_id)?.is_leaf();
+    /// Stores the new content of a node (whose page is empty), rebalancing it with its siblings if it is too large or too small.
+    ///
+    /// The content of a node whose children were redistributed is handed over in memory, as it may not fit in its page until
+    /// the node itself has been redistributed.
+    fn store_node(
+        &mut self,
+        page_id: PageId,
+        cells: Vec<OwnedCell>,
+        right_child: Option<PageId>,
+    ) -> BtreeResult<()> {
+        let is_root = self.is_root(page_id);
 
-        // Obtain the right most child of the parent's left sibling (right most cousin)
-        let parent_prev_sibling_last = if let Some(prev_id) = parent_prev {
-            let parent_child_page = self.get_page_mut(prev_id)?;
-            parent_child_page
-                .right_child()
-                .map(|id| BtreePagePosition::new(id, parent_child_page.num_slots()))
-        } else {
-            None
+        // Only one child is left: the tree becomes shallower.
+        if is_root
+            && cells.is_empty()
+            && let Some(child_id) = right_child
+        {
+            let (child_cells, child_right) = self.take_node(child_id)?;
+            self.accessor_mut()?.release(child_id);
+            self.pager.write().dealloc_page::<BtreePage>(child_id)?;
+            return self.fill_node(page_id, child_cells, child_right);
         };
 
-        // Obtain the first child of the parent's next sibling (left most cousin)
-        let parent_next_sibling_first = if let Some(next_id) = parent_next {
-            let parent_child_page = self.get_page_mut(next_id)?;
-            parent_child_page
-                .cell(0)
-                .left_child()
-                .map(|id| BtreePagePosition::new(id, 0))
-        } else {
-            None
+        let (capacity, minimum) = {
+            let page = self.get_page(page_id)?;
+            (
+                page.max_balanced_size(),
+                BtreePage::underflow_threshold(page.capacity()),
+            )
         };
+        let size: usize = cells.iter().map(|cell| cell.storage_size()).sum();
 
-        // Load siblings
-        let mut siblings =
-            self.load_siblings(page_id, &parent_position, self.num_siblings_per_side)?;
-
-        // Load the frontiers in case it is necessary.
-        let last_loaded_sibling_slot = siblings.iter().last().unwrap().slot();
-        let first_loaded_sibling_slot = siblings.front().unwrap().slot();
-
-        // Load the left and right frontiers from the parent page
-        let (left_frontier_in_parent, right_frontier_in_parent) = {
-            let parent_page = self.get_page(parent_page_id)?;
-
-            // If the first loaded sibling is > 0, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let left = (first_loaded_sibling_slot > 0)
-                .then(|| first_loaded_sibling_slot - 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-
-            // If the last loaded sibling is < last_parent_slot, this means there are other siblings in the parent at the left of the chain that we have not loaded. We load the last one in order to re-link with the rest of the siblings later.
-            let right = (last_loaded_sibling_slot < last_parent_slot)
-                .then(|| last_loaded_sibling_slot + 1)
-                .and_then(|child_slot| {
-                    parent_page
-                        .child(child_slot)
-                        .map(|id| BtreePagePosition::new(id, child_slot))
-                });
-            (left, right)
+        if size <= capacity && (is_root || size >= minimum) {
+            return self.fill_node(page_id, cells, right_child);
         };
 
-        let mut cells = VecDeque::new();
-
-        // As we remove cells from the parent, slots shrink towards the left.
-        // Therefore we need to always remove the first slot in order to clean up the parent node.
-        let slot_to_remove = siblings[0].slot();
-
-        // Make copies of cells in order.
-        for sibling in siblings.iter() {
-            // As always, when visiting sibling nodes we need to remember to acquire their corresponding latches, as they might have not been visited before.
-            let sibling_page_id = sibling.entry();
-
-            let page = self.get_page_mut(sibling_page_id)?;
-            cells.extend(page.drain(..));
+        if is_root {
+            return self.balance_deeper(cells, right_child, capacity, minimum);
+        };
 
-            // Extract this node's cells and return the right child.
-            let right_child = page.right_child();
+        // Pop the last visited position from the stack.
+        // During balance, we propagate upwards, therefore we use the stack in the opposite way as we do when we traverse down, popping as we call it on each node and using the popped position to identify where we are at in the tree.
+        let parent_id = self
+            .accessor_mut()?
+            .pop_position()
+            .ok_or(BtreeError::TraversalEmpty)?
+            .entry();
 
-            // Remove our entry from the parent node.
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            let separator = (slot_to_remove < parent_page.num_slots())
-                .then(|| parent_page.remove(slot_to_remove))
-                .transpose()?;
+        let (mut separators, parent_right) = self.take_node(parent_id)?;
+        let mut children: Vec<PageId> = separators
+            .iter()
+            .map(|cell| cell.metadata().left_child())
+            .chain([parent_right])
+            .map(|child| {
+                child.ok_or_else(|| {
+                    BtreeError::InvalidPointer(format!("missing child on page {parent_id}"))
+                })
+            })
+            .collect::<BtreeResult<_>>()?;
 
-            let Some(mut separator) = separator else {
-                continue;
+        let slot = children
+            .iter()
+            .position(|child| *child == page_id)
+            .ok_or_else(|| {
+                BtreeError::InvalidPointer(format!("page {page_id} is not on its parent"))
+            })?;
+
+        // The siblings that take part, and the separators between them.
+        let first = slot.saturating_sub(self.num_siblings_per_side);
+        let last = (slot + self.num_siblings_per_side).min(children.len() - 1);
+        let siblings: Vec<PageId> = children[first..=last].to_vec();
+        let between: Vec<OwnedCell> = separators.drain(first..last).collect();
+
+        let is_leaf = right_child.is_none();
+        let prev = self.get_page(siblings[0])?.prev_sibling();
+        let next = self.get_page(siblings[siblings.len() - 1])?.next_sibling();
+
+        // Take all the cells in order.
+        let mut all_cells = Vec::new();
+        let mut last_right = None;
+        let mut own_cells = Some(cells);
+        let mut between = between.into_iter();
+
+        for sibling in siblings.iter().copied() {
+            let (sibling_cells, sibling_right) = match own_cells.take_if(|_| sibling == page_id) {
+                Some(cells) => (cells, right_child),
+                None => self.take_node(sibling)?,
             };
+            all_cells.extend(sibling_cells);
 
-            if let Some(right_most_child_id) = right_child {
-                // On interior nodes the entry that separated us from the next sibling comes down,
-                // pointing to our right child.
-                separator.set_left_child(Some(right_most_child_id));
-                cells.push_back(separator);
-            } else {
-                // The entries over the leaf nodes are built again from the new first cells.
-                CellDeallocator::new(self.pager.clone()).deallocate_cell(separator)?;
+            match between.next() {
+                // On interior nodes the separator comes down, pointing to the right child of the node at its left.
+                Some(mut separator) if !is_leaf => {
+                    separator.set_left_child(sibling_right);
+                    all_cells.push(separator);
+                }
+                // The separators of the leaf nodes are built again from their first cells.
+                Some(separator) => {
+                    CellDeallocator::new(self.pager.clone()).deallocate_cell(separator)?;
+                }
+                None => last_right = sibling_right,
             };
         }
 
-        // Take the last right child of the siblings chain.
-        // For interior pages this is required in order to unfuck the last pointer.
-        let old_right_child = siblings.iter().last().and_then(|last| {
-            let page_id = last.entry();
-            let page = self.get_page_mut(page_id).ok()?;
-            page.right_child()
-        });
-
-        let (total_size_in_each_page, number_of_cells_per_page) =
-            Self::compute_best_cell_distribution(&cells, page_size);
-
-        // Allocate missing pages
-        while siblings.len() < number_of_cells_per_page.len() {
-            // New allocated pages are added at the end.
-            let new_parent_index = siblings.iter().last().unwrap().slot() + 1;
-            let new_page = self.pager.write().allocate_page::<BtreePage>()?;
-            siblings.push_back(Position::new(new_page, new_parent_index));
-        }
-
-        // Free unused pages.
-        while number_of_cells_per_page.len() < siblings.len() {
-            let deallocated_sibling = siblings.pop_back().unwrap();
-            let deallocated_page_id = deallocated_sibling.entry();
-            self.accessor_mut()?.release(deallocated_page_id);
-            self.pager
-                .write()
-                .dealloc_page::<BtreePage>(deallocated_page_id)?;
-        }
+        let (pages, dividers) =
+            self.redistribute(siblings, all_cells, last_right, prev, next, capacity, minimum)?;
 
-        // Put pages in ascending order to favor sequential IO where possible.
-        BinaryHeap::from_iter(siblings.iter().map(|s| Reverse(s.entry())))
-            .iter()
-            .enumerate()
-            .for_each(|(i, Reverse(page))| siblings[i].set_entry(*page));
-
-        // Fix the last child pointer.
-        let last_sibling_id = siblings[siblings.len() - 1].entry();
-        let last_sibling_page = self.get_page_mut(last_sibling_id)?;
-        last_sibling_page.set_right_child(old_right_child);
-
-        // If there is no right frontier at this point, it means the last sibling in the chain is also the parent's right most.
-        if right_frontier_in_parent.is_none() {
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            // Fix pointers in the parent in case we have allocated new pages.
-            parent_page.set_right_child(Some(last_sibling_id));
+        // The separator at the right of the group (if any) now separates its last page.
+        let last_page = pages[pages.len() - 1];
+        let parent_right = if first < separators.len() {
+            separators[first].set_left_child(Some(last_page));
+            parent_right
+        } else {
+            Some(last_page)
         };
+        separators.splice(first..first, dividers);
 
-        // Obtain the global frontiers considering that if we get out of the bounds of the parent node we need to grab the frontiers from its siblings.
-        let global_left_frontier = left_frontier_in_parent.or(parent_prev_sibling_last);
-        let global_right_frontier = right_frontier_in_parent.or(parent_next_sibling_first);
-
-        // Begin redistribution.
-        for (i, n) in number_of_cells_per_page.iter().enumerate() {
-            let current_iter_id = siblings[i].entry();
-            let current_iter_slot = siblings[i].slot();
-
-            let current_iter_page = self.get_page_mut(current_iter_id)?;
-
-            // Push all the cells to the child.
-            let num_cells = if is_leaf {
-                *n
-            } else {
-                *n - 1 // For interior nodes we reserve the last cell. Which we will propagate to the parent. In leaf nodes we cannot do this since there is where data resides.
-            };
-
-            for _ in 0..num_cells {
-                current_iter_page.push(cells.pop_front().unwrap())?;
-            }
+        // Done, propagate upwards.
+        self.store_node(parent_id, separators, parent_right)
+    }
 
-            // Get the previous sibling based on the value of [i]
-            let prev_sibling = if i > 0 {
-                Some(siblings[i - 1].entry())
-            } else {
-                global_left_frontier.map(|p| p.entry())
-            };
+    /// Distributes a sorted list of cells among the given pages (which are empty), allocating and deallocating as required.
+    ///
+    /// Returns the pages that hold the cells and the dividers that go between them in the parent node.
+    fn redistribute(
+        &mut self,
+        mut pages: Vec<PageId>,
+        cells: Vec<OwnedCell>,
+        right_child: Option<PageId>,
+        prev: Option<PageId>,
+        next: Option<PageId>,
+        capacity: usize,
+        minimum: usize,
+    ) -> BtreeResult<(Vec<PageId>, Vec<OwnedCell>)> {
+        let is_leaf = right_child.is_none();
+        let gap = if is_leaf { 0 } else { 1 };
+        let sizes: Vec<usize> = cells.iter().map(|cell| cell.storage_size()).collect();
+        let starts = Self::distribute_cells(&sizes, gap, capacity, minimum);
+
+        // Allocate missing pages.
+        while pages.len() < starts.len() {
+            pages.push(self.pager.write().allocate_page::<BtreePage>()?);
+        }
 
-            // Set the previous sibling
-            current_iter_page.set_prev_sibling(prev_sibling);
+        // Free unused pages.
+        while pages.len() > starts.len()
+            && let Some(unused) = pages.pop()
+        {
+            self.accessor_mut()?.release(unused);
+            self.pager.write().dealloc_page::<BtreePage>(unused)?;
+        }
 
-            // Set the next sibling
-            let next_sibling = if i + 1 < siblings.len() {
-                Some(siblings[i + 1].entry())
-            } else {
-                global_right_frontier.map(|p| p.entry())
+        // Put pages in ascending order to favor sequential IO where possible.
+        pages.sort();
+
+        let mut dividers = Vec::new();
+        let mut cells = cells.into_iter();
+
+        for (i, page_id) in pages.iter().copied().enumerate() {
+            let end = starts
+                .get(i + 1)
+                .map(|start| start - gap)
+                .unwrap_or(sizes.len());
+            let page_cells: Vec<OwnedCell> = cells.by_ref().take(end - starts[i]).collect();
+
+            // On leaf nodes the divider is a copy of the first cell of the next page.
+            if is_leaf
+                && i > 0
+                && let Some(cell) = page_cells.first()
+            {
+                let mut divider = self.copy_cell(cell.clone())?;
+                divider.set_left_child(Some(pages[i - 1]));
+                dividers.push(divider);
             };
 
-            current_iter_page.set_next_sibling(next_sibling);
-
-            // For leaf nodes, we always propagate the first cell of the next node.
-            //
-            // Note that the last node's  next is the right frontier, which gets propagated afterwards.
-            if i < siblings.len() - 1 && is_leaf {
-                // Simply create a copy of the next node's front cell, make it point towards ourselves and propagate.
-                let mut divider = self.copy_cell(cells.front().unwrap().clone())?;
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // For interior nodes there are two possible cases.
-            // CASE A: We are not the right most of the parent.
-            // On that case we simply propagate our last cell and also use it as our right most.
-            } else if !is_leaf && (i < siblings.len() - 1 || right_frontier_in_parent.is_some()) {
-                let mut divider = cells.pop_front().unwrap();
-                current_iter_page.set_right_child(divider.left_child());
-                divider.set_left_child(Some(current_iter_id));
-                let parent_page = self.get_page_mut(parent_page_id)?;
-                parent_page.insert(current_iter_slot, divider)?;
-
-            // CASE B: We are the right most of the parent,
-            // Then there is no cell to propagate upwards, so we push an additional cell to ourselves.
-            } else if !is_leaf {
-                current_iter_page.push(cells.pop_front().unwrap())?;
+            // On interior nodes it is the cell between the two pages, whose child stays as the right child of the page at its left.
+            let mut page_right = right_child;
+            if !is_leaf
+                && i + 1 < pages.len()
+                && let Some(mut divider) = cells.next()
+            {
+                page_right = divider.metadata().left_child();
+                divider.set_left_child(Some(page_id));
+                dividers.push(divider);
             };
-        }
 
-        // Fix the right frontier in the parent.
-        // For leaf nodes, we propagate the first child as a divider, as we still have not done it in the redistribute section (see upwards).
-        //
-        // For interior nodes this is not necessary as we use the last child of the previous sibling instead.
-        if is_leaf && let Some(frontier) = right_frontier_in_parent {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            let divider_cell = page.owned_cell(0);
-            let mut divider_cell = self.copy_cell(divider_cell)?;
-            divider_cell.set_left_child(Some(last_sibling_id));
-            let parent_page = self.get_page_mut(parent_page_id)?;
-            parent_page.insert(last_sibling_slot, divider_cell)?;
-        }
+            self.fill_node(page_id, page_cells, page_right)?;
 
-        // Fix the global frontier links.
-        // Right frontier
-        if let Some(frontier) = global_right_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let last_sibling = siblings[siblings.len() - 1];
-            let last_sibling_id = last_sibling.entry();
-            let last_sibling_slot = last_sibling.slot();
-
-            // Maintain it linked with the last sibling in the chain
-            page.set_prev_sibling(Some(last_sibling_id));
+            let prev_sibling = if i > 0 { Some(pages[i - 1]) } else { prev };
+            let next_sibling = pages.get(i + 1).copied().or(next);
+            let page = self.get_page_mut(page_id)?;
+            page.set_prev_sibling(prev_sibling);
+            page.set_next_sibling(next_sibling);
         }
 
-        // Left frontier.
-        if let Some(frontier) = global_left_frontier {
-            let frontier_id = frontier.entry();
-            let page = self.get_page_mut(frontier_id)?;
-            let next_sibling = siblings.front().map(|p| p.entry());
-            page.set_next_sibling(next_sibling);
+        // Fix the frontier links.
+        if let Some(prev) = prev {
+            self.get_page_mut(prev)?.set_next_sibling(Some(pages[0]));
+        };
+        if let Some(next) = next {
+            let last_page = pages[pages.len() - 1];
+            self.get_page_mut(next)?.set_prev_sibling(Some(last_page));
         };
 
-        // Done, propagate upwards.
-        self.balance(parent_page_id)?;
-
-        Ok(())
+        Ok((pages, dividers))
     }
 
-    /// Clears the pointers on every page that will be modified on rebalance.
-    pub(crate) fn clear_ptrs_on_page(&mut self, page_id: PageId) -> BtreeResult<()> {
-        let page_mut = self.get_page_mut(page_id)?;
-        page_mut.set_prev_sibling(None);
-        page_mut.set_next_sibling(None);
-        Ok(())
-    }
-
-    /// Loads the closest [num_siblings_per_side] positions at each side of the node with page [page_id].
-    /// located at the [parent_position] on its parent.
-    fn load_siblings(
+    /// Balance deeper algorithm inspired by SQLite [balance deeper].
+    /// The cells of the root move to new nodes, increasing the depth of the tree by one, and the root keeps the dividers between them.
+    fn balance_deeper(
         &mut self,
-        page: PageId,
-        parent_position: &BtreePagePosition,
-        num_siblings_per_side: usize,
-    ) -> BtreeResult<VecDeque<BtreePagePosition>> {
-        let slot = parent_position.slot();
-        let parent_id = parent_position.entry();
-        let parent_page = self.get_page_mut(parent_id)?;
-
-        let total_cells_in_parent = parent_page.num_slots();
-
-        // Keep track of loaded pages to avoid duplicates.
-        let mut loaded: HashSet<PageId> = HashSet::new();
-        let mut siblings = VecDeque::new();
-
-        // Push ourselves into the queue.
-        siblings.push_back(Position::new(page, slot));
-        loaded.insert(page);
-
-        let mut next = slot + 1;
-        let mut added_count = 0;
-
-        // Load positions at the right side until we exhaust the parent
-        while next <= total_cells_in_parent && added_count < num_siblings_per_side {
-            if let Some(child) = parent_page.child(next).map(|id| Position::new(id, next)) {
-                if !loaded.contains(&child.entry()) {
-                    siblings.push_back(child);
-                    loaded.insert(child.entry());
-                } else {
-                    break;
-                };
-            } else {
-                break;
-            };
-            next += 1;
-            added_count += 1;
-        }
-
-        added_count = 0;
-
-        // As we use saturating sub, when we reach slot = 0 we risk loading the same position multiple times, that is why we keep track of loaded pages in order to avoid duplicates.
-        next = slot.saturating_sub(1);
-
-        // Load slots at the left side.
-        while added_count < num_siblings_per_side {
-            if let Some(child) = parent_page.child(next).map(|id| Position::new(id, next)) {
-                if !loaded.contains(&child.entry()) {
-                    siblings.push_front(child);
-                    loaded.insert(child.entry());
-                } else {
-                    break;
-                };
-            } else {
-                break;
-            };
-            next = next.saturating_sub(1);
-            added_count += 1;
-        }
+        cells: Vec<OwnedCell>,
+        right_child: Option<PageId>,
+        capacity: usize,
+        minimum: usize,
+    ) -> BtreeResult<()> {
+        let new_page = self.pager.write().allocate_page::<BtreePage>()?;
+        let (pages, dividers) = self.redistribute(
+            vec![new_page],
+            cells,
+            right_child,
+            None,
+            None,
+            capacity,
+            minimum,
+        )?;
 
-        Ok(siblings)
+        let last_page = pages.last().copied();
+        self.store_node(self.root, dividers, last_page)
     }
 
     fn check_node_status(&mut self, page_id: PageId) -> BtreeResult<NodeStatus> {
@@ -1595,194 +1316,6 @@ where
         }
     }
 
-    /// Grabs the cell one page to another and fix the pointer in the parent.
-    /// Does nothing if the target page does not have enough space to fit the borrowed cell.
-    fn take_cell_checked(
-        &mut self,
-        source_page_id: PageId,
-        target_page_id: PageId,
-        parent_id: PageId,
-        borrowed_slot: usize,
-        target_slot: usize,
-        separator_slot: usize,
-        direction: BorrowDirection,
-    ) -> BtreeResult<()> {
-        // Size occupied by the cell that would go to the target node.
-        let cell_size = self
-            .get_page_mut(source_page_id)?
-            .cell(borrowed_slot)
-            .storage_size();
-
-        let can_borrow = self
-            .get_page_mut(source_page_id)?
-            .can_release_space(cell_size);
-
-        let has_space = self
-            .get_page_mut(target_page_id)?
-            .has_space_for(cell_size as usize);
-
-        // Cannot release
-        if !has_space || !can_borrow {
-            return Ok(());
-        };
-
-        // Fantastic! our friend has space for us.
-        // Lets push our cell there.
-        let removed_cell = self.get_page_mut(source_page_id)?.remove(borrowed_slot)?;
-        let left = self.get_page_mut(target_page_id)?;
-        left.insert(target_slot, removed_cell)?;
-
-        // Haha, but now our parent might have fucked up.
-        // We need to unfuck him.
-        // In order to unfuck the parent, we replace the entry that pointed to left with the right node's first key
-        let divider = match direction {
-            BorrowDirection::RightToLeft => {
-                let separator = self.get_page_mut(source_page_id)?.owned_cell(0);
-                let mut separator = self.copy_cell(separator)?;
-                separator.set_left_child(Some(target_page_id));
-                separator
-            }
-            BorrowDirection::LeftToRight => {
-                let separator = self.get_page_mut(target_page_id)?.owned_cell(0);
-                let mut separator = self.copy_cell(separator)?;
-                separator.set_left_child(Some(source_page_id));
-                separator
-            }
-        };
-
-        let parent_page = self.get_page_mut(parent_id)?;
-        if parent_page.num_slots() == separator_slot {
-            parent_page.set_right_child(divider.left_child());
-        } else {
-            let old_divider = parent_page.replace(separator_slot, divider)?;
-            CellDeallocator::new(self.pager.clone()).deallocate_cell(old_divider)?;
-        };
-
-        Ok(())
-    }
-
-    // This should be only called on leaf nodes. on interior nodes it is a brainfuck to also be fixing pointers to right most children every time we borrow a single cell.
-    // See SQLite 3.0 balance siblings algorithm: https://sqlite.org/btreemodule.html
-    fn balance_siblings(
-        &mut self,
-        page_id: PageId,
-        parent_pos: &BtreePagePosition,
-    ) -> BtreeResult<()> {
-        let is_leaf = self.get_page_mut(page_id)?.is_leaf();
-
-        if !is_leaf {
-            return Ok(());
-        };
-
-        let status = self.check_node_status(page_id)?;
-
-        let mut siblings = self.load_siblings(page_id, parent_pos, 1)?; // One sibling per side
-
-        if siblings.is_empty() || siblings.len() == 1 {
-            return Ok(());
-        };
-
-        let parent_id = parent_pos.entry();
-        match status {
-            NodeStatus::Balanced => Ok(()),
-            NodeStatus::Overflow => {
-                let source_page_id = page_id;
-                // Okey, we are on overflow state and our left sibling is valid. Then we can ask him if it has space for us.
-                if let Some(sibling_left) = siblings.pop_front()
-                    && sibling_left.entry() != source_page_id
-                {
-                    let target_page_id = sibling_left.entry();
-                    let separator_slot = sibling_left.slot();
-
-                    let target_slot = self.get_page_mut(target_page_id)?.num_slots();
-
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        0,
-                        target_slot,
-                        separator_slot,
-                        BorrowDirection::RightToLeft,
-                    )?;
-                };
-
-                let status = self.check_node_status(page_id)?;
-
-                if let Some(sibling_right) = siblings.pop_back()
-                    && sibling_right.entry() != source_page_id
-                    && matches!(status, NodeStatus::Overflow)
-                {
-                    let borrowed_slot = self.get_page_mut(source_page_id)?.num_slots() - 1;
-
-                    let target_page_id = sibling_right.entry();
-                    let separator_slot = sibling_right.slot() - 1;
-
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        borrowed_slot,
-                        0,
-                        separator_slot,
-                        BorrowDirection::LeftToRight,
-                    )?;
-                };
-                Ok(())
-            }
-            NodeStatus::Underflow => {
-                let target_page_id = page_id;
-
-                // Okey, we are on underflow state and our right sibling is valid. Then we can ask him if it has cells for us.
-                if let Some(sibling_right) = siblings.pop_back()
-                    && sibling_right.entry() != target_page_id
-                {
-                    let source_page_id = sibling_right.entry();
-                    let separator_slot = sibling_right.slot() - 1;
-
-                    let target_slot = self.get_page_mut(target_page_id)?.num_slots();
-
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        0,
-                        target_slot,
-                        separator_slot,
-                        BorrowDirection::RightToLeft,
-                    )?;
-                };
-
-                // Borrow from the left side
-                if let Some(sibling_left) = siblings.pop_front()
-                    && sibling_left.entry() != page_id
-                    && matches!(
-                        self.check_node_status(target_page_id)?,
-                        NodeStatus::Underflow
-                    )
-                {
-                    let source_page_id = sibling_left.entry();
-                    let borrowed_slot = self.get_page_mut(source_page_id)?.num_slots() - 1;
-                    let separator_slot = sibling_left.slot();
-                    self.take_cell_checked(
-                        source_page_id,
-                        target_page_id,
-                        parent_id,
-                        borrowed_slot,
-                        0,
-                        separator_slot,
-                        BorrowDirection::LeftToRight,
-                    )?;
-                };
-
-                Ok(())
-            }
-        }
-
-        // This algorithm is more efficient than reasseambling everyting in the tree. However, it has the disadvantage that it can fuck up the pointers in the parent nodes.
-        // We are responsible from unfucking them.
-    }
-
     /// Deallocates the entire tree using BFS traversal.
     /// More efficient than position iterator since we only need page IDs.
     /// The intuition is the following:
diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index 5c0e73f..f3ea8bf 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -262,7 +262,8 @@ impl CellBuilder {
         // Clamp to max payload size in the page.
         // [BtreePage::ideal_maz_payload_size] should be already aligned to [CELL_ALIGNMENT]
         let max_payload_size = min(
-            BtreePage::ideal_max_payload_size(page_size, self.minimum_keys_per_page),
+            BtreePage::ideal_max_payload_size(page_size, self.minimum_keys_per_page)
+                .saturating_sub(mem::size_of::<PageId>()),
             max_payload_size_in_page,
         ); // Clamp
 
-- 
2.43.0


From 98f584cd18bef72d4d5789a6ca684938f109b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 28/43] fix: dropped tables keep their pages until VACUUM;
 B+tree settings are clamped to what pages support

---
 crates/axmos-db/src/common/mod.rs     | 21 ++++++++++------
 crates/axmos-db/src/schema/catalog.rs | 36 ++++++++++++++++-----------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/crates/axmos-db/src/common/mod.rs b/crates/axmos-db/src/common/mod.rs
index cafb402..e537f89 100644
--- a/crates/axmos-db/src/common/mod.rs
+++ b/crates/axmos-db/src/common/mod.rs
@@ -22,6 +22,11 @@ pub(crate) const DEFAULT_CACHE_SIZE: usize = 10000;
 pub(crate) const DEFAULT_PAGE_SIZE: usize = MIN_PAGE_SIZE; // 4KB
 pub(crate) const DEFAULT_POOL_SIZE: usize = 10; // Ten workers by default.
 pub(crate) const DEFAULT_BTREE_MIN_KEYS: usize = 3;
+
+/// With less than three keys on a page, splitting it does not help. With too many, there is no space for their payload.
+pub(crate) const MIN_BTREE_MIN_KEYS: usize = 3;
+pub(crate) const MAX_BTREE_MIN_KEYS: usize = 32;
+pub(crate) const MAX_BTREE_NUM_SIBLINGS_PER_SIDE: usize = u8::MAX as usize;
 pub(crate) const DEFAULT_BTREE_NUM_SIBLINGS_PER_SIDE: usize = 3;
 
 /// Cells are aligned to 64 bits (8 bytes).
@@ -79,12 +84,12 @@ impl DBConfig {
         num_siblings_per_side: usize,
     ) -> Self {
         let page_size = page_size
-            .next_power_of_two()
-            .clamp(MIN_PAGE_SIZE, MAX_PAGE_SIZE);
+            .clamp(MIN_PAGE_SIZE, MAX_PAGE_SIZE)
+            .next_power_of_two();
         Self {
-            pool_size,
-            min_keys_per_page,
-            num_siblings_per_side,
+            pool_size: pool_size.max(1),
+            min_keys_per_page: min_keys_per_page.clamp(MIN_BTREE_MIN_KEYS, MAX_BTREE_MIN_KEYS),
+            num_siblings_per_side: num_siblings_per_side.min(MAX_BTREE_NUM_SIBLINGS_PER_SIDE),
             cache_size,
             page_size,
         }
@@ -113,7 +118,7 @@ impl Default for DBConfigBuilder {
 impl DBConfigBuilder {
     /// Sets the page size in bytes.
     pub fn page_size(mut self, size: usize) -> Self {
-        self.config.page_size = size.next_power_of_two().clamp(MIN_PAGE_SIZE, MAX_PAGE_SIZE);
+        self.config.page_size = size.clamp(MIN_PAGE_SIZE, MAX_PAGE_SIZE).next_power_of_two();
         self
     }
 
@@ -131,13 +136,13 @@ impl DBConfigBuilder {
 
     /// Sets the minimum keys per B+tree page.
     pub fn min_keys_per_page(mut self, keys: usize) -> Self {
-        self.config.min_keys_per_page = keys.max(2);
+        self.config.min_keys_per_page = keys.clamp(MIN_BTREE_MIN_KEYS, MAX_BTREE_MIN_KEYS);
         self
     }
 
     /// Sets the number of siblings per side for balancing.
     pub fn num_siblings_per_side(mut self, siblings: usize) -> Self {
-        self.config.num_siblings_per_side = siblings;
+        self.config.num_siblings_per_side = siblings.min(MAX_BTREE_NUM_SIBLINGS_PER_SIDE);
         self
     }
 
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 80cb346..7389fe8 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -333,6 +333,7 @@ impl Catalog {
 
         // Collect all user relations
         let schema = meta_table_schema();
+        let mut relations_to_remove: Vec<PageId> = Vec::new();
         let relations_to_vacuum: Vec<(ObjectId, PageId, Schema)> = {
             let mut meta_table = builder.build_tree(self.meta_table);
 
@@ -356,6 +357,11 @@ impl Catalog {
                                 relation.root(),
                                 relation.schema().clone(),
                             ));
+                        } else if Self::is_removable(&Tuple::from_slice_unchecked(bytes)?, snapshot)
+                        {
+                            let layout = reader.parse_last_version(bytes)?;
+                            let row = TupleRef::new(bytes, layout).to_row_with(&schema)?;
+                            relations_to_remove.push(Relation::from_meta_table_row(row).root());
                         }
                         Ok::<(), TupleError>(())
                     })??;
@@ -365,6 +371,11 @@ impl Catalog {
             relations
         };
 
+        // Deallocate the relations that nobody can see anymore. Their rows are removed below from the meta table.
+        for root in relations_to_remove {
+            builder.build_tree_mut(root).dealloc()?;
+        }
+
         // Vacuum each user relation
         for (object_id, root, relation_schema) in relations_to_vacuum {
             let bytes_freed =
@@ -395,6 +406,14 @@ impl Catalog {
         Ok(stats)
     }
 
+    /// Whether nobody can see the tuple: its creator aborted, or its deletion (which counts only then) committed.
+    fn is_removable(tuple: &Tuple, snapshot: &Snapshot) -> bool {
+        snapshot.is_transaction_aborted(tuple.xmin())
+            || tuple
+                .xmax()
+                .is_some_and(|xmax| snapshot.is_committed_before_snapshot(xmax))
+    }
+
     /// Vacuums a single B-tree, iterating through all tuples and removing
     /// old versions.
     fn vacuum_btree(
@@ -420,14 +439,7 @@ impl Catalog {
                 if let Ok(pos) = position {
                     tree.with_cell_at(pos, |bytes| {
                         let mut tuple = Tuple::from_slice_unchecked(bytes)?;
-                        let xmin = tuple.xmin();
-
-                        // A deletion counts only if its transaction committed.
-                        let deleted = tuple
-                            .xmax()
-                            .is_some_and(|xmax| snapshot.is_committed_before_snapshot(xmax));
-
-                        let freed = if snapshot.is_transaction_aborted(xmin) || deleted {
+                        let freed = if Self::is_removable(&tuple, snapshot) {
                             let freed = tuple.full_data().len();
                             tuples_to_remove.push(tuple);
                             freed
@@ -546,12 +558,8 @@ impl Catalog {
             }
         };
 
-        // First, deallocate the relation.
-        // Deallocate the relation.
-      {
-            let mut tree = builder.build_tree_mut(rel.root());
-            tree.dealloc()?;
-        }
+        // The pages of the relation are still needed by older snapshots, and by everyone if the transaction rolls back.
+        // They are deallocated by [Catalog::vacuum] once nobody can see the relation.
 
         // Obtain the relation metadata
         let relation_id = rel.object_id();
-- 
2.43.0


From 7cd3d59e10abcb7a4a8db30131c5967426aa39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 29/43] fix: DROP TABLE drops the indexes of the table and
 nothing else

---
 crates/axmos-db/src/schema/base.rs    | 17 ++++-------------
 crates/axmos-db/src/schema/catalog.rs | 15 +++++----------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/crates/axmos-db/src/schema/base.rs b/crates/axmos-db/src/schema/base.rs
index a8c994e..38d28c0 100644
--- a/crates/axmos-db/src/schema/base.rs
+++ b/crates/axmos-db/src/schema/base.rs
@@ -419,19 +419,10 @@ impl Schema {
     ///
     /// Useful for DELETE ... CASCADE operations.
     pub(crate) fn get_dependants(&self) -> Vec<ObjectId> {
-        let mut deps = Vec::new();
-        if self.is_index() {
-            return deps;
-        };
-
-        for ct in self.table_constraints.as_ref().unwrap() {
-            if let TableConstraint::ForeignKey { info, .. } = ct {
-                deps.push(info.ref_table);
-            };
-        }
-
-        deps.extend(self.table_indexes.as_ref().unwrap().keys());
-        deps
+        self.table_indexes
+            .as_ref()
+            .map(|indexes| indexes.keys().copied().collect())
+            .unwrap_or_default()
     }
 
     /// COllects all the foreign key info for this object
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 7389fe8..5f75a32 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -547,16 +547,11 @@ impl Catalog {
         snapshot: &Snapshot,
         cascade: bool,
     ) -> CatalogResult<()> {
-        if cascade {
-            let schema = rel.schema();
-            let dependants = schema.get_dependants();
-
-            // Recursively remove object dependants
-            for dep in dependants {
-                let relation = self.get_relation(dep, builder, snapshot)?;
-                self.remove_relation(relation, builder, snapshot, cascade)?;
-            }
-        };
+        // The indexes of a table go with it.
+        for dep in rel.schema().get_dependants() {
+            let relation = self.get_relation(dep, builder, snapshot)?;
+            self.remove_relation(relation, builder, snapshot, cascade)?;
+        }
 
         // The pages of the relation are still needed by older snapshots, and by everyone if the transaction rolls back.
         // They are deallocated by [Catalog::vacuum] once nobody can see the relation.
-- 
2.43.0


From 7a83eb633a7415d61dda21093ec29d51568cf12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 30/43] fix: table statistics are decoded from their aligned
 copy

---
 crates/axmos-db/src/schema/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/schema/stats.rs b/crates/axmos-db/src/schema/stats.rs
index 0b082eb..bf1334b 100644
--- a/crates/axmos-db/src/schema/stats.rs
+++ b/crates/axmos-db/src/schema/stats.rs
@@ -350,9 +350,9 @@ impl Stats {
             .map_err(|e| SerializationError::InvalidVarIntPrefix)?;
 
         //  It is impossible to avoid this copy here unless we fuck up the whole blob data structure since blob does not guarantee alignment.
-        let mut aligned = AlignedVec::<4>::new();
+        let mut aligned = AlignedVec::<16>::new();
         aligned.extend_from_slice(data);
-        let stats = from_bytes::<Stats, RkyvError>(data)?;
+        let stats = from_bytes::<Stats, RkyvError>(&aligned)?;
         Ok(stats)
     }
 }
-- 
2.43.0


From e74a62a66fe470f39e0d56ad1434af9cdc10ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 31/43] fix: own deletions hide every version; copied deltas
 stay aligned

---
 crates/axmos-db/src/storage/tuple.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 6c34081..68b9671 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -592,9 +592,9 @@ impl<'a> TupleReader<'a> {
     ) -> TupleResult<Option<TupleLayout>> {
         let mut layout = self.parse_last_version(data)?;
 
-        // Check if tuple was deleted before our snapshot
+        // Check if tuple was deleted before our snapshot (or by our own transaction)
         if let Some(xmax) = layout.version_xmax {
-            if snapshot.is_committed_before_snapshot(xmax) {
+            if snapshot.is_committed_before_snapshot(xmax) || snapshot.xid() == xmax {
                 return Ok(None);
             }
         }
@@ -1040,8 +1040,9 @@ impl Tuple {
             bitmap_size,
         )?;
 
-        // Copy existing deltas
+        // Copy existing deltas. Their values are aligned from the start of the first one.
         if existing_deltas_size > 0 {
+            cursor = DeltaHeader::aligned_offset(cursor);
             let existing_deltas = &self.data.effective_data()[existing_deltas_start..];
             buffer[cursor..cursor + existing_deltas_size].copy_from_slice(existing_deltas);
         }
@@ -1160,7 +1161,10 @@ impl Tuple {
         }
 
         // Existing deltas
-        size += existing_deltas_size;
+        if existing_deltas_size > 0 {
+            size = DeltaHeader::aligned_offset(size);
+            size += existing_deltas_size;
+        }
 
         size
     }
-- 
2.43.0


From 5c7d7e71fe89517b9d743d48af3f61e3adbc851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 32/43] fix: a refused or rolled-back index creation leaves no
 trace in its table

---
 crates/axmos-db/src/runtime/ddl.rs    | 19 ++++++++++--------
 crates/axmos-db/src/schema/catalog.rs | 29 ++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/crates/axmos-db/src/runtime/ddl.rs b/crates/axmos-db/src/runtime/ddl.rs
index 6f7c2a7..91d16bf 100644
--- a/crates/axmos-db/src/runtime/ddl.rs
+++ b/crates/axmos-db/src/runtime/ddl.rs
@@ -995,6 +995,17 @@ impl DdlExecutor {
             .catalog()
             .store_relation(index_relation, &tree_builder, snapshot.xid())?;
 
+        // The table only learns about the index once all its rows have been accepted.
+        self.populate_index(
+            table_root,
+            table_relation.schema(),
+            index_root,
+            &index_schema,
+            indexed_column_ids,
+        )?;
+
+        let snapshot = self.ctx.snapshot();
+
         {
             let table_schema = table_relation.schema_mut();
 
@@ -1021,14 +1032,6 @@ impl DdlExecutor {
             &snapshot,
         )?;
 
-        self.populate_index(
-            table_root,
-            table_relation.schema(),
-            index_root,
-            &index_schema,
-            indexed_column_ids,
-        )?;
-
         Ok(object_id)
     }
 
diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index 5f75a32..ccf6f0b 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -742,13 +742,40 @@ impl Catalog {
                 let row = meta_table
                     .get_row_at(pos, &schema, snapshot)?
                     .ok_or(CatalogError::TableNotFound(id))?;
-                return Ok(Relation::from_meta_table_row(row));
+                let mut relation = Relation::from_meta_table_row(row);
+                self.forget_aborted_indexes(&mut relation, &mut meta_table, &schema, snapshot)?;
+                return Ok(relation);
             }
             SearchResult::NotFound(_) => {
                 return Err(CatalogError::TableNotFound(id));
             }
         };
     }
+
+    /// An index whose creation was rolled back is not an index of the table.
+    fn forget_aborted_indexes(
+        &self,
+        relation: &mut Relation,
+        meta_table: &mut crate::tree::bplustree::Btree<crate::tree::accessor::BtreeReadAccessor>,
+        schema: &Schema,
+        snapshot: &Snapshot,
+    ) -> CatalogResult<()> {
+        for index in relation.get_indexes() {
+            let key = UInt64(index.id()).serialize()?;
+            let SearchResult::Found(pos) = meta_table.search(key.as_ref(), schema)? else {
+                continue;
+            };
+            let creator = meta_table.with_cell_at(pos, |bytes| {
+                Tuple::from_slice_unchecked(bytes).map(|tuple| tuple.xmin())
+            })??;
+            if snapshot.is_transaction_aborted(creator)
+                && let Some(indexes) = relation.schema_mut().table_indexes.as_mut()
+            {
+                indexes.remove(&index.id());
+            }
+        }
+        Ok(())
+    }
 }
 
 #[derive(Clone)]
-- 
2.43.0


From c18857b3779dbb6c58ec8ffff2570d7143bec424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 33/43] fix: multi-column unique keys are searched with the
 layout they are stored in

---
 crates/axmos-db/src/runtime/validator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/axmos-db/src/runtime/validator.rs b/crates/axmos-db/src/runtime/validator.rs
index 3e0eefb..0880f8b 100644
--- a/crates/axmos-db/src/runtime/validator.rs
+++ b/crates/axmos-db/src/runtime/validator.rs
@@ -236,8 +236,13 @@ impl<'a> ConstraintValidator<'a> {
                     has_null = true;
                     break;
                 }
-                let serialized = values[col_idx].serialize()?;
-                key_bytes.extend_from_slice(&serialized);
+                // Keys follow each other at the alignment of their type, as they do inside a tuple.
+                let value = &values[col_idx];
+                let cursor = key_bytes.len();
+                let align = value.kind().align();
+                key_bytes.resize(cursor + align + value.runtime_size(), 0);
+                let end = value.write_to(&mut key_bytes, cursor)?;
+                key_bytes.truncate(end);
             }
         }
 
-- 
2.43.0


From 63aba4208028291d2ff68f865e1907541e5c7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 34/43] fix: overflow chains carry the tuple and not its
 padding

---
 crates/axmos-db/src/tree/cell_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/tree/cell_ops.rs b/crates/axmos-db/src/tree/cell_ops.rs
index f3ea8bf..aa5ef6e 100644
--- a/crates/axmos-db/src/tree/cell_ops.rs
+++ b/crates/axmos-db/src/tree/cell_ops.rs
@@ -290,7 +290,7 @@ impl CellBuilder {
         }
 
         // At this point we have to split the payload.
-        let payload = data.full_data();
+        let payload = data.effective_data();
 
         let mut overflow_page_number = self.pager.write().allocate_page::<OverflowPage>()?;
 
-- 
2.43.0


From 4f3b18c6a1f1a5ab0b5d9023ac2d66b273045925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 35/43] fix: history trimming keeps the version the horizon
 still sees; NULL deltas are counted

---
 crates/axmos-db/src/storage/tuple.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 68b9671..80223c4 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1287,8 +1287,8 @@ impl Tuple {
     /// Vacuums the tuple by removing all delta versions that are no longer needed
     /// by any active transaction.
     ///
-    /// A delta is no longer needed if its xmin is less than the oldest active
-    /// transaction ID, meaning no transaction can ever need to see that version.
+    /// A delta is no longer needed if the version that replaced it is older than the
+    /// oldest active transaction ID, meaning no transaction can ever need to see it.
     ///
     /// Returns the number of bytes freed.
     pub(crate) fn vaccum_with(
@@ -1309,12 +1309,16 @@ impl Tuple {
         let mut cursor = layout.delta_start();
         let mut last_needed_end = layout.delta_start();
 
+        // Creator of the version that replaced the one stored in the next delta.
+        let mut replaced_by = layout.version_xmin;
+
         while cursor < self.data.len() {
             let (delta_header, header_end) =
                 DeltaHeader::read_from(self.data.effective_data(), cursor);
 
-            // If this delta's xmin >= oldest_active_xid, some transaction might still need it
-            if delta_header.xmin() >= oldest_active_xid {
+            // If the version that replaced this one was created at or after the horizon, some transaction might still need it
+            if replaced_by >= oldest_active_xid {
+                replaced_by = delta_header.xmin();
                 let num_changes = self.data.effective_data()[header_end] as usize;
 
                 // Skip: num_changes byte + full bitmap
@@ -1392,12 +1396,19 @@ impl Tuple {
         while cursor < self.data.len() {
             let (_, header_end) = DeltaHeader::read_from(self.data.effective_data(), cursor);
             let num_changes = self.data.effective_data()[header_end] as usize;
-            cursor = header_end + 1 + bitmap_size;
+            let bitmap_start = header_end + 1;
+            cursor = bitmap_start + bitmap_size;
 
             for _ in 0..num_changes {
                 let field_idx = self.data.effective_data()[cursor] as usize;
                 cursor += 1;
 
+                // A null has no bytes in the delta.
+                let bitmap = &self.data.effective_data()[bitmap_start..];
+                if TupleReader::check_null(bitmap, field_idx) {
+                    continue;
+                }
+
                 let dtype = schema
                     .value(field_idx)
                     .ok_or(TupleError::ValueError(field_idx))?
-- 
2.43.0


From 438f003aa606eeb81eab4a3c866870f36642815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 36/43] fix: recovery counts transactions committed after a
 checkpoint; writes to dropped tables are not replayed

---
 crates/axmos-db/src/io/recovery.rs            | 27 +++++++++++++++++++
 .../src/multithreading/coordinator.rs         |  5 ++++
 2 files changed, 32 insertions(+)

diff --git a/crates/axmos-db/src/io/recovery.rs b/crates/axmos-db/src/io/recovery.rs
index b109ef2..e14dbe3 100644
--- a/crates/axmos-db/src/io/recovery.rs
+++ b/crates/axmos-db/src/io/recovery.rs
@@ -13,6 +13,7 @@ use crate::{
         },
         dml::DmlExecutor,
     },
+    schema::catalog::CatalogError,
     storage::tuple::Row,
     types::{ObjectId, RowId},
 };
@@ -76,6 +77,20 @@ impl WalRecuperator {
         }
     }
 
+    /// Whether the table is still there. A transaction may write to a table that another one has dropped
+    /// but not committed yet; the rows went with the table.
+    fn is_dropped(&self, table_id: ObjectId) -> RuntimeResult<bool> {
+        let ctx = self.dml_executor.ctx();
+        match ctx
+            .catalog()
+            .get_relation(table_id, &ctx.tree_builder(), ctx.snapshot())
+        {
+            Ok(_) => Ok(false),
+            Err(CatalogError::TableNotFound(_)) => Ok(true),
+            Err(error) => Err(error.into()),
+        }
+    }
+
     /// Decodes a logged row.
     fn decode(&self, table_id: ObjectId, bytes: &[u8]) -> RuntimeResult<(Row, Vec<usize>)> {
         let ctx = self.dml_executor.ctx();
@@ -121,6 +136,9 @@ impl WalRecuperator {
     fn redo_alter(&mut self, operation: &Alter) -> RuntimeResult<()> {
         let mut instruction = AlterTableInstr::from_bytes(operation.redo())?;
         instruction.table_id = self.object(instruction.table_id);
+        if self.is_dropped(instruction.table_id)? {
+            return Ok(());
+        }
         self.ddl_executor
             .execute_instruction(&DdlInstruction::AlterTable(instruction))?;
         Ok(())
@@ -128,12 +146,18 @@ impl WalRecuperator {
 
     fn redo_delete(&mut self, operation: &Delete) -> RuntimeResult<()> {
         let (table_id, row_id) = self.target(operation)?;
+        if self.is_dropped(table_id)? {
+            return Ok(());
+        }
         self.dml_executor.delete(table_id, &UInt64::from(row_id))?;
         Ok(())
     }
 
     fn redo_update(&mut self, operation: &Update) -> RuntimeResult<()> {
         let (table_id, row_id) = self.target(operation)?;
+        if self.is_dropped(table_id)? {
+            return Ok(());
+        }
         let (old_row, _) = self.decode(table_id, operation.undo())?;
         let (new_row, _) = self.decode(table_id, operation.redo())?;
         self.dml_executor
@@ -143,6 +167,9 @@ impl WalRecuperator {
 
     fn redo_insert(&mut self, operation: &Insert) -> RuntimeResult<()> {
         let (table_id, row_id) = self.target(operation)?;
+        if self.is_dropped(table_id)? {
+            return Ok(());
+        }
         let (row, columns) = self.decode(table_id, operation.redo())?;
         self.dml_executor
             .insert_row(table_id, Some(UInt64::from(row_id)), &columns, &row)?;
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index b58615f..bb1fcbf 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -344,6 +344,11 @@ impl TransactionCoordinator {
         let aborted_txs = self.pager.read().get_aborted_transactions();
         let mut txs = self.transactions.write();
 
+        // A transaction that recovery found to be committed counts as such.
+        txs.retain(|txid, entry| {
+            entry.state() != TransactionState::Aborted || aborted_txs.contains(txid)
+        });
+
         for txid in aborted_txs {
             if !txs.contains_key(&txid) {
                 let snapshot = Snapshot::new(txid, txid, None, HashSet::new(), HashSet::new());
-- 
2.43.0


From 6c8c200d7633dd4f34bc52c088ed0a63dd4d55b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 37/43] fix: writing to a table dropped meanwhile does not
 revive its catalog entry

---
 crates/axmos-db/src/schema/catalog.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/axmos-db/src/schema/catalog.rs b/crates/axmos-db/src/schema/catalog.rs
index ccf6f0b..f05e603 100644
--- a/crates/axmos-db/src/schema/catalog.rs
+++ b/crates/axmos-db/src/schema/catalog.rs
@@ -532,7 +532,12 @@ impl Catalog {
             return Ok(());
         };
 
+        // The relation may have been dropped by a transaction this snapshot does not see: the new version keeps the mark.
+        let dropped_by = tuple.xmax();
         tuple.add_version_with(&changes, snapshot.xid(), &schema)?;
+        if let Some(xid) = dropped_by {
+            tuple.delete(xid)?;
+        }
         let result = meta_table.update(self.meta_table, tuple, &schema)?;
 
         Ok(())
-- 
2.43.0


From 2566d0fc61fcbac6f5b02ddba43d6b95e29a6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 38/43] fix: the log reader stops at what the file holds

---
 crates/axmos-db/src/io/wal.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/axmos-db/src/io/wal.rs b/crates/axmos-db/src/io/wal.rs
index 433ec2a..cbb8dc0 100644
--- a/crates/axmos-db/src/io/wal.rs
+++ b/crates/axmos-db/src/io/wal.rs
@@ -482,9 +482,14 @@ impl<'a> WalReader<'a> {
         total_blocks: u64,
     ) -> io::Result<Self> {
         // Read block zero (header)
-        let mut header = BlockZero::new(block_size);
-        file.seek(SeekFrom::Start(0))?;
-        file.read_exact(header.as_mut())?;
+        let mut header = BlockZero::alloc(0, block_size);
+        if file.metadata()?.len() >= block_size as u64 {
+            file.seek(SeekFrom::Start(0))?;
+            file.read_exact(header.as_mut())?;
+        }
+
+        // Blocks that were never forced are not in the file.
+        let total_blocks = total_blocks.min(header.metadata().wal_header.total_blocks);
 
         let read_ahead_size = read_ahead_size.next_multiple_of(block_size);
         let num_blocks_to_read =
-- 
2.43.0


From 860f3d1461ae2fa70ed2eaa392203b81b646fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 39/43] =?UTF-8?q?fix:=20INSERT=20=E2=80=A6=20SELECT=20read?=
 =?UTF-8?q?s=20its=20rows=20before=20writing=20any?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 crates/axmos-db/src/runtime/ops/insert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/runtime/ops/insert.rs b/crates/axmos-db/src/runtime/ops/insert.rs
index 157dd6c..6936497 100644
--- a/crates/axmos-db/src/runtime/ops/insert.rs
+++ b/crates/axmos-db/src/runtime/ops/insert.rs
@@ -64,10 +64,16 @@ where
             return Ok(None);
         }
 
-        // Process all rows from child
+        // Read all rows from the child before writing any: the child may be scanning the very table
+        // (an open cursor latches its page), and must not see the rows inserted here.
+        let mut rows = Vec::new();
         while let Some(row) = self.child.next()? {
             self.stats.rows_scanned += 1;
+            rows.push(row);
+        }
+        self.child.close()?;
 
+        for row in rows {
             let mut dml = DmlExecutor::new(self.ctx.clone(), self.logger.clone());
             dml.insert(self.table_id, &self.columns, &row)?;
 
-- 
2.43.0


From f0dce19aaeb725b1979c17a928986e347f0c8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 40/43] fix: the version number of a row may wrap around
 instead of refusing its 256th update

---
 crates/axmos-db/src/storage/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/axmos-db/src/storage/tuple.rs b/crates/axmos-db/src/storage/tuple.rs
index 80223c4..2f0255f 100644
--- a/crates/axmos-db/src/storage/tuple.rs
+++ b/crates/axmos-db/src/storage/tuple.rs
@@ -1017,7 +1017,8 @@ impl Tuple {
 
         // Write header
         let original_xmin = self.xmin();
-        let header = TupleHeader::new(old_version + 1, original_xmin, None);
+        // The version number only labels the versions of a row, it may wrap around.
+        let header = TupleHeader::new(old_version.wrapping_add(1), original_xmin, None);
         cursor = header.write_to(buffer, cursor);
 
         // Write null bitmap for new values
-- 
2.43.0


From eedfb3783e665ed41a7941c2a92a3088eef73bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 41/43] fix: what transactions beyond the tracked range wrote
 never reaches the file unless it committed

---
 crates/axmos-db/src/lib.rs                    | 32 ++++++++++++++-----
 .../src/multithreading/coordinator.rs         |  9 ++++++
 crates/axmos-db/src/storage/page.rs           |  5 +++
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/crates/axmos-db/src/lib.rs b/crates/axmos-db/src/lib.rs
index f3649a9..1cd14c8 100644
--- a/crates/axmos-db/src/lib.rs
+++ b/crates/axmos-db/src/lib.rs
@@ -66,7 +66,7 @@ use crate::{
         context::{TransactionContext, TransactionLogger},
     },
     schema::catalog::{Catalog, SharedCatalog, VacuumStats},
-    storage::page::BtreePage,
+    storage::page::{BtreePage, PageZeroHeader},
     tcp::session::Session,
 };
 
@@ -434,9 +434,19 @@ impl Database {
     }
 
     /// Flushes all pending writes to disk.
+    ///
+    /// Page zero can only tell a limited number of transactions from the committed ones. What the others
+    /// have written may not reach the file: it is vacuumed away, or, while there are open
+    /// transactions, everything stays in the log.
     pub fn flush(&self) -> DatabaseResult<()> {
         let unfinished: Vec<_> = self.coordinator.unfinished();
-        self.pager.write().checkpoint(&unfinished)?;
+        if !self.coordinator.has_untracked() {
+            self.pager.write().checkpoint(&unfinished)?;
+        } else if unfinished.is_empty() {
+            self.vacuum()?;
+        } else {
+            self.pager.write().flush_wal()?;
+        }
         Ok(())
     }
 
@@ -547,10 +557,12 @@ impl Database {
             tx_ctx.commit_transaction().map_err(box_err)?;
 
             // Flush everything to disk
-            pager
-                .write()
-                .checkpoint(&coordinator.unfinished())
-                .map_err(box_err)?;
+            let unfinished = coordinator.unfinished();
+            if unfinished.iter().all(|tid| PageZeroHeader::can_track(*tid)) {
+                pager.write().checkpoint(&unfinished).map_err(box_err)?;
+            } else {
+                pager.write().flush_wal().map_err(box_err)?;
+            }
 
             Ok(stats)
         })?;
@@ -562,8 +574,12 @@ impl Database {
 #[cfg(not(feature = "no-flush"))]
 impl Drop for Database {
     fn drop(&mut self) {
-        // Best-effort flush on drop
-        let _ = self.flush();
+        // Best-effort flush on drop. Nothing can be committed any more.
+        let _ = if self.coordinator.has_untracked() {
+            self.vacuum().map(|_| ())
+        } else {
+            self.flush()
+        };
     }
 }
 
diff --git a/crates/axmos-db/src/multithreading/coordinator.rs b/crates/axmos-db/src/multithreading/coordinator.rs
index bb1fcbf..cde6e6b 100644
--- a/crates/axmos-db/src/multithreading/coordinator.rs
+++ b/crates/axmos-db/src/multithreading/coordinator.rs
@@ -1,6 +1,7 @@
 //! MVCC Transaction System for AxmosDB
 use crate::{
     io::pager::SharedPager,
+    storage::page::PageZeroHeader,
     types::{LogicalId, TransactionId},
 };
 use parking_lot::RwLock;
@@ -424,6 +425,14 @@ impl TransactionCoordinator {
             .collect()
     }
 
+    /// Whether there are transactions, aborted or unfinished, that page zero cannot tell from
+    /// committed ones.
+    pub fn has_untracked(&self) -> bool {
+        self.transactions.read().iter().any(|(id, entry)| {
+            entry.state() != TransactionState::Committed && !PageZeroHeader::can_track(*id)
+        })
+    }
+
     /// Whether the transaction can still write.
     pub fn is_active(&self, txid: TransactionId) -> bool {
         self.transactions
diff --git a/crates/axmos-db/src/storage/page.rs b/crates/axmos-db/src/storage/page.rs
index 50990e1..d7d2fe9 100644
--- a/crates/axmos-db/src/storage/page.rs
+++ b/crates/axmos-db/src/storage/page.rs
@@ -134,6 +134,11 @@ impl PageZeroHeader {
         )
     }
 
+    /// Whether the header can remember that the transaction aborted.
+    pub(crate) fn can_track(txid: TransactionId) -> bool {
+        txid < MAX_TRACKED_ABORTED_TXS as u64
+    }
+
     pub(crate) fn mark_transaction_aborted(&mut self, txid: TransactionId) {
         if txid < MAX_TRACKED_ABORTED_TXS as u64 {
             let byte_idx = (txid / 8) as usize;
-- 
2.43.0


From 6e3ec6f7618aaf335dbc2a1387d231fc362bde41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 42/43] fix: LIKE wildcards stand for characters and escapes
 survive backtracking

---
 crates/axmos-db/src/types/blob.rs | 35 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/crates/axmos-db/src/types/blob.rs b/crates/axmos-db/src/types/blob.rs
index a0f33a0..ee51332 100644
--- a/crates/axmos-db/src/types/blob.rs
+++ b/crates/axmos-db/src/types/blob.rs
@@ -392,11 +392,19 @@ impl<'a> BlobRef<'a> {
     /// Pattern matching directly on bytes.
     pub fn like_bytes(&self, pattern: &[u8]) -> TypeSystemResult<bool> {
         let data = self.data()?;
-        Ok(Self::match_pattern(data, pattern))
+        Ok(Self::match_pattern(
+            &Self::characters(data),
+            &Self::characters(pattern),
+        ))
+    }
+
+    /// The characters of a text: what wildcards stand for.
+    fn characters(text: &[u8]) -> Vec<char> {
+        String::from_utf8_lossy(text).chars().collect()
     }
 
     /// Internal pattern matching implementation.
-    fn match_pattern(data: &[u8], pattern: &[u8]) -> bool {
+    fn match_pattern(data: &[char], pattern: &[char]) -> bool {
         let mut data_idx = 0;
         let mut pattern_idx = 0;
         let mut backtrack_data_idx = 0;
@@ -415,6 +423,7 @@ impl<'a> BlobRef<'a> {
                             backtrack_data_idx += 1;
                             data_idx = backtrack_data_idx;
                             pattern_idx = backtrack_pattern_idx;
+                            in_escape = false;
                             continue;
                         }
                         return false;
@@ -426,13 +435,13 @@ impl<'a> BlobRef<'a> {
                 }
 
                 match pattern_char {
-                    b'\\' => {
+                    '\\' => {
                         // Next character is escaped
                         in_escape = true;
                         pattern_idx += 1;
                         continue;
                     }
-                    b'%' => {
+                    '%' => {
                         // % matches any sequence
                         // Store backtrack positions
                         backtrack_data_idx = data_idx;
@@ -440,7 +449,7 @@ impl<'a> BlobRef<'a> {
                         pattern_idx += 1;
                         continue;
                     }
-                    b'_' => {
+                    '_' => {
                         // _ matches any single character
                         data_idx += 1;
                         pattern_idx += 1;
@@ -467,18 +476,15 @@ impl<'a> BlobRef<'a> {
                 backtrack_data_idx += 1;
                 data_idx = backtrack_data_idx;
                 pattern_idx = backtrack_pattern_idx;
+                in_escape = false;
             } else {
-                // Pattern exhausted but data remains (only OK if trailing %)
-                // Check if pattern ends with %
-                if pattern.last() == Some(&b'%') {
-                    return true;
-                }
+                // Pattern exhausted but data remains
                 return false;
             }
         }
 
         // Skip any trailing % in pattern
-        while pattern_idx < pattern.len() && pattern[pattern_idx] == b'%' {
+        while pattern_idx < pattern.len() && pattern[pattern_idx] == '%' {
             pattern_idx += 1;
         }
 
@@ -489,9 +495,12 @@ impl<'a> BlobRef<'a> {
     /// Case-insensitive LIKE comparison (for text blobs).
     pub fn ilike(&self, pattern: &str) -> TypeSystemResult<bool> {
         let data = self.data()?;
-        let data_lower: Vec<u8> = data.iter().map(|&b| b.to_ascii_lowercase()).collect();
+        let data_lower = data.to_ascii_lowercase();
         let pattern_lower = pattern.to_ascii_lowercase();
-        Ok(Self::match_pattern(&data_lower, pattern_lower.as_bytes()))
+        Ok(Self::match_pattern(
+            &Self::characters(&data_lower),
+            &Self::characters(pattern_lower.as_bytes()),
+        ))
     }
 
     /// Checks if blob contains a substring.
-- 
2.43.0


From 9e311c86817b5689882b0d51bef35914c00527b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 43/43] fix: INSERT cannot assign the internal row_id column

---
 crates/axmos-db/src/sql/binder/binder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/axmos-db/src/sql/binder/binder.rs b/crates/axmos-db/src/sql/binder/binder.rs
index a8b2e24..a42d7c2 100644
--- a/crates/axmos-db/src/sql/binder/binder.rs
+++ b/crates/axmos-db/src/sql/binder/binder.rs
@@ -403,6 +403,8 @@ impl<'a> Binder<'a> {
                         .column_index
                         .get(name)
                         .copied()
+                        // The internal row_id (column 0) is assigned by the engine, never by the user.
+                        .filter(|&idx| idx != 0)
                         .ok_or_else(|| BinderError::ColumnNotFound(name.clone()))
                 })
                 .collect::<BinderResult<_>>()?
-- 
2.43.0

