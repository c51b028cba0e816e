//! Histories of more transactions than page zero can remember, the storage bound of update/VACUUM cycles, and the
//! histories of the recorded findings.
use crate::{db::*, h::*};

fn rows(d: &Db, t: &str) -> Out { d.x(&format!("SELECT * FROM {t}")).sorted() }
fn r(v: &[&str]) -> Out { let mut o: Vec<Vec<String>> = v.iter().map(|x| x.split('|').map(|s| s.to_string()).collect()).collect(); o.sort(); Out::Rows(o) }

/// rolled-back and open transactions beyond the 8192nd
pub fn many(cx: &mut Cx) {
    for variant in 0..3 {
        let mut d = Db::new(cx);
        d.ok("CREATE TABLE t (k INT, UNIQUE (k))"); d.ok("INSERT INTO t VALUES (1)");
        for i in 0..8300 { at(&format!("transaction {i} | variant {variant}")); let mut s = d.session(); let _ = s.rollback(); }
        let mut s = d.session(); s.x("INSERT INTO t VALUES (2)"); let _ = s.rollback();
        let mut s = d.session(); s.x("INSERT INTO t VALUES (3)"); drop(s);
        d.ok("INSERT INTO t VALUES (4)");
        let mut open = d.session(); open.x("INSERT INTO t VALUES (5)");
        d.ok("INSERT INTO t VALUES (6)");
        let f = d.flush();
        cx.ck("Database::flush", "a checkpoint succeeds", "many-flush", || format!("variant {variant}"), f.is_ok(), || format!("{f:?}"));
        d.ok("INSERT INTO t VALUES (7)");
        match variant {
            0 => { drop(open); let c = d.cfg; let e = d.reopen(c); cx.ck("Database::open", "opens", "many-open", || "clean close".into(), e.is_ok(), || format!("{e:?}")); }
            1 => { let p = d.crash_copy(cx); drop(open); let c = d.cfg; let e = Db::open(&p, c).map(|n| d = n); cx.ck("Database::open", "opens", "many-open", || "crash".into(), e.is_ok(), || format!("{e:?}")); }
            _ => { drop(open); let v = d.vacuum(); cx.ck("Database::vacuum", "succeeds", "many-vacuum", || "".into(), v.is_ok(), || format!("{v:?}")); let p = d.crash_copy(cx); let c = d.cfg; let e = Db::open(&p, c).map(|n| d = n); cx.ck("Database::open", "opens", "many-open", || "crash after vacuum".into(), e.is_ok(), || format!("{e:?}")); }
        }
        let got = rows(&d, "t");
        cx.ck("Database::open", "rolled-back data stays invisible after more transactions than page zero can remember", "many-contents", || format!("8300 rolled-back transactions, INSERT 2 ROLLBACK, INSERT 3 dropped, INSERT 4, open INSERT 5, INSERT 6, flush, INSERT 7, {}", ["close and reopen", "crash", "VACUUM and crash"][variant]), got == r(&["1", "4", "6", "7"]), || got.show());
        for i in 0..3 { let c = d.cfg; let _ = d.reopen(c); d.ok(&format!("INSERT INTO t VALUES ({})", 20 + i)); }
        let got = rows(&d, "t");
        cx.ck("Database::open", "and after further openings", "many-contents", || format!("variant {variant}"), got == r(&["1", "4", "6", "7", "20", "21", "22"]), || got.show());
        let a = catch(|| axmosdb::verif::trees::audit_db(d.d()));
        let ok = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
        cx.ck("Database pages", "every page has one owner", "many-pages", || format!("variant {variant}"), ok, || format!("{a:?}").chars().take(300).collect());
    }
    cx.bound("three histories with more than 8300 transactions");
}

/// more objects than a byte can count: every table keeps its own rows, before and after reopening
pub fn objects(cx: &mut Cx) {
    let mut d = Db::new(cx);
    let n = cx.n(270, 700);
    for i in 0..n {
        if i % 3 == 0 { d.ok(&format!("CREATE TABLE t{i} (k INT, UNIQUE (k))")); } else { d.ok(&format!("CREATE TABLE t{i} (k INT)")); }
        d.ok(&format!("INSERT INTO t{i} VALUES ({})", i * 7));
        if i % 90 == 89 { let c = d.cfg; let e = d.reopen(c); cx.ck("Database::open", "opens", "objects-open", || format!("{i} tables"), e.is_ok(), || format!("{e:?}")); }
    }
    for round in 0..2 {
        for i in 0..n {
            let got = rows(&d, &format!("t{i}"));
            let want = r(&[&format!("{}", i * 7)]);
            if !cx.ck("Catalog::get_next_object_id", "a table keeps its rows however many objects are created after it", "objects-rows", || format!("{n} tables created and filled, reopened every 90, SELECT * FROM t{i}, {}", ["before", "after reopening"][round]), got == want, || got.show()) { return }
        }
        let c = d.cfg; let _ = d.reopen(c);
    }
    let a = catch(|| axmosdb::verif::trees::audit_db(d.d()));
    let ok = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
    cx.ck("Database pages", "every page has one owner", "objects-pages", || format!("{n} tables"), ok, || format!("{a:?}").chars().take(300).collect());
    cx.bound(&format!("{n} tables created, filled, reopened and read"));
}

/// values as large as the log takes: read back, replaced, removed, and all their pages given back
pub fn large(cx: &mut Cx) {
    let mut d = Db::new(cx);
    d.ok("CREATE TABLE t (k INT, s TEXT, UNIQUE (k))");
    let text = |c: usize, n: usize| -> String { (0..n).map(|i| (b'a' + ((i * 7 + i / 26 + c) % 26) as u8) as char).collect() };
    let mut want: std::collections::BTreeMap<usize, String> = Default::default();
    let sizes = [40_500usize, 36_000, 33_000, 29_000, 25_000, 13_000];
    for round in 0..cx.n(2, 5) {
        for (k, n) in sizes.iter().enumerate() {
            let v = text(k + round, n + 13 * round);
            if round > 0 && n * 2 < 40_000 { d.ok(&format!("UPDATE t SET s = '{v}' WHERE k = {k}")); } else { if round > 0 { d.ok(&format!("DELETE FROM t WHERE k = {k}")); let _ = d.vacuum(); } d.ok(&format!("INSERT INTO t VALUES ({k}, '{v}')")); }
            want.insert(k, v);
        }
        for k in 0..sizes.len() {
            let got = d.x(&format!("SELECT s FROM t WHERE k = {k}"));
            let ok = matches!(&got, Out::Rows(r) if r.len() == 1 && r[0] == vec![want[&k].clone()]);
            if !cx.ck("Reassembler::reassemble", "a value of many overflow pages reads back as written", "large-value", || format!("value {k} of {} bytes, version {round}", want[&k].len()), ok, || got.show()) { return }
        }
        let v = d.vacuum();
        cx.ck("Database::vacuum", "VACUUM succeeds", "vacuum", || format!("large values, round {round}"), v.is_ok(), || format!("{v:?}"));
        let a = catch(|| axmosdb::verif::trees::audit_db(d.d()));
        let ok = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
        if !cx.ck("CellDeallocator::deallocate_cell", "every page of a removed value is free again", "large-pages", || format!("large values, version {round}, VACUUM"), ok, || format!("{a:?}").chars().take(300).collect()) { return }
    }
    d.ok("DELETE FROM t WHERE k >= 0");
    let _ = d.vacuum();
    let a = catch(|| axmosdb::verif::trees::audit_db(d.d()));
    let ok = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
    cx.ck("CellDeallocator::deallocate_cell", "every page of a removed value is free again", "large-pages", || "large values deleted, VACUUM".into(), ok, || format!("{a:?}").chars().take(300).collect());
    cx.bound("values of up to 40 kB (the log takes no larger ones) written, replaced and deleted");
}

/// repeated update / delete / VACUUM cycles keep the file bounded and the answers unchanged
pub fn cycles(cx: &mut Cx) {
    let n = cx.n(6, 25);
    for round in 0..3u64 {
        let mut d = Db::new(cx);
        d.ok("CREATE TABLE t (k INT, s TEXT, x BIGINT, UNIQUE (k))");
        for i in 0..40 { d.ok(&format!("INSERT INTO t VALUES ({i}, '{}', 0)", "s".repeat(if i % 9 == 0 { 6000 } else { 90 }))); }
        let mut sizes = vec![];
        for c in 1..=n {
            for i in 0..3 { d.ok(&format!("UPDATE t SET x = {}, s = '{}' WHERE k < 40", c * 10 + i, ["u", "v", "w"][(c + i) % 3].repeat(80 + 5 * i))); }
            match round {
                1 => { d.ok("DELETE FROM t WHERE k >= 20"); for i in 20..40 { d.ok(&format!("INSERT INTO t VALUES ({i}, '{}', {})", "n".repeat(100), c * 10 + 2)); } }
                2 => { for i in 0..12 { let mut s = d.session(); s.x(&format!("INSERT INTO t VALUES ({}, '{}', 1)", 100 + i, "r".repeat(5000))); if i % 2 == 0 { let _ = s.rollback(); } } let mut s = d.session(); s.x("DELETE FROM t WHERE k < 10"); let _ = s.rollback();
                       if c % 2 == 0 { d.ok("CREATE TABLE tmp (a TEXT)"); d.ok(&format!("INSERT INTO tmp VALUES ('{}')", "z".repeat(20000))); d.ok("DROP TABLE tmp"); } }
                _ => {}
            }
            let before = rows(&d, "t");
            let v = d.vacuum();
            if !cx.ck("Database::vacuum", "VACUUM succeeds", "vacuum", || format!("cycle {c} kind {round}"), v.is_ok(), || format!("{v:?}")) { return }
            let after = rows(&d, "t");
            cx.ck("Database::vacuum", "VACUUM changes no query result", "vacuum-effect", || format!("cycle {c} kind {round}"), before == after, || format!("{} became {}", before.show(), after.show()));
            if c % 4 == 0 { let k = d.cfg; let _ = d.reopen(k); }
            let pg = axmosdb::verif::trees::db_pager(d.d());
            sizes.push(axmosdb::verif::trees::total_pages(&pg));
        }
        let (early, last) = (sizes[2], *sizes.last().unwrap());
        cx.ck("Database::vacuum", "repeated update/VACUUM cycles keep the storage bounded", "vacuum-bound", || format!("{n} cycles of kind {round}, pages after each: {sizes:?}"), last as f64 <= early as f64 * 1.34 + 12.0, || format!("{early} pages after 3 cycles, {last} after {n}"));
        let a = catch(|| axmosdb::verif::trees::audit_db(d.d()));
        let ok = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
        cx.ck("Database pages", "every page has one owner", "cycle-pages", || format!("cycles of kind {round}"), ok, || format!("{a:?}").chars().take(300).collect());
    }
    cx.bound(&format!("{n} update/VACUUM cycles of three kinds"));
}

/// Histories of the recorded findings: one failure line each, under the key that known_findings.txt lists.
pub fn probes(cx: &mut Cx) {
    let p = cx.prop.clone();
    let want = |ids: &[&str]| ids.contains(&p.as_str());
    let new = |cx: &mut Cx| { let d = Db::new(cx); d.ok("CREATE TABLE t (k INT, v INT, UNIQUE (k))"); d.ok("INSERT INTO t VALUES (1, 10), (2, 20)"); d };
    if want(&["C03"]) {
        let d = new(cx); let mut s = d.session(); s.x("UPDATE t SET v = 99 WHERE k = 1"); let _ = s.rollback(); let got = rows(&d, "t");
        cx.ck("Session::abort_transaction", "updated rows have their old values after ROLLBACK", "update-in-place", || "UPDATE in a session, ROLLBACK".into(), got == r(&["1|10", "2|20"]), || got.show());
    }
    if want(&["C02"]) {
        let mut d = new(cx); let mut s = d.session(); s.x("UPDATE t SET v = 99 WHERE k = 1"); let _ = d.flush(); let q = d.crash_copy(cx); drop(s); let c = d.cfg; if let Ok(n) = Db::open(&q, c) { d = n } let got = rows(&d, "t");
        cx.ck("Database::open", "nothing an open transaction wrote is visible after a crash", "update-in-place", || "open UPDATE, checkpoint, crash".into(), got == r(&["1|10", "2|20"]), || got.show());
    }
    if want(&["C04", "C18"]) {
        let d = new(cx); let mut a = d.session(); let _ = a.x("SELECT * FROM t"); d.x("UPDATE t SET v = 99 WHERE k = 1"); let got = a.x("SELECT * FROM t").sorted();
        cx.ck("Tuple::add_version_with", "a reader keeps the version its snapshot entitles it to", "update-in-place", || "session reads; another transaction UPDATEs and commits; the session reads again".into(), got == r(&["1|10", "2|20"]), || got.show());
    }
    if want(&["C03", "C16"]) {
        let d = new(cx); let e = d.x("UPDATE t SET v = 100 / (k - 2)"); let got = rows(&d, "t");
        cx.ck("Database::execute", "a statement that fails makes no partial changes", "update-in-place", || "UPDATE failing at its second row".into(), !e.is_err() || got == r(&["1|10", "2|20"]), || got.show());
        let d = new(cx); let mut s = d.session(); let e = s.x("INSERT INTO t VALUES (3, 1), (4, 1), (1, 1)"); let got = s.x("SELECT * FROM t").sorted();
        cx.ck("Session::execute", "a statement that fails makes no partial changes", "session-partial-statement", || "INSERT of three rows in a session failing at its third row".into(), e.is_err() && got == r(&["1|10", "2|20"]), || got.show());
    }
    if want(&["C05", "C06", "C07"]) {
        let d = new(cx); d.x("UPDATE t SET k = 7 WHERE k = 1"); let got = d.x("SELECT k FROM t WHERE k = 7");
        cx.ck("DmlExecutor::update", "an index agrees with its table after an UPDATE of its column", "update-index-entry", || "UPDATE of a unique column; lookup of the new key".into(), got == r(&["7"]), || got.show());
        let again = d.x("INSERT INTO t VALUES (7, 70)"); let back = d.x("INSERT INTO t VALUES (1, 11)");
        cx.ck("DmlExecutor::update", "the new key is taken and the old one free", "update-index-entry", || "then INSERT of the new and of the old key".into(), again.is_err() && !back.is_err(), || format!("{} {}", again.show(), back.show()));
    }
    if want(&["C03", "C07"]) {
        let d = new(cx); let mut s = d.session(); s.x("DELETE FROM t WHERE k = 1"); s.x("INSERT INTO t VALUES (1, 11)"); let _ = s.rollback(); let got = d.x("SELECT * FROM t WHERE k = 1"); let dup = d.x("INSERT INTO t VALUES (1, 12)");
        cx.ck("DmlExecutor::insert", "a rolled-back re-insertion of a deleted key leaves the old row in its index", "reinsert-key", || "DELETE and INSERT of one key in a session, ROLLBACK; lookup and INSERT of the key".into(), got == r(&["1|10"]) && dup.is_err(), || format!("{} {}", got.show(), dup.show()));
    }
    if want(&["C15", "C03"]) {
        let d = new(cx); let mut s = d.session(); s.x("DROP TABLE t"); s.x("CREATE TABLE t (z TEXT)"); let _ = s.rollback(); let got = rows(&d, "t");
        cx.ck("Catalog::store_relation", "dropped and re-created objects are as before after ROLLBACK", "drop-create-rollback", || "DROP and CREATE of one name in a session, ROLLBACK".into(), got == r(&["1|10", "2|20"]), || got.show());
    }
    if want(&["C15"]) {
        let d = new(cx); let e = d.x("ALTER TABLE t ADD COLUMN w INT"); let got = rows(&d, "t");
        cx.ck("DdlExecutor::execute_alter_table", "an added column reads as NULL", "alter-table", || "ALTER TABLE t ADD COLUMN w INT".into(), got == r(&["1|10|NULL", "2|20|NULL"]), || format!("{} {}", e.show(), got.show()));
        let d = new(cx); let e = d.x("ALTER TABLE t DROP COLUMN v"); let got = rows(&d, "t");
        cx.ck("DdlExecutor::execute_alter_table", "a dropped column disappears", "alter-table", || "ALTER TABLE t DROP COLUMN v".into(), got == r(&["1", "2"]), || format!("{} {}", e.show(), got.show()));
    }
    if want(&["C07"]) {
        let d = Db::new(cx); d.ok("CREATE TABLE n (a INT)"); d.ok("INSERT INTO n VALUES (NULL)"); let e = d.x("ALTER TABLE n ALTER COLUMN a SET NOT NULL");
        cx.ck("DdlExecutor::execute_alter_table", "no committed row has NULL in a NOT NULL column", "set-not-null", || "SET NOT NULL on a column holding NULL".into(), e.is_err(), || e.show());
    }
}

/// C05: an INSERT adds exactly the rows it reports, whatever columns it names.
pub fn named(cx: &mut Cx) {
    let d = Db::new(cx); d.ok("CREATE TABLE t (a INT, b INT)"); d.ok("INSERT INTO t VALUES (1, 1)");
    let mut want = 1i64;
    for (i, q) in ["INSERT INTO t (row_id, a, b) VALUES (1, 7, 7)", "INSERT INTO t (row_id, a, b) VALUES (0, 8, 8)", "INSERT INTO t (a, row_id) VALUES (9, 3)", "INSERT INTO t (b, a) VALUES (3, 10)",
        "INSERT INTO t (a) VALUES (11)", "INSERT INTO t VALUES (12, 12), (13, 13)", "INSERT INTO t (b) VALUES (14)"].into_iter().enumerate() {
        let got = d.x(q);
        if !got.is_err() { want += if i == 5 { 2 } else { 1 }; }
        let n = rows(&d, "t");
        cx.ck("DmlExecutor::insert_row", "an INSERT adds exactly the rows it reports", "insert-columns", || q.into(), n.rows().map(|r| r.len() as i64) == Some(want), || format!("{} then {}", got.show(), n.show()));
    }
}
