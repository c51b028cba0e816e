//! Small exhaustive matrices of situations that random histories rarely meet.
use crate::{db::*, h::*};

/// two overlapping transactions on one table: every pair of writes, every order of begin / write / commit, with and without
/// other transactions in between
pub fn writers(cx: &mut Cx) {
    let d = Db::new(cx);
    d.ok("CREATE TABLE w (id BIGINT, v BIGINT, t TEXT, UNIQUE (id))");
    d.ok("CREATE TABLE o (a BIGINT)");
    let mut next = 0i64; let mut cases = 0;
    // (text for key k, value v; is it an insert)
    let ops: [(&str, fn(i64, i64) -> String); 4] = [
        ("update", |k, v| format!("UPDATE w SET v = {v} WHERE id = {k}")), ("delete", |k, _| format!("DELETE FROM w WHERE id = {k}")),
        ("insert", |k, v| format!("INSERT INTO w VALUES ({k}, {v}, 'i')")), ("update-all", |k, v| format!("UPDATE w SET t = 'q' WHERE id >= {k} AND id <= {k} AND v <> {v}"))];
    // orders of the six steps: begin, write, commit of each
    let orders = ["aAbBxy", "abABxy", "abABxyz", "abAxBy", "abABpxqy", "abApxByz", "aAbpBqxy", "paAbBxy", "abBAxy", "aAbxBy"];
    for (na, a) in ops { for (nb, b) in ops {
        if (na == "insert") != (nb == "insert") { continue }
        for ord in orders {
            next += 10; let k = next;
            d.ok(&format!("INSERT INTO w VALUES ({}, 0, 'n')", k + 1));
            if na != "insert" { d.ok(&format!("INSERT INTO w VALUES ({k}, 0, 'r')")); }
            let mut s: [Option<Sess>; 2] = [None, None]; let mut fine = [true, true]; let mut done = [false, false]; let mut log: Vec<String> = vec![];
            for c in ord.chars() {
                let i = if "aAx".contains(c) { 0 } else { 1 };
                match c {
                    'a' | 'b' => { s[i] = Some(d.session()); log.push(format!("s{i} BEGIN")); }
                    'A' | 'B' => { let q = if i == 0 { a(k, 1) } else { b(k, 2) }; log.push(format!("s{i} {q}")); let r = s[i].as_mut().unwrap().x(&q); if r.is_err() || r == Out::Count(0) { fine[i] = false; log.push(format!("  -> {}", r.show())); } }
                    'x' | 'y' => { let mut z = s[i].take().unwrap(); if fine[i] { done[i] = z.commit().is_ok(); log.push(format!("s{i} COMMIT -> {}", done[i])); } else { let _ = z.rollback(); log.push(format!("s{i} ROLLBACK")); } }
                    _ => { let q = format!("INSERT INTO o VALUES ({k})"); log.push(q.clone()); d.ok(&q); }
                }
            }
            cases += 1;
            if !cx.ck("TransactionCoordinator::validate_write_set", "two concurrent transactions that modify the same row (or key) do not both commit", &format!("writers-{na}-{nb}"), || log.join("; "), !(done[0] && done[1]), || "both committed".into()) { break }
            cx.ck("TransactionCoordinator::validate_write_set", "one of two concurrent writers commits", &format!("writers-none-{na}-{nb}"), || log.join("; "), done[0] || done[1], || "neither committed".into());
            if na == "insert" { let r = d.x(&format!("SELECT COUNT(*) FROM w WHERE id + 0 = {k}")); cx.ck("TransactionCoordinator::validate_write_set", "a unique key is held by one row", "writers-key", || log.join("; "), r == Out::Rows(vec![vec!["1".into()]]), || r.show()); }
        }
    } }
    cx.bound(&format!("{cases} pairs of overlapping writers of one row or key"));
}
/// a commit refused for a conflict, then a crash (with and without a checkpoint, a later commit, or a reopen in between):
/// nothing of the refused transaction is there, and everything committed is
pub fn refused(cx: &mut Cx) {
    let mut n = 0;
    for how in ["crash", "flush-crash", "commit-crash", "refused-flush-commit-crash", "crash-crash", "reopen", "vacuum-crash", "rollback-crash", "rollback-commit-crash", "drop-crash", "drop-commit-crash"] { for own in [1usize, 40] {
        n += 1;
        let mut d = Db::new(cx); let mut log = vec![];
        let x = |d: &Db, log: &mut Vec<String>, q: &str| { log.push(q.to_string()); d.ok(q) };
        x(&d, &mut log, "CREATE TABLE w (id BIGINT, v BIGINT, UNIQUE (id))"); x(&d, &mut log, "INSERT INTO w VALUES (1, 0), (2, 0), (3, 0)"); x(&d, &mut log, "CREATE TABLE o (a BIGINT)");
        // both update this row: its contents are not compared (updates are in place: recorded finding)
        x(&d, &mut log, "CREATE TABLE z (a BIGINT)"); x(&d, &mut log, "INSERT INTO z VALUES (1)");
        let mut a = d.session(); let mut b = d.session();
        log.push("s0 BEGIN; s1 BEGIN".into());
        let q = |s: &mut Sess, log: &mut Vec<String>, who: &str, q: &str| { log.push(format!("{who} {q}")); let r = s.x(q); if r.is_err() { log.push(format!("  -> {}", r.show())) } };
        q(&mut a, &mut log, "s0", "DELETE FROM w WHERE id = 2"); q(&mut a, &mut log, "s0", "INSERT INTO o VALUES (7)");
        q(&mut a, &mut log, "s0", "UPDATE z SET a = 2"); q(&mut b, &mut log, "s1", "UPDATE z SET a = 3"); q(&mut b, &mut log, "s1", "DELETE FROM w WHERE id = 3");
        for i in 0..own { q(&mut b, &mut log, "s1", &format!("INSERT INTO o VALUES ({})", 100 + i)); q(&mut b, &mut log, "s1", &format!("INSERT INTO w VALUES ({}, 5)", 100 + i)); }
        let ca = a.commit(); log.push(format!("s0 COMMIT -> {ca:?}"));
        let mut b = Some(b);
        let lost = match how.split('-').next().unwrap() { "rollback" => { let r = b.as_mut().unwrap().rollback(); log.push(format!("s1 ROLLBACK -> {r:?}")); true } "drop" => { b = None; log.push("s1 DROP".into()); true } _ => { let r = b.as_mut().unwrap().commit(); log.push(format!("s1 COMMIT -> {r:?}")); r.is_err() } };
        drop(b);
        let mut want_o = vec!["7".to_string()];
        cx.ck("Session::commit_transaction", "of two concurrent writers one commits, the other is refused", "refused", || log.join("; "), ca.is_ok() && lost, || "".into());
        for step in how.split('-') { match step {
            "flush" => { log.push("FLUSH".into()); let _ = d.flush(); }
            "vacuum" => { log.push("VACUUM".into()); let _ = d.vacuum(); }
            "commit" => { x(&d, &mut log, "INSERT INTO o VALUES (8)"); want_o.push("8".into()); }
            "reopen" => { log.push("REOPEN".into()); let c = d.cfg; let r = d.reopen(c); cx.ck("Database::open", "the database opens", "refused-open", || log.join("; "), r.is_ok(), || format!("{r:?}")); if r.is_err() { return } }
            "crash" => { log.push("CRASH".into()); let p = d.crash_copy(cx); let c = d.cfg; match Db::open(&p, c) { Ok(e) => { d = e; } Err(e) => { cx.ck("Database::open", "the database opens", "refused-open", || log.join("; "), false, || e.clone()); return } } }
            _ => {}
        }
            let rw = d.x("SELECT id FROM w").sorted(); let ro = d.x("SELECT a FROM o").sorted();
            let ew = Out::Rows(vec![vec!["1".into()], vec!["3".into()]]); let eo = Out::Rows(want_o.iter().map(|v| vec![v.clone()]).collect());
            if !cx.ck("Recovery", "after a crash exactly the committed transactions are there, nothing of refused or rolled-back ones", &format!("refused-{how}"), || log.join("; "), rw == ew && ro == eo, || format!("w = {}, o = {}; expected {} and {}", rw.show(), ro.show(), ew.show(), eo.show())) { break }
        }
        let dir = d.path.parent().unwrap().to_path_buf(); drop(d); let _ = std::fs::remove_dir_all(dir);
    } }
    cx.bound(&format!("{n} histories with a refused, rolled-back or abandoned transaction before a crash"));
}
/// NOT NULL at every position of tables of 1 to 6 columns, against every way of storing NULL there
pub fn notnull(cx: &mut Cx) {
    let d = Db::new(cx); let mut n = 0; let mut tn = 0;
    for cols in 1..=6usize { for p in 0..cols { for both in [false, true] {
        tn += 1; let t = format!("nn{tn}");
        let nn = |i: usize| i == p || (both && i == (p + 2) % cols);
        d.ok(&format!("CREATE TABLE {t} ({})", (0..cols).map(|i| format!("c{i} {}{}", if i % 2 == 0 { "INT" } else { "TEXT" }, if nn(i) { " NOT NULL" } else { "" })).collect::<Vec<_>>().join(", ")));
        let lit = |i: usize| if i % 2 == 0 { format!("{}", i + 1) } else { format!("'t{i}'") };
        let good: Vec<String> = (0..cols).map(lit).collect();
        let row = |null: &[usize]| (0..cols).map(|i| if null.contains(&i) { "NULL".to_string() } else { good[i].clone() }).collect::<Vec<_>>().join(", ");
        d.ok(&format!("INSERT INTO {t} VALUES ({})", row(&[])));
        let free: Vec<usize> = (0..cols).filter(|i| !nn(*i)).collect();
        if !free.is_empty() { let r = d.x(&format!("INSERT INTO {t} VALUES ({})", row(&free))); cx.ck("ConstraintValidator::validate_not_null_constraints", "NULL is accepted where it is allowed", "null-ok", || format!("{t}: NOT NULL at {p} of {cols}"), r == Out::Count(1), || r.show()); }
        let before = d.x(&format!("SELECT * FROM {t}")).sorted();
        let mut q = vec![format!("INSERT INTO {t} VALUES ({})", row(&[p])), format!("INSERT INTO {t} VALUES ({}), ({})", row(&[]), row(&[p])), format!("UPDATE {t} SET c{p} = NULL"), format!("UPDATE {t} SET c{p} = NULL WHERE c{p} IS NOT NULL")];
        let mut all = free.clone(); all.push(p); all.sort(); q.push(format!("INSERT INTO {t} VALUES ({})", row(&all)));
        if cols > 1 { let o: Vec<usize> = (0..cols).filter(|i| *i != p).collect(); q.push(format!("INSERT INTO {t} ({}) VALUES ({})", o.iter().map(|i| format!("c{i}")).collect::<Vec<_>>().join(", "), o.iter().map(|i| good[*i].clone()).collect::<Vec<_>>().join(", ")));
            let e = o[0]; q.push(format!("UPDATE {t} SET c{e} = {}, c{p} = NULL", good[e])); q.push(format!("UPDATE {t} SET c{p} = NULL, c{e} = {}", good[e])); }
        if let Some(f) = free.iter().find(|f| *f % 2 == p % 2) { q.push(format!("UPDATE {t} SET c{p} = c{f} WHERE c{f} IS NULL")); }
        q.push(format!("UPDATE {t} SET c{p} = NULLIF(c{p}, {})", good[p]));
        for s in q {
            n += 1;
            let r = d.x(&s);
            if !cx.ck("ConstraintValidator::validate_not_null_constraints", "a statement that would store NULL in a NOT NULL column is rejected", "null-refused", || format!("NOT NULL at position {p} of {cols}: {s}"), r.is_err() && !r.show().contains("PANIC"), || r.show()) { return }
            let now = d.x(&format!("SELECT * FROM {t}")).sorted();
            if !cx.ck("ConstraintValidator::validate_not_null_constraints", "a rejected statement changes nothing", "null-effect", || s.clone(), now == before, || format!("{} before, {} now", before.show(), now.show())) { return }
        }
    } } }
    cx.bound(&format!("{n} statements storing NULL into NOT NULL columns"));
}
/// unique keys: duplicates by INSERT and by single-row UPDATE, at every position of the key in the table
pub fn unique(cx: &mut Cx) {
    let d = Db::new(cx); let mut n = 0; let mut tn = 0;
    for cols in 1..=4usize { for p in 0..cols { for q in 0..cols {
        tn += 1; let t = format!("u{tn}");
        d.ok(&format!("CREATE TABLE {t} ({}, UNIQUE ({}))", (0..cols).map(|i| format!("c{i} {}", ["BIGINT", "TEXT", "INT", "DOUBLE"][i])).collect::<Vec<_>>().join(", "), if p == q { format!("c{p}") } else { format!("c{p}, c{q}") }));
        let lit = |i: usize, v: i64| match i { 1 => format!("'v{v}'"), 3 => format!("{v}.5"), _ => format!("{v}") };
        let row = |f: &dyn Fn(usize) -> String| (0..cols).map(|i| f(i)).collect::<Vec<_>>().join(", ");
        for v in 1..=3 { d.ok(&format!("INSERT INTO {t} VALUES ({})", row(&|i| lit(i, v)))); }
        let same = row(&|i| if i == p || i == q { lit(i, 2) } else { lit(i, 9) });
        let before = d.x(&format!("SELECT * FROM {t}")).sorted();
        let mut bad = vec![format!("INSERT INTO {t} VALUES ({same})"), format!("INSERT INTO {t} VALUES ({}), ({same})", row(&|i| lit(i, 8))), format!("INSERT INTO {t} VALUES ({0}), ({0})", row(&|i| lit(i, 7)))];
        bad.push(format!("UPDATE {t} SET {} WHERE c{p} = {}", if p == q { format!("c{p} = {}", lit(p, 2)) } else { format!("c{q} = {}, c{p} = {}", lit(q, 2), lit(p, 2)) }, lit(p, 3)));
        for s in bad {
            n += 1;
            let r = d.x(&s);
            if !cx.ck("ConstraintValidator::validate_insert_constraints", "a statement that would store a second row with the same unique key is rejected", "dup-refused", || format!("key ({p}, {q}) of {cols}: {s}"), r.is_err() && !r.show().contains("PANIC"), || r.show()) { return }
            let now = d.x(&format!("SELECT * FROM {t}")).sorted();
            if !cx.ck("ConstraintValidator::validate_insert_constraints", "a rejected statement changes nothing", "dup-effect", || s.clone(), now == before, || format!("{} before, {} now", before.show(), now.show())) { return }
        }
        // a key differing in one column, and keys with NULL, are no duplicates
        let mut good = vec![row(&|i| lit(i, 6))];
        if p != q { good.push(row(&|i| if i == p { lit(i, 2) } else { lit(i, 5) })); good.push(row(&|i| if i == q { lit(i, 2) } else { lit(i, 4) })); }
        for x in [p, q] { for _ in 0..2 { good.push(row(&|i| if i == x { "NULL".into() } else { lit(i, 2) })); } }
        let mut cnt = before.rows().map(|r| r.len()).unwrap_or(0);
        for g in good { n += 1; let s = format!("INSERT INTO {t} VALUES ({g})"); let r = d.x(&s); cnt += 1;
            if !cx.ck("ConstraintValidator::validate_insert_constraints", "a row with a new key, or with NULL in its key, is accepted", "new-accepted", || format!("key ({p}, {q}) of {cols}: {s}"), r == Out::Count(1), || r.show()) { return } }
        let now = d.x(&format!("SELECT COUNT(*) FROM {t}"));
        cx.ck("ConstraintValidator::validate_insert_constraints", "every accepted row is there", "new-count", || t.clone(), now == Out::Rows(vec![vec![cnt.to_string()]]), || now.show());
    } } }
    cx.bound(&format!("{n} statements against unique keys of one and two columns"));
}
