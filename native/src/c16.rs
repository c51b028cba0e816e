//! C16: any text gives rows, a count or an error; after an error the data, the database and the session are as before.
use crate::{c05::*, db::*, h::*, sql::*};
use std::collections::BTreeMap;

const CORPUS: &[&str] = &[
    "SELECT CASE WHEN k > 1 THEN 'a' ELSE 'b' END FROM p", "SELECT k FROM p WHERE k IN (SELECT k FROM q)", "SELECT (SELECT MAX(k) FROM q) FROM p",
    "SELECT k, COUNT(*) FROM p GROUP BY k HAVING COUNT(*) > 1 ORDER BY k DESC LIMIT 2 OFFSET 1", "WITH w AS (SELECT * FROM p) SELECT * FROM w",
    "SELECT p.*, q.k FROM p LEFT JOIN q ON p.k = q.k", "SELECT CAST(k AS TEXT) FROM p", "SELECT k / 0 FROM p", "SELECT k % 0, 1 / 0 FROM p", "SELECT 1.0 / 0.0",
    "SELECT 9223372036854775807 + 1", "SELECT -9223372036854775808 - 1, 9223372036854775807 * 2", "SELECT - -9223372036854775808", "SELECT ABS(-9223372036854775808)",
    "SELECT k LIKE NULL FROM p", "SELECT NULL LIKE '%', 'a' LIKE 5, 5 LIKE 'a'", "SELECT UPPER(k), LOWER(5), ABS('x'), ABS(NULL) FROM p", "SELECT LENGTH(s) FROM p", "SELECT NOSUCH(s) FROM p",
    "SELECT SUM(s), AVG(b), MIN(b), MAX(s) FROM p", "SELECT SUM(*) FROM p", "SELECT COUNT(DISTINCT *) FROM p", "SELECT COUNT() FROM p", "SELECT SUM(COUNT(*)) FROM p", "SELECT k FROM p WHERE COUNT(*) > 1",
    "SELECT k FROM p GROUP BY s", "SELECT * FROM p GROUP BY k", "SELECT k FROM p HAVING k > 1", "SELECT k FROM p ORDER BY nosuch", "SELECT k FROM p ORDER BY 99", "SELECT k FROM p ORDER BY -1", "SELECT k FROM p LIMIT -1", "SELECT k FROM p LIMIT 99999999999999999999", "SELECT k FROM p OFFSET 5", "SELECT k FROM p LIMIT k",
    "SELECT p.k FROM p, q, r", "SELECT k FROM p, q", "SELECT * FROM p CROSS JOIN q CROSS JOIN r", "SELECT * FROM p JOIN q ON TRUE", "SELECT * FROM p JOIN p ON p.k = p.k", "SELECT * FROM p a JOIN p b ON a.k = b.k JOIN p c ON c.k = a.k", "SELECT * FROM p FULL JOIN q ON p.k = q.k AND 1 / 0 = 1",
    "SELECT * FROM (SELECT k FROM p) x", "SELECT * FROM (SELECT k FROM p)", "SELECT x.k FROM (SELECT k FROM p WHERE k > 1) x JOIN q ON x.k = q.k", "SELECT EXISTS (SELECT 1 FROM p)", "SELECT * FROM p WHERE EXISTS (SELECT * FROM q WHERE q.k = p.k)",
    "SELECT 'a' + 1", "SELECT 'a' || 'b'", "SELECT TRUE + 1", "SELECT -TRUE, -'a', NOT 5, NOT 'a'", "SELECT 'a' < 1, TRUE > 2, 'a' = TRUE", "SELECT 1 BETWEEN 'a' AND 2", "SELECT 1 IN ('a', TRUE, NULL)", "SELECT k IN () FROM p", "SELECT * FROM p WHERE 5", "SELECT * FROM p WHERE s", "SELECT * FROM p WHERE NULL",
    "INSERT INTO p VALUES (1)", "INSERT INTO p VALUES (1, 'x', 1.0, TRUE, 5, 6)", "INSERT INTO p (k) VALUES (77)", "INSERT INTO p (nosuch) VALUES (1)", "INSERT INTO p (k, k) VALUES (78, 79)", "INSERT INTO p VALUES ('x', 5, 'y', 'z')", "INSERT INTO p VALUES (99999999999, 'x', 1.0, TRUE)", "INSERT INTO p VALUES (1.5, 'x', 1.0, TRUE)", "INSERT INTO p VALUES (NULL, NULL, NULL, NULL)", "INSERT INTO p VALUES (1 / 0, 'x', 1.0, TRUE)", "INSERT INTO p SELECT * FROM q", "INSERT INTO p SELECT k, s, d, b FROM p WHERE k < 0", "INSERT INTO nosuch VALUES (1)", "INSERT INTO p DEFAULT VALUES", "INSERT INTO q VALUES (81, 'a'), (82, 'b'), (81, 'c')", "INSERT INTO p VALUES (k, s, d, b)", "INSERT INTO p VALUES (COUNT(*), 'a', 1.0, TRUE)",
    "UPDATE p SET k = 1", "UPDATE p SET nosuch = 1", "UPDATE p SET k = s", "UPDATE p SET s = 5 WHERE k = 2", "UPDATE p SET k = 1 / (k - 3) WHERE k >= 0", "UPDATE p SET k = NULL", "UPDATE p SET d = 'x'", "UPDATE p SET k = k, k = k + 1", "UPDATE nosuch SET a = 1", "UPDATE p SET k = COUNT(*)", "UPDATE p SET b = k",
    "DELETE FROM nosuch", "DELETE FROM p WHERE nosuch = 1", "DELETE FROM p WHERE 1 / (k - 2) = 7", "DELETE FROM p WHERE s", "DELETE FROM p WHERE COUNT(*) > 0", "DELETE FROM p WHERE k IN (SELECT k FROM q)",
    "CREATE TABLE p (k INT)", "CREATE TABLE z1 ()", "CREATE TABLE z2 (a INT, a INT)", "CREATE TABLE z3 (a NOSUCHTYPE)", "CREATE TABLE z4 (a INT, PRIMARY KEY (nosuch))", "CREATE TABLE z5 (a INT, UNIQUE (a, a))", "CREATE TABLE z6 (a INT DEFAULT 'x')", "CREATE TABLE z7 (a INT NOT NULL DEFAULT NULL)", "CREATE TABLE z8 (a INT, FOREIGN KEY (a) REFERENCES nosuch (x))", "CREATE TABLE z9 (a INT DEFAULT 1 / 0)", "CREATE TABLE IF NOT EXISTS p (k INT)", "CREATE UNIQUE INDEX i1 ON nosuch (k)", "CREATE UNIQUE INDEX i2 ON p (nosuch)", "CREATE UNIQUE INDEX i3 ON q (s)", "CREATE INDEX i4 ON p (k)", "CREATE UNIQUE INDEX i5 ON p (k, k)", "CREATE UNIQUE INDEX i6 ON p ()",
    "DROP TABLE nosuch", "DROP TABLE IF EXISTS nosuch", "DROP INDEX nosuch", "ALTER TABLE nosuch ADD COLUMN x INT", "ALTER TABLE p ADD COLUMN k INT", "ALTER TABLE p DROP COLUMN nosuch", "ALTER TABLE p ALTER COLUMN nosuch SET NOT NULL", "ALTER TABLE p ADD CONSTRAINT c UNIQUE (nosuch)", "ALTER TABLE p",
    "BEGIN", "COMMIT", "ROLLBACK", "BEGIN TRANSACTION", "BEGIN; COMMIT;", "SELECT 1; SELECT 2", ";", ";;", "", " ", "\n", "--", "-- x", "/* x", "/**/", "'", "''", "'''", "\"", "\"k", "SELECT '", "SELECT 'abc", "SELECT \"abc", "SELECT `k` FROM p", "SELECT [k] FROM p", "SELECT k.p.q.r FROM p", "SELECT .k FROM p", "SELECT p. FROM p", "SELECT 1..2", "SELECT 1e999", "SELECT 1e", "SELECT .5", "SELECT 5.", "SELECT 0x10", "SELECT 99999999999999999999999999999999999999999999", "SELECT 1e-400, -1e308 * 10.0", "SELECT * * FROM p", "SELECT FROM", "SELECT , FROM p", "FROM p SELECT k", "SELECT \u{0}", "\u{feff}SELECT 1", "SELECT 'ñandú日本' = 'x'", "SELECT ñ FROM p", "EXPLAIN SELECT 1", "VACUUM", "ANALYZE", "SHOW TABLES", "TRUNCATE p", "SET x = 1", "GRANT ALL",
    "SELECT meta_table FROM meta_table", "SELECT * FROM meta_table", "SELECT * FROM meta_index", "INSERT INTO meta_table VALUES (1)", "DROP TABLE meta_table", "DELETE FROM meta_index",
];
const TOKENS: &[&str] = &["SELECT", "FROM", "WHERE", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "DROP", "ALTER", "ADD", "COLUMN", "UNIQUE", "INDEX", "ON", "JOIN", "LEFT", "RIGHT", "FULL", "INNER", "CROSS", "GROUP", "BY", "HAVING", "ORDER", "LIMIT", "OFFSET", "DISTINCT", "AS", "AND", "OR", "NOT", "NULL", "IS", "IN", "BETWEEN", "LIKE", "CASE", "WHEN", "THEN", "ELSE", "END", "EXISTS", "WITH", "PRIMARY", "KEY", "CONSTRAINT", "DEFAULT", "IF", "BEGIN", "COMMIT", "ROLLBACK", "TRUE", "FALSE", "ASC", "DESC", "CAST", "COUNT", "SUM", "AVG", "MIN", "MAX", "ABS", "UPPER", "LOWER",
    "(", ")", ",", ";", "*", "+", "-", "/", "%", "=", "<>", "!=", "<", ">", "<=", ">=", "||", ".", "'", "\"", "p", "q", "r", "k", "s", "d", "b", "nosuch", "0", "1", "-1", "2147483648", "9223372036854775807", "9223372036854775808", "1.5", "1e308", "'x'", "''", "'%'", "INT", "BIGINT", "TEXT", "DOUBLE", "BOOLEAN", "@", "#", "$", "?", "\\", "{", "é"];

fn tokens(s: &str) -> Vec<String> {
    let mut out = vec![]; let mut cur = String::new(); let mut q = false;
    for c in s.chars() {
        if q { cur.push(c); if c == '\'' { q = false; out.push(std::mem::take(&mut cur)); } continue }
        if c == '\'' { if !cur.is_empty() { out.push(std::mem::take(&mut cur)); } cur.push(c); q = true; continue }
        if c.is_alphanumeric() || c == '_' { cur.push(c) } else { if !cur.is_empty() { out.push(std::mem::take(&mut cur)); } if !c.is_whitespace() { out.push(c.to_string()); } }
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut t = tokens(s);
    for _ in 0..1 + r.below(3) {
        if t.is_empty() { break }
        let i = r.below(t.len() as u64) as usize; let j = r.below(t.len() as u64) as usize;
        match r.below(7) {
            0 => { t.remove(i); } 1 => { let x = t[i].clone(); t.insert(j, x); } 2 => t.swap(i, j), 3 => t[i] = r.pick(TOKENS).to_string(), 4 => t.insert(i, r.pick(TOKENS).to_string()), 5 => t.truncate(i),
            _ => { let a = i.min(j); let b = i.max(j).min(a + 6); let x: Vec<String> = t[a..=b.min(t.len() - 1)].to_vec(); for y in x.into_iter().rev() { t.insert(a, y) } }
        }
    }
    let mut s = t.join(" ");
    if r.chance(15) { let mut b = s.into_bytes(); for _ in 0..1 + r.below(3) { if b.is_empty() { break } let i = r.below(b.len() as u64) as usize; match r.below(3) { 0 => { b.remove(i); } 1 => b[i] = r.next() as u8, _ => b.insert(i, r.next() as u8) } } s = String::from_utf8_lossy(&b).into_owned(); }
    s
}
fn nested(r: &mut Rng) -> String {
    let n = *r.pick(&[3usize, 20, 60, 120, 250, 1000, 5000, 40000]);
    let rep = |a: &str, m: &str, z: &str| format!("{}{m}{}", a.repeat(n), z.repeat(n));
    match r.below(12) {
        0 => format!("SELECT {}", rep("(", "1", ")")), 1 => format!("SELECT {}1", "-".repeat(n)), 2 => format!("SELECT {}TRUE", "NOT ".repeat(n)), 3 => format!("SELECT 1{}", " + 1".repeat(n)),
        4 => format!("SELECT k FROM p WHERE k = 1{}", " OR k = 1".repeat(n)), 5 => format!("SELECT k FROM p WHERE k IN (1{})", ", 1".repeat(n)), 6 => format!("SELECT {}", "(".repeat(n)), 7 => rep("SELECT * FROM (", "SELECT 1", ") x"),
        8 => format!("SELECT {}", rep("ABS(", "1", ")")), 9 => format!("SELECT 1{}", ", 1".repeat(n)), 10 => format!("SELECT '{}'", "x".repeat(n * 10)), _ => format!("SELECT {}", rep("CASE WHEN TRUE THEN ", "1", " END")),
    }
}

struct W { d: Db, t: Vec<Table>, names: Vec<&'static str>, n: usize, schema: bool }
fn world(cx: &mut Cx, r: &mut Rng) -> W {
    let c = axmosdb::DBConfig::builder().pool_size(*r.pick(&[1usize, 2, 3])).cache_size(256).build();
    let d = Db::create(cx, c);
    d.ok("CREATE TABLE p (k INT, s TEXT, d DOUBLE, b BOOLEAN)"); d.ok("CREATE TABLE q (k BIGINT NOT NULL, s TEXT, PRIMARY KEY (k))"); d.ok("CREATE TABLE r (k INT, x BIGINT, UNIQUE (x))");
    d.ok("INSERT INTO p VALUES (1, 'a', 1.5, TRUE), (2, 'b', NULL, FALSE), (3, NULL, -2.5, NULL), (NULL, 'a', 0.0, TRUE), (2147483647, 'zz', 1.0, FALSE)");
    d.ok("INSERT INTO q VALUES (1, 'one'), (2, 'one'), (9223372036854775807, NULL)"); d.ok("INSERT INTO r VALUES (1, 10), (2, NULL), (3, 30)");
    let mut t = vec![];
    for i in 0..2 { let u = r.chance(60); let mut m = Table::make(r, &format!("g{i}"), u); d.ok(&m.create_sql()); fill(r, &d, &mut m, 8); t.push(m); }
    W { d, t, names: vec!["p", "q", "r", "g0", "g1"], n: 0, schema: false }
}
type Snap = BTreeMap<&'static str, Out>;
fn rows(o: &Out) -> usize { o.rows().map(|r| r.len()).unwrap_or(0) }

/// whether a failing statement is one of the recorded findings: UPDATE works in place; inside a session the earlier rows of a statement stay
fn known(s: &str, before: &Snap, after: &Snap, session: bool) -> Option<&'static str> {
    let u = s.trim_start().to_uppercase();
    let changed: Vec<_> = before.keys().filter(|k| before[*k] != after[*k]).collect();
    if changed.len() != 1 || after[changed[0]].is_err() { return None }
    let (b, a) = (rows(&before[changed[0]]), rows(&after[changed[0]]));
    if u.starts_with("UPDATE") && a == b { return Some("update-in-place") }
    if session && u.starts_with("INSERT") && a > b { return Some("session-partial-statement") }
    if session && u.starts_with("DELETE") && a < b { return Some("session-partial-statement") }
    None
}
fn text(r: &mut Rng, w: &mut W) -> String {
    let gen_valid = |r: &mut Rng, w: &mut W| -> String {
        match r.below(10) {
            0..=4 => query(r, &w.t, &QOpt { max_joins: 2, group: true }).sql(&w.t),
            5..=7 => { let i = r.below(w.t.len() as u64) as usize; let mut t = w.t[i].clone(); dml(r, &mut t).0 }
            _ => r.pick(CORPUS).to_string(),
        }
    };
    match r.below(20) {
        0 => { let n = r.below(60) as usize; let b: Vec<u8> = (0..n).map(|_| if r.chance(70) { 32 + r.below(95) as u8 } else { r.next() as u8 }).collect(); String::from_utf8_lossy(&b).into_owned() }
        1 | 2 => { let n = 1 + r.below(14); (0..n).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(" ") }
        3 => nested(r),
        4..=7 => r.pick(CORPUS).to_string(),
        8 | 9 => gen_valid(r, w),
        _ => { let s = gen_valid(r, w); mutate(r, &s) }
    }
}
fn snap(names: &[&'static str], mut x: impl FnMut(&str) -> Out) -> Snap { names.iter().map(|n| (*n, x(&format!("SELECT * FROM {n}")).sorted())).collect() }

pub fn run(cx: &mut Cx) {
    let secs = if cx.thorough { 600.0 } else { 50.0 };
    let mut r = Rng(cx.rng.next());
    let mut total = 0;
    // every statement of the corpus once, then random text
    let mut queue: Vec<String> = CORPUS.iter().map(|s| s.to_string()).collect();
    queue.extend(std::iter::repeat_with(|| nested(&mut r)).take(15).collect::<Vec<_>>());
    queue.reverse();
    let mut w = world(cx, &mut r);
    let mut before = snap(&w.names, |s| w.d.x(s));
    while !queue.is_empty() || cx.elapsed() < secs {
        if cx.elapsed() > secs + 60.0 { break }
        w.n += 1; total += 1;
        let bad_world = before.values().any(|o| o.is_err()) || before.values().any(|o| rows(o) > 60) || w.n > 400;
        if bad_world { let p = w.d.path.parent().unwrap().to_path_buf(); w = world(cx, &mut r); let _ = std::fs::remove_dir_all(p); before = snap(&w.names, |s| w.d.x(s)); }
        let s = queue.pop().unwrap_or_else(|| text(&mut r, &mut w));
        { let u = s.to_uppercase(); if u.contains("CREATE") || u.contains("ALTER") || u.contains("DROP") { w.schema = true } }
        let clip = || -> String { s.chars().take(700).collect() };
        if s.len() < 3000 && r.chance(35) {
            // inside a session: an own row first, the statement, then the session goes on
            let mut ss = w.d.session();
            let o = ss.x(&format!("INSERT INTO p VALUES ({0}, 'own{0}', {0}.5, TRUE)", 1000 + total));
            if o.is_err() && w.schema { before.insert("p", Out::Err("stale".into())); continue }
            if o.is_err() { cx.ck("Session::execute", "the session works", "session-dead", || clip(), false, || o.show()); continue }
            let b = snap(&w.names, |q| ss.x(q));
            let o = ss.x(&s);
            if !cx.ck("Session::execute", "a statement gives rows, a count or an error", "panic", || clip(), !o.show().contains("PANIC"), || o.show()) { before = snap(&w.names, |q| w.d.x(q)); continue }
            if o.is_err() {
                let a = snap(&w.names, |q| ss.x(q));
                let key = known(&s, &b, &a, true).unwrap_or("session-state-after-error");
                cx.ck("Session::execute", "after an error the session goes on with the data it had", key, || clip(), a == b, || diff(&b, &a));
            }
            let cm = r.chance(30);
            let e = if cm { ss.commit() } else { ss.rollback() };
            let ended = s.to_uppercase().contains("COMMIT") || s.to_uppercase().contains("ROLLBACK");
            cx.ck("Session", "the transaction ends", "session-end", || clip(), e.is_ok() || ended, || format!("{e:?}"));
            let now = snap(&w.names, |q| w.d.x(q));
            if !cm && !ended { let key = if s.trim_start().to_uppercase().starts_with("UPDATE") { "update-in-place" } else { "session-rollback" };
                cx.ck("Session", "ROLLBACK leaves no effects", key, || clip(), now == before, || diff(&before, &now)); }
            before = now;
        } else {
            let o = w.d.x(&s);
            let ok = cx.ck("Database::execute", "a statement gives rows, a count or an error", "panic", || clip(), !o.show().contains("PANIC"), || o.show());
            let now = snap(&w.names, |q| w.d.x(q));
            if ok && o.is_err() { let key = known(&s, &before, &now, false).unwrap_or("state-after-error");
                cx.ck("Database::execute", "after an error the data is as before", key, || clip(), now == before, || diff(&before, &now)); }
            before = now;
        }
        if w.n % 60 == 0 {
            let o = w.d.x("SELECT 41 + 1");
            cx.ck("Database", "the database goes on working", "alive", || clip(), o == Out::Rows(vec![vec!["42".into()]]), || o.show());
        }
        if w.n % 150 == 0 && r.chance(50) {
            let c = w.d.cfg; let e = w.d.reopen(c);
            if !cx.ck("Database::open", "the database reopens after any statements", "reopen", || clip(), e.is_ok(), || format!("{e:?}")) { w = world(cx, &mut r); before = snap(&w.names, |s| w.d.x(s)); continue }
            let now = snap(&w.names, |q| w.d.x(q));
            cx.ck("Database::open", "with the data it had", "reopen-contents", || clip(), now == before, || diff(&before, &now));
            before = now;
        }
    }
    cx.bound(&format!("{total} texts (corpus, random bytes, token soups, nested and mutated statements) over five small tables, autocommit and in sessions"));
}
fn diff(b: &Snap, a: &Snap) -> String { b.keys().filter(|k| b[*k] != a[*k]).map(|k| format!("{k}: {} became {}", b[k].show(), a[k].show())).collect::<Vec<_>>().join("; ") }
