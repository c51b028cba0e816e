//! C05: answers of random queries and DML statements against the reference semantics of sql.rs.
use crate::{db::*, h::*, sql::*};

pub fn fill(r: &mut Rng, d: &Db, t: &mut Table, n: usize) {
    let mut left = n;
    while left > 0 {
        let k = (1 + r.below(5) as usize).min(left);
        let rows: Vec<Vec<V>> = (0..k).map(|_| t.row(r)).collect();
        left -= k;
        let s = t.insert_sql(&rows);
        let exp = t.insert(&rows);
        let got = d.x(&s);
        if exp.is_none() != got.is_err() { panic!("setup: {s}: {got:?}") }
    }
}
/// one random DML statement (text, model effect)
pub fn dml(r: &mut Rng, t: &mut Table) -> (String, R<u64>) {
    let f = t.fields(0, None);
    match r.below(10) {
        0..=4 => { let n = 1 + r.below(4); let rows: Vec<Vec<V>> = (0..n).map(|_| t.row(r)).collect(); (t.insert_sql(&rows), t.insert(&rows).ok_or(())) }
        5..=6 => { let w = cond(r, &f, 2); (format!("DELETE FROM {} WHERE {}", t.name, w.sql(r.chance(30))), t.delete(Some(&w))) }
        _ => {
            let w = if r.chance(90) { Some(cond(r, &f, 2)) } else { None };
            let mut sets: Vec<(usize, E)> = vec![];
            for _ in 0..1 + r.below(2) {
                let c = r.below(t.cols.len() as u64) as usize;
                if t.uniques.iter().any(|u| u.contains(&c)) || sets.iter().any(|s| s.0 == c) { continue }
                let ty = t.cols[c].ty;
                let e = if r.chance(50) { E::Lit(value(r, ty, 10)) } else if ty == Ty::Bool { E::Lit(value(r, ty, 10)) } else { expr(r, &f, ty, 2) };
                sets.push((c, e));
            }
            if sets.is_empty() { let w = cond(r, &f, 1); return (format!("DELETE FROM {} WHERE {}", t.name, w.sql(false)), t.delete(Some(&w))) }
            let s = format!("UPDATE {} SET {}{}", t.name, sets.iter().map(|(c, e)| format!("{} = {}", t.cols[*c].name, e.sql(false))).collect::<Vec<_>>().join(", "), w.as_ref().map(|w| format!(" WHERE {}", w.sql(false))).unwrap_or_default());
            (s, t.update(&sets, w.as_ref()))
        }
    }
}
pub fn ck_contents(cx: &mut Cx, d: &Db, t: &Table, func: &str, contract: &str, key: &str, hist: impl Fn() -> String) -> bool {
    let got = d.x(&format!("SELECT * FROM {}", t.name)).sorted();
    let exp = Out::Rows(t.show());
    cx.ck(func, contract, key, || hist(), got == exp, || format!("table {} holds {}, expected {}", t.name, got.show(), exp.show()))
}
pub fn ck_dml(cx: &mut Cx, d: &Db, s: &str, exp: &R<u64>, func: &str, key: &str, hist: impl Fn() -> String) -> bool {
    let got = d.x(s);
    let ok = match (exp, &got) { (Ok(n), Out::Count(m)) => n == m, (Err(()), Out::Err(e)) => !e.starts_with("PANIC"), _ => false };
    cx.ck(func, "the statement reports exactly the rows it changed, or an error when it must be rejected", key, || format!("{} ;; {s}", hist()), ok, || format!("got {}, expected {exp:?}", got.show()))
}

pub fn kind(s: &str) -> String { s.split_whitespace().next().unwrap_or("").to_lowercase() }

pub fn fixed(cx: &mut Cx) {
    let d = Db::new(cx);
    d.ok("CREATE TABLE n (a BIGINT, b TEXT, PRIMARY KEY (a))"); d.ok("INSERT INTO n VALUES (1,'x'),(2,NULL),(3,'y'),(4,'x'),(5,NULL),(6,'z')");
    d.ok("CREATE TABLE m (a BIGINT, n BIGINT)"); d.ok("INSERT INTO m VALUES (1,10),(1,11),(3,NULL),(NULL,7),(9,1)");
    d.ok("CREATE TABLE e (a INT)");
    let rows = |s: &[&str]| Out::Rows(s.iter().map(|r| r.split('|').map(|x| x.to_string()).collect()).collect());
    for (q, exp) in [
        ("SELECT 1 + 2 * 3 - 4 / 2, 10 % 4 * 2, -2 + 5, (1 + 2) * 3", rows(&["5|4|3|9"])),
        ("SELECT NOT TRUE OR TRUE, NOT (TRUE OR TRUE), TRUE OR FALSE AND FALSE", rows(&["TRUE|FALSE|TRUE"])),
        ("SELECT NULL = NULL, NULL AND FALSE, NULL OR TRUE, NOT NULL", rows(&["NULL|FALSE|TRUE|NULL"])),
        ("SELECT COUNT(*), COUNT(b), COUNT(DISTINCT b), MIN(b), MAX(b) FROM n", rows(&["6|4|3|x|z"])),
        ("SELECT COUNT(*), SUM(a), MIN(a) FROM e", rows(&["0|NULL|NULL"])),
        ("SELECT a FROM n WHERE b <> 'x' ORDER BY a", rows(&["3", "6"])),
        ("SELECT a FROM n WHERE NOT b = 'x' ORDER BY a", rows(&["3", "6"])),
        ("SELECT a FROM n WHERE b IS NULL ORDER BY a DESC", rows(&["5", "2"])),
        ("SELECT a FROM n WHERE b NOT IN ('x', NULL)", rows(&[])),
        ("SELECT a FROM n WHERE b IN ('z', NULL)", rows(&["6"])),
        ("SELECT a FROM n WHERE a NOT BETWEEN 2 AND 5 ORDER BY a", rows(&["1", "6"])),
        ("SELECT a FROM n ORDER BY a LIMIT 2 OFFSET 3", rows(&["4", "5"])),
        ("SELECT a FROM n ORDER BY a LIMIT 1 OFFSET 2", rows(&["3"])),
        ("SELECT a FROM n ORDER BY a LIMIT 1 OFFSET 5", rows(&["6"])),
        ("SELECT a FROM n ORDER BY a LIMIT 3 OFFSET 6", rows(&[])),
        ("SELECT a FROM n ORDER BY a LIMIT 100 OFFSET 1", rows(&["2", "3", "4", "5", "6"])),
        ("SELECT a FROM n ORDER BY a LIMIT 0", rows(&[])),
        ("SELECT a FROM n ORDER BY a OFFSET 4", rows(&["5", "6"])),
        ("SELECT b, COUNT(*) FROM n GROUP BY b ORDER BY b", rows(&["x|2", "y|1", "z|1", "NULL|2"])),
        ("SELECT b, COUNT(*) FROM n GROUP BY b HAVING COUNT(*) > 1 ORDER BY b", rows(&["x|2", "NULL|2"])),
        ("SELECT DISTINCT b FROM n ORDER BY b DESC", rows(&["NULL", "z", "y", "x"])),
        ("SELECT n.a, m.n FROM n INNER JOIN m ON n.a = m.a ORDER BY m.n", rows(&["1|10", "1|11", "3|NULL"])),
        ("SELECT n.a, m.n FROM n LEFT JOIN m ON n.a = m.a WHERE m.a IS NULL ORDER BY n.a", rows(&["2|NULL", "4|NULL", "5|NULL", "6|NULL"])),
        ("SELECT n.a, m.n FROM n RIGHT JOIN m ON n.a = m.a ORDER BY m.n", rows(&["NULL|1", "NULL|7", "1|10", "1|11", "3|NULL"])),
        ("SELECT COUNT(*) FROM n FULL JOIN m ON n.a = m.a", rows(&["9"])),
        ("SELECT COUNT(*) FROM n CROSS JOIN m", rows(&["30"])),
        ("SELECT COUNT(*) FROM n, m WHERE n.a = m.a", rows(&["3"])),
    ] {
        let got = d.x(q);
        cx.ck("Database::execute", "fixed query: SQL answer", "fixed-query", || q.into(), got == exp, || format!("got {}, expected {}", got.show(), exp.show()));
    }
    for q in ["SELECT 1 / 0", "SELECT 9223372036854775807 * 4", "SELECT a + 'x' FROM n", "SELECT nosuch FROM n", "SELECT * FROM nosuch", "INSERT INTO n VALUES (1)"] {
        let got = d.x(q);
        cx.ck("Database::execute", "a query without a defined answer is an error", "fixed-error", || q.into(), got.is_err() && !got.show().contains("PANIC"), || got.show());
    }
}

pub fn run(cx: &mut Cx) {
    fixed(cx);
    let rounds = cx.n(10, 60);
    let per = cx.n(110, 260);
    cx.bound(&format!("{rounds} databases of 2-3 random tables (2-6 columns, 0-40 rows), {per} random statements each"));
    for round in 0..rounds {
        if cx.elapsed() > if cx.thorough { 1200.0 } else { 110.0 } { break }
        let mut r = Rng(cx.rng.next());
        let d = Db::new(cx);
        let nt = 2 + r.below(2) as usize;
        let mut ts: Vec<Table> = (0..nt).map(|i| { let u = r.chance(40); Table::make(&mut r, &format!("t{i}"), u) }).collect();
        for t in &mut ts { d.ok(&t.create_sql()); let n = *r.pick(&[0, 3, 12, 25, 40]); fill(&mut r, &d, t, n); }
        let setup: String = ts.iter().map(|t| t.create_sql()).collect::<Vec<_>>().join("; ");
        let mut bad = 0;
        for _ in 0..per {
            if r.chance(22) {
                let i = r.below(nt as u64) as usize;
                let before = ts[i].clone();
                let (s, exp) = dml(&mut r, &mut ts[i]);
                // a failing UPDATE keeps its earlier rows: recorded finding of C03 (updates are in place)
                if exp.is_err() && s.starts_with("UPDATE") { ts[i] = before; continue }
                let hist = || format!("{setup} ;; rows {:?}", before.show());
                if !ck_dml(cx, &d, &s, &exp, "DML", &format!("dml-{}", kind(&s)), hist) { break }
                if !ck_contents(cx, &d, &ts[i], "DML", "the statement changes exactly the rows it addresses", &format!("dml-effect-{}", kind(&s)), || format!("{} ;; {s}", hist())) { break }
                continue;
            }
            let q = query(&mut r, &ts, &QOpt { max_joins: 2, group: true });
            let s = q.sql(&ts);
            let got = d.x(&s);
            let res = q.check(&ts, &got);
            if !cx.ck("SELECT", "the rows returned are the ones SQL semantics prescribes", &format!("query-{}", if q.grouped { "agg" } else if !q.joins.is_empty() { "join" } else { "scan" }),
                || format!("{s} ;; {setup} ;; {}", ts.iter().map(|t| format!("{}={:?}", t.name, t.show())).collect::<Vec<_>>().join(" ").chars().take(900).collect::<String>()), res.is_ok(), || res.clone().unwrap_err()) { bad += 1; if bad > 5 { break } }
        }
        let _ = round;
    }
}
