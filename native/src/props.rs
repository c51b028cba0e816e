//! The history mix of each statement-level property.
use crate::{db::*, h::*, hist::*, sql::*};
use axmosdb::DBConfig;

pub fn c01(cx: &mut Cx) { run(cx, Opt { ops: &[("auto", 30), ("batch", 6), ("begin", 6), ("stmt", 25), ("commit", 8), ("rollback", 4), ("flush", 3), ("crash", 8), ("ddl", 4)], ..Opt::default() }, 1000, 120, if cx.thorough { 300.0 } else { 25.0 }); }
pub fn c02(cx: &mut Cx) { c01(cx) }
pub fn c03(cx: &mut Cx) { run(cx, Opt { ops: &[("auto", 15), ("batch", 12), ("begin", 8), ("stmt", 40), ("commit", 4), ("rollback", 8), ("drop", 6), ("read", 10), ("ddl", 8), ("vacuum", 1), ("reopen", 1)], ..Opt::default() }, 1000, 150, if cx.thorough { 500.0 } else { 45.0 }); }
pub fn c04(cx: &mut Cx) { run(cx, Opt { max_sessions: 4, ..Opt::default() }, 1000, 200, if cx.thorough { 500.0 } else { 45.0 }); }
pub fn c06(cx: &mut Cx) {
    twins(cx, if cx.thorough { 400.0 } else { 45.0 });
    run(cx, Opt { unique: 90, pair: 50, ops: &[("auto", 30), ("batch", 5), ("begin", 6), ("stmt", 25), ("commit", 6), ("rollback", 6), ("read", 12), ("indexes", 10), ("ddl", 4), ("vacuum", 3), ("analyze", 6), ("reopen", 1)], ..Opt::default() }, 1000, 150, if cx.thorough { 300.0 } else { 30.0 });
}
/// the same rows with and without indexes and statistics: every query answers as written on each of them
fn twins(cx: &mut Cx, secs: f64) {
    let t0 = cx.elapsed(); let mut n = 0;
    while cx.elapsed() - t0 < secs {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let nt = 2 + r.below(2) as usize;
        let mut ts: Vec<Table> = (0..nt).map(|i| { let mut t = Table::make(&mut r, &format!("t{i}"), false); if i == 0 || r.chance(60) { t.uniques.push(vec![0]); } if r.chance(60) && t.cols.len() > 2 { let a = 1 + r.below(t.cols.len() as u64 - 1) as usize; t.uniques.push(if r.chance(50) { vec![a] } else { vec![a, 0] }); } t }).collect();
        // plain: no index; indexed: from the start; late: index created over the rows
        let dbs: Vec<(&str, Db)> = ["plain", "indexed", "late", "plain-analyzed", "indexed-analyzed"].iter().map(|k| (*k, Db::new(cx))).collect();
        for t in &mut ts {
            let bare = { let mut b = t.clone(); b.uniques.clear(); b.create_sql() };
            for (k, d) in &dbs { if k.starts_with("indexed") { d.ok(&t.create_sql()); } else { d.ok(&bare); } }
            let want = *r.pick(&[0usize, 5, 25, 60, 160]);
            for _ in 0..want {
                let mut row = t.row(&mut r);
                if !row[0].null() { row[0] = V::I(r.range(0, 200) as i128) }
                for c in 1..row.len() { if t.uniques.iter().any(|u| u == &vec![c]) && !row[c].null() { match t.cols[c].ty { Ty::Int | Ty::Big => row[c] = V::I(r.range(-100, 100) as i128), Ty::Txt => row[c] = V::T(format!("{}{}", word(&mut r), r.below(200))), Ty::Dbl => row[c] = V::F(r.range(-200, 200) as f64 / 4.0), _ => {} } } }
                if !t.admits(&row, None) { continue }
                let rows = vec![row]; let s = t.insert_sql(&rows); t.insert(&rows);
                for (_, d) in &dbs { d.ok(&s); }
            }
            for (k, d) in &dbs { if *k == "late" { for (i, u) in t.uniques.iter().enumerate() { d.ok(&format!("CREATE UNIQUE INDEX i{}x{i} ON {} ({})", t.name, t.name, u.iter().map(|c| t.cols[*c].name.clone()).collect::<Vec<_>>().join(", "))); } } }
        }
        for (k, d) in &dbs { if k.ends_with("analyzed") { if let Err(e) = d.analyze() { cx.ck("Database::analyze", "ANALYZE succeeds", "analyze", || ts.iter().map(|t| t.create_sql()).collect::<Vec<_>>().join("; "), false, || e); } } }
        let setup: String = ts.iter().map(|t| t.create_sql()).collect::<Vec<_>>().join("; ");
        for step in 0..60 {
            if r.chance(12) {
                let i = r.below(nt as u64) as usize; let t = &mut ts[i]; let f = t.fields(0, None);
                let s = if r.chance(50) || t.rows.is_empty() { let row = t.row(&mut r); if !t.admits(&row, None) { continue } let rows = vec![row]; let s = t.insert_sql(&rows); t.insert(&rows); s }
                    else { let w = cond(&mut r, &f, 1); if t.clone().delete(Some(&w)).is_err() { continue } t.delete(Some(&w)).unwrap(); format!("DELETE FROM {} WHERE {}", t.name, w.sql(false)) };
                for (k, d) in &dbs { let got = d.x(&s); if !cx.ck("DML", "a statement succeeds with and without indexes alike", "dml", || format!("{k}: {s} ;; {setup}"), !got.is_err(), || got.show()) { return } }
                continue
            }
            let (s, check): (String, Box<dyn Fn(&Out) -> Result<(), String>>) = if r.chance(55) {
                // bounds on the indexed columns, alone or with something else
                let t = r.pick(&ts).clone();
                let mut parts: Vec<E> = vec![];
                for _ in 0..1 + r.below(3) {
                    let c = if t.uniques.is_empty() || r.chance(25) { r.below(t.cols.len() as u64) as usize } else { let u = r.pick(&t.uniques).clone(); *r.pick(&u) };
                    let vals: Vec<V> = t.rows.values().map(|x| x[c].clone()).filter(|v| !v.null()).collect();
                    let mut v = if vals.is_empty() || r.chance(25) { value(&mut r, t.cols[c].ty, 5) } else { r.pick(&vals).clone() };
                    if t.cols[c].ty.num() && r.chance(15) { v = V::F(r.range(-40, 400) as f64 / 2.0) }
                    let col = Box::new(E::Col(c, t.cols[c].name.clone(), t.cols[c].ty));
                    let ops = if t.cols[c].ty == Ty::Bool { vec!["=", "<>"] } else { vec!["=", "=", "<", "<=", ">", ">=", "<>"] };
                    let op = *r.pick(&ops);
                    parts.push(if r.chance(20) { E::Bin(op, Box::new(E::Lit(v)), col) } else { E::Bin(op, col, Box::new(E::Lit(v))) });
                }
                let mut w = parts.remove(0);
                for p in parts { let op = if r.chance(75) { "AND" } else { "OR" }; w = E::Bin(op, Box::new(w), Box::new(p)); }
                let mut exp: Vec<Vec<String>> = t.rows.values().filter(|x| w.truth(x) == Ok(true)).map(|x| x.iter().map(V::show).collect()).collect(); exp.sort();
                let bad = t.rows.values().any(|x| w.truth(x).is_err());
                if bad { continue }
                let exp = Out::Rows(exp);
                (format!("SELECT * FROM {} WHERE {}", t.name, w.sql(r.chance(20))), Box::new(move |g: &Out| if g.clone().sorted() == exp { Ok(()) } else { Err(format!("got {}, expected {}", g.show(), exp.show())) }))
            } else {
                let q = query(&mut r, &ts, &QOpt { max_joins: 2, group: true }); let s = q.sql(&ts); let tc = ts.clone();
                if ts.iter().map(|t| t.rows.len() as u64).product::<u64>() > 200_000 { continue }
                (s, Box::new(move |g: &Out| q.check(&tc, g)))
            };
            for (k, d) in &dbs {
                let got = d.x(&s); let res = check(&got);
                if !cx.ck("Optimizer", "the answer is that of the query as written, whatever the indexes and statistics", &format!("plan-{k}"), || format!("{k}: {s} ;; {setup}"), res.is_ok(), || res.clone().unwrap_err()) {
                    if let Ok(p) = std::env::var("VDUMP") { eprintln!("{s}\n{:?}", catch(|| d.d().explain(&s).map_err(|e| e.to_string()))); }
                    break }
            }
            let _ = step;
        }
        for (k, d) in &dbs { let a = catch(|| axmosdb::verif::trees::audit_indexes(d.d())); let ok = matches!(&a, Ok(Ok(b)) if b.is_empty());
            cx.ck("Secondary indexes", "every secondary index agrees with its table", "indexes", || format!("{k}: {setup}"), ok, || format!("{a:?}").chars().take(600).collect()); }
        for (_, d) in dbs { let p = d.path.parent().unwrap().to_path_buf(); drop(d); let _ = std::fs::remove_dir_all(p); }
    }
    cx.bound(&format!("{n} sets of 2-3 tables of 0-160 rows in five databases (no index, indexes, indexes created over the rows, both with ANALYZE), 60 statements each"));
}
pub fn c07(cx: &mut Cx) { run(cx, Opt { unique: 90, pair: 60, span: 12, ops: &[("auto", 40), ("batch", 5), ("begin", 8), ("stmt", 40), ("commit", 10), ("rollback", 6), ("drop", 2), ("read", 5), ("ddl", 5), ("vacuum", 2), ("reopen", 1), ("crash", 1), ("indexes", 5)], ..Opt::default() }, 1000, 200, if cx.thorough { 500.0 } else { 45.0 }); }
pub fn c08(cx: &mut Cx) { c01(cx) }
pub fn c09(cx: &mut Cx) { run(cx, Opt { ops: &[("auto", 30), ("batch", 5), ("begin", 8), ("stmt", 30), ("commit", 6), ("rollback", 6), ("drop", 4), ("reopen", 8), ("ddl", 6), ("flush", 2), ("vacuum", 2)], ..Opt::default() }, 1000, 150, if cx.thorough { 500.0 } else { 45.0 }); }
pub fn c11(cx: &mut Cx) {
    crate::c10::run(cx);
    let cfgs = vec![cfg(), DBConfig::builder().pool_size(2).cache_size(64).build(), DBConfig::builder().pool_size(2).cache_size(64).page_size(8192).build()];
    run(cx, Opt { cfgs, long: 20, fill: &[0, 10, 40, 120], ops: &[("auto", 40), ("batch", 5), ("begin", 4), ("stmt", 25), ("commit", 6), ("rollback", 6), ("ddl", 10), ("vacuum", 4), ("pages", 4), ("reopen", 1), ("crash", 1)], ..Opt::default() }, 1000, 120, if cx.thorough { 400.0 } else { 35.0 });
}
pub fn c12(cx: &mut Cx) {
    // the model has no configuration: every configuration must agree with it
    let mut cfgs = vec![];
    for (i, page) in [4096usize, 8192, 16384, 32768, 65536].iter().enumerate() { for (j, cache) in [48usize, 64, 300].iter().enumerate() { for pool in [1usize, 4] {
        let k = i + j + pool; let mk = [2usize, 3, 4, 6][k % 4]; let sib = [1usize, 2, 3, 4][(k / 2) % 4];
        cfgs.push(DBConfig::builder().page_size(*page).cache_size(*cache).pool_size(pool).min_keys_per_page(mk).num_siblings_per_side(sib).build());
    } } }
    run(cx, Opt { cfgs, long: 15, fill: &[0, 10, 60, 150], ops: &[("auto", 40), ("batch", 5), ("begin", 4), ("stmt", 25), ("commit", 6), ("rollback", 4), ("read", 10), ("ddl", 4), ("vacuum", 3), ("flush", 2), ("analyze", 1)], ..Opt::default() }, 1000, 100, if cx.thorough { 600.0 } else { 70.0 });
}
pub fn c13(cx: &mut Cx) { run(cx, Opt { ops: &[("auto", 40), ("batch", 5), ("begin", 8), ("stmt", 30), ("commit", 6), ("rollback", 8), ("drop", 2), ("vacuum", 10), ("read", 4), ("ddl", 6), ("reopen", 1)], ..Opt::default() }, 1000, 150, if cx.thorough { 500.0 } else { 45.0 }); }
pub fn c15(cx: &mut Cx) { run(cx, Opt { ops: &[("auto", 20), ("begin", 10), ("stmt", 20), ("commit", 8), ("rollback", 8), ("drop", 2), ("ddl", 35), ("vacuum", 2), ("read", 5), ("reopen", 3), ("crash", 2), ("analyze", 1)], ..Opt::default() }, 1000, 150, if cx.thorough { 500.0 } else { 45.0 }); }
pub fn c16(cx: &mut Cx) { c04(cx) }
