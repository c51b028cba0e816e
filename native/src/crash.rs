//! Crash points: every file write of a history is recorded; the files as they are after a prefix of those writes are opened
//! again and must hold exactly the acknowledged state (or, inside a step, that state or the one the step leads to).
//! Recovery itself is recorded and cut the same way.
use crate::{db::*, h::*, hist::*, sql::*};
use axmosdb::verif::{IoEvent, TAP};
use std::collections::BTreeMap;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};

fn record(on: bool) { let mut t = TAP.lock().unwrap_or_else(|p| p.into_inner()); t.recording = on; if on { t.events.clear(); } }
fn events() -> usize { TAP.lock().unwrap_or_else(|p| p.into_inner()).events.len() }
fn take() -> Vec<IoEvent> { let mut t = TAP.lock().unwrap_or_else(|p| p.into_inner()); t.recording = false; std::mem::take(&mut t.events) }

fn copy_dir(from: &Path, to: &Path) { for e in std::fs::read_dir(from).unwrap() { let e = e.unwrap(); std::fs::copy(e.path(), to.join(e.file_name())).unwrap(); } }
/// applies the first `n` writes to the copies of their files in `dir`; the last one may be torn (`cut` of its bytes)
fn replay(ev: &[IoEvent], n: usize, dir: &Path, cut: Option<usize>) {
    let mut files: BTreeMap<PathBuf, std::fs::File> = BTreeMap::new();
    for (i, e) in ev[..n].iter().enumerate() {
        let p = match e { IoEvent::Write { path, .. } | IoEvent::SetLen { path, .. } => path, _ => continue };
        let p = dir.join(p.file_name().unwrap());
        let f = files.entry(p.clone()).or_insert_with(|| std::fs::OpenOptions::new().create(true).read(true).write(true).open(&p).unwrap());
        match e {
            IoEvent::Write { offset, data, .. } => { let k = if i + 1 == n { cut.unwrap_or(data.len()).min(data.len()) } else { data.len() }; f.write_all_at(&data[..k], *offset).unwrap() }
            IoEvent::SetLen { len, .. } => f.set_len(*len).unwrap(),
            _ => {}
        }
    }
}

fn contents(d: &Db, names: &[String]) -> BTreeMap<String, Out> { names.iter().map(|n| (n.clone(), d.x(&format!("SELECT * FROM {n}")).sorted())).collect() }
fn expect(st: &St, names: &[String]) -> BTreeMap<String, Option<Out>> { names.iter().map(|n| (n.clone(), st.get(n).map(|t| Out::Rows(t.show())))).collect() }
fn same(got: &BTreeMap<String, Out>, exp: &BTreeMap<String, Option<Out>>) -> Option<String> {
    for (n, g) in got { match &exp[n] { Some(e) if e == g => {} None if g.is_err() && !g.show().contains("PANIC") => {} e => return Some(format!("{n}: got {}, expected {}", g.show(), e.as_ref().map(|o| o.show()).unwrap_or("no table".into()))) } }
    None
}

pub struct Mode { pub name: &'static str, pub ops: &'static [(&'static str, u64)], pub twice: u64, pub audit: u64 }

pub fn run(cx: &mut Cx, m: Mode, secs: f64) {
    let cfgs: Vec<axmosdb::DBConfig> = [(4096usize, 256usize), (4096, 24), (8192, 32)].iter().map(|(p, c)| axmosdb::DBConfig::builder().page_size(*p).cache_size(*c).pool_size(2).build()).collect();
    let t0 = cx.elapsed();
    let (mut points, mut histories) = (0u64, 0u64);
    while cx.elapsed() - t0 < secs {
        let opt = Opt { cfgs: cfgs.clone(), ops: m.ops, fill: &[0, 3, 20, 60], tables: 2, long: 8, max_sessions: 2, ..Opt::default() };
        let mut h = Hist::new(cx, opt);
        // from here on every write is recorded, on top of a copy of the files
        let src = h.d.path.parent().unwrap().to_path_buf();
        if h.d.flush().is_err() { h.bad = true }
        let base = cx.dir(); copy_dir(&src, &base);
        record(true);
        let steps = 10 + h.r.below(20);
        let mut tl: Vec<(usize, usize, St, St, usize)> = vec![];
        for _ in 0..steps {
            let (a, st) = (events(), h.st.clone());
            let ok = h.step(cx) && !h.bad;
            tl.push((a, events(), st, h.st.clone(), h.log.len()));
            if !ok { break }
        }
        let ev = take();
        histories += 1;
        if !h.bad && !tl.is_empty() {
            let end = ev.len();
            let mut r = h.r.clone();
            let file = h.d.path.file_name().unwrap().to_os_string();
            let cfg = h.d.cfg;
            let names: Vec<String> = (0..h.ntab).map(|i| format!("h{i}")).collect();
            // all of the last steps' points when few, a sample otherwise; the boundaries always
            let mut pts: Vec<usize> = (0..=end).collect();
            let want = 40.min(pts.len());
            r.shuffle(&mut pts); pts.truncate(want);
            for t in tl.iter().rev().take(6) { pts.push(t.1) }
            for n in pts {
                if cx.elapsed() - t0 > secs { break }
                points += 1;
                let i = tl.iter().position(|t| n <= t.1).unwrap_or(tl.len() - 1);
                let t = &tl[i];
                let whole = n >= t.1; // the step has returned
                let allowed: Vec<BTreeMap<String, Option<Out>>> = if whole { vec![expect(&t.3, &names)] } else if n <= t.0 { vec![expect(&t.2, &names)] } else { vec![expect(&t.2, &names), expect(&t.3, &names)] };
                let dir = cx.dir(); copy_dir(&base, &dir);
                replay(&ev, n, &dir, None);
                let p = dir.join(&file);
                let twice = r.chance(m.twice);
                let base2 = twice.then(|| { let b = cx.dir(); copy_dir(&dir, &b); b });
                let what = |extra: &str| { let a: Vec<String> = h.log[..t.4].to_vec(); let k = a.len(); format!("{} … {}; CRASH after write {} of {} ({} the last step){extra}", a.iter().take(4).cloned().collect::<Vec<_>>().join("; ").chars().take(500).collect::<String>(), a.iter().skip(k.saturating_sub(10).max(4)).map(|s| s.chars().take(160).collect::<String>()).collect::<Vec<_>>().join("; "), n, ev.len(), if whole { "after" } else { "inside" }) };
                if twice { record(true) }
                let o = Db::open(&p, cfg);
                let rev = if twice { take() } else { vec![] };
                let mut first = None;
                let ok = match &o {
                    Err(e) => { cx.ck("Database::open", "the database opens after a crash", "crash-open", || what(""), false, || e.clone()); false }
                    Ok(d) => {
                        let got = contents(d, &names);
                        let bad: Vec<_> = allowed.iter().map(|a| same(&got, a)).collect();
                        let ok = bad.iter().any(|b| b.is_none());
                        cx.ck("Database::open", "after a crash the contents are those of the acknowledged transactions (the one being committed entirely or not at all)", "crash-contents", || what(""), ok, || bad.iter().flatten().next().cloned().unwrap_or_default());
                        first = Some(got); ok
                    }
                };
                if let (true, Ok(mut d)) = (ok, o) {
                    let got = first.unwrap();
                    if r.chance(m.audit) {
                        let a = catch(|| axmosdb::verif::trees::audit_db(d.d()));
                        let fine = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
                        cx.ck("Database pages", "after recovery every page is page zero, a page of exactly one tree, or free, and the trees are sound", "crash-pages", || what(""), fine, || format!("{a:?}").chars().take(400).collect());
                        let rr = d.reopen(cfg);
                        let again = rr.is_ok().then(|| contents(&d, &names));
                        cx.ck("Database::open", "opening a recovered database changes nothing", "reopen-contents", || what(""), again.as_ref() == Some(&got), || format!("{rr:?} {:?}", again.map(|g| g.iter().find(|(k, v)| got[*k] != **v).map(|x| x.1.show()))));
                        let w = d.x("CREATE TABLE zz (a INT, b TEXT, UNIQUE (a))").is_err() || d.x("INSERT INTO zz VALUES (1, 'x'), (2, NULL)") != Out::Count(2) || d.x("DELETE FROM zz WHERE a = 1") != Out::Count(1) || d.x("SELECT a, b FROM zz") != Out::Rows(vec![vec!["2".into(), "NULL".into()]]) || d.vacuum().is_err() || contents(&d, &names) != got;
                        cx.ck("Database", "a recovered database is fully usable", "crash-usable", || what(""), !w, || "a statement failed or changed other tables".into());
                    }
                    drop(d);
                    if let Some(b) = &base2 {
                        // the crash happens again while recovering
                        let mut k: Vec<usize> = (0..=rev.len()).collect(); r.shuffle(&mut k); k.truncate(3);
                        for k in k {
                            let dir2 = cx.dir(); copy_dir(b, &dir2); replay(&rev, k, &dir2, None);
                            let o = Db::open(&dir2.join(&file), cfg);
                            match &o {
                                Err(e) => { cx.ck("Database::open", "an interrupted recovery can be repeated", "recrash-open", || what(&format!(", and again after write {k} of {} of the recovery", rev.len())), false, || e.clone()); }
                                Ok(d) => { let g2 = contents(d, &names); cx.ck("Database::open", "an interrupted recovery yields the same contents when repeated", "recrash-contents", || what(&format!(", and again after write {k} of {} of the recovery", rev.len())), g2 == got, || g2.iter().find(|(n, v)| got[*n] != **v).map(|(n, v)| format!("{n}: got {}, before {}", v.show(), got[n].show())).unwrap_or_default()); }
                            }
                            drop(o);
                            let _ = std::fs::remove_dir_all(&dir2);
                        }
                    }
                }
                if let Some(b) = base2 { let _ = std::fs::remove_dir_all(b); }
                let _ = std::fs::remove_dir_all(&dir);
            }
        }
        h.finish(cx);
        let _ = std::fs::remove_dir_all(&base);
    }
    cx.bound(&format!("{histories} recorded histories of 10-29 steps, {points} crash points (a prefix of the file writes in program order), within {secs} s"));
}
pub fn c01(cx: &mut Cx) { let s = if cx.thorough { 400.0 } else { 40.0 }; run(cx, Mode { name: "C01", ops: &[("auto", 40), ("batch", 8), ("begin", 8), ("stmt", 30), ("commit", 16), ("rollback", 3), ("flush", 4), ("ddl", 5)], twice: 10, audit: 10 }, s) }
pub fn c02(cx: &mut Cx) { let s = if cx.thorough { 400.0 } else { 40.0 }; run(cx, Mode { name: "C02", ops: &[("auto", 25), ("batch", 10), ("begin", 14), ("stmt", 45), ("commit", 8), ("rollback", 8), ("drop", 4), ("flush", 8), ("ddl", 6)], twice: 10, audit: 10 }, s) }
pub fn c08(cx: &mut Cx) { let s = if cx.thorough { 500.0 } else { 50.0 }; run(cx, Mode { name: "C08", ops: &[("auto", 30), ("batch", 4), ("begin", 6), ("stmt", 20), ("commit", 6), ("rollback", 4), ("flush", 10), ("vacuum", 10), ("ddl", 10), ("analyze", 1)], twice: 40, audit: 35 }, s) }
