//! WAL contracts: reading back yields exactly the forced records since the last truncation.
use crate::h::*;
use axmosdb::verif::wal::*;

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(r.next() as u8) } v }

pub fn run(cx: &mut Cx) {
    let secs = if cx.thorough { 300.0 } else { 40.0 };
    let (mut rounds, mut recs) = (0u64, 0u64);
    while cx.elapsed() < secs {
        rounds += 1;
        let mut r = Rng(cx.rng.next());
        let dir = cx.dir(); let path = dir.join("w.log");
        let mut w = match VWal::create(&path) { Ok(w) => w, Err(e) => { cx.fail("WriteAheadLog::create", "succeeds", "create", "", &e); return } };
        let max = w.max();
        let (mut forced, mut pending): (Vec<Rec>, Vec<Rec>) = (vec![], vec![]);
        let mut log: Vec<String> = vec![];
        let mode = r.below(4); let steps = *r.pick(&[20u64, 80, 300, 700]);
        let mut header = 0usize;
        for _ in 0..steps {
            let op = r.below(100);
            let show = |log: &Vec<String>| format!("[{} steps] …{}", log.len(), log[log.len().saturating_sub(12)..].join("; "));
            let what;
            let res: Result<(), String> = if op < 80 {
                let room = max - 120;
                let n = match mode { 0 => r.below(64) as usize, 1 => r.below(2000) as usize, 2 => *r.pick(&[0, 1, 7, 8, 9, 1000, 5000, 20000, room / 2, room - 16, room, room + 8, room + 16, room + 24, max - 64, max, max + 8]), _ => if r.chance(90) { r.below(300) as usize } else { r.below(max as u64) as usize } };
                let a = r.below(n as u64 + 1) as usize;
                let kind = r.below(10) as u8;
                let data = kind > 3;
                let lsn = w.next_lsn();
                let rec: Rec = (lsn, r.below(50) + if r.chance(5) { u64::MAX / 2 } else { 0 }, if r.chance(60) { Some(r.next() >> 1) } else { None }, if data || r.chance(20) { Some(r.below(1 << 40)) } else { None }, if data || r.chance(20) { Some(r.below(1 << 40)) } else { None }, kind, bytes(&mut r, if kind == 6 { 0 } else if kind == 5 { n } else { a }), bytes(&mut r, if kind == 5 { 0 } else if kind == 6 { n } else { n - a }));
                what = format!("push {}+{}", rec.6.len(), rec.7.len());
                at(&format!("WriteAheadLog::push | {what}"));
                recs += 1;
                match catch(|| w.push(&rec)) {
                    Ok(Ok(())) => { header = header.max(rec.6.len() + rec.7.len()); pending.push(rec); Ok(()) }
                    Ok(Err(e)) => {
                        let size = (rec.6.len() + rec.7.len() + 200).max(200);
                        if size > max { Ok(()) } else { Err(format!("a record of {} bytes of {max} is refused: {e}", rec.6.len() + rec.7.len())) }
                    }
                    Err(p) => Err(format!("PANIC {p}")),
                }
            } else if op < 90 {
                what = "force".into(); at("WriteAheadLog::force | ");
                match catch(|| w.force()) { Ok(Ok(())) => { forced.append(&mut pending); Ok(()) } Ok(Err(e)) => Err(e), Err(p) => Err(format!("PANIC {p}")) }
            } else if op < 92 {
                what = "truncate".into(); at("WriteAheadLog::truncate | ");
                match catch(|| w.truncate()) { Ok(Ok(())) => { forced.clear(); pending.clear(); Ok(()) } Ok(Err(e)) => Err(e), Err(p) => Err(format!("PANIC {p}")) }
            } else if op < 95 {
                // a clean close forces what is pending
                what = "close+open".into(); at("WriteAheadLog::open | ");
                forced.append(&mut pending);
                let p2 = path.clone();
                match catch(|| { drop(w); VWal::open(&p2) }) { Ok(Ok(n)) => { w = n; Ok(()) } Ok(Err(e)) => { cx.fail("WriteAheadLog::open", "reopens", "open", &show(&log), &e); return } Err(p) => { cx.fail("WriteAheadLog::open", "reopens", "open", &show(&log), &p); return } }
            } else if op < 97 {
                // a crash keeps what was forced
                what = "crash".into(); at("WriteAheadLog::open | crash");
                let copy = dir.join("c.log"); std::fs::copy(&path, &copy).unwrap();
                drop(w); std::fs::copy(&copy, &path).unwrap(); std::fs::remove_file(&copy).unwrap();
                pending.clear();
                match catch(|| VWal::open(&path)) { Ok(Ok(n)) => { w = n; Ok(()) } e => { cx.fail("WriteAheadLog::open", "reopens after a crash", "open-crash", &show(&log), &format!("{:?}", e.map(|x| x.map(|_| ())))); return } }
            } else { what = "read".into(); Ok(()) };
            log.push(what.clone());
            if !cx.ck("WriteAheadLog", "append, force, truncation and reopening succeed", &format!("wal-{}", what.split(' ').next().unwrap()), || show(&log), res.is_ok(), || format!("{res:?}")) { break }
            if what == "read" || op >= 80 && r.chance(50) {
                let ahead = 1 + r.below(4) as usize;
                let got = catch(|| w.read(ahead)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                if !cx.ck("WalReader", "yields exactly the forced records since the last truncation, in order", "wal-read", || format!("read-ahead {ahead}; {}", show(&log)), got.as_ref() == Ok(&forced), || match &got { Err(e) => e.clone(), Ok(g) => format!("{} records instead of {}; first difference at {:?}", g.len(), forced.len(), g.iter().zip(&forced).position(|(a, b)| a != b)) }) { break }
                let inc = forced.windows(2).all(|x| x[0].0 < x[1].0);
                cx.ck("WriteAheadLog::last_lsn", "sequence numbers increase", "wal-lsn", || show(&log), inc, || "not increasing".into());
            }
            if what == "read" && forced.iter().all(|x| x.5 < 4 || x.4.is_some() && x.3.is_some()) {
                let a = catch(|| w.analysis()).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                let mut chains: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
                let (mut undo, mut redo) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
                for x in &forced { chains.entry(x.1).or_default().push(x.0); match x.5 { 0 => { undo.insert(x.1); } 1 => { undo.remove(&x.1); redo.insert(x.1); } 2 => { redo.remove(&x.1); undo.insert(x.1); } _ => {} } }
                let seq: Vec<u64> = forced.iter().filter(|x| redo.contains(&x.1)).map(|x| x.0).collect();
                let meta = |k: u8| k >= 7;
                let ops: Vec<_> = forced.iter().filter(|x| x.5 >= 4).map(|x| (x.0, x.5, if meta(x.5) { a.as_ref().ok().and_then(|g| g.5.iter().find(|y| y.0 == x.0)).and_then(|y| y.2) } else { x.3 }, x.4.unwrap(), x.6.clone(), x.7.clone())).collect();
                let want = (chains.into_iter().collect::<Vec<_>>(), undo.into_iter().collect::<Vec<_>>(), redo.into_iter().collect::<Vec<_>>(), seq, forced.first().map(|x| x.0), ops);
                if !cx.ck("WriteAheadLog::run_analysis", "classifies exactly the forced records", "wal-analysis", || show(&log), a.as_ref() == Ok(&want), || match &a { Err(e) => e.clone(), Ok(g) => format!("chains {} undo {} redo {} order {} first {} ops {}", g.0 == want.0, g.1 == want.1, g.2 == want.2, g.3 == want.3, g.4 == want.4, g.5 == want.5) }) { break }
            }
        }
        drop(w);
        let _ = std::fs::remove_dir_all(&dir);
    }
    cx.bound(&format!("{rounds} random sequences of up to 700 appends, forces, truncations, reopenings and crashes ({recs} records of 0 bytes to more than a block)"));
}
