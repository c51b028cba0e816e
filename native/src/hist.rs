//! Histories of transactions against a snapshot-isolation model of the database: sessions, autocommit statements,
//! batches, DDL, VACUUM, ANALYZE, checkpoints, reopening and crashes. Used by the modules of several properties.
use crate::{c05::{ck_contents, dml}, db::*, h::*, sql::*};
use std::collections::{BTreeMap, BTreeSet};

pub type St = BTreeMap<String, Table>;
type Key = (String, usize, String);
type Rid = (String, u64);

#[derive(Default, Clone)]
pub struct W { del: BTreeSet<Rid>, ins: BTreeMap<Rid, Vec<V>>, keys: BTreeSet<Key>, conf: BTreeSet<Rid>, ckeys: BTreeSet<Key>, created: BTreeSet<String>, dropped: BTreeSet<String> }

pub struct SS { pub id: u32, pub s: Sess, pub st: St, pub w: W, base: St, gone: BTreeSet<String> }

#[derive(Clone)]
pub struct Opt {
    pub max_sessions: usize, pub tables: usize, pub unique: u64, pub pair: u64, pub span: i64, pub fill: &'static [usize],
    pub ops: &'static [(&'static str, u64)], pub cfgs: Vec<axmosdb::DBConfig>, pub long: u64,
}
impl Default for Opt {
    fn default() -> Opt { Opt { max_sessions: 3, tables: 2, unique: 50, pair: 20, span: 14, fill: &[0, 3, 12, 30], ops: &[("auto", 20), ("stmt", 30), ("begin", 10), ("commit", 8), ("rollback", 6), ("read", 20)], cfgs: vec![cfg()], long: 5 } }
}

pub struct Hist { pub d: Db, pub st: St, pub sess: Vec<SS>, pub log: Vec<String>, pub opt: Opt, pub r: Rng, pub gid: u64, pub nsess: u32, pub ntab: u32, pub nidx: u32, pub bad: bool, pub old: Vec<std::path::PathBuf>, pub commits: u64 }

fn key_of(t: &Table, u: usize, row: &[V]) -> Option<Key> {
    if t.uniques[u].iter().any(|c| row[*c].null()) { return None }
    Some((t.name.clone(), u, t.uniques[u].iter().map(|c| match &row[*c] { V::F(f) => format!("{f}"), v => v.show() }).collect::<Vec<_>>().join("\u{1}")))
}
pub fn diff(a: &Table, b: &Table, w: &mut W) {
    for (id, row) in &a.rows { if !b.rows.contains_key(id) { let rid = (a.name.clone(), *id); for u in 0..a.uniques.len() { if let Some(k) = key_of(a, u, row) { w.keys.insert(k); } } if w.ins.remove(&rid).is_none() { w.del.insert(rid); } } }
    for (id, row) in &b.rows { if !a.rows.contains_key(id) { for u in 0..b.uniques.len() { if let Some(k) = key_of(b, u, row) { w.keys.insert(k); } } w.ins.insert((b.name.clone(), *id), row.clone()); } }
}

impl Hist {
    pub fn new(cx: &mut Cx, opt: Opt) -> Hist {
        let mut r = Rng(cx.rng.next());
        let c = *r.pick(&opt.cfgs);
        let d = Db::create(cx, c);
        let mut h = Hist { d, st: St::new(), sess: vec![], log: vec![format!("CONFIG page={} cache={} pool={} min_keys={} siblings={}", c.page_size, c.cache_size, c.pool_size, c.min_keys_per_page, c.num_siblings_per_side)], opt, r, gid: 0, nsess: 0, ntab: 0, nidx: 0, bad: false, old: vec![], commits: 0 };
        for _ in 0..h.opt.tables {
            let t = h.table();
            let s = t.create_sql();
            h.log.push(s.clone()); h.d.ok(&s);
            let n = *h.r.pick(h.opt.fill);
            let mut t = t;
            for _ in 0..n { let rows = vec![h.row(&t)]; if !t.admits(&rows[0], None) { continue } t.next = h.gid; h.gid += 1; t.insert(&rows); let s = t.insert_sql(&rows); h.log.push(s.clone()); h.d.ok(&s); }
            h.st.insert(t.name.clone(), t);
        }
        h
    }
    pub fn table(&mut self) -> Table {
        let n = self.ntab; self.ntab += 1;
        let u = self.r.chance(self.opt.unique);
        let mut t = Table::make(&mut self.r, &format!("h{n}"), u);
        if self.r.chance(self.opt.pair) && t.cols.len() > 2 { let a = 1 + self.r.below(t.cols.len() as u64 - 1) as usize; t.uniques.push(vec![a]) ; if self.r.chance(60) && a != 1 { t.uniques.last_mut().unwrap().push(1) } }
        if u && self.r.chance(20) { t.cols[0].notnull = true }
        t
    }
    pub fn row(&mut self, t: &Table) -> Vec<V> {
        let mut row = t.row(&mut self.r);
        if !row[0].null() { row[0] = V::I(self.r.range(0, self.opt.span) as i128); }
        for c in 1..row.len() {
            if t.cols[c].ty == Ty::Txt && self.r.chance(self.opt.long) { let n = *self.r.pick(&[60, 300, 1500, 5000]); let b = *self.r.pick(&['p', 'q', 'é']); row[c] = V::T(std::iter::repeat_n(b, n).collect()); }
            if t.cols[c].ty.int() && t.uniques.iter().any(|u| u.contains(&c)) && !row[c].null() { row[c] = V::I(self.r.range(0, self.opt.span) as i128) }
        }
        row
    }
    pub fn hist(&self) -> String { let n = self.log.len(); let head: Vec<_> = self.log.iter().take(4).cloned().collect(); let tail: Vec<_> = self.log.iter().skip(n.saturating_sub(14).max(4)).cloned().collect();
        let clip = |s: &String| if s.len() > 160 { s.chars().take(157).collect::<String>() + "…" } else { s.clone() };
        format!("{} … [{} steps] … {}", head.iter().map(clip).collect::<Vec<_>>().join("; "), n, tail.iter().map(clip).collect::<Vec<_>>().join("; ")) }
    fn names(st: &St) -> Vec<String> { st.keys().cloned().collect() }

    /// keys the engine's index may hold for rows dead in the committed state but visible in an open snapshot, and rows this
    /// transaction deleted: inserting them again is a recorded finding (the index entry is overwritten)
    fn reuse_ok(&self, me: Option<usize>, t: &Table, rows: &[Vec<V>]) -> bool {
        for row in rows { for u in 0..t.uniques.len() { if let Some(k) = key_of(t, u, row) {
            if let Some(i) = me && self.sess[i].w.keys.contains(&k) { return false }
            for s in &self.sess { if s.w.keys.contains(&k) { continue }
                for st in [&s.st, &s.base] { if let Some(o) = st.get(&t.name) && o.uniques.len() > u && o.rows.values().any(|r| key_of(o, u, r).as_ref() == Some(&k)) && !self.st.get(&t.name).is_some_and(|c| c.rows.values().any(|r| key_of(c, u, r).as_ref() == Some(&k))) { return false } } }
        } } }
        true
    }
    /// (text, table before, table after or Err) of one random INSERT/DELETE (or UPDATE if `upd`)
    fn gen_dml(&mut self, me: Option<usize>, upd: bool, single: bool) -> Option<(String, Table, R<(u64, Table)>)> {
        let names = match me { Some(i) => Self::names(&self.sess[i].st), None => Self::names(&self.st) };
        if names.is_empty() { return None }
        let n = self.r.pick(&names).clone();
        let before = match me { Some(i) => self.sess[i].st[&n].clone(), None => self.st[&n].clone() };
        let mut t = before.clone(); t.next = self.gid; self.gid += 16;
        if upd && self.r.chance(35) {
            let (s, e) = dml(&mut self.r, &mut t);
            if s.starts_with("UPDATE") && e.is_err() { return None }
            if s.starts_with("INSERT") { return None }
            return Some((s, before, e.map(|k| (k, t))))
        }
        if self.r.chance(65) || t.rows.is_empty() {
            let k = if single || self.r.chance(60) { 1 } else { 2 + self.r.below(3) };
            let rows: Vec<Vec<V>> = (0..k).map(|_| self.row(&t)).collect();
            if !self.reuse_ok(me, &t, &rows) { return None }
            if rows.len() > 1 && t.uniques.iter().enumerate().any(|(u, _)| (0..rows.len()).any(|i| (0..i).any(|j| key_of(&t, u, &rows[i]).is_some() && key_of(&t, u, &rows[i]) == key_of(&t, u, &rows[j])))) && self.r.chance(60) { return None }
            let s = t.insert_sql(&rows);
            let e = t.insert(&rows).ok_or(());
            Some((s, before, e.map(|k| (k, t))))
        } else {
            let f = t.fields(0, None);
            let w = if self.r.chance(60) { let ids: Vec<&Vec<V>> = t.rows.values().collect(); let v = self.r.pick(&ids)[0].clone(); if v.null() { E::IsNull(Box::new(E::Col(0, "k".into(), Ty::Int)), false) } else { E::Bin("=", Box::new(E::Col(0, "k".into(), Ty::Int)), Box::new(E::Lit(v))) } } else { cond(&mut self.r, &f, 1) };
            let s = format!("DELETE FROM {} WHERE {}", t.name, w.sql(false));
            let e = t.delete(Some(&w));
            Some((s, before, e.map(|k| (k, t))))
        }
    }
    /// keys and rows touched by the other transactions in a way that allows this one to be refused
    fn may_conflict(&self, me: Option<usize>, own: &W) -> bool {
        let others = self.sess.iter().enumerate().filter(|(i, _)| Some(*i) != me).map(|(_, s)| &s.w);
        for o in others {
            if own.del.iter().any(|d| o.del.contains(d)) || own.keys.iter().any(|k| o.keys.contains(k)) { return true }
        }
        own.del.iter().any(|d| own.conf.contains(d)) || own.keys.iter().any(|k| own.ckeys.contains(k))
    }
    fn publish(&mut self, w: &W) {
        for s in &mut self.sess { s.w.conf.extend(w.del.iter().cloned()); s.w.ckeys.extend(w.keys.iter().cloned()); }
    }
    /// all tables as this reader sees them
    pub fn read_all(&mut self, cx: &mut Cx, me: Option<usize>, func: &str, contract: &str, key: &str) -> bool {
        let st = match me { Some(i) => self.sess[i].st.clone(), None => self.st.clone() };
        for (n, t) in &st {
            let sql = format!("SELECT * FROM {n}");
            let got = match me { Some(i) => self.sess[i].s.x(&sql), None => self.d.x(&sql) }.sorted();
            let exp = Out::Rows(t.show());
            let who = me.map(|i| format!("session s{}", self.sess[i].id)).unwrap_or("autocommit".into());
            if !cx.ck(func, contract, key, || format!("{} ;; {who}: {sql}", self.hist()), got == exp, || format!("got {}, expected {}", got.show(), exp.show())) { self.bad = true; return false }
        }
        true
    }
    /// a lookup of one key (through the index when there is one) and a random query, as this reader sees them
    pub fn query(&mut self, cx: &mut Cx, me: Option<usize>) -> bool {
        let st = match me { Some(i) => self.sess[i].st.clone(), None => self.st.clone() };
        if st.is_empty() { return true }
        let ts: Vec<Table> = st.values().cloned().collect();
        let t = self.r.pick(&ts).clone();
        let c = if !t.uniques.is_empty() && self.r.chance(70) { let u = self.r.pick(&t.uniques).clone(); *self.r.pick(&u) } else { self.r.below(t.cols.len() as u64) as usize };
        let vals: Vec<V> = t.rows.values().map(|r| r[c].clone()).filter(|v| !v.null()).collect();
        let v = if vals.is_empty() || self.r.chance(25) { value(&mut self.r, t.cols[c].ty, 0) } else { self.r.pick(&vals).clone() };
        let op = *self.r.pick(&["=", "=", "=", "<", ">=", "<=", ">"]);
        let w = E::Bin(op, Box::new(E::Col(c, t.cols[c].name.clone(), t.cols[c].ty)), Box::new(E::Lit(v)));
        let sql = format!("SELECT * FROM {} WHERE {}", t.name, w.sql(false));
        let mut exp: Vec<Vec<String>> = t.rows.values().filter(|r| w.truth(r) == Ok(true)).map(|r| r.iter().map(V::show).collect()).collect(); exp.sort();
        let got = match me { Some(i) => self.sess[i].s.x(&sql), None => self.d.x(&sql) }.sorted();
        let exp = Out::Rows(exp);
        if !cx.ck("SELECT", "a lookup returns exactly the visible rows that match", "lookup", || format!("{} ;; {}{sql}", self.hist(), me.map(|i| format!("s{}: ", self.sess[i].id)).unwrap_or_default()), got == exp, || format!("got {}, expected {}", got.show(), exp.show())) { self.bad = true; return false }
        let q = query(&mut self.r, &ts, &QOpt { max_joins: 1, group: true });
        let s = q.sql(&ts);
        let got = match me { Some(i) => self.sess[i].s.x(&s), None => self.d.x(&s) };
        let res = q.check(&ts, &got);
        if !cx.ck("SELECT", "a query returns what its snapshot prescribes", "query", || format!("{} ;; {}{s}", self.hist(), me.map(|i| format!("s{}: ", self.sess[i].id)).unwrap_or_default()), res.is_ok(), || res.clone().unwrap_err()) { self.bad = true; return false }
        true
    }
    pub fn auto(&mut self, cx: &mut Cx) -> bool {
        let upd = self.sess.is_empty();
        let Some((s, before, exp)) = self.gen_dml(None, upd, !upd) else { return true };
        self.apply_auto(cx, s, before, exp)
    }
    pub fn apply_auto(&mut self, cx: &mut Cx, s: String, before: Table, exp: R<(u64, Table)>) -> bool {
        let mut w = W::default();
        if let Ok((_, t)) = &exp { diff(&before, t, &mut w); }
        let conflict = self.may_conflict(None, &w) || (exp.is_err());
        self.log.push(s.clone());
        let got = self.d.x(&s);
        let kind = s.split(' ').next().unwrap().to_lowercase();
        match (&exp, &got) {
            (Ok((n, t)), Out::Count(m)) if n == m => { self.st.insert(t.name.clone(), t.clone()); self.publish(&w); self.commits += 1; }
            (Ok((n, t)), Out::Count(m)) => { cx.ck("DML", "the statement reports exactly the rows it changed", &format!("count-{kind}"), || self.hist(), false, || format!("reported {m}, expected {n}")); self.bad = true; return false }
            // a record that does not fit a log block is refused: the documented maximum; the history ends here
            (Ok(_), Out::Err(e)) if e.contains("exceeds maximum block capacity") => { self.log.push("(over the log record maximum)".into()); self.bad = true; return false }
            (_, Out::Err(e)) if conflict && !e.starts_with("PANIC") => {}
            (Ok(_), _) => { cx.ck("DML", "a statement that may be executed is executed", &format!("refused-{kind}"), || self.hist(), false, || got.show()); self.bad = true; return false }
            (Err(()), _) => { cx.ck("DML", "a statement that violates a constraint is rejected", &format!("accepted-{kind}"), || self.hist(), false, || got.show()); self.bad = true; return false }
        }
        let n = before.name.clone();
        let t = self.st[&n].clone();
        let h = self.hist();
        if !ck_contents(cx, &self.d, &t, "DML", "a statement has exactly its effects, or none if it fails", &format!("effect-{kind}"), || h.clone()) { self.bad = true; return false }
        true
    }
    pub fn begin(&mut self) { if self.sess.len() >= self.opt.max_sessions { return } let id = self.nsess; self.nsess += 1; self.log.push(format!("s{id} BEGIN")); let s = self.d.session(); self.sess.push(SS { id, s, st: self.st.clone(), base: self.st.clone(), gone: BTreeSet::new(), w: W::default() }); }
    pub fn stmt(&mut self, cx: &mut Cx) -> bool {
        if self.sess.is_empty() { self.begin(); return true }
        let i = self.r.below(self.sess.len() as u64) as usize;
        let alone = self.sess.len() == 1;
        let Some((s, before, exp)) = self.gen_dml(Some(i), false, !alone) else { return true };
        let mut w = self.sess[i].w.clone();
        if let Ok((_, t)) = &exp { diff(&before, t, &mut w); }
        let conflict = self.may_conflict(Some(i), &w);
        self.log.push(format!("s{} {s}", self.sess[i].id));
        let got = self.sess[i].s.x(&s);
        let kind = s.split(' ').next().unwrap().to_lowercase();
        match (&exp, &got) {
            (Ok((n, t)), Out::Count(m)) if n == m => { self.sess[i].st.insert(t.name.clone(), t.clone()); self.sess[i].w = w; }
            (Ok((n, _)), Out::Count(m)) => { cx.ck("DML", "the statement reports exactly the rows it changed", &format!("count-{kind}"), || self.hist(), false, || format!("reported {m}, expected {n}")); self.bad = true; return false }
            // a record that does not fit a log block is refused: the documented maximum; the history ends here
            (Ok(_), Out::Err(e)) if e.contains("exceeds maximum block capacity") => { self.log.push("(over the log record maximum)".into()); self.bad = true; return false }
            (_, Out::Err(e)) if (conflict || exp.is_err()) && !e.starts_with("PANIC") => {
                // a failed statement of several rows inside a transaction keeps its earlier rows (recorded finding): roll back
                if s.contains("), (") || kind == "delete" || conflict { return self.end(cx, i, "rollback") }
            }
            // a unique key inserted by a transaction that committed after this one began: must not be accepted twice, checked at commit
            (Err(()), Out::Count(_)) => { cx.ck("DML", "a statement that violates a constraint is rejected", &format!("accepted-{kind}"), || self.hist(), false, || got.show()); self.bad = true; return false }
            _ => { cx.ck("DML", "a statement that may be executed is executed", &format!("refused-{kind}"), || self.hist(), false, || got.show()); self.bad = true; return false }
        }
        if self.r.chance(50) { self.read_all(cx, Some(i), "Session::execute", "a transaction sees its snapshot overlaid with its own writes", "own-writes") } else { true }
    }
    /// ends session i: commit, rollback or drop
    pub fn end(&mut self, cx: &mut Cx, i: usize, how: &str) -> bool {
        let mut s = self.sess.remove(i);
        self.log.push(format!("s{} {}", s.id, how.to_uppercase()));
        match how {
            "commit" => {
                let must_fail = s.w.del.iter().any(|d| s.w.conf.contains(d))
                    || s.w.ins.iter().any(|((n, id), row)| self.st.get(n).is_some_and(|t| (0..t.uniques.len()).any(|u| key_of(t, u, row).is_some_and(|k| t.rows.iter().any(|(o, r)| o != id && !s.w.del.contains(&(n.clone(), *o)) && key_of(t, u, r).as_ref() == Some(&k))))));
                let may_fail = must_fail || s.w.keys.iter().any(|k| s.w.ckeys.contains(k));
                let got = s.s.commit();
                match &got {
                    Ok(()) if must_fail => { cx.ck("Session::commit_transaction", "two concurrent transactions that modify the same row (or key) do not both commit", "lost-update", || self.hist(), false, || "both committed".into()); self.bad = true; return false }
                    Err(e) if !may_fail || e.starts_with("PANIC") => { cx.ck("Session::commit_transaction", "a transaction without conflicts commits", "commit-refused", || self.hist(), false, || e.clone()); self.bad = true; return false }
                    Ok(()) => {
                        for n in &s.w.dropped { self.st.remove(n); }
                        for n in &s.w.created { if let Some(t) = s.st.get(n) { let mut t = t.clone(); t.rows.clear(); self.st.insert(n.clone(), t); } }
                        for (n, id) in &s.w.del { if let Some(t) = self.st.get_mut(n) { t.rows.remove(id); } }
                        for ((n, id), row) in &s.w.ins { if let Some(t) = self.st.get_mut(n) { t.rows.insert(*id, row.clone()); } }
                        self.publish(&s.w); self.commits += 1;
                        cx.ck("Session::commit_transaction", "a transaction without conflicts commits", "commit", || self.hist(), true, || "".into());
                    }
                    Err(_) => {}
                }
            }
            "rollback" => { if let Err(e) = s.s.rollback() { cx.ck("Session::abort_transaction", "a transaction can be rolled back", "rollback-refused", || self.hist(), false, || e.clone()); self.bad = true; return false } }
            _ => {}
        }
        drop(s);
        self.read_all(cx, None, "TransactionCoordinator", "later transactions see exactly the committed state", &format!("after-{how}"))
    }
    pub fn batch(&mut self, cx: &mut Cx) -> bool {
        if !self.sess.is_empty() { return true }
        let mut st = self.st.clone(); let mut fails = false; let mut v = vec![]; let mut w = W::default();
        let k = 1 + self.r.below(4);
        for _ in 0..k {
            let save = std::mem::replace(&mut self.st, st.clone());
            let g = self.gen_dml(None, false, true);
            self.st = save;
            let Some((s, before, e)) = g else { continue };
            if let Ok((_, t)) = &e {
                // reinserting a key deleted in the same transaction is a recorded finding
                let mut x = W::default(); diff(&before, t, &mut x);
                if x.keys.iter().any(|k| w.keys.contains(k)) { continue }
                w.keys.extend(x.keys);
            }
            v.push(s);
            match e { Ok((_, t)) => { st.insert(t.name.clone(), t); } Err(()) => { fails = true; break } }
        }
        if self.r.chance(20) { v.push("SELECT nosuch FROM nowhere".into()); fails = true; }
        if v.is_empty() { return true }
        let refs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        self.log.push(format!("BATCH [{}]", v.join(" | ")));
        let got = self.d.batch(&refs);
        if matches!(&got, Err(e) if e.contains("exceeds maximum block capacity")) { self.bad = true; return false }
        if got.is_ok() == fails || matches!(&got, Err(e) if e.starts_with("PANIC")) { cx.ck("Database::execute_batch", "a batch succeeds exactly if all of its statements do", "batch", || self.hist(), false, || format!("{got:?}").chars().take(300).collect()); self.bad = true; return false }
        if !fails { self.st = st; }
        self.read_all(cx, None, "Database::execute_batch", "a batch has all of its effects or none", "batch-effect")
    }
    pub fn close_all(&mut self) { for mut s in self.sess.drain(..) { let _ = s.s.rollback(); } }
    pub fn ddl(&mut self, cx: &mut Cx) -> bool {
        let me = if self.sess.len() == 1 && self.r.chance(60) { Some(0) } else { None };
        if !self.sess.is_empty() && me.is_none() && self.r.chance(70) { return true }
        let cur = |h: &Hist| match me { Some(i) => h.sess[i].st.clone(), None => h.st.clone() };
        let st = cur(self);
        let x = |h: &mut Hist, s: &str| { h.log.push(match me { Some(i) => format!("s{} {s}", h.sess[i].id), None => s.to_string() }); match me { Some(i) => h.sess[i].s.x(s), None => h.d.x(s) } };
        match self.r.below(10) {
            0..=3 => {
                // a dropped name can be taken again (not inside the transaction that dropped it: see known findings)
                let mut t = self.table();
                if self.r.chance(40) && !self.sess.iter().any(|s| !s.w.dropped.is_empty() || !s.w.created.is_empty()) { let n = format!("h{}", self.r.below(self.ntab as u64)); if !self.st.contains_key(&n) && !self.sess.iter().any(|s| s.st.contains_key(&n) || s.base.contains_key(&n) || s.gone.contains(&n)) { t.name = n } }
                let s = t.create_sql(); let got = x(self, &s);
                if !cx.ck("DdlExecutor::execute_create_table", "a table is created under a free name", "create", || self.hist(), matches!(got, Out::Ddl(_)), || got.show()) { self.bad = true; return false }
                match me { Some(i) => { self.sess[i].w.created.insert(t.name.clone()); self.sess[i].st.insert(t.name.clone(), t); } None => { self.st.insert(t.name.clone(), t); } }
            }
            4 if !st.is_empty() => {
                let names: Vec<_> = st.keys().cloned().collect(); let n = self.r.pick(&names).clone();
                let got = x(self, &format!("CREATE TABLE {n} (z INT)"));
                if !cx.ck("DdlExecutor::execute_create_table", "a name in use is refused", "create-twice", || self.hist(), got.is_err(), || got.show()) { self.bad = true; return false }
            }
            5 | 6 if st.len() > 1 => {
                let names: Vec<_> = st.keys().cloned().collect(); let n = self.r.pick(&names).clone();
                if self.sess.iter().enumerate().any(|(i, s)| Some(i) != me && (s.w.ins.keys().chain(s.w.del.iter()).any(|(t, _)| *t == n) || s.w.created.contains(&n) || s.w.dropped.contains(&n))) { return true }
                if me.is_some_and(|i| self.sess[i].w.created.contains(&n)) { return true }
                let got = x(self, &format!("DROP TABLE {n}"));
                if !cx.ck("DdlExecutor::execute_drop_table", "a visible table can be dropped", "drop", || self.hist(), matches!(got, Out::Ddl(_)), || got.show()) { self.bad = true; return false }
                match me { Some(i) => { let s = &mut self.sess[i]; s.st.remove(&n); s.w.dropped.insert(n.clone()); s.w.ins.retain(|k, _| k.0 != n); } None => { self.st.remove(&n); } }
                let got = match me { Some(i) => self.sess[i].s.x(&format!("SELECT * FROM {n}")), None => self.d.x(&format!("SELECT * FROM {n}")) };
                if !cx.ck("Catalog::bind_relation", "a dropped table is not found any more", "drop-visible", || self.hist(), got.is_err(), || got.show()) { self.bad = true; return false }
                // writes of other sessions on a table dropped meanwhile: not exercised
                for s in self.sess.iter_mut().enumerate().filter(|(i, _)| Some(*i) != me).map(|(_, s)| s) { s.st.remove(&n); s.base.remove(&n); s.gone.insert(n.clone()); }
            }
            7 | 8 if !st.is_empty() && self.sess.is_empty() => {
                let names: Vec<_> = st.keys().cloned().collect(); let n = self.r.pick(&names).clone();
                let t = &st[&n]; let c = self.r.below(t.cols.len() as u64) as usize;
                if t.uniques.iter().any(|u| u.contains(&c)) { return true }
                let mut u = t.clone(); u.uniques.push(vec![c]);
                let dup = { let mut seen = BTreeSet::new(); t.rows.values().any(|r| key_of(&u, u.uniques.len() - 1, r).is_some_and(|k| !seen.insert(k))) };
                let i = self.nidx; self.nidx += 1;
                let got = x(self, &format!("CREATE UNIQUE INDEX ix{i} ON {n} ({})", t.cols[c].name));
                if !cx.ck("DdlExecutor::execute_create_index", "a unique index can be created exactly if the rows are unique", "create-index", || self.hist(), got.is_err() == dup && !got.show().contains("PANIC"), || format!("{} (duplicates: {dup})", got.show())) { self.bad = true; return false }
                if !dup { self.st.insert(n, u); }
            }
            _ => {
                let got = x(self, "DROP TABLE nosuch");
                if !cx.ck("DdlExecutor::execute_drop_table", "a missing table cannot be dropped", "drop-missing", || self.hist(), got.is_err(), || got.show()) { self.bad = true; return false }
            }
        }
        self.read_all(cx, None, "Catalog", "schema changes are seen by later transactions exactly once committed and leave other tables alone", "ddl-effect")
    }
    pub fn audit(&mut self, cx: &mut Cx, key: &str) -> bool {
        let a = catch(|| axmosdb::verif::trees::audit_db(self.d.d()));
        let ok = matches!(&a, Ok(Ok((_, lost))) if lost.is_empty());
        if !cx.ck("Database pages", "every page is page zero, a page of exactly one tree, or free, and the trees are sound", key, || self.hist(), ok, || format!("{a:?}").chars().take(400).collect()) { self.bad = true; return false }
        true
    }
    /// every secondary index agrees with its table
    pub fn indexes(&mut self, cx: &mut Cx, key: &str) -> bool {
        let a = catch(|| axmosdb::verif::trees::audit_indexes(self.d.d()));
        let ok = matches!(&a, Ok(Ok(b)) if b.is_empty());
        if !cx.ck("Secondary indexes", "every secondary index has exactly one entry per visible row without NULL in its columns", key, || self.hist(), ok, || format!("{a:?}").chars().take(600).collect()) { self.bad = true; return false }
        true
    }
    /// what must hold after the database was opened again
    pub fn reopened(&mut self, cx: &mut Cx, r: Result<(), String>, how: &str) -> bool {
        if !cx.ck("Database::open", "the database opens", &format!("{how}-open"), || self.hist(), r.is_ok(), || format!("{r:?}")) { self.bad = true; return false }
        self.read_all(cx, None, "Database::open", "the contents after opening are exactly the committed state", &format!("{how}-contents"))
    }
    pub fn step(&mut self, cx: &mut Cx) -> bool {
        let total: u64 = self.opt.ops.iter().map(|o| o.1).sum();
        let mut k = self.r.below(total); let mut op = "";
        for (o, w) in self.opt.ops { if k < *w { op = o; break } k -= w }
        let n = self.sess.len() as u64;
        match op {
            "auto" => self.auto(cx),
            "stmt" => self.stmt(cx),
            "batch" => self.batch(cx),
            "begin" => { self.begin(); true }
            "commit" | "rollback" | "drop" => { if n == 0 { return true } let i = self.r.below(n) as usize; self.end(cx, i, op) }
            "read" => { let me = if n > 0 && self.r.chance(70) { Some(self.r.below(n) as usize) } else { None }; self.read_all(cx, me, "SELECT", "every read returns the rows committed before the transaction began overlaid with its own writes", "snapshot-read") && self.query(cx, me) }
            "ddl" => self.ddl(cx),
            "vacuum" => {
                // VACUUM aborts the open transactions
                self.log.push("VACUUM".into());
                let r = self.d.vacuum();
                if !cx.ck("Database::vacuum", "VACUUM succeeds", "vacuum", || self.hist(), r.is_ok(), || format!("{r:?}")) { self.bad = true; return false }
                self.close_all();
                self.read_all(cx, None, "Database::vacuum", "VACUUM changes no query result", "vacuum-effect") && (!self.r.chance(40) || self.audit(cx, "pages-vacuum"))
            }
            "indexes" => self.indexes(cx, "indexes"),
            "pages" => self.audit(cx, "pages"),
            "analyze" => { if n > 0 { return true } self.log.push("ANALYZE".into()); let r = self.d.analyze(); cx.ck("Database::analyze", "ANALYZE succeeds", "analyze", || self.hist(), r.is_ok(), || format!("{r:?}")) && self.query(cx, None) }
            "flush" => { self.log.push("FLUSH".into()); let r = self.d.flush(); if !cx.ck("Database::flush", "a checkpoint succeeds", "flush", || self.hist(), r.is_ok(), || format!("{r:?}")) { self.bad = true; return false } true }
            "reopen" => {
                self.log.push("REOPEN".into()); self.close_all();
                let c = self.d.cfg; let r = self.d.reopen(c); if !self.reopened(cx, r, "reopen") { return false }
                self.r.chance(70) || self.audit(cx, "pages-reopen")
            }
            "crash" => {
                self.log.push("CRASH".into());
                let p = self.d.crash_copy(cx); let c = self.d.cfg;
                self.close_all();
                self.old.push(self.d.path.parent().unwrap().to_path_buf());
                let r = Db::open(&p, c).map(|n| { self.d = n; });
                if let Some(o) = self.old.pop() { let _ = std::fs::remove_dir_all(o); }
                if !self.reopened(cx, r, "crash") { return false }
                self.r.chance(60) || self.audit(cx, "pages-crash")
            }
            _ => true,
        }
    }
    /// the history in the format of the REPL subcommand (VDUMP=file)
    fn dump(&self) {
        let Ok(p) = std::env::var("VDUMP") else { return };
        let f: Vec<String> = self.log.iter().skip(1).map(|l| match l.as_str() {
            "VACUUM" => "!vacuum".into(), "ANALYZE" => "!analyze".into(), "FLUSH" => "!flush".into(), "REOPEN" => "!reopen".into(), "CRASH" => "!crash".into(),
            l if l.starts_with("BATCH [") => format!("!batch {}", l[7..l.len() - 1].replace(" | ", ";")),
            l if l.starts_with('s') && l.as_bytes()[1].is_ascii_digit() => format!("@{l}"),
            l => l.into(),
        }).collect();
        let n = self.nsess; let _ = std::fs::write(format!("{p}.{}", std::process::id()), f.join("\n") + "\n"); let _ = n;
        println!("AT dumped to {p}.{}", std::process::id());
        std::process::exit(3);
    }
    pub fn finish(mut self, cx: &mut Cx) {
        if self.bad { self.dump() }
        self.close_all();
        if !self.bad { self.read_all(cx, None, "Database", "the contents are exactly the committed state", "final"); }
        if !self.bad { self.audit(cx, "pages-final"); }
        if !self.bad { self.indexes(cx, "indexes-final"); }
        let dir = self.d.path.parent().unwrap().to_path_buf();
        drop(self.d); let _ = std::fs::remove_dir_all(dir);
    }
}
/// runs `rounds` histories of `steps` steps
pub fn run(cx: &mut Cx, opt: Opt, rounds: usize, steps: usize, secs: f64) {
    let t0 = cx.elapsed();
    let mut done = 0;
    for _ in 0..rounds {
        if cx.elapsed() - t0 > secs { break }
        let mut h = Hist::new(cx, opt.clone());
        for _ in 0..steps { if h.bad || !h.step(cx) || h.bad { break } }
        h.finish(cx); done += 1;
    }
    cx.bound(&format!("{rounds} random histories of {steps} steps (at most {secs} s), up to {} sessions, {} tables; operations {:?}", opt.max_sessions, opt.tables, opt.ops.iter().map(|o| o.0).collect::<Vec<_>>()));
}
