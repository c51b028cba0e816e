//! Thin wrapper over the public Database API for statement-level contracts.
use crate::h::*;
use axmosdb::{DBConfig, Database, runtime::QueryResult, tcp::session::Session, DataType};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Rows(Vec<Vec<String>>), Count(u64), Ddl(String), Err(String) }

impl Out {
    pub fn rows(&self) -> Option<&Vec<Vec<String>>> { if let Out::Rows(r) = self { Some(r) } else { None } }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
    /// rows as a multiset
    pub fn sorted(mut self) -> Out { if let Out::Rows(r) = &mut self { r.sort(); } self }
    pub fn show(&self) -> String { let s = format!("{self:?}"); if s.len() > 700 { s.chars().take(700).collect::<String>() + "…" } else { s } }
}

pub fn val(v: &DataType) -> String { format!("{v}") }

pub fn conv(r: Result<QueryResult, String>) -> Out {
    match r {
        Err(e) => Out::Err(e),
        Ok(QueryResult::Rows(r)) => Out::Rows(r.iterrows().map(|row| row.iter().map(val).collect()).collect()),
        Ok(QueryResult::RowsAffected(n)) => Out::Count(n),
        Ok(QueryResult::Ddl(d)) => Out::Ddl(format!("{d:?}")),
    }
}

pub struct Db { pub db: Option<Database>, pub path: PathBuf, pub cfg: DBConfig }

pub fn cfg() -> DBConfig { DBConfig::builder().pool_size(3).cache_size(256).build() }

impl Db {
    pub fn create(cx: &mut Cx, c: DBConfig) -> Db {
        let path = cx.dir().join("t.db");
        Db { db: Some(Database::create(&path, c).expect("create")), path, cfg: c }
    }
    pub fn new(cx: &mut Cx) -> Db { Db::create(cx, cfg()) }
    pub fn open(path: &Path, c: DBConfig) -> Result<Db, String> {
        at(&format!("open | {}", path.display()));
        match catch(|| Database::open(path, c).map_err(|e| e.to_string())) {
            Ok(Ok(db)) => Ok(Db { db: Some(db), path: path.to_path_buf(), cfg: c }),
            Ok(Err(e)) => Err(e),
            Err(p) => Err(format!("PANIC {p}")),
        }
    }
    pub fn d(&self) -> &Database { self.db.as_ref().unwrap() }
    /// autocommit statement
    pub fn x(&self, sql: &str) -> Out {
        at(&format!("statement | {sql}"));
        if std::env::var("VLOG").is_ok() { eprintln!("{sql}"); }
        let n = PANICS.load(std::sync::atomic::Ordering::Relaxed);
        let r = catch(|| self.d().execute(sql).map_err(|e| e.to_string()));
        let p = PANICS.load(std::sync::atomic::Ordering::Relaxed);
        match r { Err(p) => Out::Err(format!("PANIC {p}")), Ok(r) => if p > n { Out::Err(format!("PANIC {}", last_panic())) } else { conv(r) } }
    }
    pub fn ok(&self, sql: &str) -> Out { let o = self.x(sql); if o.is_err() { panic!("setup statement failed: {sql}: {o:?}"); } o }
    pub fn batch(&self, s: &[&str]) -> Result<Vec<Out>, String> {
        at(&format!("batch | {s:?}"));
        match catch(|| self.d().execute_batch(s).map_err(|e| e.to_string())) { Ok(Ok(v)) => Ok(v.into_iter().map(|r| conv(Ok(r))).collect()), Ok(Err(e)) => Err(e), Err(p) => Err(format!("PANIC {p}")) }
    }
    pub fn session(&self) -> Sess { Sess(Some(self.d().session().expect("session"))) }
    pub fn vacuum(&self) -> Result<(), String> { at("vacuum | "); match catch(|| self.d().vacuum().map(|_| ()).map_err(|e| e.to_string())) { Ok(r) => r, Err(p) => Err(format!("PANIC {p}")) } }
    pub fn analyze(&self) -> Result<(), String> { at("analyze | "); match catch(|| self.d().analyze(1.0, 10000).map_err(|e| e.to_string())) { Ok(r) => r, Err(p) => Err(format!("PANIC {p}")) } }
    pub fn flush(&self) -> Result<(), String> { at("flush | "); match catch(|| self.d().flush().map_err(|e| e.to_string())) { Ok(r) => r, Err(p) => Err(format!("PANIC {p}")) } }
    /// drop (which flushes) and reopen
    pub fn reopen(&mut self, c: DBConfig) -> Result<(), String> {
        at("reopen | ");
        self.db = None;
        let d = Db::open(&self.path, c)?;
        self.db = d.db; self.cfg = c;
        Ok(())
    }
    /// copies the files as a killed process would leave them (nothing flushed) into a new directory
    pub fn crash_copy(&self, cx: &mut Cx) -> PathBuf {
        let d = cx.dir();
        let src = self.path.parent().unwrap();
        for e in std::fs::read_dir(src).unwrap() { let e = e.unwrap(); std::fs::copy(e.path(), d.join(e.file_name())).unwrap(); }
        d.join(self.path.file_name().unwrap())
    }
}

pub struct Sess(pub Option<Session>);
impl Sess {
    pub fn x(&mut self, sql: &str) -> Out {
        at(&format!("session statement | {sql}"));
        let n = PANICS.load(std::sync::atomic::Ordering::Relaxed);
        let r = catch(|| self.0.as_mut().unwrap().execute(sql).map_err(|e| e.to_string()));
        let p = PANICS.load(std::sync::atomic::Ordering::Relaxed);
        match r { Err(p) => Out::Err(format!("PANIC {p}")), Ok(r) => if p > n { Out::Err(format!("PANIC {}", last_panic())) } else { conv(r) } }
    }
    pub fn commit(&mut self) -> Result<(), String> { at("commit | "); match catch(|| self.0.as_mut().unwrap().commit_transaction().map_err(|e| e.to_string())) { Ok(r) => r, Err(p) => Err(format!("PANIC {p}")) } }
    pub fn rollback(&mut self) -> Result<(), String> { at("rollback | "); match catch(|| self.0.as_mut().unwrap().abort_transaction().map_err(|e| e.to_string())) { Ok(r) => r, Err(p) => Err(format!("PANIC {p}")) } }
}

/// `vnative REPL`: reads lines `sql`, or `@name sql` (session), `@name BEGIN/COMMIT/ROLLBACK/DROP`, `!vacuum !analyze !flush !reopen !crash`
pub fn repl(cx: &mut Cx) {
    let mut d = Db::new(cx);
    let mut ss: std::collections::HashMap<String, Sess> = Default::default();
    for line in std::io::stdin().lines() {
        let line = line.unwrap(); let line = line.trim();
        if line.is_empty() || line.starts_with('#') { continue; }
        let out = if let Some(c) = line.strip_prefix('!') {
            match c {
                "vacuum" => format!("{:?}", d.vacuum()), "analyze" => format!("{:?}", d.analyze()), "flush" => format!("{:?}", d.flush()),
                "reopen" => format!("{:?}", d.reopen(cfg())),
                "crash" => { let p = d.crash_copy(cx); match Db::open(&p, cfg()) { Ok(n) => { std::mem::forget(std::mem::replace(&mut d, n)); "ok".into() } Err(e) => format!("OPEN FAILED {e}") } }
                "indexes" => format!("{:?}", catch(|| axmosdb::verif::trees::audit_indexes(d.d()))),
                "new" => { d = Db::new(cx); ss.clear(); "new".into() }
                c if c.starts_with("explain ") => catch(|| d.d().explain(&c[8..]).map_err(|e| e.to_string())).map(|r| r.unwrap_or_else(|e| e)).unwrap_or_else(|e| e),
                c if c.starts_with("batch ") => { let v: Vec<&str> = c[6..].split(';').collect(); format!("{:?}", d.batch(&v)) }
                _ => "?".into(),
            }
        } else if let Some(r) = line.strip_prefix('@') {
            let (n, sql) = r.split_once(' ').unwrap();
            match sql { "BEGIN" => { ss.insert(n.into(), d.session()); "begun".into() } "COMMIT" => format!("{:?}", ss.remove(n).unwrap().commit()), "ROLLBACK" => format!("{:?}", ss.remove(n).unwrap().rollback()), "DROP" => { ss.remove(n); "dropped".into() }
                _ => ss.get_mut(n).unwrap().x(sql).show() }
        } else { d.x(line).show() };
        println!("{line}\n   -> {out}");
    }
    std::process::exit(0);
}
