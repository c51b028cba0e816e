//! Reference semantics: values, expressions, queries and tables, and generators for them.
use crate::h::Rng;
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum V { N, B(bool), I(i128), F(f64), T(String) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty { Int, Big, Dbl, Txt, Bool }
impl Ty {
    pub fn sql(self) -> &'static str { match self { Ty::Int => "INT", Ty::Big => "BIGINT", Ty::Dbl => "DOUBLE", Ty::Txt => "TEXT", Ty::Bool => "BOOLEAN" } }
    pub fn num(self) -> bool { matches!(self, Ty::Int | Ty::Big | Ty::Dbl) }
    pub fn int(self) -> bool { matches!(self, Ty::Int | Ty::Big) }
}
impl V {
    pub fn show(&self) -> String { match self { V::N => "NULL".into(), V::B(b) => (if *b { "TRUE" } else { "FALSE" }).into(), V::I(i) => format!("{i}"), V::F(f) => format!("{f}"), V::T(s) => s.clone() } }
    pub fn lit(&self) -> String {
        match self { V::N => "NULL".into(), V::B(b) => if *b { "TRUE".into() } else { "FALSE".into() }, V::I(i) => format!("{i}"),
            V::F(f) => { let s = format!("{f}"); if s.contains('.') { s } else { s + ".0" } } V::T(s) => format!("'{}'", s.replace('\'', "''")) }
    }
    pub fn null(&self) -> bool { matches!(self, V::N) }
    pub fn f(&self) -> f64 { match self { V::I(i) => *i as f64, V::F(f) => *f, _ => f64::NAN } }
}
/// comparison of two non-null values of comparable types
pub fn cmp(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::I(x), V::I(y)) => Some(x.cmp(y)),
        (V::I(_) | V::F(_), V::I(_) | V::F(_)) => a.f().partial_cmp(&b.f()),
        (V::T(x), V::T(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (V::B(x), V::B(y)) => Some(x.cmp(y)),
        _ => None,
    }
}
/// ORDER BY order: NULL is the greatest
pub fn sort_cmp(a: &V, b: &V) -> Ordering {
    match (a.null(), b.null()) { (true, true) => Ordering::Equal, (true, false) => Ordering::Greater, (false, true) => Ordering::Less, _ => cmp(a, b).unwrap_or(Ordering::Equal) }
}

#[derive(Clone, Debug)]
pub enum E {
    Col(usize, String, Ty), Lit(V), Bin(&'static str, Box<E>, Box<E>), Not(Box<E>), Neg(Box<E>), IsNull(Box<E>, bool),
    Between(Box<E>, Box<E>, Box<E>, bool), In(Box<E>, Vec<E>, bool), Like(Box<E>, String, bool), Fun(&'static str, Vec<E>),
}
pub type R<T> = Result<T, ()>;

pub fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| like(&s[i..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some('\\') => p.len() > 1 && s.first() == Some(&p[1]) && like(&s[1..], &p[2..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}
fn tv(t: Option<bool>, neg: bool) -> V { match t { None => V::N, Some(b) => V::B(b != neg) } }

impl E {
    pub fn ev(&self, r: &[V]) -> R<V> {
        Ok(match self {
            E::Col(i, _, _) => r[*i].clone(),
            E::Lit(v) => v.clone(),
            E::Not(e) => match e.ev(r)? { V::B(b) => V::B(!b), V::N => V::N, _ => return Err(()) },
            E::Neg(e) => match e.ev(r)? { V::I(i) => V::I(-i), V::F(f) => V::F(-f), V::N => V::N, _ => return Err(()) },
            E::IsNull(e, n) => V::B(e.ev(r)?.null() != *n),
            E::Between(e, l, h, n) => {
                let (e, l, h) = (e.ev(r)?, l.ev(r)?, h.ev(r)?);
                let c = |a: &V, b: &V| if a.null() || b.null() { None } else { cmp(a, b).map(|o| o != Ordering::Greater) };
                let t = match (c(&l, &e), c(&e, &h)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None };
                tv(t, *n)
            }
            E::In(e, l, n) => {
                let e = e.ev(r)?;
                let mut unk = false; let mut hit = false;
                for x in l { let x = x.ev(r)?; if e.null() || x.null() { unk = true } else if cmp(&e, &x) == Some(Ordering::Equal) { hit = true } }
                tv(if hit { Some(true) } else if unk { None } else { Some(false) }, *n)
            }
            E::Like(e, p, n) => match e.ev(r)? { V::N => V::N, V::T(s) => V::B(like(&s.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>()) != *n), _ => return Err(()) },
            E::Fun(f, a) => {
                let a: Vec<V> = a.iter().map(|e| e.ev(r)).collect::<R<_>>()?;
                match *f {
                    "COALESCE" => a.into_iter().find(|v| !v.null()).unwrap_or(V::N),
                    "NULLIF" => if !a[0].null() && !a[1].null() && cmp(&a[0], &a[1]) == Some(Ordering::Equal) { V::N } else { a[0].clone() },
                    _ if a.iter().any(V::null) => V::N,
                    "ABS" => match &a[0] { V::I(i) => V::F(i.abs() as f64), V::F(f) => V::F(f.abs()), _ => return Err(()) },
                    "UPPER" => match &a[0] { V::T(s) => V::T(s.to_uppercase()), _ => return Err(()) },
                    "LOWER" => match &a[0] { V::T(s) => V::T(s.to_lowercase()), _ => return Err(()) },
                    "LENGTH" => match &a[0] { V::T(s) => V::I(s.chars().count() as i128), _ => return Err(()) },
                    _ => return Err(()),
                }
            }
            E::Bin(op, a, b) => {
                let (a, b) = (a.ev(r)?, b.ev(r)?);
                match *op {
                    "AND" => match (&a, &b) { (V::B(false), _) | (_, V::B(false)) => V::B(false), (V::N, _) | (_, V::N) => V::N, _ => V::B(true) },
                    "OR" => match (&a, &b) { (V::B(true), _) | (_, V::B(true)) => V::B(true), (V::N, _) | (_, V::N) => V::N, _ => V::B(false) },
                    _ if a.null() || b.null() => V::N,
                    "=" | "<>" | "<" | "<=" | ">" | ">=" => {
                        let o = cmp(&a, &b).ok_or(())?;
                        V::B(match *op { "=" => o.is_eq(), "<>" => o.is_ne(), "<" => o.is_lt(), "<=" => o.is_le(), ">" => o.is_gt(), _ => o.is_ge() })
                    }
                    "||" => match (&a, &b) { (V::T(x), V::T(y)) => V::T(format!("{x}{y}")), _ => return Err(()) },
                    _ => match (&a, &b) {
                        (V::I(x), V::I(y)) => {
                            let z = match *op { "+" => x.checked_add(*y), "-" => x.checked_sub(*y), "*" => x.checked_mul(*y), "/" => x.checked_div(*y), _ => x.checked_rem(*y) }.ok_or(())?;
                            if z < i64::MIN as i128 || z > i64::MAX as i128 { return Err(()) }
                            V::I(z)
                        }
                        (V::I(_) | V::F(_), V::I(_) | V::F(_)) => { let (x, y) = (a.f(), b.f()); V::F(match *op { "+" => x + y, "-" => x - y, "*" => x * y, "/" => x / y, _ => x % y }) }
                        _ => return Err(()),
                    },
                }
            }
        })
    }
    pub fn truth(&self, r: &[V]) -> R<bool> { match self.ev(r)? { V::B(b) => Ok(b), V::N => Ok(false), _ => Err(()) } }
    fn prec(&self) -> u8 {
        match self {
            E::Bin(op, ..) => match *op { "OR" => 1, "AND" => 2, "=" | "<>" | "<" | "<=" | ">" | ">=" => 4, "+" | "-" => 6, "*" | "/" | "%" => 7, _ => 5 },
            E::Not(_) => 3, E::IsNull(..) | E::Between(..) | E::In(..) | E::Like(..) => 4, E::Neg(_) => 8, _ => 10,
        }
    }
    fn sub(&self, min: u8, full: bool) -> String { let s = self.sql(full); if self.prec() < min || (full && self.prec() < 10) { format!("({s})") } else { s } }
    /// SQL text; `full` parenthesises everything, otherwise only what the documented precedence requires.
    pub fn sql(&self, full: bool) -> String {
        match self {
            E::Col(_, n, _) => n.clone(),
            E::Lit(v) => match v { V::I(i) if *i < 0 => format!("({})", v.lit()), V::F(f) if *f < 0.0 => format!("({})", v.lit()), _ => v.lit() },
            E::Bin(op, a, b) => { let p = self.prec(); let (l, r) = if p == 4 { (6, 6) } else { (p, p + 1) }; format!("{} {op} {}", a.sub(l, full), b.sub(r, full)) }
            E::Not(e) => format!("NOT {}", e.sub(3, full)),
            E::Neg(e) => format!("-{}", e.sub(9, full)),
            E::IsNull(e, n) => format!("{} IS {}NULL", e.sub(6, full), if *n { "NOT " } else { "" }),
            E::Between(e, l, h, n) => format!("{} {}BETWEEN {} AND {}", e.sub(6, full), if *n { "NOT " } else { "" }, l.sub(6, full), h.sub(6, full)),
            E::In(e, l, n) => format!("{} {}IN ({})", e.sub(6, full), if *n { "NOT " } else { "" }, l.iter().map(|x| x.sql(full)).collect::<Vec<_>>().join(", ")),
            E::Like(e, p, n) => format!("{} {}LIKE '{}'", e.sub(6, full), if *n { "NOT " } else { "" }, p.replace('\'', "''")),
            E::Fun(f, a) => format!("{f}({})", a.iter().map(|x| x.sql(full)).collect::<Vec<_>>().join(", ")),
        }
    }
}

// ---- generators -----------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Col { pub name: String, pub ty: Ty, pub notnull: bool, pub default: Option<V> }
#[derive(Clone, Debug)]
pub struct Table { pub name: String, pub cols: Vec<Col>, pub uniques: Vec<Vec<usize>>, pub rows: BTreeMap<u64, Vec<V>>, pub next: u64 }
pub const WORDS: &[&str] = &["", "a", "b", "ab", "abc", "A", "Zed", "it''s", "ñandú", "x_y", "50%", "long text value 0123456789", "日本"];
pub fn word(r: &mut Rng) -> String { r.pick(WORDS).replace("''", "'") }
pub fn value(r: &mut Rng, ty: Ty, nulls: u64) -> V {
    if r.chance(nulls) { return V::N }
    match ty { Ty::Int | Ty::Big => V::I(r.range(-4, 9) as i128), Ty::Dbl => V::F(r.range(-8, 12) as f64 / 2.0), Ty::Txt => V::T(word(r)), Ty::Bool => V::B(r.chance(50)) }
}
/// any expression of the class of `ty` (integers may promote to double when `ty` is Dbl)
pub fn expr(r: &mut Rng, cols: &[(usize, String, Ty)], ty: Ty, d: u32) -> E {
    let same: Vec<_> = cols.iter().filter(|c| if ty == Ty::Dbl { c.2.num() } else if ty.int() { c.2.int() } else { c.2 == ty }).collect();
    if d == 0 || r.chance(30) {
        if !same.is_empty() && r.chance(70) { let c = *r.pick(&same); return E::Col(c.0, c.1.clone(), c.2) }
        if ty == Ty::Bool { return cond(r, cols, 0) }
        return E::Lit(value(r, ty, 4));
    }
    let sub = |r: &mut Rng| Box::new(expr(r, cols, ty, d - 1));
    match ty {
        Ty::Int | Ty::Big => match r.below(8) {
            0 | 1 => E::Bin("+", sub(r), sub(r)), 2 => E::Bin("-", sub(r), sub(r)), 3 => E::Bin("*", sub(r), sub(r)),
            4 => E::Bin("/", sub(r), Box::new(E::Lit(V::I(r.range(1, 4) as i128)))), 5 => E::Bin("%", sub(r), Box::new(E::Lit(V::I(r.range(2, 5) as i128)))),
            _ => E::Neg(Box::new(expr(r, cols, ty, 0))),
        },
        Ty::Dbl => match r.below(5) { 4 => E::Fun("ABS", vec![*sub(r)]), 0 => E::Bin("+", sub(r), sub(r)), 1 => E::Bin("-", sub(r), sub(r)), 2 => E::Bin("*", sub(r), Box::new(E::Lit(V::F(0.5)))), _ => E::Bin("/", sub(r), Box::new(E::Lit(V::F(2.0)))) },
        Ty::Txt => match r.below(2) { 0 => E::Fun("UPPER", vec![*sub(r)]), _ => E::Fun("LOWER", vec![*sub(r)]) },
        Ty::Bool => cond(r, cols, d),
    }
}
pub fn cond(r: &mut Rng, cols: &[(usize, String, Ty)], d: u32) -> E {
    if d > 0 && r.chance(55) {
        return match r.below(5) {
            0 | 1 => E::Bin("AND", Box::new(cond(r, cols, d - 1)), Box::new(cond(r, cols, d - 1))),
            2 | 3 => E::Bin("OR", Box::new(cond(r, cols, d - 1)), Box::new(cond(r, cols, d - 1))),
            _ => E::Not(Box::new(cond(r, cols, d - 1))),
        };
    }
    let bools: Vec<_> = cols.iter().filter(|c| c.2 == Ty::Bool).collect();
    let ty = if cols.is_empty() { Ty::Int } else { match r.pick(cols).2 { Ty::Bool if r.chance(50) => { let c = *r.pick(&bools); return E::Col(c.0, c.1.clone(), c.2) } t => t } };
    if ty == Ty::Bool { let c = *r.pick(&bools); return E::IsNull(Box::new(E::Col(c.0, c.1.clone(), c.2)), r.chance(50)) }
    let dd = if d > 1 { 1 } else { 0 };
    let a = Box::new(expr(r, cols, ty, dd));
    match r.below(9) {
        0 => E::IsNull(a, r.chance(50)),
        1 => E::Between(a, Box::new(expr(r, cols, ty, 0)), Box::new(expr(r, cols, ty, 0)), r.chance(35)),
        2 => { let n = 1 + r.below(4); E::In(a, (0..n).map(|_| E::Lit(value(r, ty, 10))).collect(), r.chance(40)) }
        3 if ty == Ty::Txt => E::Like(a, r.pick(&["%", "a%", "%b", "_b", "%a%", "_", "a_c", "%_%", "Z%d", "ñ%", "", "%\\b", "\\a%", "%\\%", "\\_%", "_%_", "%a_", "%_b%", "__", "%ab%b", "a\\", "%\\"]).to_string(), r.chance(30)),
        _ => { let op = *r.pick(&["=", "<>", "<", "<=", ">", ">=", "=", "="]); E::Bin(op, a, Box::new(expr(r, cols, ty, dd))) }
    }
}

impl Table {
    pub fn make(r: &mut Rng, name: &str, unique: bool) -> Table {
        let n = 2 + r.below(4) as usize;
        let mut cols = vec![Col { name: "k".into(), ty: if r.chance(50) { Ty::Int } else { Ty::Big }, notnull: false, default: None }];
        for i in 0..n {
            let ty = *r.pick(&[Ty::Int, Ty::Big, Ty::Dbl, Ty::Txt, Ty::Txt, Ty::Bool]);
            let d = if r.chance(15) { Some(value(r, ty, 0)) } else { None };
            let d = match d { Some(V::I(i)) if i < 0 => Some(V::I(-i)), Some(V::F(f)) if f < 0.0 => Some(V::F(-f)), d => d };
            cols.push(Col { name: format!("c{i}"), ty, notnull: r.chance(10), default: d });
        }
        let uniques = if unique { vec![vec![0]] } else { vec![] };
        Table { name: name.into(), cols, uniques, rows: BTreeMap::new(), next: 0 }
    }
    pub fn create_sql(&self) -> String {
        let mut p: Vec<String> = self.cols.iter().map(|c| format!("{} {}{}{}", c.name, c.ty.sql(), if c.notnull { " NOT NULL" } else { "" }, c.default.as_ref().map(|d| format!(" DEFAULT {}", d.lit())).unwrap_or_default())).collect();
        for u in &self.uniques { p.push(format!("UNIQUE ({})", u.iter().map(|i| self.cols[*i].name.clone()).collect::<Vec<_>>().join(", "))); }
        format!("CREATE TABLE {} ({})", self.name, p.join(", "))
    }
    pub fn row(&self, r: &mut Rng) -> Vec<V> { self.cols.iter().map(|c| value(r, c.ty, if c.notnull { 0 } else { 15 })).collect() }
    pub fn fields(&self, off: usize, q: Option<&str>) -> Vec<(usize, String, Ty)> {
        self.cols.iter().enumerate().map(|(i, c)| (off + i, q.map(|a| format!("{a}.{}", c.name)).unwrap_or_else(|| c.name.clone()), c.ty)).collect()
    }
    /// whether a row may be added / changed
    pub fn admits(&self, row: &[V], except: Option<u64>) -> bool {
        if self.cols.iter().zip(row).any(|(c, v)| c.notnull && v.null()) { return false }
        !self.uniques.iter().any(|u| !u.iter().any(|i| row[*i].null()) && self.rows.iter().any(|(id, o)| Some(*id) != except && u.iter().all(|i| !o[*i].null() && cmp(&o[*i], &row[*i]) == Some(Ordering::Equal))))
    }
    pub fn push(&mut self, row: Vec<V>) -> u64 { let id = self.next; self.next += 1; self.rows.insert(id, row); id }
    /// INSERT of several rows as a whole; None if rejected
    pub fn insert(&mut self, rows: &[Vec<V>]) -> Option<u64> {
        let save = self.rows.clone();
        for r in rows { if !self.admits(r, None) { self.rows = save; return None } self.push(r.clone()); }
        Some(rows.len() as u64)
    }
    pub fn insert_sql(&self, rows: &[Vec<V>]) -> String {
        format!("INSERT INTO {} VALUES {}", self.name, rows.iter().map(|r| format!("({})", r.iter().map(V::lit).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "))
    }
    pub fn show(&self) -> Vec<Vec<String>> { let mut v: Vec<Vec<String>> = self.rows.values().map(|r| r.iter().map(V::show).collect()).collect(); v.sort(); v }
    pub fn delete(&mut self, w: Option<&E>) -> R<u64> {
        let mut hit = vec![];
        for (id, r) in &self.rows { if w.map(|w| w.truth(r)).unwrap_or(Ok(true))? { hit.push(*id) } }
        for h in &hit { self.rows.remove(h); }
        Ok(hit.len() as u64)
    }
    /// UPDATE; Err if it must be rejected
    pub fn update(&mut self, sets: &[(usize, E)], w: Option<&E>) -> R<u64> {
        let mut new = vec![];
        for (id, r) in &self.rows {
            if w.map(|w| w.truth(r)).unwrap_or(Ok(true))? {
                let mut n = r.clone();
                for (c, e) in sets {
                    let v = e.ev(r)?;
                    n[*c] = match (self.cols[*c].ty, v) { (Ty::Dbl, V::I(i)) => V::F(i as f64), (Ty::Int, V::I(i)) if i < i32::MIN as i128 || i > i32::MAX as i128 => return Err(()), (_, v) => v };
                    if self.cols[*c].notnull && n[*c].null() { return Err(()) }
                }
                new.push((*id, n));
            }
        }
        let k = new.len() as u64;
        for (id, n) in new { self.rows.insert(id, n); }
        Ok(k)
    }
}

// ---- queries --------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Join { pub kind: &'static str, pub table: usize, pub on: Option<E> }
#[derive(Clone, Debug)]
pub enum Item { Ex(E), Agg(&'static str, Option<E>, bool) }
#[derive(Clone, Debug)]
pub struct Query {
    pub from: usize, pub joins: Vec<Join>, pub filter: Option<E>, pub items: Vec<Item>, pub star: bool, pub distinct: bool,
    pub group: Vec<E>, pub having: Option<(&'static str, V)>, pub order: Vec<(usize, bool)>, pub limit: Option<usize>, pub offset: Option<usize>, pub full: bool, pub alias: bool, pub grouped: bool,
}
pub fn aliasname(q: &Query, k: usize, t: &Table) -> String { if q.alias { format!("t{k}x") } else { t.name.clone() } }
impl Item {
    fn sql(&self, full: bool) -> String { match self { Item::Ex(e) => e.sql(full), Item::Agg(f, None, _) => format!("{f}(*)"), Item::Agg(f, Some(e), d) => format!("{f}({}{})", if *d { "DISTINCT " } else { "" }, e.sql(full)) } }
}
impl Query {
    pub fn sql(&self, ts: &[Table]) -> String {
        let f = self.full;
        let nm = |k: usize, t: usize| if self.alias { format!("{} {}", ts[t].name, aliasname(self, k, &ts[t])) } else { ts[t].name.clone() };
        let mut s = format!("SELECT {}{} FROM {}", if self.distinct { "DISTINCT " } else { "" },
            if self.star { "*".into() } else { self.items.iter().map(|i| i.sql(f)).collect::<Vec<_>>().join(", ") }, nm(0, self.from));
        for (k, j) in self.joins.iter().enumerate() { s += &format!(" {} JOIN {}", j.kind, nm(k + 1, j.table)); if let Some(on) = &j.on { s += &format!(" ON {}", on.sql(f)); } }
        if let Some(w) = &self.filter { s += &format!(" WHERE {}", w.sql(f)); }
        if !self.group.is_empty() { s += &format!(" GROUP BY {}", self.group.iter().map(|g| g.sql(f)).collect::<Vec<_>>().join(", ")); }
        if let Some((op, v)) = &self.having { s += &format!(" HAVING COUNT(*) {op} {}", v.lit()); }
        if !self.order.is_empty() { s += &format!(" ORDER BY {}", self.order.iter().map(|(i, d)| format!("{}{}", self.items[*i].sql(f), if *d { " DESC" } else { "" })).collect::<Vec<_>>().join(", ")); }
        if let Some(l) = self.limit { s += &format!(" LIMIT {l}"); }
        if let Some(o) = self.offset { s += &format!(" OFFSET {o}"); }
        s
    }
    /// all result rows before ORDER BY / LIMIT / OFFSET
    pub fn rows(&self, ts: &[Table]) -> R<Vec<Vec<V>>> {
        let mut rows: Vec<Vec<V>> = ts[self.from].rows.values().cloned().collect();
        let mut width = ts[self.from].cols.len();
        for j in &self.joins {
            let right: Vec<Vec<V>> = ts[j.table].rows.values().cloned().collect();
            let rw = ts[j.table].cols.len();
            let mut out = vec![]; let mut rhit = vec![false; right.len()];
            for l in &rows {
                let mut hit = false;
                for (k, r) in right.iter().enumerate() {
                    let mut x = l.clone(); x.extend(r.iter().cloned());
                    if j.on.as_ref().map(|e| e.truth(&x)).unwrap_or(Ok(true))? { hit = true; rhit[k] = true; out.push(x); }
                }
                if !hit && matches!(j.kind, "LEFT" | "FULL") { let mut x = l.clone(); x.extend(std::iter::repeat_n(V::N, rw)); out.push(x); }
            }
            if matches!(j.kind, "RIGHT" | "FULL") { for (k, r) in right.iter().enumerate() { if !rhit[k] { let mut x = vec![V::N; width]; x.extend(r.iter().cloned()); out.push(x); } } }
            rows = out; width += rw;
        }
        if let Some(w) = &self.filter { let mut o = vec![]; for r in rows { if w.truth(&r)? { o.push(r) } } rows = o; }
        let mut out: Vec<Vec<V>> = vec![];
        if self.grouped {
            let mut groups: Vec<(Vec<V>, Vec<Vec<V>>)> = vec![];
            if self.group.is_empty() { groups.push((vec![], rows)); } else {
                for r in rows {
                    let k: Vec<V> = self.group.iter().map(|g| g.ev(&r)).collect::<R<_>>()?;
                    match groups.iter_mut().find(|g| g.0.iter().zip(&k).all(|(a, b)| sort_cmp(a, b).is_eq())) { Some(g) => g.1.push(r), None => groups.push((k, vec![r])) }
                }
            }
            for (_, rs) in &groups {
                if let Some((op, v)) = &self.having { if !E::Bin(op, Box::new(E::Lit(V::I(rs.len() as i128))), Box::new(E::Lit(v.clone()))).truth(&[])? { continue } }
                let mut o = vec![];
                for it in &self.items {
                    o.push(match it {
                        Item::Ex(e) => e.ev(&rs[0])?,
                        Item::Agg(_, None, _) => V::I(rs.len() as i128),
                        Item::Agg(f, Some(e), d) => {
                            let mut vs = vec![];
                            for r in rs { let v = e.ev(r)?; if !v.null() && !(*d && vs.iter().any(|w| sort_cmp(w, &v).is_eq())) { vs.push(v) } }
                            match *f {
                                "COUNT" => V::I(vs.len() as i128),
                                "SUM" => if vs.is_empty() { V::N } else { V::F(vs.iter().map(V::f).sum()) },
                                "AVG" => if vs.is_empty() { V::N } else { V::F(vs.iter().map(V::f).sum::<f64>() / vs.len() as f64) },
                                "MIN" => vs.into_iter().min_by(sort_cmp).unwrap_or(V::N),
                                _ => vs.into_iter().max_by(sort_cmp).unwrap_or(V::N),
                            }
                        }
                    });
                }
                out.push(o);
            }
        } else {
            for r in &rows {
                out.push(if self.star { r.clone() } else { self.items.iter().map(|i| match i { Item::Ex(e) => e.ev(r), _ => Err(()) }).collect::<R<_>>()? });
            }
        }
        if self.distinct { let mut o: Vec<Vec<V>> = vec![]; for r in out { if !o.iter().any(|x| x.iter().zip(&r).all(|(a, b)| sort_cmp(a, b).is_eq())) { o.push(r) } } out = o; }
        Ok(out)
    }
    /// compares an actual result; Ok or a description of the difference
    pub fn check(&self, ts: &[Table], got: &crate::db::Out) -> Result<(), String> {
        let exp = self.rows(ts);
        let got = match (got, &exp) {
            (crate::db::Out::Rows(r), Ok(_)) => r,
            (crate::db::Out::Err(e), Err(())) if !e.starts_with("PANIC") => return Ok(()),
            (o, _) => return Err(format!("expected {}, got {}", match &exp { Ok(e) => format!("{} rows", e.len()), Err(()) => "an error".into() }, o.show())),
        };
        let mut exp = exp.unwrap();
        exp.sort_by(|a, b| { for (i, d) in &self.order { let o = sort_cmp(&a[*i], &b[*i]); let o = if *d { o.reverse() } else { o }; if o.is_ne() { return o } } Ordering::Equal });
        let lo = self.offset.unwrap_or(0).min(exp.len()); let hi = self.limit.map(|l| (lo + l).min(exp.len())).unwrap_or(exp.len());
        let text: Vec<Vec<String>> = exp.iter().map(|r| r.iter().map(V::show).collect()).collect();
        if got.len() != hi - lo { return Err(format!("expected {} rows, got {}: {:?} vs {:?}", hi - lo, got.len(), trunc(&text), trunc(got))) }
        for (i, g) in got.iter().enumerate() { for (c, _) in &self.order { if g.get(*c) != Some(&text[lo + i][*c]) { return Err(format!("row {i} is {g:?}, its ORDER BY key should be {:?}", text[lo + i][*c])) } } }
        // multiset inclusion
        let mut pool: BTreeMap<Vec<String>, i64> = BTreeMap::new();
        for r in if self.limit.is_some() || self.offset.is_some() { &text[..] } else { &text[lo..hi] } { *pool.entry(r.clone()).or_default() += 1; }
        for g in got { match pool.get_mut(g) { Some(n) if *n > 0 => *n -= 1, _ => return Err(format!("unexpected row {g:?}; expected rows {:?}", trunc(&text))) } }
        Ok(())
    }
}
fn trunc(v: &[Vec<String>]) -> Vec<Vec<String>> { v.iter().take(12).cloned().collect() }

pub struct QOpt { pub max_joins: u64, pub group: bool }
pub fn query(r: &mut Rng, ts: &[Table], o: &QOpt) -> Query {
    let from = r.below(ts.len() as u64) as usize;
    let nj = r.below(o.max_joins + 1) as usize;
    let mut q = Query { from, joins: vec![], filter: None, items: vec![], star: false, distinct: false, group: vec![], having: None, order: vec![], limit: None, offset: None, full: r.chance(35), alias: true, grouped: false };
    if nj == 0 && r.chance(60) { q.alias = false; }
    let a0 = aliasname(&q, 0, &ts[from]);
    let mut cols = ts[from].fields(0, if nj == 0 && r.chance(60) { None } else { Some(&a0) });
    let mut width = ts[from].cols.len();
    for k in 0..nj {
        let t = r.below(ts.len() as u64) as usize;
        let an = aliasname(&q, k + 1, &ts[t]);
        let rc = ts[t].fields(width, Some(&an));
        let kind = *r.pick(&["INNER", "INNER", "LEFT", "RIGHT", "FULL", "CROSS"]);
        let left = cols.clone();
        cols.extend(rc.iter().cloned());
        let on = if kind == "CROSS" { None } else {
            let pairs: Vec<_> = left.iter().flat_map(|l| rc.iter().filter(move |x| x.2 == l.2 && x.2 != Ty::Bool).map(move |x| (l.clone(), x.clone()))).collect();
            let eq = if pairs.is_empty() { cond(r, &cols, 1) } else { let (l, x) = r.pick(&pairs).clone(); E::Bin(if r.chance(80) { "=" } else { "<" }, Box::new(E::Col(l.0, l.1, l.2)), Box::new(E::Col(x.0, x.1, x.2))) };
            Some(if r.chance(25) { E::Bin("AND", Box::new(eq), Box::new(cond(r, &cols, 1))) } else { eq })
        };
        q.joins.push(Join { kind, table: t, on });
        width += ts[t].cols.len();
    }
    if r.chance(70) { q.filter = Some(cond(r, &cols, 3)); }
    if o.group && r.chance(30) {
        q.grouped = true;
        let n = r.below(3) as usize;
        for _ in 0..n { let c = r.pick(&cols).clone(); let e = E::Col(c.0, c.1, c.2); q.group.push(e.clone()); q.items.push(Item::Ex(e)); }
        for _ in 0..1 + r.below(3) {
            let nums: Vec<_> = cols.iter().filter(|c| c.2.num()).cloned().collect();
            let any = r.pick(&cols).clone();
            q.items.push(match r.below(6) {
                0 => Item::Agg("COUNT", None, false),
                1 => Item::Agg("COUNT", Some(E::Col(any.0, any.1, any.2)), r.chance(40)),
                2 | 3 if !nums.is_empty() => { let c = r.pick(&nums).clone(); Item::Agg(if r.chance(50) { "SUM" } else { "AVG" }, Some(E::Col(c.0, c.1, c.2)), r.chance(30)) }
                _ => Item::Agg(if r.chance(50) { "MIN" } else { "MAX" }, Some(E::Col(any.0, any.1, any.2)), false),
            });
        }
        if !q.group.is_empty() && r.chance(30) { q.having = Some((*r.pick(&[">", ">=", "=", "<"]), V::I(r.range(1, 3) as i128))); }
        if r.chance(50) { let n = q.items.len() as u64; q.order.push((r.below(n) as usize, r.chance(40))); }
    } else {
        if r.chance(25) { q.star = true; } else {
            for _ in 0..1 + r.below(4) {
                let c = r.pick(&cols).clone();
                let e = if r.chance(70) { E::Col(c.0, c.1, c.2) } else { expr(r, &cols, if c.2 == Ty::Bool { Ty::Int } else { c.2 }, 2) };
                q.items.push(Item::Ex(e));
            }
            q.distinct = r.chance(20);
            if r.chance(50) { for _ in 0..1 + r.below(2) { let n = q.items.len() as u64; let i = r.below(n) as usize; if matches!(q.items[i], Item::Ex(E::Col(..))) && !q.order.iter().any(|o| o.0 == i) { q.order.push((i, r.chance(40))); } } }
        }
    }
    if r.chance(25) { q.limit = Some(r.below(8) as usize); if r.chance(50) { q.offset = Some(r.below(6) as usize); } }
    q
}
