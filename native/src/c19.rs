//! Value contracts: DataType's public operations and what the engine does with the same values.
use crate::{db::*, h::*};
use crate::c18::{bits, KINDS};
use axmosdb::types::{Blob, DataType, DataTypeKind, Float32, Float64, Int32, Int64, UInt32, UInt64};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn h(v: &DataType) -> u64 { let mut s = DefaultHasher::new(); v.hash(&mut s); s.finish() }
fn isnum(v: &DataType) -> bool { !matches!(v, DataType::Null | DataType::Bool(_) | DataType::Blob(_)) }

/// exact comparison of finite numbers, by integer part and then scaled fraction
fn exact(a: &DataType, b: &DataType) -> Option<Ordering> {
    enum N { I(i128), F(f64) }
    let n = |v: &DataType| Some(match v { DataType::Int(x) => N::I(x.0 as i128), DataType::BigInt(x) => N::I(x.0 as i128), DataType::UInt(x) => N::I(x.0 as i128), DataType::BigUInt(x) => N::I(x.0 as i128), DataType::Float(x) => N::F(x.0 as f64), DataType::Double(x) => N::F(x.0), _ => return None });
    fn fi(f: f64, i: i128) -> Ordering { // f against i; NaN is the greatest
        if f.is_nan() { return Ordering::Greater }
        if f == f64::INFINITY { return Ordering::Greater } if f == f64::NEG_INFINITY { return Ordering::Less }
        // sign * m * 2^e
        let b = f.to_bits(); let neg = b >> 63 == 1; let e = ((b >> 52) & 0x7ff) as i32; let m = (b & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 }; let e = e.max(1) - 1075;
        let m = m as i128;
        if m == 0 { return 0i128.cmp(&i) }
        let mag = |c: Ordering| if neg { c.reverse() } else { c };
        if (i < 0) != neg || i == 0 { return if neg { if i < 0 { unreachable!() } else { Ordering::Less } } else { Ordering::Greater } }
        let ia = i.unsigned_abs(); // < 2^65
        let c = if e >= 0 { if e > 70 { Ordering::Greater } else { (m as u128).checked_shl(e as u32).filter(|x| x >> e == m as u128).map_or(Ordering::Greater, |x| x.cmp(&ia)) } }
            else { let s = (-e) as u32; if s >= 54 { if s > 120 { Ordering::Less } else { (m as u128 >> s).cmp(&ia).then(if (m as u128) & ((1u128 << s) - 1) != 0 { Ordering::Greater } else { Ordering::Equal }) } } else { (m as u128 >> s).cmp(&ia).then(if (m as u128) & ((1u128 << s) - 1) != 0 { Ordering::Greater } else { Ordering::Equal }) } };
        mag(c)
    }
    Some(match (n(a)?, n(b)?) { (N::I(x), N::I(y)) => x.cmp(&y), (N::F(x), N::I(y)) => fi(x, y), (N::I(x), N::F(y)) => fi(y, x).reverse(), (N::F(x), N::F(y)) => if x.is_nan() || y.is_nan() { x.is_nan().cmp(&y.is_nan()) } else { x.partial_cmp(&y).unwrap() } })
}

fn interesting(r: &mut Rng) -> DataType {
    let ints: [i128; 22] = [0, 1, -1, 2, 127, 255, 256, i32::MAX as i128, i32::MIN as i128, i32::MAX as i128 + 1, u32::MAX as i128, u32::MAX as i128 + 1, (1 << 24) + 1, (1 << 53), (1 << 53) + 1, -(1 << 53) - 1, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 - 1023, i64::MAX as i128 - 1];
    let i = if r.chance(70) { *r.pick(&ints) + r.range(-1, 1) as i128 } else { r.next() as i64 as i128 >> r.below(63) };
    let f = match r.below(8) { 0 => i as f64, 1 => i as f64 + 0.5, 2 => (i as f64) * 1.0000000000000002, 3 => *r.pick(&[0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 0.1, 16777217.0, 9007199254740993.0, 1.8446744073709552e19, 9.223372036854775e18]), 4 => f64::from_bits(r.next()), 5 => (i as f32) as f64, _ => r.range(-40, 40) as f64 / 4.0 };
    match r.below(9) {
        0 => DataType::Int(Int32(i as i32)), 1 => DataType::BigInt(Int64(i as i64)), 2 => DataType::UInt(UInt32(i as u32)), 3 => DataType::BigUInt(UInt64(i as u64)),
        4 => DataType::Float(Float32(f as f32)), 5 => DataType::Double(Float64(f)), 6 => DataType::Bool((i & 1 == 1).into()), 7 => DataType::Null,
        _ => { let n = *r.pick(&[0usize, 1, 3, 7, 8, 9, 15, 16, 17, 40, 63, 64, 127, 128, 300]); let mut s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'A', '\u{0}', 'é', '日', '~'])).collect(); if r.chance(50) { s = "aaaaaaaaaaaaaaaaaaaaaaaaa".chars().take(n).collect::<String>() + *r.pick(&["", "a", "b", "\u{1}"]); } DataType::Blob(Blob::from(s.as_str())) }
    }
}

pub fn run(cx: &mut Cx) {
    let total = if cx.thorough { 300.0 } else { 40.0 };
    let mut r = Rng(cx.rng.next());
    // the operations
    let mut n = 0u64;
    while cx.elapsed() < total * 0.5 {
        for _ in 0..200 {
            n += 1;
            let (a, mut b, c) = (interesting(&mut r), interesting(&mut r), interesting(&mut r));
            if r.chance(15) { b = a.clone() }
            let show = || format!("{a:?} {b:?} {c:?}");
            let res = catch(|| {
                let mut bad: Vec<&str> = vec![];
                if a != a.clone() { bad.push("equality is not reflexive") }
                if (a == b) != (b == a) { bad.push("equality is not symmetric") }
                if a == b && b == c && a != c { bad.push("equality is not transitive") }
                if a == b && h(&a) != h(&b) { bad.push("equal values with different hashes") }
                let (ab, ba, bc, ac) = (a.partial_cmp(&b), b.partial_cmp(&a), b.partial_cmp(&c), a.partial_cmp(&c));
                if ab.map(|o| o.reverse()) != ba { bad.push("order is not antisymmetric") }
                let null = matches!(a, DataType::Null) || matches!(b, DataType::Null);
                let same = a.kind() == b.kind() || isnum(&a) && isnum(&b);
                if !null && same && ab.is_none() { bad.push("order within a type is not total") }
                if !null && same && (a == b) != (ab == Some(Ordering::Equal)) { bad.push("order disagrees with equality") }
                if let (Some(x), Some(y)) = (ab, bc) { if x == y && ac != Some(x) || x == Ordering::Equal && ac != Some(y) || y == Ordering::Equal && ac != Some(x) { bad.push("order is not transitive") } }
                if let Some(e) = exact(&a, &b) { if ab != Some(e) { bad.push("numbers do not compare by value") } }
                if let (DataType::Blob(x), DataType::Blob(y)) = (&a, &b) { if ab != Some(x.data().unwrap().cmp(y.data().unwrap())) { bad.push("texts do not compare by bytes") } }
                if let (DataType::Bool(x), DataType::Bool(y)) = (&a, &b) { if ab != Some(x.value().cmp(&y.value())) { bad.push("booleans do not compare") } }
                if !matches!(a, DataType::Null) {
                    let k = a.kind();
                    match a.try_cast(k) { Ok(v) if bits(&v) == bits(&a) => {} _ => bad.push("a cast to its own type changes the value") }
                    let s = a.serialize().unwrap();
                    if s.len() != a.runtime_size() { bad.push("encoded size differs from runtime_size") }
                    // at any aligned position of a buffer
                    let al = k.align(); let mut buf = vec![0xAAAA_AAAA_AAAA_AAAAu64; s.len() / 8 + 6]; let by: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, s.len() + 40) };
                    let at = 8 + al * 2; let end = a.write_to(by, at).unwrap();
                    if end != at + s.len() || by[at..end] != s[..] { bad.push("write_to writes something else than serialize") }
                    if by[..at].iter().any(|x| *x != 0xAA) || by[end..].iter().any(|x| *x != 0xAA) { bad.push("write_to touches other bytes") }
                    match k.deserialize(by, at) { Ok((v, e)) => { if e != end { bad.push("decoding consumes a different length") } if bits(&v.to_owned().unwrap_or(DataType::Null)) != bits(&a) { bad.push("decoding returns another value") } } Err(_) => bad.push("decoding fails") }
                    // from an unaligned cursor both sides align alike
                    let at = 9; let end = a.write_to(by, at).unwrap();
                    match k.deserialize(by, at) { Ok((v, e)) => { if e != end || bits(&v.to_owned().unwrap_or(DataType::Null)) != bits(&a) { bad.push("decoding from an unaligned cursor returns another value") } } Err(_) => bad.push("decoding from an unaligned cursor fails") }
                }
                // casts between integer types keep the value or fail
                for k in [DataTypeKind::Int, DataTypeKind::BigInt, DataTypeKind::UInt, DataTypeKind::BigUInt, DataTypeKind::Double] {
                    if let DataType::Int(_) | DataType::BigInt(_) | DataType::UInt(_) | DataType::BigUInt(_) = a { if let Ok(v) = a.try_cast(k) { if k != DataTypeKind::Double && exact(&v, &a) != Some(Ordering::Equal) { bad.push("an integer cast changes the value") } } }
                }
                bad
            });
            let ok = matches!(&res, Ok(b) if b.is_empty());
            let key = match &res { Ok(b) => b.first().map(|x| x.replace(' ', "-")).unwrap_or_default(), Err(_) => "panic".into() };
            if !cx.ck("DataType", "equality, order, hash, casts and encodings agree with the value", &key, show, ok, || format!("{res:?}")) { }
        }
    }
    cx.bound(&format!("{n} triples of values of every type around the limits of each representation"));
    // the engine on the same values
    let mut m = 0;
    while cx.elapsed() < total {
        m += 1;
        let tys = ["INT", "BIGINT", "UINT", "BIGUINT", "DOUBLE", "TEXT", "BOOLEAN", "FLOAT"];
        let ti = r.below(8) as usize; let ty = tys[ti];
        let d = Db::new(cx);
        d.ok(&format!("CREATE TABLE v (k BIGINT, x {ty})")); d.ok(&format!("CREATE TABLE u (k BIGINT, x {ty}, UNIQUE (x))"));
        let mut vals: Vec<(String, DataType)> = vec![];
        for _ in 0..60 {
            let i: i128 = *r.pick(&[0, 1, -1, 5, 100, i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, (1 << 53) + 1, 1 << 53, (1 << 53) - 1, i64::MAX as i128, i64::MAX as i128 - 1, i64::MIN as i128 + 1, u64::MAX as i128, u64::MAX as i128 - 1]) + if r.chance(30) { r.range(-2, 2) as i128 } else { 0 };
            let v = match ti { 0 => DataType::Int(Int32(match i32::try_from(i) { Ok(x) if x > i32::MIN => x, _ => continue })), 1 => DataType::BigInt(Int64(match i64::try_from(i) { Ok(x) if x > i64::MIN => x, _ => continue })), 2 => DataType::UInt(UInt32(match u32::try_from(i) { Ok(x) => x, _ => continue })), 3 => DataType::BigUInt(UInt64(match u64::try_from(i) { Ok(x) => x, _ => continue })),
                4 => DataType::Double(Float64(r.range(-1000, 1000) as f64 / *r.pick(&[1.0, 4.0, 1024.0, 3.0]))), 7 => DataType::Float(Float32(r.range(-1000, 1000) as f32 / 8.0)), 6 => DataType::Bool(r.chance(50).into()),
                _ => { let n = *r.pick(&[0usize, 1, 7, 8, 9, 16, 63, 64, 200, 1500]); let s: String = "x".repeat(n.saturating_sub(2)) + &(0..n.min(2)).map(|_| *r.pick(&['a', 'B', 'z', 'é', '日', ' ', '%'])).collect::<String>(); DataType::Blob(Blob::from(s.as_str())) } };
            let lit = match &v { DataType::Blob(b) => format!("'{}'", b.as_str().unwrap()), DataType::Double(f) => format!("{:?}", f.0), DataType::Float(f) => format!("{:?}", f.0), DataType::Bool(b) => (if b.value() { "TRUE" } else { "FALSE" }).into(), v => format!("{v}") };
            vals.push((lit, v));
        }
        for (i, (l, _)) in vals.iter().enumerate() { let g = d.x(&format!("INSERT INTO v VALUES ({i}, {l})")); if !cx.ck("INSERT", "stores any value of the column's type", "store", || format!("{ty} {l}"), !g.is_err(), || g.show()) { return } }
        let shown = |v: &DataType| -> String { match v { DataType::Blob(b) => b.as_str().unwrap().to_string(), v => format!("{v}") } };
        let got = d.x("SELECT x FROM v ORDER BY k");
        let want = Out::Rows(vals.iter().map(|v| vec![shown(&v.1)]).collect());
        cx.ck("SELECT", "loads the values that were stored", "load", || format!("{ty} {:?}", vals.iter().map(|v| &v.0).take(60).collect::<Vec<_>>()).chars().take(600).collect(), got == want, || format!("{} instead of {}", got.show(), want.show()));
        let mut sorted: Vec<&DataType> = vals.iter().map(|v| &v.1).collect(); sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
        let got = d.x("SELECT x FROM v ORDER BY x"); let want = Out::Rows(sorted.iter().map(|v| vec![shown(v)]).collect());
        cx.ck("Sort", "ORDER BY follows the order of the type", "order-by", || ty.into(), got == want, || format!("{} instead of {}", got.show(), want.show()));
        let mut dist: Vec<&DataType> = vec![]; for v in &sorted { if !dist.iter().any(|x| x == v) { dist.push(v) } }
        let got = d.x("SELECT DISTINCT x FROM v").sorted(); let want = Out::Rows(dist.iter().map(|v| vec![shown(v)]).collect()).sorted();
        cx.ck("Distinct", "DISTINCT follows the equality of the type", "distinct", || ty.into(), got == want, || format!("{} instead of {}", got.show(), want.show()));
        let got = d.x("SELECT x, COUNT(*) FROM v GROUP BY x").sorted(); let want = Out::Rows(dist.iter().map(|v| vec![shown(v), sorted.iter().filter(|x| **x == *v).count().to_string()]).collect()).sorted();
        cx.ck("HashAggregate", "GROUP BY follows the equality of the type", "group-by", || ty.into(), got == want, || format!("{} instead of {}", got.show(), want.show()));
        // the index tree: unique values only, looked up and ranged over
        let mut seen: Vec<&DataType> = vec![];
        for (i, (l, v)) in vals.iter().enumerate() {
            let dup = seen.iter().any(|x| *x == v); let g = d.x(&format!("INSERT INTO u VALUES ({i}, {l})"));
            if !cx.ck("Index", "holds one entry per distinct value", "unique", || format!("{ty} {l}, present: {dup}"), g.is_err() == dup, || g.show()) { break }
            if !dup { seen.push(v) }
        }
        for (l, v) in vals.iter().take(25) {
            for (t, all) in [("v", vals.iter().map(|x| &x.1).collect::<Vec<_>>()), ("u", seen.clone())] {
                for (op, f) in [("=", (|o| o == Ordering::Equal) as fn(Ordering) -> bool), ("<", |o| o == Ordering::Less), (">=", |o| o != Ordering::Less)] {
                    if ti == 6 && op != "=" { continue }
                    let got = d.x(&format!("SELECT x FROM {t} WHERE x {op} {l}")).sorted();
                    let want = Out::Rows(all.iter().filter(|x| (**x).partial_cmp(v).map_or(false, f)).map(|x| vec![shown(x)]).collect()).sorted();
                    cx.ck("Comparison", "filters and index ranges follow the order of the type", &format!("where-{t}"), || format!("{ty} {t} x {op} {l}").chars().take(200).collect(), got == want, || format!("{} instead of {}", got.show(), want.show()));
                }
            }
        }
        let p = d.path.parent().unwrap().to_path_buf(); drop(d); let _ = std::fs::remove_dir_all(p);
    }
    cx.bound(&format!("{m} single-column tables of 60 values, with and without an index"));
}
