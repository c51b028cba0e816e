//! Row version contracts: a list of versions against the encoded tuple.
use crate::h::*;
use axmosdb::verif::tuples::*;
use axmosdb::types::{Blob, DataType, DataTypeKind, Float32, Float64, Int32, Int64, UInt32, UInt64};
use std::collections::HashMap;

pub const KINDS: [DataTypeKind; 8] = [DataTypeKind::Bool, DataTypeKind::Int, DataTypeKind::BigInt, DataTypeKind::UInt, DataTypeKind::BigUInt, DataTypeKind::Float, DataTypeKind::Double, DataTypeKind::Blob];
pub fn value(r: &mut Rng, k: DataTypeKind) -> DataType {
    let e = r.below(4);
    let w = match e { 0 => 0, 1 => r.below(16), 2 => r.next(), _ => u64::MAX - r.below(4) };
    match k {
        DataTypeKind::Bool => DataType::Bool((w & 1 == 1).into()),
        DataTypeKind::Int => DataType::Int(Int32(w as i32)), DataTypeKind::BigInt => DataType::BigInt(Int64(w as i64)),
        DataTypeKind::UInt => DataType::UInt(UInt32(w as u32)), DataTypeKind::BigUInt => DataType::BigUInt(UInt64(w)),
        DataTypeKind::Float => DataType::Float(Float32(match e { 0 => 0.0, 1 => -0.5, 2 => f32::from_bits(w as u32), _ => f32::INFINITY })),
        DataTypeKind::Double => DataType::Double(Float64(match e { 0 => -0.0, 1 => 0.25, 2 => f64::from_bits(w), _ => f64::MIN })),
        DataTypeKind::Blob => { let n = match r.below(12) { 0 => 0, 1 => 63, 2 => 64, 3 => 127, 4 => 128, 5 => 8191, 6 => 8192, 7 => 20000, _ => r.below(40) as usize }; let s: String = (0..n).map(|i| (b'a' + ((i as u64 + w % 26) % 26) as u8) as char).collect(); DataType::Blob(Blob::from(s.as_str())) }
        _ => DataType::Null,
    }
}
/// bit-exact rendering
pub fn bits(v: &DataType) -> String {
    match v { DataType::Float(f) => format!("f32:{:08x}", f.0.to_bits()), DataType::Double(f) => format!("f64:{:016x}", f.0.to_bits()), DataType::Blob(b) => format!("blob:{}:{:?}", b.data().map(|d| d.len()).unwrap_or(usize::MAX), b.data().map(|d| d.iter().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64))).ok()), v => format!("{v:?}") }
}
fn row_bits(v: &[DataType]) -> Vec<String> { v.iter().map(bits).collect() }

pub fn run(cx: &mut Cx) {
    let secs = if cx.thorough { 240.0 } else { 30.0 };
    let mut n = 0u64;
    while cx.elapsed() < secs {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let nk = 1 + r.below(3) as usize; let nv = match r.below(6) { 0 => 1, 1 => 8, 2 => 9, 3 => 17, _ => 1 + r.below(12) as usize };
        let index = r.chance(30);
        let nk = if index { nk } else { 1 };
        let kinds: Vec<DataTypeKind> = (0..nk + nv).map(|i| if !index && i == 0 { DataTypeKind::BigUInt } else { *r.pick(&KINDS) }).collect();
        let s = if index { VSchema::index(&kinds, nk) } else { VSchema::table(&kinds) };
        let row: Vec<DataType> = kinds.iter().enumerate().map(|(i, k)| if i >= nk && r.chance(25) { DataType::Null } else { value(&mut r, *k) }).collect();
        let mut xid = 10 + r.below(5);
        let mut log = vec![format!("{kinds:?} keys={nk} create by {xid}")];
        at(&format!("tuple | {}", log[0]));
        let mut t = match catch(|| VTuple::build(&s, row.clone(), xid)) { Ok(Ok(t)) => t, e => { cx.fail("TupleBuilder::build", "encodes any valid row", "build", &log[0], &format!("{:?}", e.map(|x| x.map(|_| ())))); continue } };
        // (creator, values), newest last; stamped: whether each update carries its own creator
        let stamped = r.chance(80);
        let mut vs: Vec<(u64, Vec<DataType>)> = vec![(xid, row)];
        let mut deleted: Option<u64> = None;
        let steps = r.below(14);
        let mut bad = false;
        let mut floor = 0u64; // history below this horizon is gone
        for step in 0..=steps {
            if step > 0 {
                let op = r.below(10);
                if op < 7 {
                    let mut m = HashMap::new(); let mut next = vs.last().unwrap().1.clone();
                    for _ in 0..1 + r.below(nv as u64) { let c = nk + r.below(nv as u64) as usize; let v = if r.chance(25) { DataType::Null } else { value(&mut r, kinds[c]) }; next[c] = v.clone(); m.insert(c - nk, v); }
                    if stamped { xid += r.below(3); }
                    log.push(format!("{xid} updates {:?}", m.keys().collect::<Vec<_>>()));
                    at(&format!("tuple | {}", log.last().unwrap()));
                    let res = catch(|| t.update(&s, &m, xid)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                    if !cx.ck("Tuple::add_version_with", "adds a version of any valid row", "update", || log.join("; "), res.is_ok(), || format!("{res:?}")) { bad = true; break }
                    if stamped { t.set_xmin(xid); }
                    deleted = None;
                    vs.push((if stamped { xid } else { vs[0].0 }, next));
                } else if op < 8 { xid += 1; deleted = Some(xid); let _ = t.delete(xid); log.push(format!("{xid} deletes")); }
                else if deleted.is_some() && op < 9 { t.undelete(); deleted = None; log.push("undelete".into()); }
                else {
                    let h = (10 + r.below(xid - 8)).max(floor);
                    log.push(format!("trim {h}"));
                    let res = catch(|| t.trim(&s, h)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                    if !cx.ck("Tuple::vaccum_with", "trims any tuple", "trim", || log.join("; "), res.is_ok(), || format!("{res:?}")) { bad = true; break }
                    floor = floor.max(h);
                }
            }
            let last = catch(|| t.last(&s)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
            let want = row_bits(&vs.last().unwrap().1);
            if !cx.ck("TupleReader::parse_last_version", "the newest version decodes to what was written", "last", || log.join("; "), last.as_ref().map(|v| row_bits(v)) == Ok(want.clone()), || format!("{:?} instead of {want:?}", last.as_ref().map(|v| row_bits(v)))) { bad = true; break }
            let hdr = (t.xmin(), t.xmax());
            if !cx.ck("TupleHeader", "creator and deleter are those of the version", "header", || log.join("; "), hdr == (vs.last().unwrap().0, deleted), || format!("{hdr:?}")) { bad = true; break }
            for _ in 0..6 {
                let xmax = floor.saturating_sub(1).max(r.below(xid + 3));
                let mut active = vec![]; let mut aborted = vec![];
                for x in floor.max(1)..=xmax { if r.chance(20) { active.push(x) } }
                if deleted.is_some() && r.chance(20) && !vs.iter().any(|v| v.0 == deleted.unwrap()) { aborted.push(deleted.unwrap()) }
                let own = if r.chance(30) { vs.last().unwrap().0 } else if r.chance(10) { deleted.unwrap_or(xid + 9) } else { xid + 9 };
                // only transactions of their own can write above the horizon
                let sn = snap(own, floor, if xmax == 0 && floor == 0 && r.chance(50) { None } else { Some(xmax) }, &active, &aborted);
                let nomax = sn.xmax().is_none();
                let before = |x: u64| (nomax || x <= xmax) && !active.contains(&x) && !aborted.contains(&x);
                for x in [xid, xid + 1, 10, floor] { let b = committed_before(&sn, x); if b != before(x) { cx.fail("Snapshot::is_committed_before_snapshot", "finished before the snapshot was taken", "committed-before", &format!("{x} xmax {xmax} active {active:?} aborted {aborted:?}"), &format!("{b}")); } }
                let want = if deleted.map_or(false, |d| before(d) || d == own) { None } else {
                    vs.iter().rev().enumerate().find(|(i, v)| before(v.0) || (*i == 0 && v.0 == own)).map(|(_, v)| row_bits(&v.1)) };
                let got = catch(|| t.see(&s, &sn)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                let gb = got.as_ref().map(|o| o.as_ref().map(|v| row_bits(v)));
                if !cx.ck("TupleReader::parse_for_snapshot", "decodes the newest version the snapshot sees, or nothing", "snapshot", || format!("snapshot of {own}: up to {xmax} except {active:?}/{aborted:?}; horizon {floor}; {}", log.join("; ")), gb.as_ref() == Ok(&want), || format!("{gb:?} instead of {want:?}")) { bad = true; break }
            }
            if bad { break }
            // the bytes are all there is
            let again = VTuple::from_bytes(&t.bytes()).and_then(|t| t.last(&s)).map(|v| row_bits(&v));
            cx.ck("Tuple::from_slice_unchecked", "a stored tuple decodes as the original", "bytes", || log.join("; "), again.as_ref() == Ok(&row_bits(&vs.last().unwrap().1)), || format!("{again:?}"));
            let nv = t.versions(&s);
            cx.ck("Tuple::num_versions_with", "counts no more versions than were written", "versions", || log.join("; "), nv.as_ref().map_or(false, |n| *n >= 1 && *n <= vs.len()), || format!("{nv:?} of {}", vs.len()));
        }
    }
    cx.bound(&format!("{n} random rows of 1-18 columns of every type with up to 13 updates, deletes and trims, 6 snapshots after each"));
}
