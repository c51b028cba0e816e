//! B+tree contracts: the tree is an ordered map and every page has one owner.
use crate::h::*;
use axmosdb::verif::trees::*;
use axmosdb::DBConfig;
use std::collections::BTreeMap;

pub fn text(cx: &mut Cx, n: usize) -> String { (0..n).map(|_| (b'a' + cx.rng.below(26) as u8) as char).collect() }

fn size(cx: &mut Cx, mode: u64, page: usize) -> usize {
    match mode {
        0 => cx.rng.below(60) as usize,
        1 => cx.rng.below(page as u64 / 6) as usize,
        2 => *cx.rng.pick(&[0, 10, 200, 600, 900, 1200, 1400, 1600, 5000, 9000]),
        _ => if cx.rng.chance(80) { cx.rng.below(100) as usize } else { cx.rng.below(3 * page as u64) as usize },
    }
}

pub fn history(cx: &mut Cx, prop: &str, nops: usize) {
    let page = *cx.rng.pick(&[4096usize, 4096, 8192]);
    let min_keys = *cx.rng.pick(&[3usize, 3, 4, 6]);
    let sib = *cx.rng.pick(&[1usize, 2, 3]);
    let kind = if cx.rng.chance(60) { KeyKind::Num } else { KeyKind::Text };
    let mode = cx.rng.below(4);
    let krange = *cx.rng.pick(&[30u64, 200, 2000]);
    let cache = *cx.rng.pick(&[40usize, 100, 1000]);
    let cfg = DBConfig::builder().page_size(page).cache_size(cache).pool_size(1).min_keys_per_page(min_keys).num_siblings_per_side(sib).build();
    let path = cx.dir().join("t.db");
    let pg = pager(cfg, &path);
    let trees = [VTree::new(pg.clone(), kind, min_keys, sib), VTree::new(pg.clone(), kind, min_keys, sib)];
    let mut models: [BTreeMap<K, String>; 2] = Default::default();
    let desc = format!("page={page} min_keys={min_keys} siblings={sib} keys={kind:?} mode={mode} range={krange} cache={cache}");
    let mut log: Vec<String> = vec![];
    let bias = cx.rng.below(3);
    let longkeys = cx.rng.chance(25);
    for step in 0..nops {
        let w = if cx.rng.chance(85) { 0 } else { 1 };
        let phase = (step / 150) % 3;
        let n = match bias { 0 => cx.rng.below(krange), 1 => (step as u64 * 7) % krange, _ => krange - 1 - (step as u64 % krange) };
        let k = match kind { KeyKind::Num => K::Num(n), KeyKind::Text => K::Text(if longkeys && n % 5 == 0 { format!("{:06}{}", n, "k".repeat(1000 + (n as usize % 3) * 900)) } else { format!("k{n}") }) };
        let sz = size(cx, mode, page);
        let v = text(cx, sz);
        let (t, m) = (&trees[w], &mut models[w]);
        let op = match phase { 0 => *cx.rng.pick(&[0, 0, 0, 1, 1, 2, 3]), 1 => *cx.rng.pick(&[0, 1, 2, 3, 3]), _ => *cx.rng.pick(&[0, 1, 3, 3, 3, 3]) };
        let ks = match &k { K::Num(n) => n.to_string(), K::Text(s) => format!("{}[{}]", &s[..s.len().min(7)], s.len()) };
        at(&format!("tree op {op} | {desc} step {step} key {ks} size {sz}"));
        let has = m.contains_key(&k);
        let (name, r, want_ok) = match op {
            0 => ("insert", catch(|| t.insert(&k, &v)), !has),
            1 => ("upsert", catch(|| t.upsert(&k, &v)), true),
            2 => ("update", catch(|| t.update(&k, &v)), has),
            _ => ("remove", catch(|| t.remove(&k)), has),
        };
        log.push(format!("{name} t{w} {ks} {sz}"));
        let r = r.unwrap_or_else(|p| Err(format!("PANIC {p}")));
        let tail = || format!("{desc}; step {step}: …{}", log[log.len().saturating_sub(6)..].join("; "));
        if !cx.ck(&format!("Btree::{name}"), "succeeds exactly when the map operation does", &format!("btree-{name}-result"), tail, r.is_ok() == want_ok, || format!("{r:?}, key present: {has}")) { return; }
        if r.is_ok() { if op == 3 { m.remove(&k); } else { m.insert(k.clone(), v); } }
        if step % 40 == 39 || step + 1 == nops {
            let mut own = Owners::new();
            for (w, t) in trees.iter().enumerate() {
                let a = catch(|| t.audit(&mut own)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                if !cx.ck("Btree", "ordered keys, uniform depth, sibling links in key order, separators route", "btree-structure", tail, a.is_ok(), || a.clone().unwrap_err()) { return; }
                let s = catch(|| t.scan()).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                let want: Vec<_> = models[w].iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                if !cx.ck("Btree::iter_forward", "a scan returns exactly the map in key order", "btree-scan", tail, s.as_ref() == Ok(&want), || match &s { Err(e) => e.clone(), Ok(v) => format!("{} entries, expected {}; first difference at {:?}", v.len(), want.len(), v.iter().zip(&want).position(|(a, b)| a != b)) }) { return; }
                for _ in 0..6 {
                    let n = cx.rng.below(krange);
                    let k = match kind { KeyKind::Num => K::Num(n), KeyKind::Text => K::Text(format!("k{n}")) };
                    let g = catch(|| t.get(&k)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
                    let want = models[w].get(&k).map(|v| (k.clone(), v.clone()));
                    if !cx.ck("Btree::search", "finds exactly the keys of the map with the latest payload", "btree-lookup", tail, g.as_ref() == Ok(&want), || format!("{:?}", g.as_ref().map(|o| o.as_ref().map(|x| x.1.len())))) { return; }
                }
            }
            let f = catch(|| audit_free(&pg, &mut own)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
            if !cx.ck("Pager free list", "acyclic, disjoint from the trees, head and tail as recorded", "pager-freelist", tail, f.is_ok(), || f.clone().unwrap_err()) { return; }
            let t = audit_total(&pg, &own);
            if !cx.ck("Pager pages", "every page is a tree node, an overflow page or free", "pager-ownership", tail, t.is_ok(), || t.clone().unwrap_err()) { return; }
        }
    }
    if prop == "C11" {
        // dropping a tree frees all its pages, and new trees take them before the file grows
        let total = total_pages(&pg);
        let r = catch(|| trees[0].dealloc()).unwrap_or_else(|p| Err(format!("PANIC {p}")));
        let mut own = Owners::new();
        let a = trees[1].audit(&mut own);
        let f = audit_free(&pg, &mut own).unwrap_or(0);
        let t = audit_total(&pg, &own);
        cx.ck("Btree::dealloc", "all pages of the tree become free", "tree-dealloc", || desc.clone(), r.is_ok() && a.is_ok() && t.is_ok(), || format!("{r:?} {a:?} {t:?}"));
        let n = VTree::new(pg.clone(), KeyKind::Num, min_keys, sib);
        let mut i = 0;
        while total_pages(&pg) == total && i < 3000 { let v = text(cx, 300); if n.insert(&K::Num(i), &v).is_err() { break; } i += 1;
            if i % 50 == 0 { let mut own = Owners::new(); if audit_free(&pg, &mut own).unwrap_or(0) == 0 { break; } } }
        let mut own = Owners::new();
        let left = audit_free(&pg, &mut own);
        cx.ck("Pager::allocate_page", "free pages are used before the file grows", "alloc-reuse", || format!("{desc}; {f} free pages, {i} rows inserted"), total_pages(&pg) == total || left == Ok(0), || format!("the file grew from {total} to {} pages with {left:?} free", total_pages(&pg)));
    }
}

pub fn run(cx: &mut Cx) {
    let prop = cx.prop.clone();
    let n = cx.n(60, 400);
    cx.bound(&format!("{n} random histories of up to 900 operations on two trees of one pager; pages of 4096 and 8192 bytes, payloads up to three pages"));
    for i in 0..n {
        if cx.elapsed() > if cx.thorough { 600.0 } else if prop == "C11" { 35.0 } else { 55.0 } { break; }
        let ops = *cx.rng.pick(&[150usize, 450, 900]);
        history(cx, &prop, ops);
    }
}
