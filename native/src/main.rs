#![allow(warnings)]
mod h;
mod c20;
mod db;
mod sql;
mod c05;
mod c10;
mod c16;
mod c17;
mod c18;
mod c19;
mod hist;
mod crash;
mod props;
mod many;
mod focus;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let tier = opt("--tier", "quick");
    let seed: u64 = opt("--seed", "1").parse().unwrap_or(1);
    let mut cx = h::Cx::new(&prop, &tier, seed, 45);
    // run on a thread with a large stack: the harness itself must not overflow
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match prop.as_str() {
            "C20" => c20::run(&mut cx),
            "C05" => { many::named(&mut cx); c05::run(&mut cx) }
            "C10" => c10::run(&mut cx),
            "C01" => { props::c01(&mut cx); crash::c01(&mut cx) } "C02" => { focus::refused(&mut cx); props::c02(&mut cx); crash::c02(&mut cx) }, "C03" => { focus::refused(&mut cx); props::c03(&mut cx) }, "C04" => { focus::writers(&mut cx); props::c04(&mut cx) },
            "C06" => props::c06(&mut cx), "C07" => { focus::notnull(&mut cx); focus::unique(&mut cx); focus::writers(&mut cx); props::c07(&mut cx) }, "C08" => crash::c08(&mut cx), "C09" => { many::objects(&mut cx); many::many(&mut cx); props::c09(&mut cx) },
            "C11" => { many::large(&mut cx); props::c11(&mut cx) }, "C12" => props::c12(&mut cx), "C13" => { many::cycles(&mut cx); props::c13(&mut cx) }, "C15" => { many::objects(&mut cx); props::c15(&mut cx) }, "C16" => { c16::run(&mut cx); props::c16(&mut cx) },
            "C17" => c17::run(&mut cx), "C18" => c18::run(&mut cx), "C19" => c19::run(&mut cx),
            "PROBE" => { for p in ["C02","C03","C04","C05","C06","C07","C15","C16","C18"] { println!("AT {p}"); cx.prop = p.into(); many::probes(&mut cx); } }
            "LARGE" => { let t = std::time::Instant::now(); many::large(&mut cx); println!("large {:?}", t.elapsed()); many::objects(&mut cx); println!("objects {:?}", t.elapsed()); }
            "REPL" => db::repl(&mut cx),
            _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
        }
        if std::env::var("NOPROBE").is_err() { many::probes(&mut cx); }
        cx.finish();
    }).unwrap();
    if t.join().is_err() {
        println!("AT harness panic: {} (last: {})", h::last_panic(), h::LAST_AT.lock().map(|g| g.clone()).unwrap_or_default());
        std::process::exit(5);
    }
}
