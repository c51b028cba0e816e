//! C20: the wire protocol. Executable contracts on Request/Response codecs, framing and the server's client loop.
use crate::h::*;
use axmosdb::tcp::*;
use std::io::{Cursor, Read, Write};

pub mod server {
    include!(concat!(env!("OUT_DIR"), "/server.rs"));
}

fn strings(cx: &mut Cx) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "a".into(), "SELECT 1".into(), "ñandú €\u{10348}".into(), "\0\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10ffff}".into(),
        "x".repeat(255), "y".repeat(256), "z".repeat(65536), "é".repeat(70000)];
    for _ in 0..20 {
        let n = cx.rng.below(40);
        v.push((0..n).map(|_| char::from_u32(cx.rng.below(0x3000) as u32 + 1).unwrap_or('?')).collect());
    }
    v
}

fn requests(cx: &mut Cx) -> Vec<Request> {
    let mut v = vec![Request::Begin, Request::Rollback, Request::Commit, Request::Vacuum, Request::Close, Request::Ping, Request::Shutdown];
    for s in strings(cx) {
        v.push(Request::Create(s.clone())); v.push(Request::Open(s.clone())); v.push(Request::Sql(s.clone())); v.push(Request::Explain(s));
    }
    for r in [0.0, -0.0, 1.0, 0.1, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY] {
        for m in [0usize, 1, 255, 256, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX] { v.push(Request::Analyze { sample_rate: r, max_sample_rows: m }); }
    }
    v
}

fn responses(cx: &mut Cx) -> Vec<Response> {
    let mut v = vec![Response::SessionStarted, Response::SessionEnd, Response::Pong, Response::Goodbye, Response::ShuttingDown];
    for s in strings(cx) {
        v.push(Response::Ok(s.clone())); v.push(Response::Error(s.clone())); v.push(Response::Ddl(s.clone())); v.push(Response::Explain(s));
    }
    for n in [0u64, 1, 255, 256, 1 << 31, 1 << 32, (1 << 32) + 7, 1 << 63, u64::MAX] {
        v.push(Response::RowsAffected(n));
        v.push(Response::VacuumComplete { tables_vacuumed: n as usize, bytes_freed: (n / 3) as usize, transactions_cleaned: (n ^ 0xff) as usize });
    }
    let pool = strings(cx);
    for (c, r) in [(0, 0), (1, 0), (3, 0), (1, 1), (2, 1), (1, 7), (5, 4), (17, 3), (300, 2), (2, 300), (1, 70000), (256, 256)] {
        let big = c * r > 1000;
        let mut st = || if big { "v".to_string() } else { let i = cx.rng.below(pool.len() as u64) as usize; if pool[i].len() > 1000 { "".into() } else { pool[i].clone() } };
        let columns: Vec<String> = (0..c).map(|_| st()).collect();
        let data: Vec<Vec<String>> = (0..r).map(|_| (0..c).map(|_| st()).collect()).collect();
        v.push(Response::Rows { columns, data });
    }
    v
}

fn dbg(x: &impl std::fmt::Debug) -> String { format!("{:?}", x) }
fn short(s: String) -> String { if s.len() > 300 { format!("{}… ({} bytes)", s.chars().take(200).collect::<String>(), s.len()) } else { s } }
fn hex(b: &[u8]) -> String { short(b.iter().map(|x| format!("{x:02x}")).collect()) }

/// A reader handing out at most `step` bytes per call, with interruptions.
struct Slow<'a> { d: &'a [u8], p: usize, step: usize, k: usize }
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.k += 1;
        if self.k % 3 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(self.step).min(self.d.len() - self.p);
        b[..n].copy_from_slice(&self.d[self.p..self.p + n]); self.p += n; Ok(n)
    }
}
struct SlowW { d: Vec<u8>, k: usize }
impl Write for SlowW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.k += 1; if self.k % 3 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); } let n = b.len().min(1 + self.k * 997); self.d.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// every byte string either decodes to a message whose encoding it is, or is an error
fn exact(cx: &mut Cx, d: &[u8], what: &str) {
    at(&format!("decode | {}", hex(d)));
    for kind in ["Request::from_bytes", "Response::from_bytes"] {
        let r = catch(|| if kind.starts_with("Req") { Request::from_bytes(d).map(|r| r.to_bytes()) } else { Response::from_bytes(d).map(|r| r.to_bytes()) });
        let (ok, got) = match &r { Err(p) => (false, format!("panic {p}")), Ok(Ok(b)) => (b == d, format!("accepted as the message encoded {}", hex(b))), Ok(Err(_)) => (true, String::new()) };
        cx.ck(kind, "a byte string is accepted only if it is the encoding of the returned message", &format!("garbage:{kind}"), || format!("{what} {}", hex(d)), ok, || got);
    }
}

pub fn run(cx: &mut Cx) {
    cx.bound("codec: ~450 messages, every truncation of short ones, mutated/random byte strings (seeded), frames up to MAX_MESSAGE_SIZE+1");
    let reqs = requests(cx);
    let resps = responses(cx);
    let mut encs: Vec<Vec<u8>> = vec![];
    for r in &reqs {
        let s = short(dbg(r));
        at(&format!("request | {s}"));
        let got = catch(|| { let b = r.to_bytes(); (Request::from_bytes(&b).map_err(|e| e.to_string()), b) });
        match got {
            Ok((x, b)) => { cx.ck("Request::to_bytes/from_bytes", "decode(encode(m)) = m", "roundtrip:request", || s.clone(), x.as_ref() == Ok(r), || short(dbg(&x))); encs.push(b); }
            Err(p) => cx.fail("Request::to_bytes/from_bytes", "no panic", "panic:request", &s, &p),
        }
        let mut w = SlowW { d: vec![], k: 0 };
        let sent = send_request(&mut w, r).map_err(|e| e.to_string());
        cx.ck("send_request", "a request within the size limit is sent", "send:request", || s.clone(), sent.is_ok(), || dbg(&sent));
        let framed_ok = w.d.len() == 4 + r.to_bytes().len() && w.d[..4] == ((w.d.len() - 4) as u32).to_le_bytes();
        cx.ck("write_message", "frame = u32 LE length ++ bytes", "frame:request", || s.clone(), framed_ok, || hex(&w.d));
        // two messages back to back through a slow reader
        let mut two = w.d.clone(); two.extend_from_slice(&w.d);
        let mut rd = Slow { d: &two, p: 0, step: 1 + (two.len() / 5), k: 0 };
        for _ in 0..2 {
            let x = recv_request(&mut rd).map_err(|e| e.to_string());
            cx.ck("recv_request", "receives exactly what was sent", "recv:request", || s.clone(), x.as_ref() == Ok(r), || short(dbg(&x)));
        }
    }
    for r in &resps {
        let s = short(dbg(r)); let full = dbg(r);
        at(&format!("response | {s}"));
        let got = catch(|| { let b = r.to_bytes(); (Response::from_bytes(&b).map_err(|e| e.to_string()), b) });
        match got {
            Ok((x, b)) => { let d = x.as_ref().map(|y| dbg(y)).unwrap_or_else(|e| e.clone()); cx.ck("Response::to_bytes/from_bytes", "decode(encode(m)) = m", "roundtrip:response", || s.clone(), d == full, || short(d.clone())); encs.push(b); }
            Err(p) => cx.fail("Response::to_bytes/from_bytes", "no panic", "panic:response", &s, &p),
        }
        let mut w = SlowW { d: vec![], k: 0 };
        let sent = send_response(&mut w, r).map_err(|e| e.to_string());
        cx.ck("send_response", "a response within the size limit is sent", "send:response", || s.clone(), sent.is_ok(), || dbg(&sent));
        let mut rd = Slow { d: &w.d, p: 0, step: 1 + w.d.len() / 3, k: 0 };
        let x = recv_response(&mut rd).map(|y| dbg(&y)).map_err(|e| e.to_string());
        cx.ck("recv_response", "receives exactly what was sent", "recv:response", || s.clone(), x.as_ref().ok() == Some(&full), || short(dbg(&x)));
    }
    // maximal sizes
    for n in [MAX_MESSAGE_SIZE - 7, MAX_MESSAGE_SIZE - 6, MAX_MESSAGE_SIZE - 5] {
        at(&format!("maximal | {n}"));
        let r = Request::Sql("s".repeat(n));
        let mut w = Vec::new();
        let fits = n + 6 <= MAX_MESSAGE_SIZE;
        let sent = send_request(&mut w, &r);
        cx.ck("write_message", "messages up to MAX_MESSAGE_SIZE are sent, larger ones are refused with nothing written", "max:send", || format!("{n}"), sent.is_ok() == fits && (fits || w.is_empty()), || format!("{:?} {}", sent.map_err(|e| e.to_string()), w.len()));
        if fits { let x = recv_request(&mut Cursor::new(&w)); cx.ck("read_message", "a maximal message is received as sent", "max:recv", || format!("{n}"), x.as_ref().ok() == Some(&r), || format!("{:?}", x.map(|_| "other message").map_err(|e| e.to_string()))); }
    }
    // garbage
    let enc_small: Vec<Vec<u8>> = encs.iter().filter(|e| e.len() < 400).cloned().collect();
    for e in &enc_small {
        for k in 0..e.len() { exact(cx, &e[..k], "truncation"); }
        let mut t = e.clone(); t.push(0); exact(cx, &t, "trailing"); t.extend_from_slice(&[1, 2, 3, 4]); exact(cx, &t, "trailing");
    }
    let n = cx.n(6000, 200000);
    for _ in 0..n {
        let mut d = cx.rng.pick(&enc_small).clone();
        for _ in 0..1 + cx.rng.below(3) {
            match cx.rng.below(4) {
                0 if !d.is_empty() => { let i = cx.rng.below(d.len() as u64) as usize; d[i] = cx.rng.next() as u8; }
                1 if d.len() > 2 => { let i = 2 + cx.rng.below(d.len() as u64 - 2) as usize; let v = *cx.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); d[i] = v; }
                2 => { let i = cx.rng.below(d.len() as u64 + 1) as usize; let v = cx.rng.next() as u8; d.insert(i, v); }
                _ if !d.is_empty() => { let i = cx.rng.below(d.len() as u64) as usize; d.remove(i); }
                _ => {}
            }
        }
        exact(cx, &d, "mutation");
    }
    for v in 0..=255u8 { for c in 0..=255u8 { if v <= 3 || c < 16 { exact(cx, &[v, c], "header"); exact(cx, &[v, c, 0, 0, 0, 0], "header"); exact(cx, &[v, c, 0xff, 0xff, 0xff, 0xff], "header"); exact(cx, &[v, c, 1, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0x7f], "header"); } } }
    // non-UTF-8
    for bad in [&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82]] {
        for (tag, _) in [(0x01u8, 0), (0x03, 0)] { let mut d = vec![1, tag]; d.extend_from_slice(&(bad.len() as u32).to_le_bytes()); d.extend_from_slice(bad); exact(cx, &d, "non-utf8"); }
    }
    // frames: bad lengths never block nor allocate the claimed size
    for len in [MAX_MESSAGE_SIZE as u32 + 1, 1 << 25, u32::MAX - 3, u32::MAX] {
        let mut d = len.to_le_bytes().to_vec(); d.extend_from_slice(&[1, 7, 0, 0]);
        at(&format!("frame | {len}"));
        let r = read_message(&mut Cursor::new(&d));
        cx.ck("read_message", "a length above MAX_MESSAGE_SIZE is refused as MessageTooLarge before anything is read or allocated", "frame:toolarge", || format!("{len}"), matches!(r, Err(TcpError::MessageTooLarge(n)) if n == len as usize), || format!("{:?}", r.map(|b| b.len())));
    }
    for k in 0..4 { let d = vec![0u8; k]; let r = read_message(&mut Cursor::new(&d)); cx.ck("read_message", "a short frame is an error", "frame:short", || format!("{k} bytes"), r.is_err(), || "accepted".into()); }
    for have in [0usize, 1, 9] { let mut d = 10u32.to_le_bytes().to_vec(); d.extend(vec![1u8; have]); let r = read_message(&mut Cursor::new(&d)); cx.ck("read_message", "a short frame is an error", "frame:short", || format!("10 announced, {have} sent"), r.is_err(), || "accepted".into()); }
    let e = read_message(&mut Cursor::new(&0u32.to_le_bytes().to_vec()));
    cx.ck("read_message", "an empty frame is an empty message", "frame:empty", || "0".into(), matches!(&e, Ok(b) if b.is_empty()), || format!("{:?}", e));
    serve(cx);
}

fn serve(cx: &mut Cx) {
    cx.bound("server loop: one in-process client at a time over loopback, 12 SQL statements, 9 malformed byte strings");
    use axmosdb::{DBConfig, Database};
    use std::net::{TcpListener, TcpStream};
    use std::time::Duration;
    let dir = cx.dir();
    let cfg = DBConfig::builder().pool_size(2).build();
    let h = server::vfacade::H::new(cfg);
    h.open(Database::create(dir.join("s.db"), cfg).unwrap());
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let connect = || { let c = TcpStream::connect(addr).unwrap(); c.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        let (s, _) = l.accept().unwrap(); let h = h.clone(); let t = std::thread::spawn(move || h.serve(s).map_err(|e| e.to_string())); (c, t) };
    let (mut c, t) = connect();
    let mut ask = |cx: &mut Cx, r: Request| -> Result<Response, String> { at(&format!("server | {:?}", r)); send_request(&mut c, &r).map_err(|e| e.to_string())?; recv_response(&mut c).map_err(|e| e.to_string()) };
    let expect: Vec<(&str, &str)> = vec![
        ("CREATE TABLE t (id BIGINT, name TEXT)", "Ddl"),
        ("SELECT id, name FROM t", "Rows {\"columns\": 2, \"rows\": []}"),
        ("INSERT INTO t VALUES (1, 'ñ€'), (2, '')", "RowsAffected(2)"),
        ("SELECT name FROM t WHERE id = 1", "[[\"ñ€\"]]"),
        ("SELECT nope FROM t", "Error"),
        ("garbage", "Error"),
        ("SELECT id FROM t WHERE id = 2", "[[\"2\"]]"),
    ];
    for (sql, want) in expect {
        let r = ask(cx, Request::Sql(sql.into()));
        let ok = match (&r, want) {
            (Ok(Response::Ddl(_)), "Ddl") => true,
            (Ok(Response::Error(_)), "Error") => true,
            (Ok(Response::RowsAffected(n)), w) => w == format!("RowsAffected({n})"),
            (Ok(Response::Rows { columns, data }), w) => if w.starts_with("Rows") { columns.len() == 2 && data.is_empty() } else { format!("{data:?}") == w && columns.len() == 1 },
            _ => false,
        };
        cx.ck("run_client_loop", "every request is answered with the response to it, carrying every column and row", "server:answer", || sql.into(), ok, || format!("{r:?}"));
    }
    let r = ask(cx, Request::Ping);
    cx.ck("run_client_loop", "PING is answered", "server:answer", || "PING".into(), matches!(r, Ok(Response::Pong)), || format!("{r:?}"));
    drop(c);
    let _ = t.join();
    // malformed
    for bad in [vec![0u8, 0, 0, 0], vec![1, 0, 0, 0, 9], vec![2, 0, 0, 0, 1, 0x55], vec![2, 0, 0, 0, 2, 7], vec![7, 0, 0, 0, 1, 3, 255, 255, 255, 255, 0], vec![255, 255, 255, 255],
                vec![3, 0, 0, 0, 1, 7, 0], vec![7, 0, 0, 0, 1, 3, 1, 0, 0, 0, 0xff], vec![0, 0, 0, 2, 1, 1]] {
        let (mut c, t) = connect();
        at(&format!("server | garbage {}", hex(&bad)));
        let _ = c.write_all(&bad); let _ = c.shutdown(std::net::Shutdown::Write);
        let r = recv_response(&mut c).map_err(|e| e.to_string());
        let complete = bad.len() >= 4 && { let n = u32::from_le_bytes(bad[..4].try_into().unwrap()) as usize; n > MAX_MESSAGE_SIZE || bad.len() >= 4 + n };
        let ok = match &r { Ok(Response::Error(_)) => true, Ok(_) => false, Err(_) => !complete };
        cx.ck("run_client_loop", "a malformed frame is answered with an error response", "server:garbage", || hex(&bad), ok, || format!("{r:?}"));
        let j = t.join();
        cx.ck("run_client_loop", "a malformed frame does not crash the connection thread", "server:crash", || hex(&bad), j.is_ok(), || last_panic());
    }
    let (mut c, t) = connect();
    let _ = send_request(&mut c, &Request::Ping);
    let r = recv_response(&mut c).map_err(|e| e.to_string());
    cx.ck("run_client_loop", "the server keeps serving after malformed input", "server:alive", || "PING".into(), matches!(r, Ok(Response::Pong)), || format!("{r:?}"));
    drop(c); let _ = t.join();
}
