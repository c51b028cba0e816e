// C20  wire protocol: the real encoder/decoder of tcp/mod.rs against a mathematical wire format.
#![allow(unused_imports, dead_code, unused_variables, non_snake_case)]
use vstd::prelude::*;
use vstd::utf8::*;
verus!{
broadcast use vstd::utf8::group_utf8_lib;

// ------------------------------------------------------------------ wire format (spec)
#[verifier::opaque]
pub open spec fn le(n: nat, k: nat) -> Seq<u8> decreases k {
    if k == 0 { seq![] } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) }
}
#[verifier::opaque]
pub open spec fn unle(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { b[0] as nat + 256 * unle(b.drop_first()) }
}
#[verifier::opaque]
pub open spec fn lim(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * lim((k - 1) as nat) } }

proof fn le_len(n: nat, k: nat) ensures le(n, k).len() == k decreases k { reveal(le);
    if k > 0 { le_len(n / 256, (k - 1) as nat); }
}
proof fn unle_le(n: nat, k: nat) requires n < lim(k) ensures unle(le(n, k)) == n decreases k { reveal(le); reveal(unle); reveal(lim);
    if k > 0 {
        unle_le(n / 256, (k - 1) as nat);
        let s = le(n, k);
        assert(s.drop_first() =~= le(n / 256, (k - 1) as nat));
        assert(s[0] == (n % 256) as u8);
    }
}
proof fn le_unle(b: Seq<u8>) ensures le(unle(b), b.len()) =~= b, unle(b) < lim(b.len()) decreases b.len() { reveal(le); reveal(unle); reveal(lim);
    if b.len() > 0 {
        le_unle(b.drop_first());
        let m = unle(b.drop_first());
        assert(unle(b) % 256 == b[0] as nat && unle(b) / 256 == m) by (nonlinear_arith)
            requires unle(b) == b[0] as nat + 256 * m, (b[0] as nat) < 256;
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
proof fn lims() ensures lim(4) == 0x1_0000_0000nat, lim(8) == 0x1_0000_0000_0000_0000nat {
    reveal_with_fuel(lim, 9);
}


 
 
 
 
 
fn main(){}
global size_of usize == 8;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);

pub assume_specification[String::from_utf8](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => valid_utf8(v@) && s@ == decode_utf8(v@), Err(_) => !valid_utf8(v@) };

/// `<[u8]>::to_vec`
pub trait ShimToVec { fn shim_to_vec(&self) -> Vec<u8>; }
impl ShimToVec for [u8] { #[verifier::external_body] fn shim_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
/// language guarantee: an object is never larger than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_slice_len(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff { }

#[verifier::external_body]
pub fn shim_format() -> (r: String) { unimplemented!() }

/// `<[u8; N]>::try_from(&[u8])`, via `b[x..y].try_into().unwrap()`
#[verifier::external_body]
pub fn shim_array4(b: &[u8]) -> (r: [u8; 4]) requires b@.len() == 4 ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn shim_array8(b: &[u8]) -> (r: [u8; 8]) requires b@.len() == 8 ensures r@ == b@ { unimplemented!() }

/// allocation is a contract: nothing may be reserved beyond the size of the message being decoded
#[verifier::external_body]
pub fn shim_with_capacity<T>(Ghost(budget): Ghost<nat>, n: usize) -> (r: Vec<T>)
    requires n <= budget ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn shim_zeroed(n: usize, Ghost(budget): Ghost<nat>) -> (r: Vec<u8>)
    requires n <= budget ensures r@.len() == n { unimplemented!() }

pub uninterp spec fn f64_bits(x: f64) -> nat;

/// `to_le_bytes` / `from_le_bytes` of the integer types (and of f64: same bit pattern, NaN payloads included)
pub trait ShimLe4: Sized { spec fn val(self) -> nat; fn shim_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == le(self.val(), 4); }
pub trait ShimLe8: Sized { spec fn val(self) -> nat; fn shim_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == le(self.val(), 8); }
impl ShimLe4 for u32 { open spec fn val(self) -> nat { self as nat } #[verifier::external_body] fn shim_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
impl ShimLe8 for u64 { open spec fn val(self) -> nat { self as nat } #[verifier::external_body] fn shim_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
impl ShimLe8 for f64 { open spec fn val(self) -> nat { f64_bits(self) } #[verifier::external_body] fn shim_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
#[verifier::external_body]
pub fn shim_u32_from_le(b: [u8; 4]) -> (r: u32) ensures r as nat == unle(b@) { unimplemented!() }
#[verifier::external_body]
pub fn shim_u64_from_le(b: [u8; 8]) -> (r: u64) ensures r as nat == unle(b@) { unimplemented!() }
#[verifier::external_body]
pub fn shim_f64_from_le(b: [u8; 8]) -> (r: f64) ensures f64_bits(r) == unle(b@) { unimplemented!() }

// strings ---------------------------------------------------------------------------------
pub open spec fn u32_of(n: nat) -> nat { (n as u32) as nat }
#[verifier::opaque]
pub open spec fn enc_str(s: Seq<char>) -> Seq<u8> { le(u32_of(encode_utf8(s).len()), 4) + encode_utf8(s) }
pub open spec fn fits(s: Seq<char>) -> bool { encode_utf8(s).len() < 0x1_0000_0000 }

/// front parser of one length-prefixed string
#[verifier::opaque]
pub open spec fn dec_str(d: Seq<u8>) -> Option<(Seq<char>, nat)> {
    if d.len() < 4 { None } else {
        let n = unle(d.subrange(0, 4));
        if d.len() < 4 + n { None }
        else if !valid_utf8(d.subrange(4, (4 + n) as int)) { None }
        else { Some((decode_utf8(d.subrange(4, (4 + n) as int)), (4 + n) as nat)) }
    }
}
pub proof fn dec_enc_str(s: Seq<char>, tail: Seq<u8>) requires fits(s)
    ensures dec_str(enc_str(s) + tail) == Some((s, enc_str(s).len())), enc_str(s).len() == 4 + encode_utf8(s).len()
{ reveal(enc_str); reveal(dec_str);
    let u = encode_utf8(s);
    let d = enc_str(s) + tail;
    lims(); le_len(u.len(), 4); unle_le(u.len(), 4);
    assert(d.subrange(0, 4) =~= le(u.len(), 4));
    assert(d.subrange(4, (4 + u.len()) as int) =~= u);
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}
pub proof fn enc_dec_str(d: Seq<u8>)
    ensures dec_str(d) matches Some((s, n)) ==> fits(s) && 4 <= n <= d.len() && d.subrange(0, n as int) == enc_str(s)
{ reveal(enc_str); reveal(dec_str);
    if let Some((s, n)) = dec_str(d) {
        let h = d.subrange(0, 4);
        le_unle(h); lims();
        let u = d.subrange(4, n as int);
        decode_utf8_encode_utf8(u);
        assert(encode_utf8(s) == u);
        assert(d.subrange(0, n as int) =~= h + u);
    }
}
#[verifier::opaque]
pub open spec fn enc_strs(v: Seq<Seq<char>>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { seq![] } else { enc_strs(v.drop_last()) + enc_str(v.last()) }
}
#[verifier::opaque]
pub open spec fn dec_strs(d: Seq<u8>, n: nat) -> Option<(Seq<Seq<char>>, nat)> decreases n {
    if n == 0 { Some((seq![], 0nat)) } else {
        match dec_strs(d, (n - 1) as nat) {
            None => None,
            Some((v, k)) => match dec_str(d.subrange(k as int, d.len() as int)) {
                None => None,
                Some((s, l)) => Some((v.push(s), k + l)),
            }
        }
    }
}
pub open spec fn all_fit(v: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < v.len() ==> fits(#[trigger] v[i]) }

pub proof fn dec_strs_len(d: Seq<u8>, n: nat)
    ensures dec_strs(d, n) matches Some((v, k)) ==> v.len() == n && 4 * n <= k <= d.len() && d.subrange(0, k as int) == enc_strs(v) && all_fit(v)
    decreases n
{ reveal(dec_strs); reveal(enc_strs);
    if n > 0 {
        dec_strs_len(d, (n - 1) as nat);
        if let Some((v, k)) = dec_strs(d, (n - 1) as nat) {
            let r = d.subrange(k as int, d.len() as int);
            enc_dec_str(r);
            if let Some((s, l)) = dec_str(r) {
                assert(v.push(s).drop_last() =~= v);
                assert(d.subrange(0, (k + l) as int) =~= d.subrange(0, k as int) + r.subrange(0, l as int));
                assert forall|i: int| 0 <= i < v.push(s).len() implies fits(#[trigger] v.push(s)[i]) by {
                    if i < v.len() { assert(v.push(s)[i] == v[i]); }
                }
            }
        }
    } else {
        assert(d.subrange(0, 0) =~= seq![]);
    }
}
pub proof fn dec_enc_strs(v: Seq<Seq<char>>, tail: Seq<u8>) requires all_fit(v)
    ensures dec_strs(enc_strs(v) + tail, v.len()) == Some((v, enc_strs(v).len()))
    decreases v.len()
{ reveal(dec_strs); reveal(enc_strs);
    if v.len() > 0 {
        let w = v.drop_last();
        let t2 = enc_str(v.last()) + tail;
        assert forall|i: int| 0 <= i < w.len() implies fits(#[trigger] w[i]) by { assert(w[i] == v[i]); }
        dec_enc_strs(w, t2);
        assert(enc_strs(v) + tail =~= enc_strs(w) + t2);
        let d = enc_strs(v) + tail;
        let k = enc_strs(w).len();
        assert(d.subrange(k as int, d.len() as int) =~= t2);
        assert(fits(v[v.len() - 1]));
        dec_enc_str(v.last(), tail);
        assert(w.push(v.last()) =~= v);
    } else {
        assert(v =~= seq![]);
    }
}
/// a failing prefix makes the whole list fail
pub proof fn dec_strs_none(d: Seq<u8>, m: nat, n: nat) requires m <= n, dec_strs(d, m) is None ensures dec_strs(d, n) is None decreases n { reveal(dec_strs);
    if m < n { dec_strs_none(d, m, (n - 1) as nat); }
}
// rows: row-major, the column count is known
#[verifier::opaque]
pub open spec fn enc_rows(v: Seq<Seq<Seq<char>>>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { seq![] } else { enc_rows(v.drop_last()) + enc_strs(v.last()) }
}
#[verifier::opaque]
pub open spec fn dec_rows(d: Seq<u8>, n: nat, c: nat) -> Option<(Seq<Seq<Seq<char>>>, nat)> decreases n {
    if n == 0 { Some((seq![], 0nat)) } else {
        match dec_rows(d, (n - 1) as nat, c) {
            None => None,
            Some((v, k)) => match dec_strs(d.subrange(k as int, d.len() as int), c) {
                None => None,
                Some((s, l)) => Some((v.push(s), k + l)),
            }
        }
    }
}
pub open spec fn rows_fit(v: Seq<Seq<Seq<char>>>, c: nat) -> bool {
    forall|i: int| 0 <= i < v.len() ==> all_fit(#[trigger] v[i]) && v[i].len() == c
}
pub proof fn dec_rows_len(d: Seq<u8>, n: nat, c: nat)
    ensures dec_rows(d, n, c) matches Some((v, k)) ==> v.len() == n && k <= d.len() && d.subrange(0, k as int) == enc_rows(v) && rows_fit(v, c)
        && (c > 0 ==> 4 * n <= k)
    decreases n
{ reveal(dec_rows); reveal(enc_rows);
    if n > 0 {
        dec_rows_len(d, (n - 1) as nat, c);
        if let Some((v, k)) = dec_rows(d, (n - 1) as nat, c) {
            let r = d.subrange(k as int, d.len() as int);
            dec_strs_len(r, c);
            if let Some((s, l)) = dec_strs(r, c) {
                assert(v.push(s).drop_last() =~= v);
                assert(d.subrange(0, (k + l) as int) =~= d.subrange(0, k as int) + r.subrange(0, l as int));
                assert forall|i: int| 0 <= i < v.push(s).len() implies all_fit(#[trigger] v.push(s)[i]) && v.push(s)[i].len() == c by {
                    if i < v.len() { assert(v.push(s)[i] == v[i]); }
                }
            }
        }
    } else {
        assert(d.subrange(0, 0) =~= seq![]);
    }
}
pub proof fn dec_enc_rows(v: Seq<Seq<Seq<char>>>, c: nat, tail: Seq<u8>) requires rows_fit(v, c)
    ensures dec_rows(enc_rows(v) + tail, v.len(), c) == Some((v, enc_rows(v).len()))
    decreases v.len()
{ reveal(dec_rows); reveal(enc_rows);
    if v.len() > 0 {
        let w = v.drop_last();
        let t2 = enc_strs(v.last()) + tail;
        assert forall|i: int| 0 <= i < w.len() implies all_fit(#[trigger] w[i]) && w[i].len() == c by { assert(w[i] == v[i]); }
        dec_enc_rows(w, c, t2);
        assert(enc_rows(v) + tail =~= enc_rows(w) + t2);
        let d = enc_rows(v) + tail;
        let k = enc_rows(w).len();
        assert(d.subrange(k as int, d.len() as int) =~= t2);
        assert(all_fit(v[v.len() - 1]));
        dec_enc_strs(v.last(), tail);
        assert(w.push(v.last()) =~= v);
    } else {
        assert(v =~= seq![]);
    }
}
pub proof fn dec_rows_none(d: Seq<u8>, m: nat, n: nat, c: nat) requires m <= n, dec_rows(d, m, c) is None ensures dec_rows(d, n, c) is None decreases n { reveal(dec_rows);
    if m < n { dec_rows_none(d, m, (n - 1) as nat, c); }
}
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn rviews(v: Seq<Vec<String>>) -> Seq<Seq<Seq<char>>> { v.map_values(|s: Vec<String>| views(s@)) }

pub proof fn views_push(v: Seq<String>, s: String) ensures views(v.push(s)) == views(v).push(s@) {
    assert(views(v.push(s)) =~= views(v).push(s@));
}
pub proof fn rviews_push(v: Seq<Vec<String>>, s: Vec<String>) ensures rviews(v.push(s)) == rviews(v).push(views(s@)) {
    assert(rviews(v.push(s)) =~= rviews(v).push(views(s@)));
}
pub proof fn enc_strs_push(v: Seq<Seq<char>>, s: Seq<char>) ensures enc_strs(v.push(s)) == enc_strs(v) + enc_str(s) { reveal(enc_strs);
    assert(v.push(s).drop_last() =~= v);
}
pub proof fn enc_rows_push(v: Seq<Seq<Seq<char>>>, s: Seq<Seq<char>>) ensures enc_rows(v.push(s)) == enc_rows(v) + enc_strs(s) { reveal(enc_rows);
    assert(v.push(s).drop_last() =~= v);
}

// ------------------------------------------------------------------ messages (spec)
pub enum Req { Create(Seq<char>), Open(Seq<char>), Sql(Seq<char>), Begin, Rollback, Commit, Explain(Seq<char>), Analyze(nat, nat), Vacuum, Close, Ping, Shutdown }
pub open spec fn req_view(r: Request) -> Req {
    match r {
        Request::Create(s) => Req::Create(s@), Request::Open(s) => Req::Open(s@), Request::Sql(s) => Req::Sql(s@),
        Request::Begin => Req::Begin, Request::Rollback => Req::Rollback, Request::Commit => Req::Commit,
        Request::Explain(s) => Req::Explain(s@),
        Request::Analyze { sample_rate, max_sample_rows } => Req::Analyze(f64_bits(sample_rate), max_sample_rows as nat),
        Request::Vacuum => Req::Vacuum, Request::Close => Req::Close, Request::Ping => Req::Ping, Request::Shutdown => Req::Shutdown,
    }
}
pub open spec fn req_body(r: Req) -> (u8, Seq<u8>) {
    match r {
        Req::Create(s) => (0x01u8, enc_str(s)), Req::Open(s) => (0x02u8, enc_str(s)), Req::Sql(s) => (0x03u8, enc_str(s)),
        Req::Explain(s) => (0x04u8, enc_str(s)), Req::Analyze(a, b) => (0x05u8, le(a, 8) + le(b, 8)),
        Req::Close => (0x06u8, seq![]), Req::Ping => (0x07u8, seq![]), Req::Vacuum => (0x09u8, seq![]),
        Req::Begin => (0x0Au8, seq![]), Req::Commit => (0x0Bu8, seq![]), Req::Rollback => (0x0Cu8, seq![]), Req::Shutdown => (0xFFu8, seq![]),
    }
}
pub open spec fn enc_req(r: Req) -> Seq<u8> { seq![PROTOCOL_VERSION, req_body(r).0] + req_body(r).1 }
pub open spec fn req_fits(r: Req) -> bool {
    match r {
        Req::Create(s) => fits(s), Req::Open(s) => fits(s), Req::Sql(s) => fits(s), Req::Explain(s) => fits(s),
        Req::Analyze(a, b) => a < lim(8) && b < lim(8), _ => true,
    }
}
#[verifier::opaque]
pub open spec fn whole(d: Seq<u8>) -> Option<Seq<char>> {
    match dec_str(d) { Some((s, n)) => if n == d.len() { Some(s) } else { None }, None => None }
}
pub open spec fn dec_req(d: Seq<u8>) -> Option<Req> {
    if d.len() < 2 || d[0] != PROTOCOL_VERSION { None } else {
        let p = d.subrange(2, d.len() as int);
        let c = d[1];
        if c == 0x01 { match whole(p) { Some(s) => Some(Req::Create(s)), None => None } }
        else if c == 0x02 { match whole(p) { Some(s) => Some(Req::Open(s)), None => None } }
        else if c == 0x03 { match whole(p) { Some(s) => Some(Req::Sql(s)), None => None } }
        else if c == 0x04 { match whole(p) { Some(s) => Some(Req::Explain(s)), None => None } }
        else if c == 0x05 { if p.len() == 16 { Some(Req::Analyze(unle(p.subrange(0, 8)), unle(p.subrange(8, 16)))) } else { None } }
        else if p.len() != 0 { None }
        else if c == 0x06 { Some(Req::Close) } else if c == 0x07 { Some(Req::Ping) } else if c == 0x09 { Some(Req::Vacuum) }
        else if c == 0x0A { Some(Req::Begin) } else if c == 0x0B { Some(Req::Commit) } else if c == 0x0C { Some(Req::Rollback) }
        else if c == 0xFF { Some(Req::Shutdown) } else { None }
    }
}
/// THEOREM  every request survives encode + decode
pub proof fn thm_req_roundtrip(r: Req) requires req_fits(r) ensures dec_req(enc_req(r)) == Some(r) { reveal(whole);
    let d = enc_req(r);
    let p = d.subrange(2, d.len() as int);
    assert(p =~= req_body(r).1);
    match r {
        Req::Create(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Req::Open(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Req::Sql(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Req::Explain(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Req::Analyze(a, b) => {
            le_len(a, 8); le_len(b, 8); unle_le(a, 8); unle_le(b, 8);
            assert(p.subrange(0, 8) =~= le(a, 8)); assert(p.subrange(8, 16) =~= le(b, 8));
        }
        _ => {}
    }
}
/// THEOREM  the decoder accepts nothing but encodings of requests
pub proof fn thm_req_garbage(d: Seq<u8>) ensures dec_req(d) matches Some(r) ==> d == enc_req(r) && req_fits(r) { reveal(whole);
    if d.len() >= 2 {
        let p = d.subrange(2, d.len() as int);
        enc_dec_str(p); lims();
        if p.len() == 16 {
            le_unle(p.subrange(0, 8)); le_unle(p.subrange(8, 16));
            assert(p =~= p.subrange(0, 8) + p.subrange(8, 16));
        }
        assert(p.subrange(0, p.len() as int) =~= p);
        if let Some(r) = dec_req(d) { assert(d =~= enc_req(r)); }
    }
}

pub enum Resp { Ok(Seq<char>), Error(Seq<char>), Rows(Seq<Seq<char>>, Seq<Seq<Seq<char>>>), SessionStarted, SessionEnd, RowsAffected(nat),
    Ddl(Seq<char>), Explain(Seq<char>), VacuumComplete(nat, nat, nat), Pong, Goodbye, ShuttingDown }
pub open spec fn resp_view(r: Response) -> Resp {
    match r {
        Response::Ok(s) => Resp::Ok(s@), Response::Error(s) => Resp::Error(s@),
        Response::Rows { columns, data } => Resp::Rows(views(columns@), rviews(data@)),
        Response::SessionStarted => Resp::SessionStarted, Response::SessionEnd => Resp::SessionEnd,
        Response::RowsAffected(n) => Resp::RowsAffected(n as nat), Response::Ddl(s) => Resp::Ddl(s@), Response::Explain(s) => Resp::Explain(s@),
        Response::VacuumComplete { tables_vacuumed, bytes_freed, transactions_cleaned } => Resp::VacuumComplete(tables_vacuumed as nat, bytes_freed as nat, transactions_cleaned as nat),
        Response::Pong => Resp::Pong, Response::Goodbye => Resp::Goodbye, Response::ShuttingDown => Resp::ShuttingDown,
    }
}
#[verifier::opaque]
pub open spec fn rows_body(c: Seq<Seq<char>>, v: Seq<Seq<Seq<char>>>) -> Seq<u8> {
    le(u32_of(c.len()), 4) + enc_strs(c) + le(u32_of(v.len()), 4) + enc_rows(v)
}
pub open spec fn resp_body(r: Resp) -> (u8, Seq<u8>) {
    match r {
        Resp::Ok(s) => (0x00u8, enc_str(s)), Resp::Error(s) => (0x01u8, enc_str(s)), Resp::Rows(c, v) => (0x02u8, rows_body(c, v)),
        Resp::RowsAffected(n) => (0x03u8, le(n, 8)), Resp::Ddl(s) => (0x04u8, enc_str(s)), Resp::Explain(s) => (0x05u8, enc_str(s)),
        Resp::Pong => (0x06u8, seq![]), Resp::Goodbye => (0x07u8, seq![]), Resp::ShuttingDown => (0x08u8, seq![]),
        Resp::VacuumComplete(a, b, c) => (0x09u8, le(a, 8) + le(b, 8) + le(c, 8)),
        Resp::SessionStarted => (0x0Au8, seq![]), Resp::SessionEnd => (0x0Bu8, seq![]),
    }
}
pub open spec fn enc_resp(r: Resp) -> Seq<u8> { seq![PROTOCOL_VERSION, resp_body(r).0] + resp_body(r).1 }
/// a result set: every row has one value per column (so rows without columns do not exist)
pub open spec fn resp_ok(r: Resp) -> bool {
    match r {
        Resp::Ok(s) => fits(s), Resp::Error(s) => fits(s), Resp::Ddl(s) => fits(s), Resp::Explain(s) => fits(s),
        Resp::RowsAffected(n) => n < lim(8), Resp::VacuumComplete(a, b, c) => a < lim(8) && b < lim(8) && c < lim(8),
        Resp::Rows(c, v) => all_fit(c) && rows_fit(v, c.len()) && c.len() < lim(4) && v.len() < lim(4) && (c.len() == 0 ==> v.len() == 0),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn dec_rows_body(p: Seq<u8>) -> Option<Resp> {
    if p.len() < 4 { None } else {
        let cc = unle(p.subrange(0, 4));
        let p1 = p.subrange(4, p.len() as int);
        match dec_strs(p1, cc) {
            None => None,
            Some((cols, k)) => {
                let p2 = p1.subrange(k as int, p1.len() as int);
                if p2.len() < 4 { None } else {
                    let rc = unle(p2.subrange(0, 4));
                    let p3 = p2.subrange(4, p2.len() as int);
                    if cc == 0 && rc > 0 { None } else {
                        match dec_rows(p3, rc, cc) {
                            None => None,
                            Some((v, k2)) => if k2 == p3.len() { Some(Resp::Rows(cols, v)) } else { None }
                        }
                    }
                }
            }
        }
    }
}
pub open spec fn dec_resp(d: Seq<u8>) -> Option<Resp> {
    if d.len() < 2 || d[0] != PROTOCOL_VERSION { None } else {
        let p = d.subrange(2, d.len() as int);
        let c = d[1];
        if c == 0x00 { match whole(p) { Some(s) => Some(Resp::Ok(s)), None => None } }
        else if c == 0x01 { match whole(p) { Some(s) => Some(Resp::Error(s)), None => None } }
        else if c == 0x02 { dec_rows_body(p) }
        else if c == 0x03 { if p.len() == 8 { Some(Resp::RowsAffected(unle(p.subrange(0, 8)))) } else { None } }
        else if c == 0x04 { match whole(p) { Some(s) => Some(Resp::Ddl(s)), None => None } }
        else if c == 0x05 { match whole(p) { Some(s) => Some(Resp::Explain(s)), None => None } }
        else if c == 0x09 { if p.len() == 24 { Some(Resp::VacuumComplete(unle(p.subrange(0, 8)), unle(p.subrange(8, 16)), unle(p.subrange(16, 24)))) } else { None } }
        else if p.len() != 0 { None }
        else if c == 0x06 { Some(Resp::Pong) } else if c == 0x07 { Some(Resp::Goodbye) } else if c == 0x08 { Some(Resp::ShuttingDown) }
        else if c == 0x0A { Some(Resp::SessionStarted) } else if c == 0x0B { Some(Resp::SessionEnd) } else { None }
    }
}
pub proof fn rows_garbage(p: Seq<u8>) ensures dec_rows_body(p) matches Some(r) ==> r is Rows && resp_ok(r) && p == resp_body(r).1 { reveal(rows_body); reveal(dec_rows_body);
        lims();
        if p.len() >= 4 {
            let cc = unle(p.subrange(0, 4));
            le_unle(p.subrange(0, 4));
            let p1 = p.subrange(4, p.len() as int);
            dec_strs_len(p1, cc);
            if let Some((cols, k)) = dec_strs(p1, cc) {
                let p2 = p1.subrange(k as int, p1.len() as int);
                if p2.len() >= 4 {
                    let rc = unle(p2.subrange(0, 4));
                    le_unle(p2.subrange(0, 4));
                    let p3 = p2.subrange(4, p2.len() as int);
                    dec_rows_len(p3, rc, cc);
                    if let Some((v, k2)) = dec_rows(p3, rc, cc) {
                        if k2 == p3.len() {
                            assert(p3.subrange(0, k2 as int) =~= p3);
                            assert(p =~= rows_body(cols, v));
                        }
                    }
                }
            }
        }
}
/// THEOREM  every response survives encode + decode
pub proof fn thm_resp_roundtrip(r: Resp) requires resp_ok(r) ensures dec_resp(enc_resp(r)) == Some(r) { reveal(whole);
    let d = enc_resp(r);
    let p = d.subrange(2, d.len() as int);
    assert(p =~= resp_body(r).1);
    lims();
    match r {
        Resp::Ok(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Resp::Error(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Resp::Ddl(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Resp::Explain(s) => { dec_enc_str(s, seq![]); assert(enc_str(s) + seq![] =~= enc_str(s)); }
        Resp::RowsAffected(n) => { le_len(n, 8); unle_le(n, 8); assert(p.subrange(0, 8) =~= le(n, 8)); }
        Resp::VacuumComplete(a, b, c) => {
            le_len(a, 8); le_len(b, 8); le_len(c, 8); unle_le(a, 8); unle_le(b, 8); unle_le(c, 8);
            assert(p.subrange(0, 8) =~= le(a, 8)); assert(p.subrange(8, 16) =~= le(b, 8)); assert(p.subrange(16, 24) =~= le(c, 8));
        }
        Resp::Rows(c, v) => { rows_roundtrip(c, v); }
        _ => {}
    }
}
pub proof fn rows_roundtrip(c: Seq<Seq<char>>, v: Seq<Seq<Seq<char>>>) requires resp_ok(Resp::Rows(c, v))
    ensures dec_rows_body(rows_body(c, v)) == Some(Resp::Rows(c, v))
{ reveal(rows_body); reveal(dec_rows_body);
            lims();
            let p = rows_body(c, v);
            let (h, e, h2, e2) = (le(u32_of(c.len()), 4), enc_strs(c), le(u32_of(v.len()), 4), enc_rows(v));
            le_len(c.len(), 4); le_len(v.len(), 4); unle_le(c.len(), 4); unle_le(v.len(), 4);
            assert(p.subrange(0, 4) =~= h);
            let p1 = p.subrange(4, p.len() as int);
            assert(p1 =~= e + (h2 + e2));
            dec_enc_strs(c, h2 + e2);
            let p2 = p1.subrange(e.len() as int, p1.len() as int);
            assert(p2 =~= h2 + e2);
            assert(p2.subrange(0, 4) =~= h2);
            let p3 = p2.subrange(4, p2.len() as int);
            assert(p3 =~= e2);
            dec_enc_rows(v, c.len(), seq![]);
            assert(e2 + seq![] =~= e2);
}
/// THEOREM  the decoder accepts nothing but encodings of well-formed responses
pub proof fn thm_resp_garbage(d: Seq<u8>) ensures dec_resp(d) matches Some(r) ==> d == enc_resp(r) && resp_ok(r) { reveal(whole);
    if d.len() >= 2 {
        let p = d.subrange(2, d.len() as int);
        enc_dec_str(p); lims();
        assert(p.subrange(0, p.len() as int) =~= p);
        if p.len() == 8 { le_unle(p.subrange(0, 8)); assert(p =~= p.subrange(0, 8)); }
        if p.len() == 24 {
            le_unle(p.subrange(0, 8)); le_unle(p.subrange(8, 16)); le_unle(p.subrange(16, 24));
            assert(p =~= p.subrange(0, 8) + p.subrange(8, 16) + p.subrange(16, 24));
        }
        rows_garbage(p);
        if let Some(r) = dec_resp(d) { assert(d =~= enc_resp(r)); }
    }
}

// ------------------------------------------------------------------ the real code
//@extract crates/axmos-db/src/tcp/mod.rs : const PROTOCOL_VERSION
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : const MAX_MESSAGE_SIZE
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : enum TcpError
//@rewrite \bio::Error ==> std::io::Error
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : enum Request
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : enum StatusCode
//@attrs
#[derive(Clone, Copy)]
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : enum Response
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn write_string
//@rewrite \.to_le_bytes\(\) ==> .shim_to_le_bytes()
//@spec
    ensures final(buf)@ == old(buf)@ + enc_str(s@)
//@at start
    proof { lims(); reveal(enc_str); }
//@at end
    proof { assert(buf@ =~= old(buf)@ + enc_str(s@)); }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn read_string_with_len
//@rewrite? \.to_vec\(\) ==> .shim_to_vec()
//@ret r
//@rewrite u32::from_le_bytes\(\s*(\w+\[[^\]]*\])\s*\.try_into\(\)\s*\.unwrap\(\) ==> shim_u32_from_le(shim_array4(&\1)
//@spec
    ensures match r {
        Ok((s, n)) => dec_str(data@) == Some((s@, n as nat)) && 4 <= n <= data@.len(),
        Err(_) => dec_str(data@) is None,
    }
//@at start
    proof { lims(); reveal(dec_str); axiom_slice_len(data); if data@.len() >= 4 { le_unle(data@.subrange(0, 4)); } }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn read_string
//@ret r
//@spec
    ensures match r { Ok(s) => whole(data@) == Some(s@), Err(_) => whole(data@) is None }
//@at start
    proof { reveal(whole); }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : impl Request / fn to_bytes
//@rewrite \.to_le_bytes\(\) ==> .shim_to_le_bytes()
//@ret r
//@spec
    ensures r@ == enc_req(req_view(*self))
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : impl Request / fn from_bytes
//@ret r
//@rewrite f64::from_le_bytes\(\s*(\w+\[[^\]]*\])\s*\.try_into\(\)\s*\.unwrap\(\) ==> shim_f64_from_le(shim_array8(&\1)
//@rewrite u64::from_le_bytes\(\s*(\w+\[[^\]]*\])\s*\.try_into\(\)\s*\.unwrap\(\) ==> shim_u64_from_le(shim_array8(&\1)
//@spec
    ensures match r { Ok(m) => dec_req(data@) == Some(req_view(m)), Err(_) => dec_req(data@) is None }
//@at start
    proof { lims(); if data@.len() >= 18 { le_unle(data@.subrange(10, 18)); } }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : impl TryFrom<u8> for StatusCode / fn try_from
//@header impl StatusCode
//@ret r
//@spec
    ensures match r { Ok(s) => s as u8 == value, Err(_) => value > 0x0B }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : impl Response / fn to_bytes
//@rewrite \.to_le_bytes\(\) ==> .shim_to_le_bytes()
//@ret r
//@spec
    ensures r@ == enc_resp(resp_view(*self))
//@iter 0 ic
//@iter 1 ir
//@iter 2 iv
//@at loop 0 before
    let ghost b0 = buf@;
    proof { reveal(enc_strs); reveal(enc_rows); reveal(rows_body); }
//@loop 0
    invariant buf@ == b0 + enc_strs(views(columns@).take(ic.index@ as int)), ic.index@ <= columns@.len(),
//@at loop 0 body-end
    proof {
        let w = views(columns@);
        assert(w.take(ic.index@ + 1) =~= w.take(ic.index@ as int).push(col@));
        enc_strs_push(w.take(ic.index@ as int), col@);
        assert(buf@ =~= b0 + enc_strs(w.take(ic.index@ + 1)));
    }
//@at loop 0 after
    proof { assert(views(columns@).take(columns@.len() as int) =~= views(columns@)); }
//@at loop 1 before
    let ghost b1 = buf@;
//@loop 1
    invariant buf@ == b1 + enc_rows(rviews(data@).take(ir.index@ as int)), ir.index@ <= data@.len(),
//@at loop 1 body-start
    let ghost b2 = buf@;
    proof { reveal(enc_strs); }
//@loop 2
    invariant buf@ == b2 + enc_strs(views(row@).take(iv.index@ as int)), iv.index@ <= row@.len(),
//@at loop 2 body-end
    proof {
        let w = views(row@);
        assert(w.take(iv.index@ + 1) =~= w.take(iv.index@ as int).push(value@));
        enc_strs_push(w.take(iv.index@ as int), value@);
        assert(buf@ =~= b2 + enc_strs(w.take(iv.index@ + 1)));
    }
//@at loop 1 body-end
    proof {
        let w = rviews(data@);
        assert(views(row@).take(row@.len() as int) =~= views(row@));
        assert(w.take(ir.index@ + 1) =~= w.take(ir.index@ as int).push(views(row@)));
        enc_rows_push(w.take(ir.index@ as int), views(row@));
        assert(buf@ =~= b1 + enc_rows(w.take(ir.index@ + 1)));
    }
//@at loop 1 after
    proof { assert(rviews(data@).take(data@.len() as int) =~= rviews(data@)); }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : impl Response / fn from_bytes
//@attrs
#[verifier::loop_isolation(false)]
//@ret r
//@rewrite u32::from_le_bytes\(\s*(\w+\[[^\]]*\])\s*\.try_into\(\)\s*\.unwrap\(\) ==> shim_u32_from_le(shim_array4(&\1)
//@rewrite u64::from_le_bytes\(\s*(\w+\[[^\]]*\])\s*\.try_into\(\)\s*\.unwrap\(\) ==> shim_u64_from_le(shim_array8(&\1)
//@rewrite? Vec::with_capacity\( ==> shim_with_capacity(Ghost(payload@.len()), 
//@spec
    ensures match r { Ok(m) => dec_resp(data@) == Some(resp_view(m)), Err(_) => dec_resp(data@) is None }
//@iter 0 ic
//@iter 1 ir
//@iter 2 iv
//@at start
    proof { lims(); reveal(dec_rows_body); if data@.len() >= 6 { le_unle(data@.subrange(2, 6)); } }
    let ghost d0 = data@; let ghost d00 = data@;
//@at loop 0 before
    let ghost p1 = payload@.subrange(4, payload@.len() as int);
    proof { axiom_slice_len(payload); reveal(dec_strs); assert(views(columns@) =~= seq![]); }
//@loop 0
    invariant
        payload@.len() >= 4, payload@.len() <= 0x7fff_ffff_ffff_ffff, p1 == payload@.subrange(4, payload@.len() as int), 4 <= offset <= payload@.len(),
        columns@.len() == ic.index@, ic.index@ <= col_count,
        d0.len() >= 2, d0[0] == PROTOCOL_VERSION, d0[1] == 2, payload@ == d0.subrange(2, d0.len() as int), d0 == d00,
        col_count == unle(payload@.subrange(0, 4)),
        dec_strs(p1, columns@.len()) == Some((views(columns@), (offset - 4) as nat)),
//@at loop 0 body-start
    proof {
        let rest = payload@.subrange(offset as int, payload@.len() as int);
        assert(p1.subrange(offset - 4, p1.len() as int) =~= rest);
        enc_dec_str(rest);
        if dec_str(rest) is None {
            reveal(dec_strs); reveal(dec_rows_body); assert(dec_strs(p1, (columns@.len() + 1) as nat) is None);
            dec_strs_none(p1, (columns@.len() + 1) as nat, col_count as nat);
        }
    }
    let ghost c0 = columns@;
//@at loop 0 body-end
    proof { views_push(c0, col); reveal(dec_strs); }
//@at loop 0 after
    proof {
        axiom_slice_len(payload); reveal(dec_rows_body);
        dec_strs_len(p1, col_count as nat);
        assert(p1.subrange(offset - 4, p1.len() as int) =~= payload@.subrange(offset as int, payload@.len() as int));
        if payload@.len() >= offset + 4 {
            let p2 = payload@.subrange(offset as int, payload@.len() as int);
            le_unle(payload@.subrange(offset as int, offset + 4));
            assert(p2.subrange(0, 4) =~= payload@.subrange(offset as int, offset + 4));
        }
    }
//@at loop 1 before
    let ghost p3 = payload@.subrange(offset as int, payload@.len() as int);
    let ghost o3 = offset as int;
    proof {
        let p2 = p1.subrange(o3 - 8, p1.len() as int);
        assert(p2.subrange(4, p2.len() as int) =~= p3);
        reveal(dec_rows); assert(rviews(data@) =~= seq![]);
    }
//@loop 1
    invariant
        payload@.len() <= 0x7fff_ffff_ffff_ffff, 8 <= o3 <= offset <= payload@.len(), p3 == payload@.subrange(o3, payload@.len() as int),
        data@.len() == ir.index@, ir.index@ <= row_count,
        d0.len() >= 2, d0[0] == PROTOCOL_VERSION, d0[1] == 2, payload@ == d0.subrange(2, d0.len() as int), d0 == d00,
        col_count == unle(payload@.subrange(0, 4)), 4 * col_count <= payload@.len(),
        p1 == payload@.subrange(4, payload@.len() as int),
        dec_strs(p1, col_count as nat) == Some((views(columns@), (o3 - 8) as nat)),
        p3 == p1.subrange(o3 - 8, p1.len() as int).subrange(4, p1.len() - (o3 - 8)),
        row_count == unle(p1.subrange(o3 - 8, p1.len() as int).subrange(0, 4)), !(col_count == 0 && row_count > 0),
        dec_rows(p3, data@.len(), col_count as nat) == Some((rviews(data@), (offset - o3) as nat)),
//@at loop 1 body-start
    let ghost r0 = p3.subrange(offset - o3, p3.len() as int);
    let ghost or = offset as int;
    let ghost dd = data@;
    proof { reveal(dec_strs); assert(views(seq![]) =~= seq![]); }
//@loop 2
    invariant
        payload@.len() <= 0x7fff_ffff_ffff_ffff, 8 <= o3 <= or <= offset <= payload@.len(), p3 == payload@.subrange(o3, payload@.len() as int),
        r0 == p3.subrange(or - o3, p3.len() as int),
        row@.len() == iv.index@, iv.index@ <= col_count, data@ == dd, dd.len() < row_count,
        d0.len() >= 2, d0[0] == PROTOCOL_VERSION, d0[1] == 2, payload@ == d0.subrange(2, d0.len() as int), d0 == d00,
        col_count == unle(payload@.subrange(0, 4)),
        p1 == payload@.subrange(4, payload@.len() as int),
        dec_strs(p1, col_count as nat) == Some((views(columns@), (o3 - 8) as nat)),
        p3 == p1.subrange(o3 - 8, p1.len() as int).subrange(4, p1.len() - (o3 - 8)),
        row_count == unle(p1.subrange(o3 - 8, p1.len() as int).subrange(0, 4)), !(col_count == 0 && row_count > 0),
        dec_rows(p3, dd.len(), col_count as nat) == Some((rviews(dd), (or - o3) as nat)),
        dec_strs(r0, row@.len()) == Some((views(row@), (offset - or) as nat)),
//@at loop 2 body-start
    proof {
        let rest = payload@.subrange(offset as int, payload@.len() as int);
        assert(r0.subrange(offset - or, r0.len() as int) =~= rest);
        enc_dec_str(rest);
        if dec_str(rest) is None {
            reveal(dec_strs); reveal(dec_rows); reveal(dec_rows_body);
            assert(dec_strs(r0, (row@.len() + 1) as nat) is None);
            dec_strs_none(r0, (row@.len() + 1) as nat, col_count as nat);
            assert(dec_rows(p3, (dd.len() + 1) as nat, col_count as nat) is None);
            dec_rows_none(p3, (dd.len() + 1) as nat, row_count as nat, col_count as nat);
        }
    }
    let ghost c0 = row@;
//@at loop 2 body-end
    proof { views_push(c0, value); reveal(dec_strs); }
//@at loop 1 body-end
    proof { rviews_push(dd, row); reveal(dec_rows); }
//@end

// ------------------------------------------------------------------ framing
/// std::io::Read / std::io::Write over a ghost byte stream.  `read_exact` either consumes exactly the
/// requested bytes or fails; `write_all` either appends exactly the given bytes or fails.
pub trait ShimRead {
    spec fn input(&self) -> Seq<u8>;
    /// no transport error will occur
    spec fn reliable(&self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), std::io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).input() == final(buf)@ + final(self).input(),
            old(self).reliable() ==> final(self).reliable(),
            old(self).reliable() && old(self).input().len() >= old(buf)@.len() ==> r is Ok;
}
pub trait ShimWrite {
    spec fn output(&self) -> Seq<u8>;
    spec fn reliable(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>)
        ensures r is Ok ==> final(self).output() == old(self).output() + buf@,
            old(self).reliable() ==> final(self).reliable() && r is Ok;
    fn flush(&mut self) -> (r: Result<(), std::io::Error>)
        ensures r is Ok ==> final(self).output() == old(self).output(),
            old(self).reliable() ==> final(self).reliable() && r is Ok;
}
pub open spec fn frame(d: Seq<u8>) -> Seq<u8> { le(d.len(), 4) + d }

impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for TcpError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::io::Error) -> Self { TcpError::Io(e) }
}
//@extract crates/axmos-db/src/tcp/mod.rs : impl From<io::Error> for TcpError / fn from
//@header impl From<std::io::Error> for TcpError
//@rewrite \bio::Error ==> std::io::Error
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn read_message
//@ret r
//@rewrite \bRead\b ==> ShimRead
//@rewrite u32::from_le_bytes\( ==> shim_u32_from_le(
//@rewrite? vec!\[0u8; (\w+)\] ==> shim_zeroed(\1, Ghost(MAX_MESSAGE_SIZE as nat))
//@spec
    ensures
        r matches Ok(d) ==> old(reader).input() == frame(d@) + final(reader).input() && d@.len() <= MAX_MESSAGE_SIZE,
        // completeness: a frame up to and including the maximal size is received
        old(reader).reliable() ==> final(reader).reliable(),
        forall|d: Seq<u8>, t: Seq<u8>| old(reader).reliable() && d.len() <= MAX_MESSAGE_SIZE && old(reader).input() == #[trigger] (frame(d) + t)
            ==> r is Ok,
//@at start
    proof {
        lims();
        assert forall|d: Seq<u8>, t: Seq<u8>| reader.input() == #[trigger] (frame(d) + t) implies reader.input().len() >= 4 by { le_len(d.len(), 4); }
    }
    let ghost in0 = reader.input();
//@at before if len > MAX_MESSAGE_SIZE
    proof {
        assert forall|d: Seq<u8>, t: Seq<u8>| d.len() <= MAX_MESSAGE_SIZE && in0 == #[trigger] (frame(d) + t)
            implies len == d.len() && reader.input() == d + t by {
            le_len(d.len(), 4); unle_le(d.len(), 4);
            assert(in0.subrange(0, 4) =~= le(d.len(), 4));
            assert(in0.subrange(0, 4) =~= len_buf@);
            assert(in0.subrange(4, in0.len() as int) =~= d + t);
            assert(in0.subrange(4, in0.len() as int) =~= reader.input());
        }
        assert forall|d: Seq<u8>, t: Seq<u8>| d.len() <= MAX_MESSAGE_SIZE && in0 == #[trigger] (frame(d) + t)
            implies len <= MAX_MESSAGE_SIZE && reader.input().len() >= len by { }
    }
//@at before Ok ( buf )
    proof {
        le_unle(len_buf@);
        assert(old(reader).input() =~= frame(buf@) + reader.input());
    }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn write_message
//@ret r
//@rewrite \bWrite\b ==> ShimWrite
//@rewrite \.to_le_bytes\(\) ==> .shim_to_le_bytes()
//@spec
    ensures
        r is Ok ==> final(writer).output() == old(writer).output() + frame(data@) && data@.len() <= MAX_MESSAGE_SIZE,
        data@.len() > MAX_MESSAGE_SIZE ==> r is Err,
        old(writer).reliable() && data@.len() <= MAX_MESSAGE_SIZE ==> r is Ok,
        old(writer).reliable() ==> final(writer).reliable(),
//@at before Ok ( ( ) )
    proof { assert(writer.output() =~= old(writer).output() + frame(data@)); }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn send_request
//@ret r
//@rewrite \bWrite\b ==> ShimWrite
//@spec
    ensures r is Ok ==> final(writer).output() == old(writer).output() + frame(enc_req(req_view(*request)))
        && enc_req(req_view(*request)).len() <= MAX_MESSAGE_SIZE,
        old(writer).reliable() && enc_req(req_view(*request)).len() <= MAX_MESSAGE_SIZE ==> r is Ok,
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn send_response
//@ret r
//@rewrite \bWrite\b ==> ShimWrite
//@spec
    ensures r is Ok ==> final(writer).output() == old(writer).output() + frame(enc_resp(resp_view(*response)))
        && enc_resp(resp_view(*response)).len() <= MAX_MESSAGE_SIZE,
        old(writer).reliable() && enc_resp(resp_view(*response)).len() <= MAX_MESSAGE_SIZE ==> r is Ok,
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn recv_request
//@ret r
//@rewrite \bRead\b ==> ShimRead
//@spec
    ensures r matches Ok(m) ==> req_fits(req_view(m)) && enc_req(req_view(m)).len() <= MAX_MESSAGE_SIZE
        && old(reader).input() == frame(enc_req(req_view(m))) + final(reader).input(),
        // completeness: every encoding of a message is received
        forall|m: Req, t: Seq<u8>| old(reader).reliable() && req_fits(m) && enc_req(m).len() <= MAX_MESSAGE_SIZE
            && old(reader).input() == #[trigger] (frame(enc_req(m)) + t) ==> r is Ok,
//@at start
    let ghost in0 = reader.input();
    proof { lims(); }
//@at before Request :: from_bytes
    proof {
        thm_req_garbage(data@);
        assert forall|m: Req, t: Seq<u8>| req_fits(m) && enc_req(m).len() <= MAX_MESSAGE_SIZE && in0 == #[trigger] (frame(enc_req(m)) + t)
            implies dec_req(data@) is Some by {
            thm_frame_unique(data@, enc_req(m), reader.input(), t);
            thm_req_roundtrip(m);
        }
    }
//@end
//@extract crates/axmos-db/src/tcp/mod.rs : fn recv_response
//@ret r
//@rewrite \bRead\b ==> ShimRead
//@spec
    ensures r matches Ok(m) ==> resp_ok(resp_view(m)) && enc_resp(resp_view(m)).len() <= MAX_MESSAGE_SIZE
        && old(reader).input() == frame(enc_resp(resp_view(m))) + final(reader).input(),
        // completeness: every encoding of a message is received
        forall|m: Resp, t: Seq<u8>| old(reader).reliable() && resp_ok(m) && enc_resp(m).len() <= MAX_MESSAGE_SIZE
            && old(reader).input() == #[trigger] (frame(enc_resp(m)) + t) ==> r is Ok,
//@at start
    let ghost in0 = reader.input();
    proof { lims(); }
//@at before Response :: from_bytes
    proof {
        thm_resp_garbage(data@);
        assert forall|m: Resp, t: Seq<u8>| resp_ok(m) && enc_resp(m).len() <= MAX_MESSAGE_SIZE && in0 == #[trigger] (frame(enc_resp(m)) + t)
            implies dec_resp(data@) is Some by {
            thm_frame_unique(data@, enc_resp(m), reader.input(), t);
            thm_resp_roundtrip(m);
        }
    }
//@end

/// the cap is what keeps the allocation of one frame bounded
pub proof fn cap_is_bounded() ensures MAX_MESSAGE_SIZE <= 0x400_0000 {}

/// frames are self-delimiting: a stream starts with at most one frame
pub proof fn thm_frame_unique(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a.len() < lim(4), b.len() < lim(4), frame(a) + x == frame(b) + y
    ensures a == b, x == y
{
    lims();
    le_len(a.len(), 4); le_len(b.len(), 4); unle_le(a.len(), 4); unle_le(b.len(), 4);
    let f = frame(a) + x;
    assert(f.subrange(0, 4) =~= le(a.len(), 4));
    assert((frame(b) + y).subrange(0, 4) =~= le(b.len(), 4));
    assert(f.subrange(4, (4 + a.len()) as int) =~= a);
    assert((frame(b) + y).subrange(4, (4 + b.len()) as int) =~= b);
    assert(f.subrange((4 + a.len()) as int, f.len() as int) =~= x);
    assert((frame(b) + y).subrange((4 + b.len()) as int, f.len() as int) =~= y);
}
/// THEOREM (C20)  what recv_request returns is what send_request was given, and nothing of the stream is lost
pub proof fn thm_request_wire(sent: Req, got: Req, rest: Seq<u8>, rest2: Seq<u8>)
    requires req_fits(sent), req_fits(got), enc_req(sent).len() <= MAX_MESSAGE_SIZE, enc_req(got).len() <= MAX_MESSAGE_SIZE,
        frame(enc_req(sent)) + rest == frame(enc_req(got)) + rest2
    ensures sent == got, rest == rest2
{
    lims();
    thm_frame_unique(enc_req(sent), enc_req(got), rest, rest2);
    thm_req_roundtrip(sent); thm_req_roundtrip(got);
}
pub proof fn thm_response_wire(sent: Resp, got: Resp, rest: Seq<u8>, rest2: Seq<u8>)
    requires resp_ok(sent), resp_ok(got), enc_resp(sent).len() <= MAX_MESSAGE_SIZE, enc_resp(got).len() <= MAX_MESSAGE_SIZE,
        frame(enc_resp(sent)) + rest == frame(enc_resp(got)) + rest2
    ensures sent == got, rest == rest2
{
    lims();
    thm_frame_unique(enc_resp(sent), enc_resp(got), rest, rest2);
    thm_resp_roundtrip(sent); thm_resp_roundtrip(got);
}
} // verus!
