//! Bounded search for concrete calls with which the real clients break P20: a server on the loopback network records what
//! they send and answers from a script.
//! usage: search_c P20   (env: VERIF_SEED, SEARCH_SCALE, SEARCH_LITS, SEARCH_TRACE)
use sourisdb::client::{AsyncClient, ClientError, CreationResult, SyncClient};
use sourisdb::serde_json;
use sourisdb::store::Store;
use sourisdb::types::{binary::BinaryData, integer::Integer};
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 16) as usize % n } }
    fn flip(&mut self) -> bool { self.next() & 0x10_0000 != 0 }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

type R = Result<(), String>;
fn ensure(b: bool, m: impl FnOnce() -> String) -> R { if b { Ok(()) } else { Err(m()) } }

// ---- the server
#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Whole, Chunked, Pieces, Cut, Dropped }
#[derive(Clone)]
struct Script { status: u16, body: Vec<u8>, how: How }
#[derive(Clone, PartialEq, Debug)]
struct Seen { method: String, path: String, query: Vec<(String, String)>, body: Vec<u8> }
struct Server { port: u32, script: Arc<Mutex<Script>>, seen: Arc<Mutex<Vec<Seen>>> }

fn decode(s: &str) -> String {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 { if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) { o.push(x); i += 3; continue; } }
        o.push(if b[i] == b'+' { b' ' } else { b[i] }); i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn serve(mut c: TcpStream, script: &Mutex<Script>, seen: &Mutex<Vec<Seen>>) -> std::io::Result<()> {
    c.set_read_timeout(Some(Duration::from_secs(10)))?; c.set_nodelay(true)?;
    let mut buf = vec![]; let mut tmp = [0_u8; 65536];
    let head = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") { break p; }
        let n = c.read(&mut tmp)?; if n == 0 { return Ok(()); }
        buf.extend_from_slice(&tmp[..n]);
    };
    let text = String::from_utf8_lossy(&buf[..head]).into_owned();
    let mut rest = buf[head + 4..].to_vec();
    let mut lines = text.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let (mut len, mut chunked) = (0, false);
    for l in lines {
        let (k, v) = l.split_once(':').unwrap_or((l, ""));
        if k.eq_ignore_ascii_case("content-length") { len = v.trim().parse().unwrap_or(0); }
        if k.eq_ignore_ascii_case("transfer-encoding") && v.trim().eq_ignore_ascii_case("chunked") { chunked = true; }
    }
    let body = if chunked {
        let mut out = vec![];
        loop {
            let e = loop { if let Some(p) = rest.windows(2).position(|w| w == b"\r\n") { break p; } let n = c.read(&mut tmp)?; if n == 0 { return Ok(()); } rest.extend_from_slice(&tmp[..n]); };
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..e]).trim(), 16).unwrap_or(0);
            while rest.len() < e + 2 + n + 2 { let k = c.read(&mut tmp)?; if k == 0 { return Ok(()); } rest.extend_from_slice(&tmp[..k]); }
            if n == 0 { break; }
            out.extend_from_slice(&rest[e + 2..e + 2 + n]); rest.drain(..e + 2 + n + 2);
        }
        out
    } else {
        while rest.len() < len { let n = c.read(&mut tmp)?; if n == 0 { return Ok(()); } rest.extend_from_slice(&tmp[..n]); }
        rest
    };
    let mut w = first.split(' ');
    let method = w.next().unwrap_or("").to_string(); let target = w.next().unwrap_or("").to_string();
    let (path, q) = target.split_once('?').unwrap_or((&target, ""));
    let mut query: Vec<(String, String)> = q.split('&').filter(|x| !x.is_empty()).map(|x| { let (k, v) = x.split_once('=').unwrap_or((x, "")); (decode(k), decode(v)) }).collect();
    query.sort();
    seen.lock().unwrap().push(Seen { method, path: path.to_string(), query, body });
    let s = script.lock().unwrap().clone();
    if s.how == How::Dropped { return Ok(()); }
    let mut out = format!("HTTP/1.1 {} X\r\nConnection: close\r\n", s.status).into_bytes();
    match s.how {
        How::Chunked => {
            out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            for p in s.body.chunks(77.max(s.body.len() / 9 + 1)) { out.extend_from_slice(format!("{:x}\r\n", p.len()).as_bytes()); out.extend_from_slice(p); out.extend_from_slice(b"\r\n"); }
            out.extend_from_slice(b"0\r\n\r\n");
            c.write_all(&out)?;
        }
        _ => {
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", s.body.len() + if s.how == How::Cut { 7 } else { 0 }).as_bytes());
            c.write_all(&out)?;
            if s.how == How::Pieces { let k = s.body.len() / 3 + 1; for p in s.body.chunks(k) { c.write_all(p)?; c.flush()?; std::thread::sleep(Duration::from_millis(1)); } }
            else { c.write_all(&s.body)?; }
        }
    }
    c.flush()?;
    c.shutdown(std::net::Shutdown::Write)?;
    c.set_read_timeout(Some(Duration::from_millis(500)))?;
    while c.read(&mut tmp).map(|n| n > 0).unwrap_or(false) {}
    Ok(())
}
impl Server {
    fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("no loopback");
        let port = u32::from(l.local_addr().unwrap().port());
        let s = Server { port, script: Arc::new(Mutex::new(Script { status: 200, body: vec![], how: How::Whole })), seen: Arc::default() };
        let (a, b) = (s.script.clone(), s.seen.clone());
        std::thread::spawn(move || for c in l.incoming() { let Ok(c) = c else { continue }; let (a, b) = (a.clone(), b.clone()); std::thread::spawn(move || { let _ = serve(c, &a, &b); }); });
        s
    }
}

// ---- the operations
#[derive(Clone, Debug)]
enum Op {
    Health, Names, New(bool, String), Get(String), With(bool, String, Store),
    Add { db: String, new: bool, over: bool, key: String, v: Value }, RmKey(String, String), RmDb(String),
}
enum Out { Unit, Names(Vec<String>), Bool(bool), Store(Store), Created(CreationResult), Nothing, Status(u16), Other(String) }
impl PartialEq for Out {
    fn eq(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Unit, Out::Unit) | (Out::Nothing, Out::Nothing) | (Out::Other(_), Out::Other(_)) => true,
            (Out::Names(a), Out::Names(b)) => a == b, (Out::Bool(a), Out::Bool(b)) => a == b, (Out::Store(a), Out::Store(b)) => a == b,
            (Out::Created(a), Out::Created(b)) => a == b, (Out::Status(a), Out::Status(b)) => a == b, _ => false,
        }
    }
}
fn cut(s: String) -> String { if s.len() > 300 { let mut n = 300; while !s.is_char_boundary(n) { n -= 1; } format!("{}… ({} bytes)", &s[..n], s.len()) } else { s } }
impl std::fmt::Display for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", match self { Out::Unit => "Ok(())".into(), Out::Names(n) => cut(format!("{n:?}")), Out::Bool(b) => format!("Ok({b})"), Out::Store(s) => cut(format!("{s:?}")), Out::Created(c) => format!("Ok({c})"),
            Out::Nothing => "Ok(None)".into(), Out::Status(n) => format!("the error with status {n}"), Out::Other(e) => format!("an error without a status ({e})") })
    }
}
fn err(e: ClientError) -> Out { match e { ClientError::HttpErrorCode(s) => Out::Status(s.as_u16()), ClientError::ServerNotHealthy(s) => Out::Status(s.as_u16()), e => Out::Other(cut(format!("{e}"))) } }

fn sync_call(c: &SyncClient, port: u32, op: &Op) -> Out {
    let r = match op {
        Op::Health => SyncClient::new("127.0.0.1", port).map(|_| Out::Unit),
        Op::Names => c.get_all_dbs().map(Out::Names),
        Op::New(o, n) => c.create_new_db(*o, n).map(Out::Bool),
        Op::Get(n) => c.get_store(n).map(Out::Store),
        Op::With(o, n, s) => c.add_db_with_contents(*o, n, s).map(Out::Bool),
        Op::Add { db, new, over, key, v } => c.add_entry_to_db(db, *new, *over, key, v).map(Out::Created),
        Op::RmKey(n, k) => c.remove_entry_from_db(n, k).map(|()| Out::Unit),
        Op::RmDb(n) => c.remove_db(n).map(|()| Out::Unit),
    };
    r.unwrap_or_else(err)
}
async fn async_call(c: &AsyncClient, port: u32, op: &Op) -> Out {
    let r = match op {
        Op::Health => AsyncClient::new("127.0.0.1", Some(port)).await.map(|_| Out::Unit),
        Op::Names => c.get_all_dbs().await.map(Out::Names),
        Op::New(o, n) => c.create_new_db(*o, n).await.map(Out::Bool),
        Op::Get(n) => c.get_store(n).await.map(|s| s.map_or(Out::Nothing, Out::Store)),
        Op::With(o, n, s) => c.add_db_with_contents(*o, n, s).await.map(Out::Bool),
        Op::Add { db, new, over, key, v } => c.add_entry_to_db(db, *new, *over, key, v).await.map(Out::Created),
        Op::RmKey(n, k) => c.remove_entry_from_db(n, k).await.map(|()| Out::Unit),
        Op::RmDb(n) => c.remove_db(n).await.map(Out::Bool),
    };
    r.unwrap_or_else(err)
}
fn request(op: &Op) -> (&'static str, &'static str, Vec<(&'static str, String)>) {
    let b = |x: &bool| x.to_string();
    match op {
        Op::Health => ("GET", "/healthcheck", vec![]),
        Op::Names => ("GET", "/v1/get_all_db_names", vec![]),
        Op::New(o, n) => ("POST", "/v1/add_db", vec![("db_name", n.clone()), ("overwrite_existing", b(o))]),
        Op::Get(n) => ("GET", "/v1/get_db", vec![("db_name", n.clone())]),
        Op::With(o, n, _) => ("PUT", "/v1/add_db_with_content", vec![("db_name", n.clone()), ("overwrite_existing", b(o))]),
        Op::Add { db, new, over, key, .. } => ("PUT", "/v1/add_kv", vec![("create_new_database", b(new)), ("db_name", db.clone()), ("key", key.clone()), ("overwrite_key", b(over))]),
        Op::RmKey(n, k) => ("POST", "/v1/rm_kv", vec![("db_name", n.clone()), ("key", k.clone())]),
        Op::RmDb(n) => ("POST", "/v1/rm_db", vec![("db_name", n.clone())]),
    }
}
const CREATED: [(&str, fn() -> CreationResult); 5] = [("InsertedKeyIntoExistingDB", || CreationResult::InsertedKeyIntoExistingDB), ("OverwroteKeyInExistingDB", || CreationResult::OverwroteKeyInExistingDB),
    ("FoundExistingKey", || CreationResult::FoundExistingKey), ("InsertedKeyIntoNewDB", || CreationResult::InsertedKeyIntoNewDB), ("UnableToFindDB", || CreationResult::UnableToFindDB)];
/// what is expected of an operation which is answered by the script
fn expected(op: &Op, s: &Script, sync: bool) -> Out {
    if s.how == How::Dropped { return Out::Other(String::new()); }
    if s.status >= 400 {
        return match op { Op::Get(_) if !sync && s.status == 410 => Out::Nothing, Op::RmDb(_) if !sync && s.status == 410 => Out::Bool(false), _ => Out::Status(s.status) };
    }
    let no = || Out::Other(String::new());
    match op {
        Op::Health | Op::RmKey(..) => Out::Unit,
        Op::RmDb(_) => if sync { Out::Unit } else { Out::Bool(true) },
        Op::New(..) | Op::With(..) => Out::Bool(s.status == 201),
        Op::Names | Op::Get(_) | Op::Add { .. } if s.how == How::Cut => no(),
        Op::Names => serde_json::from_slice(&s.body).map_or_else(|_| no(), Out::Names),
        Op::Get(_) => match catch_unwind(|| Store::deser(&s.body)) { Ok(Ok(s)) => Out::Store(s), _ => no() },
        Op::Add { .. } => serde_json::from_slice::<String>(&s.body).ok().and_then(|t| CREATED.iter().find(|c| c.0 == t).map(|c| Out::Created(c.1()))).unwrap_or_else(no),
    }
}

struct Lits { ints: Vec<i128>, strs: Vec<String> }
fn text(r: &mut Rng, l: &Lits) -> String {
    const POOL: [&str; 24] = ["", "db", "a b", "a&b=c", "a+b", "%41", "100%", "é", "中文", "🖖", "#frag", "?q=1", "../x", "a/b", "a\0b", "new\nline", "\r\nX: y", "true", "key", "db_name", "\"", "\\", ";", "~!*'()"];
    match r.below(7) {
        0 | 1 | 2 => (*r.pick(&POOL)).to_string(),
        3 if !l.strs.is_empty() => r.pick(&l.strs).clone(),
        4 => { let n = match r.below(5) { 0 => 300, 1 => 255, 2 => 3000, _ => 60 }; (0..n).map(|_| (32 + r.below(95) as u8) as char).collect() }
        5 if !l.ints.is_empty() => { let n = usize::try_from(*r.pick(&l.ints)).unwrap_or(1).min(4000); "x".repeat(n) }
        _ => { let n = r.below(12); (0..n).map(|_| loop { if let Some(c) = char::from_u32(if r.flip() { r.below(0x180) as u32 } else { r.next() as u32 % 0x11_0000 }) { break c; } }).collect() }
    }
}
fn value(r: &mut Rng, l: &Lits) -> Value {
    match r.below(7) {
        0 => Value::Null(()), 1 => Value::Boolean(r.flip()), 2 => Value::Integer(Integer::from(r.next() as i64)), 3 => Value::String(text(r, l)),
        4 => { let n = r.below(3000); Value::Binary(BinaryData((0..n).map(|_| r.next() as u8).collect())) }
        5 => { let n = r.below(4); Value::Array((0..n).map(|_| value(r, l)).collect()) }
        _ => Value::DoubleFloat(f64::from_bits(r.next() & 0x7fef_ffff_ffff_ffff)),
    }
}
fn store(r: &mut Rng, l: &Lits) -> Store { let n = r.below(5); let mut s = Store::default(); for _ in 0..n { s.insert(text(r, l), value(r, l)); } s }
fn op(r: &mut Rng, l: &Lits) -> Op {
    match r.below(22) {
        0 => Op::Health, 1 | 2 | 3 => Op::Names, 4 | 5 | 6 => Op::New(r.flip(), text(r, l)), 7 | 8 | 9 => Op::Get(text(r, l)), 10 | 11 | 12 => { let o = r.flip(); let n = text(r, l); Op::With(o, n, store(r, l)) }
        13 | 14 | 15 | 16 => Op::Add { db: text(r, l), new: r.flip(), over: r.flip(), key: text(r, l), v: value(r, l) },
        17 | 18 => Op::RmKey(text(r, l), text(r, l)), _ => Op::RmDb(text(r, l)),
    }
}
fn good(r: &mut Rng, l: &Lits, op: &Op, big: bool) -> Vec<u8> {
    match op {
        Op::Names => { let n = r.below(6); let mut v: Vec<String> = (0..n).map(|_| text(r, l)).collect(); if big { v.push("y".repeat(11 << 20)); } serde_json::to_vec(&v).unwrap() }
        Op::Get(_) => { let mut s = store(r, l); if r.below(4) == 0 { let n = match r.below(4) { 0 => 63, 1 => 64, 2 => 70_000, _ => r.below(500) }; s.insert("pad".into(), Value::Binary(BinaryData((0..n).map(|_| r.next() as u8).collect()))); } s.ser() }
        Op::Add { .. } => format!("\"{}\"", r.pick(&CREATED).0).into_bytes(),
        _ => vec![],
    }
}
fn script(r: &mut Rng, l: &Lits, op: &Op, big: bool) -> Script {
    let fine = match op { Op::New(..) | Op::With(..) => if r.flip() { 200 } else { 201 }, _ => 200 };
    let status = if big || r.below(3) != 0 { fine } else { *r.pick(&[400, 400, 404, 405, 410, 410, 413, 422, 500, 503, 409, 401, 599]) };
    let body = if status == fine && (big || r.below(8) != 0) || r.flip() { good(r, l, op, big) } else { match r.below(4) { 0 => vec![], 1 => b"Unable to find database".to_vec(), 2 => b"[]".to_vec(), _ => { let n = r.below(80); (0..n).map(|_| r.next() as u8).collect() } } };
    let how = match r.below(12) { 0 | 1 => How::Chunked, 2 => How::Pieces, 3 => How::Cut, 4 if r.below(3) == 0 => How::Dropped, _ => How::Whole };
    Script { status, body, how }
}

fn run(seed: u64, lits: &Lits, mut trace: Option<std::fs::File>) -> u64 {
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
    let server = Server::start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let sc = match catch_unwind(AssertUnwindSafe(|| SyncClient::new("127.0.0.1", server.port))) { Ok(Ok(c)) => c, Ok(Err(e)) => fail(0, "SyncClient::new, while the server answers with 200", &format!("{}", err(e))), Err(_) => fail(0, "SyncClient::new", "panicked") };
    let ac = match catch_unwind(AssertUnwindSafe(|| rt.block_on(AsyncClient::new("127.0.0.1", Some(server.port))))) { Ok(Ok(c)) => c, Ok(Err(e)) => fail(0, "AsyncClient::new, while the server answers with 200", &format!("{}", err(e))), Err(_) => fail(0, "AsyncClient::new", "panicked") };
    let scale: f64 = std::env::var("SEARCH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let end = Instant::now() + Duration::from_secs_f64(12.0 * scale);
    let mut n = 0;
    while n < 40 || Instant::now() < end && n < 4000 {
        n += 1;
        let big = n == 20;
        let o = if big { Op::Names } else { op(&mut r, lits) };
        let s = script(&mut r, lits, &o, big);
        for sync in [true, false] {
            let what = || format!("{}::{} answered with status {} and {:?} body {}", if sync { "SyncClient" } else { "AsyncClient" }, cut(format!("{o:?}")), s.status, s.how, cut(format!("{:?}", String::from_utf8_lossy(&s.body[..s.body.len().min(200)]))));
            if let Some(t) = &mut trace { use std::io::Seek; t.set_len(0).unwrap(); t.rewind().unwrap(); t.write_all(what().as_bytes()).unwrap(); }
            STARTED.store(n * 2 + u64::from(sync), std::sync::atomic::Ordering::Relaxed);
            *server.script.lock().unwrap() = s.clone();
            server.seen.lock().unwrap().clear();
            let got = catch_unwind(AssertUnwindSafe(|| if sync { sync_call(&sc, server.port, &o) } else { rt.block_on(async_call(&ac, server.port, &o)) }));
            let got = match got { Ok(g) => g, Err(p) => fail(n, &what(), &format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default())) };
            let seen = server.seen.lock().unwrap().clone();
            if let Err(m) = judge(&o, &s, sync, &seen, &got) { fail(n, &what(), &m) }
        }
    }
    n * 2
}
fn judge(o: &Op, s: &Script, sync: bool, seen: &[Seen], got: &Out) -> R {
    let (method, path, query) = request(o);
    ensure(!seen.is_empty(), || format!("nothing was sent; {got} was returned"))?;
    // (a connection which is dropped may be tried again)
    ensure(seen.len() == 1 || s.how == How::Dropped, || format!("{} requests were sent", seen.len()))?;
    for q in seen {
        ensure(q.method == method && q.path == path, || format!("{} {} was sent instead of {method} {path}", q.method, q.path))?;
        let want: Vec<(String, String)> = query.iter().map(|(k, v)| ((*k).to_string(), v.clone())).collect();
        ensure(q.query == want, || cut(format!("the query {:?} was sent instead of {want:?}", q.query)))?;
        match o {
            Op::With(_, _, st) => ensure(matches!(Store::deser(&q.body), Ok(x) if &x == st), || "the body is not the store".into())?,
            Op::Add { v, .. } => { let mut c = Cursor::new(&q.body); let x = Value::deser(&mut c, None); ensure(matches!(&x, Ok(x) if x == v) && c.is_finished(), || "the body is not the value".into())?; }
            _ => ensure(q.body.is_empty(), || "a body was sent".into())?,
        }
    }
    let want = expected(o, s, sync);
    ensure(&want == got, || format!("{got} was returned instead of {want}"))
}
fn fail(n: u64, what: &str, m: &str) -> ! { println!("FAIL P20 / clients / case {n}\ninput: {what}\nresult: {m}"); std::process::exit(1) }
static STARTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn main() {
    for (k, _) in std::env::vars() { if k.to_lowercase().ends_with("_proxy") { std::env::remove_var(k); } }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut lits = Lits { ints: vec![], strs: vec![] };
    for line in std::env::var("SEARCH_LITS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines() {
        match line.split_at(1.min(line.len())) {
            ("i", r) => lits.ints.extend(r.trim().parse::<i128>().ok()),
            ("s", r) => { if let Ok(serde_json::Value::String(s)) = serde_json::from_str(r.trim()) { lits.strs.push(s) } }
            _ => {}
        }
    }
    let trace = std::env::var("SEARCH_TRACE").ok().and_then(|p| std::fs::File::create(p).ok());
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = STARTED.load(std::sync::atomic::Ordering::Relaxed);
            if now != last.0 { last = (now, Instant::now()); }
            else if now != 0 && last.1.elapsed() > Duration::from_secs(60) { println!("HANG P20 / case {now}"); std::process::exit(4); }
        }
    });
    let out = Out::Unit; let _ = &out;
    let n = run(seed, &lits, trace);
    println!("DONE P20 cases={n}");
    std::process::exit(0);
}
