//! Bounded search for histories, schedules and faults with which the real daemon breaks a property.
//! usage: search_d <P16|P17|P18|P19>  (env: VERIF_SEED, SEARCH_SCALE, SEARCH_LITS, SEARCH_DIR)
#![allow(clippy::all, clippy::pedantic)]
use crate::v1_routes::{
    db::{add_db, add_db_with_content, clear_db, get_all_dbs, get_db, remove_db},
    state::SourisState,
    value::{add_kv, get_value, rm_key},
};
use axum::{body::Body, http::{Request, StatusCode}, routing::{get, post, put}, Router};
use sourisdb::{store::Store, utilities::cursor::Cursor, values::Value};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};
use tower::ServiceExt;

pub struct Rng(u64);
impl Rng {
    fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03 | 1) }
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 16) as usize % n } }
    fn flip(&mut self) -> bool { self.next() & 0x10_0000 != 0 }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

type Contents = BTreeMap<String, Value>;
type R = Result<(), String>;

#[derive(Clone, PartialEq)]
enum Op {
    AddDb { db: String, over: bool },
    AddDbContent { db: String, over: bool, with: Contents },
    Clear { db: String },
    Remove { db: String },
    GetDb { db: String },
    Names,
    Add { db: String, key: String, create: bool, over: bool, value: Value },
    Get { db: String, key: String },
    RmKey { db: String, key: String },
    Save,
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::AddDb { db, over } => write!(f, "add_db({db:?}, overwrite={over})"),
            Op::AddDbContent { db, over, with } => if with.len() < 8 { write!(f, "add_db_with_content({db:?}, overwrite={over}, {with:?})") } else { write!(f, "add_db_with_content({db:?}, overwrite={over}, {} keys)", with.len()) },
            Op::Clear { db } => write!(f, "clear_db({db:?})"),
            Op::Remove { db } => write!(f, "rm_db({db:?})"),
            Op::GetDb { db } => write!(f, "get_db({db:?})"),
            Op::Names => write!(f, "get_all_db_names()"),
            Op::Add { db, key, create, over, value } => write!(f, "add_kv({db:?}, {key:?}, create_new_database={create}, overwrite_key={over}, {value:?})"),
            Op::Get { db, key } => write!(f, "get_value({db:?}, {key:?})"),
            Op::RmKey { db, key } => write!(f, "rm_kv({db:?}, {key:?})"),
            Op::Save => write!(f, "save()"),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Answer {
    Status(u16),
    Db(Contents),
    Names(BTreeSet<String>),
    Value(Value),
    Creation(String),
    Nothing,
}

fn enc(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }

/// A name which may not be refused, must be refused, or either.
fn valid(name: &str) -> Option<bool> {
    if name == "meta" || !name.is_ascii() || name.contains(['/', '\0']) || name.len() > 251 { return Some(false); }
    if name.len() > 240 || name.contains('\\') { return None; }
    Some(true)
}

fn store(c: &Contents) -> Store { let mut s = Store::default(); for (k, v) in c { s.insert(k.clone(), v.clone()); } s }
fn contents(s: &Store) -> Contents { s.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }

impl Op {
    fn request(&self) -> (&'static str, String, Vec<u8>) {
        match self {
            Op::AddDb { db, over } => ("POST", format!("/v1/add_db?db_name={}&overwrite_existing={over}", enc(db)), vec![]),
            Op::AddDbContent { db, over, with } => ("PUT", format!("/v1/add_db_with_content?db_name={}&overwrite_existing={over}", enc(db)), store(with).ser()),
            Op::Clear { db } => ("POST", format!("/v1/clear_db?db_name={}", enc(db)), vec![]),
            Op::Remove { db } => ("POST", format!("/v1/rm_db?db_name={}", enc(db)), vec![]),
            Op::GetDb { db } => ("GET", format!("/v1/get_db?db_name={}", enc(db)), vec![]),
            Op::Names => ("GET", "/v1/get_all_db_names".into(), vec![]),
            Op::Add { db, key, create, over, value } => ("PUT", format!("/v1/add_kv?db_name={}&key={}&create_new_database={create}&overwrite_key={over}", enc(db), enc(key)), value.ser(None)),
            Op::Get { db, key } => ("GET", format!("/v1/get_value?db_name={}&key={}", enc(db), enc(key)), vec![]),
            Op::RmKey { db, key } => ("POST", format!("/v1/rm_kv?db_name={}&key={}", enc(db), enc(key)), vec![]),
            Op::Save => ("", String::new(), vec![]),
        }
    }
    fn answer(&self, status: u16, body: &[u8]) -> Result<Answer, String> {
        if status != 200 { return Ok(Answer::Status(status)); }
        Ok(match self {
            Op::GetDb { .. } => Answer::Db(contents(&Store::deser(body).map_err(|e| format!("the bytes of get_db can't be read: {e:?}"))?)),
            Op::Names => {
                let l: Vec<String> = sourisdb::serde_json::from_slice(body).map_err(|e| format!("the names can't be read: {e}"))?;
                let s: BTreeSet<String> = l.iter().cloned().collect();
                if s.len() != l.len() { return Err(format!("a name is listed twice: {l:?}")); }
                Answer::Names(s)
            }
            Op::Add { .. } => Answer::Creation(sourisdb::serde_json::from_slice(body).map_err(|e| format!("the kind of insertion can't be read: {e}"))?),
            Op::Get { .. } => Answer::Value(Value::deser(&mut Cursor::new(&body), None).map_err(|e| format!("the value can't be read: {e:?}"))?),
            _ => Answer::Status(status),
        })
    }
}

#[derive(Clone, Default, PartialEq, Debug)]
struct Model(BTreeMap<String, Contents>);
impl Model {
    /// The answers the properties allow (name validity is sometimes either), with what they do.
    fn apply(&mut self, op: &Op) -> Vec<Answer> {
        let refused = |n: &str| valid(n) == Some(false);
        let either = |n: &str| valid(n).is_none();
        match op {
            Op::AddDb { db, over } => {
                if refused(db) { return vec![Answer::Status(400)]; }
                if either(db) { unreachable!() }
                if let Some(c) = self.0.get_mut(db) { if *over { c.clear(); } vec![Answer::Status(200)] } else { self.0.insert(db.clone(), Contents::new()); vec![Answer::Status(201)] }
            }
            Op::AddDbContent { db, over, with } => {
                if refused(db) { return vec![Answer::Status(400)]; }
                let new = !self.0.contains_key(db);
                let c = self.0.entry(db.clone()).or_default();
                if *over { c.clear(); }
                c.extend(with.clone());
                vec![Answer::Status(if new { 201 } else { 200 })]
            }
            Op::Clear { db } => match self.0.get_mut(db) { Some(c) => { c.clear(); vec![Answer::Status(200)] } None => vec![Answer::Status(410)] },
            Op::Remove { db } => match self.0.remove(db) { Some(_) => vec![Answer::Status(200)], None => vec![Answer::Status(410)] },
            Op::GetDb { db } => match self.0.get(db) { Some(c) => vec![Answer::Db(c.clone())], None => vec![Answer::Status(410)] },
            Op::Names => vec![Answer::Names(self.0.keys().cloned().collect())],
            Op::Add { db, key, create, over, value } => {
                let k = |s: &str| vec![Answer::Creation(s.into())];
                if let Some(c) = self.0.get_mut(db) {
                    if c.contains_key(key) {
                        if *over { c.insert(key.clone(), value.clone()); k("OverwroteKeyInExistingDB") } else { k("FoundExistingKey") }
                    } else { c.insert(key.clone(), value.clone()); k("InsertedKeyIntoExistingDB") }
                } else if *create {
                    if refused(db) { return vec![Answer::Status(400)]; }
                    self.0.insert(db.clone(), [(key.clone(), value.clone())].into_iter().collect());
                    k("InsertedKeyIntoNewDB")
                } else { k("UnableToFindDB") }
            }
            Op::Get { db, key } => match self.0.get(db) { None => vec![Answer::Status(410)], Some(c) => match c.get(key) { Some(v) => vec![Answer::Value(v.clone())], None => vec![Answer::Status(400)] } },
            Op::RmKey { db, key } => match self.0.get_mut(db) { None => vec![Answer::Status(410)], Some(c) => match c.remove(key) { Some(_) => vec![Answer::Status(200)], None => vec![Answer::Status(400)] } },
            Op::Save => vec![Answer::Nothing],
        }
    }
}

#[derive(Clone)]
struct Daemon { state: SourisState, router: Router }
impl Daemon {
    /// A daemon started in a location.
    async fn start(base: &Path) -> Result<Self, String> {
        std::env::set_var("BASE_LOCATION", base);
        let state = SourisState::new().await.map_err(|e| format!("the daemon does not start: {e:?}"))?;
        let router = Router::new()
            .route("/v1/get_db", get(get_db))
            .route("/v1/get_all_db_names", get(get_all_dbs))
            .route("/v1/add_db", post(add_db))
            .route("/v1/add_db_with_content", put(add_db_with_content))
            .route("/v1/rm_db", post(remove_db))
            .route("/v1/clear_db", post(clear_db))
            .route("/v1/add_kv", put(add_kv))
            .route("/v1/rm_kv", post(rm_key))
            .route("/v1/get_value", get(get_value))
            .layer(axum::extract::DefaultBodyLimit::disable())
            .with_state(state.clone());
        Ok(Daemon { state, router })
    }
    fn call(&self, op: &Op) -> Pin<Box<dyn Future<Output = Result<Answer, String>> + Send>> {
        let op = op.clone();
        if op == Op::Save {
            let st = self.state.clone();
            return Box::pin(async move { st.save().await.map(|_| Answer::Nothing).map_err(|e| format!("save: {e:?}")) });
        }
        let router = self.router.clone();
        Box::pin(async move {
            let (m, uri, body) = op.request();
            let req = Request::builder().method(m).uri(uri).body(Body::from(body)).unwrap();
            let res = router.oneshot(req).await.unwrap();
            let status = res.status().as_u16();
            let bytes = axum::body::to_bytes(res.into_body(), usize::MAX).await.map_err(|e| e.to_string())?;
            op.answer(status, &bytes)
        })
    }
    async fn all(&self) -> Result<Model, String> {
        let Answer::Names(n) = self.call(&Op::Names).await? else { return Err("no names".into()) };
        let mut m = Model::default();
        for db in n {
            let Answer::Db(c) = self.call(&Op::GetDb { db: db.clone() }).await? else { return Err(format!("no contents of {db:?}")) };
            m.0.insert(db, c);
        }
        Ok(m)
    }
}

struct Pools { names: Vec<String>, good: Vec<String>, keys: Vec<String>, values: Vec<Value> }
fn pools(lits: &[String], ints: &[i128]) -> Pools {
    let mut good: Vec<String> = ["a", "b", "c", "", " ", "A", "metA", "a.b", "a b&c=d?#%", "meta.sdb", "..", ".", "default", "0", "con", "x.tmp", "a.sdb"].iter().map(|s| s.to_string()).collect();
    let mut keys: Vec<String> = ["k", "l", "", "K", "é🖖", "key with spaces &?=#/%+", "a", "\0", "meta", "existing_dbs", "long key which is used to have one"].iter().map(|s| s.to_string()).collect();
    keys.push("x".repeat(300));
    for l in lits { if valid(l) == Some(true) && !l.starts_with('/') { good.push(l.clone()); } keys.push(l.clone()); }
    for i in ints { good.push(i.to_string()); if *i > 0 && *i <= 240 { good.push("n".repeat(*i as usize)); } if *i > 0 && *i <= 5000 { keys.push("n".repeat(*i as usize)); } keys.push(i.to_string()); }
    good.push("n".repeat(200));
    let mut names = good.clone();
    for l in lits { if valid(l) == Some(false) && !l.starts_with('/') { names.push(l.clone()); } }
    names.extend(["meta", "é", "x/y", "../x", "a\0b", "a/"].iter().map(|s| s.to_string()));
    names.push("n".repeat(300));
    let mut values = vec![Value::Null(()), Value::Boolean(true), Value::Boolean(false), Value::String("text".into()), Value::String(String::new()), Value::Integer(5.into()), Value::Integer((-1).into()),
        Value::DoubleFloat(1.5), Value::Array(vec![]), Value::Array(vec![Value::Integer(1.into()), Value::Null(())]), Value::Character('🖖'), Value::String("é🖖 longer text than others, to be compressed compressed compressed".into()),
        Value::Map([("x".to_string(), Value::Integer(3.into())), ("y".to_string(), Value::Array(vec![Value::Boolean(true)]))].into_iter().collect())];
    for l in lits { values.push(Value::String(l.clone())); }
    for i in ints { values.push(Value::Integer((*i).into())); }
    Pools { names, good, keys, values }
}

fn few<'a>(r: &mut Rng, v: &'a [String], n: usize) -> &'a String { if r.below(4) != 0 { &v[r.below(n.min(v.len()))] } else { r.pick(v) } }
fn rand_contents(r: &mut Rng, p: &Pools) -> Contents {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 20, _ => r.below(6) };
    (0..n).map(|i| (if n == 20 { format!("key{i}") } else { few(r, &p.keys, 5).clone() }, r.pick(&p.values).clone())).collect()
}
fn rand_op(r: &mut Rng, p: &Pools, names: &[String]) -> Op {
    let db = few(r, names, 3).clone();
    let key = few(r, &p.keys, 4).clone();
    match r.below(16) {
        0 | 1 => Op::AddDb { db, over: r.flip() },
        2 | 3 => Op::AddDbContent { db, over: r.flip(), with: rand_contents(r, p) },
        4 => Op::Clear { db },
        5 | 6 => Op::Remove { db },
        7 | 8 => Op::GetDb { db },
        9 => Op::Names,
        10 | 11 | 12 => Op::Add { db, key, create: r.flip(), over: r.flip(), value: r.pick(&p.values).clone() },
        13 => Op::Get { db, key },
        14 => Op::RmKey { db, key },
        _ => Op::GetDb { db },
    }
}

static NOW: std::sync::LazyLock<Mutex<(Instant, String)>> = std::sync::LazyLock::new(|| Mutex::new((Instant::now(), String::new())));

struct T { pid: String, rng: Rng, pools: Pools, scale: f64, scratch: PathBuf, cases: u64, deadline: Instant, dirs: usize, rt: tokio::runtime::Runtime, samples: usize }
impl T {
    fn budget(&mut self, secs: f64) { self.deadline = Instant::now() + Duration::from_secs_f64(secs * self.scale); }
    fn left(&self) -> bool { Instant::now() < self.deadline }
    fn note(&self, s: impl FnOnce() -> String) { let s = s(); *NOW.lock().unwrap() = (Instant::now(), s); }
    fn dir(&mut self) -> PathBuf { self.dirs += 1; NOW.lock().unwrap().0 = Instant::now(); let d = self.scratch.join(format!("b{}", self.dirs)); std::fs::create_dir_all(&d).unwrap(); d }
    fn fail(&self, input: &str, result: &str) -> ! {
        let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>();
        println!("FAIL {} / case {}\ninput: {}\nresult: {}", self.pid, self.cases, cut(input, 9000), cut(result, 4000));
        let _ = std::fs::remove_dir_all(&self.scratch);
        std::process::exit(1);
    }
    fn sample(&mut self, s: String) { if self.samples < 3 { self.samples += 1; println!("SAMPLE {}", s.chars().take(600).collect::<String>().replace('\n', " ")); } }
}

fn ops_text(ops: &[Op]) -> String { ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("\n  ") }

/// Runs one history after another and compares every answer and all the contents with the model.
async fn history(d: &Daemon, m: &mut Model, ops: &[Op], look: &mut impl FnMut() -> bool) -> Result<(), (usize, String)> {
    for (i, op) in ops.iter().enumerate() {
        let want = m.apply(op);
        let got = d.call(op).await.map_err(|e| (i, e))?;
        if !want.contains(&got) { return Err((i, format!("{op:?} answered {got:?} instead of {:?}", want[0]))); }
        if look() || i + 1 == ops.len() {
            let all = d.all().await.map_err(|e| (i, e))?;
            if all != *m { return Err((i, format!("after {op:?} the databases are {all:?} instead of {m:?}"))); }
        }
    }
    Ok(())
}

fn p16(t: &mut T) {
    t.budget(9.0);
    while t.left() || t.cases < 50 {
        let base = t.dir();
        let n = match t.rng.below(10) { 0 => 120, 1 => 40, _ => 3 + t.rng.below(12) };
        let names = t.pools.names.clone();
        let k = 1 + t.rng.below(names.len());
        let few_names: Vec<String> = if t.rng.flip() { (0..k.min(4)).map(|_| t.rng.pick(&names).clone()).collect() } else { names };
        let ops: Vec<Op> = (0..n).map(|_| { let mut r = Rng(t.rng.next() | 1); rand_op(&mut r, &t.pools, &few_names) }).collect();
        t.note(|| format!("operations on a new daemon:\n  {}", ops_text(&ops)));
        let every = t.rng.below(3);
        let mut rr = Rng(t.rng.next() | 1);
        let res = t.rt.block_on(async { let d = Daemon::start(&base).await.map_err(|e| (0, e))?; history(&d, &mut Model::default(), &ops, &mut || match every { 0 => true, 1 => rr.below(4) == 0, _ => false }).await });
        t.cases += 1;
        if t.cases == 7 { let s = format!("operations on a new daemon: {}", ops_text(&ops).replace('\n', ";")); t.sample(s); }
        if let Err((i, e)) = res { t.fail(&format!("operations on a new daemon:\n  {}", ops_text(&ops[..=i.min(ops.len() - 1)])), &e); }
        let _ = std::fs::remove_dir_all(&base);
    }
    //many databases and keys
    let base = t.dir();
    let mut ops = vec![];
    for i in 0..260 { ops.push(Op::AddDb { db: format!("d{i}"), over: false }); ops.push(Op::Add { db: format!("d{i}"), key: "k".into(), create: false, over: false, value: Value::Integer(i.into()) }); ops.push(Op::GetDb { db: format!("d{i}") }); }
    for i in 0..600 { ops.push(Op::Add { db: "big".into(), key: format!("k{i}"), create: true, over: false, value: Value::String(format!("v{i}")) }); }
    for i in (0..260).step_by(7) { ops.push(Op::Clear { db: format!("d{i}") }); ops.push(Op::GetDb { db: format!("d{i}") }); }
    for i in (0..600).step_by(3) { ops.push(Op::RmKey { db: "big".into(), key: format!("k{i}") }); }
    let mut c = 0;
    let res = t.rt.block_on(async { let d = Daemon::start(&base).await.map_err(|e| (0, e))?; history(&d, &mut Model::default(), &ops, &mut || { c += 1; c % 250 == 0 }).await });
    t.cases += 1;
    if let Err((i, e)) = res { t.fail(&format!("260 databases d0..d259 and a database of 600 keys; the last operation was {:?}", ops[i]), &e); }
    //names and keys which differ by little stay apart
    let near = |b: &str| -> Vec<String> { [format!("{b} "), format!(" {b}"), format!("{b}\n"), b.to_uppercase(), b.to_lowercase(), format!("{b}{b}"), format!("{b}\0"), format!("{b}/"), format!("{b}."), format!("%{b}"), format!("{b}+{b}"), format!("\"{b}\""), b.chars().skip(1).collect(), b.chars().rev().collect(), format!("{b}\u{301}"), format!("{b}\u{feff}"), format!("{b}=1"), format!("{b}&key={b}")].into_iter().filter(|x| x != b).collect() };
    let (one, two) = (Value::Integer(1.into()), Value::Integer(2.into()));
    let put = |db: &str, key: &str, value: &Value| Op::Add { db: db.into(), key: key.into(), create: true, over: true, value: value.clone() };
    let get = |db: &str, key: &str| Op::Get { db: db.into(), key: key.into() };
    for b in ["k", "Key 1", "é", " x "] {
        let base = t.dir();
        let mut ops = vec![put("a", "other", &two)];
        for q in near(b) { ops.extend([put("a", b, &one), get("a", &q), Op::RmKey { db: "a".into(), key: q.clone() }, get("a", b), put("a", &q, &two), get("a", b), get("a", &q), Op::RmKey { db: "a".into(), key: b.into() }, get("a", b), get("a", &q), Op::RmKey { db: "a".into(), key: q.clone() }]); }
        for q in near(b) { if valid(b) == Some(true) && valid(&q) == Some(true) { ops.extend([put(b, "k", &one), Op::GetDb { db: q.clone() }, Op::Remove { db: q.clone() }, get(b, "k"), put(&q, "k", &two), get(b, "k"), Op::Clear { db: q.clone() }, get(b, "k"), Op::Remove { db: b.into() }, Op::GetDb { db: b.into() }, Op::GetDb { db: q.clone() }, Op::Remove { db: q.clone() }]); } }
        let mut c = 0;
        let res = t.rt.block_on(async { let d = Daemon::start(&base).await.map_err(|e| (0, e))?; history(&d, &mut Model::default(), &ops, &mut || { c += 1; c % 20 == 0 }).await });
        t.cases += 1;
        if let Err((i, e)) = res { t.fail(&format!("operations on a new daemon:\n  {}", ops_text(&ops[i.saturating_sub(25)..=i.min(ops.len() - 1)])), &e); }
    }
    http(t, false);
}

// ---- the real daemon over HTTP

struct Child(std::process::Child);
impl Drop for Child { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }

fn http_call(op: &Op) -> Result<Answer, String> {
    let (m, uri, body) = op.request();
    let mut s = std::net::TcpStream::connect("127.0.0.1:7687").map_err(|e| e.to_string())?;
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    s.write_all(format!("{m} {uri} HTTP/1.1\r\nHost: localhost\r\nContent-Length: {}\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n\r\n", body.len()).as_bytes()).map_err(|e| e.to_string())?;
    s.write_all(&body).map_err(|e| e.to_string())?;
    let mut out = vec![];
    s.read_to_end(&mut out).map_err(|e| e.to_string())?;
    let k = out.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no answer")?;
    let head = String::from_utf8_lossy(&out[..k]).to_string();
    let status: u16 = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("no status")?;
    if head.to_ascii_lowercase().contains("transfer-encoding") { return Err("chunked".into()); }
    op.answer(status, &out[k + 4..])
}

fn spawn_daemon(base: &Path) -> Option<Child> {
    if std::net::TcpListener::bind("0.0.0.0:7687").is_err() { return None; }
    let c = std::process::Command::new(std::env::current_exe().unwrap()).arg("--daemon").env("BASE_LOCATION", base).env("RUST_LOG", "off").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let c = Child(c);
    for _ in 0..200 { if std::net::TcpStream::connect("127.0.0.1:7687").is_ok() { return Some(c); } std::thread::sleep(Duration::from_millis(25)); }
    None
}

/// A history sent to the whole daemon, and with `restart` ending it by SIGTERM and starting it again.
fn http(t: &mut T, restart: bool) {
    for round in 0..2 {
        let base = t.dir();
        let Some(mut c) = spawn_daemon(&base) else { println!("NOTE the daemon's port could not be used, so that HTTP was not searched"); return };
        let names: Vec<String> = t.pools.good.clone();
        let mut ops: Vec<Op> = (0..150).map(|_| { let mut r = Rng(t.rng.next() | 1); rand_op(&mut r, &t.pools, if round == 0 { &t.pools.names } else { &names }) }).collect();
        ops.push(Op::AddDb { db: "kept".into(), over: false });
        let mut m = Model::default();
        let mut done = vec![];
        for op in &ops {
            done.push(op.clone());
            let want = m.apply(op);
            match http_call(op) {
                Ok(got) => if !want.contains(&got) { t.fail(&format!("requests to a daemon:\n  {}", ops_text(&done)), &format!("{op:?} answered {got:?} instead of {:?}", want[0])); },
                Err(e) => t.fail(&format!("requests to a daemon:\n  {}", ops_text(&done)), &format!("{op:?} failed: {e}")),
            }
        }
        t.cases += 1;
        if !restart { let _ = std::fs::remove_dir_all(&base); continue; }
        unsafe { libc::kill(c.0.id() as i32, libc::SIGTERM); }
        let end = Instant::now() + Duration::from_secs(20);
        while Instant::now() < end { if let Ok(Some(_)) = c.0.try_wait() { break; } std::thread::sleep(Duration::from_millis(10)); }
        drop(c);
        let back = t.rt.block_on(async { let d = Daemon::start(&base).await?; d.all().await });
        match back { Ok(b) if b == m => {}, Ok(b) => t.fail(&format!("requests to a daemon, which was then stopped with SIGTERM and started again:\n  {}", ops_text(&done)), &format!("it has {b:?} instead of {m:?}")), Err(e) => t.fail("a daemon stopped with SIGTERM and started again", &e) }
        let _ = std::fs::remove_dir_all(&base);
    }
}

// ---- P17: schedules

struct Event { op: Op, start: usize, end: usize, got: Option<Answer> }

/// Whether some order of the operations, with none before one that ended before it started, explains all the answers.
fn linear(m: &Model, ev: &[Event], used: &mut Vec<bool>) -> bool {
    if used.iter().all(|u| *u) { return true; }
    let first_end = ev.iter().zip(used.iter()).filter(|(_, u)| !**u).map(|(e, _)| e.end).min().unwrap();
    for i in 0..ev.len() {
        if used[i] || ev[i].start > first_end { continue; }
        let mut m2 = m.clone();
        let want = m2.apply(&ev[i].op);
        if !want.contains(ev[i].got.as_ref().unwrap()) { continue; }
        used[i] = true;
        if linear(&m2, ev, used) { return true; }
        used[i] = false;
    }
    false
}

fn schedule_text(before: &[Op], ev: &[Event], order: &[usize]) -> String {
    format!("first, one after another:\n  {}\nthen together, polled in the order {order:?}:\n  {}", ops_text(before), ev.iter().enumerate().map(|(i, e)| format!("{i}: {:?} from step {} to {} answered {:?}", e.op, e.start, e.end, e.got)).collect::<Vec<_>>().join("\n  "))
}

fn one_schedule(t: &mut T) {
    let base = t.dir();
    let db = |r: &mut Rng| if r.below(5) == 0 { "b".to_string() } else { "a".to_string() };
    let mut r = Rng(t.rng.next() | 1);
    let c = |r: &mut Rng| -> Contents { (0..r.below(3)).map(|_| (["k", "l", "m"][r.below(3)].to_string(), Value::Integer((r.below(1000) as u64).into()))).collect() };
    let mut before = vec![];
    if r.below(4) != 0 { before.push(Op::AddDbContent { db: "a".into(), over: true, with: c(&mut r) }); }
    if r.flip() { before.push(Op::AddDbContent { db: "b".into(), over: true, with: c(&mut r) }); }
    if r.flip() { before.push(Op::GetDb { db: "a".into() }); }
    let n = 2 + r.below(4);
    let mut ops: Vec<Op> = (0..n).map(|_| { let d = db(&mut r); match r.below(12) {
        0 | 1 | 2 | 3 => Op::GetDb { db: d },
        4 => Op::AddDb { db: d, over: r.flip() },
        5 => Op::AddDbContent { db: d, over: r.flip(), with: c(&mut r) },
        6 => Op::Clear { db: d },
        7 => Op::Remove { db: d },
        8 | 9 => Op::Add { db: d, key: ["k", "l"][r.below(2)].into(), create: r.flip(), over: true, value: Value::Integer((r.below(1000) as u64 + 1000).into()) },
        10 => Op::RmKey { db: d, key: ["k", "l"][r.below(2)].into() },
        _ => Op::Save,
    } }).collect();
    if r.below(3) != 0 { ops.insert(0, Op::Save); }
    t.note(|| format!("one after another:\n  {}\nthen together:\n  {}", ops_text(&before), ops_text(&ops)));
    let after = [Op::GetDb { db: "a".into() }, Op::GetDb { db: "b".into() }, Op::Names];
    let mut order = vec![];
    let res: Result<(Model, Vec<Event>), String> = t.rt.block_on(async {
        let d = Daemon::start(&base).await?;
        let mut m = Model::default();
        for op in &before { let want = m.apply(op); let got = d.call(op).await?; if !want.contains(&got) { return Err(format!("{op:?} answered {got:?} instead of {:?}", want[0])); } }
        let mut ev: Vec<Event> = ops.iter().map(|op| Event { op: op.clone(), start: usize::MAX, end: usize::MAX, got: None }).collect();
        let mut futs: Vec<_> = ops.iter().map(|op| Some(d.call(op))).collect();
        let first_save = matches!(ops[0], Op::Save);
        let mut tick = 0;
        let mut idle = 0;
        while futs.iter().any(|f| f.is_some()) {
            //a save that was started first holds the lock while the others are polled
            let i = if first_save && tick < ops.len() * 2 && tick > 0 { 1 + r.below(ops.len() - 1) } else if first_save && tick == 0 { 0 } else { r.below(ops.len()) };
            let Some(f) = futs[i].as_mut() else { tick += 1; continue };
            if ev[i].start == usize::MAX { ev[i].start = tick; }
            order.push(i);
            let mut cx = Context::from_waker(Waker::noop());
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(a) => { ev[i].end = tick; ev[i].got = Some(a?); futs[i] = None; idle = 0; }
                Poll::Pending => { idle += 1; if idle > 6 { tokio::time::sleep(Duration::from_micros(60)).await; } else { tokio::task::yield_now().await; } if idle > 100_000 { return Err("the operations never end".into()); } }
            }
            tick += 1;
        }
        for op in &after { let a = d.call(op).await?; ev.push(Event { op: op.clone(), start: tick, end: tick, got: Some(a) }); tick += 1; }
        Ok((m, ev))
    });
    t.cases += 1;
    order.truncate(200);
    match res {
        Ok((m, ev)) => {
            if t.cases == 11 { let s = schedule_text(&before, &ev, &order); t.sample(s); }
            let mut used = vec![false; ev.len()];
            if !linear(&m, &ev, &mut used) { t.fail(&schedule_text(&before, &ev, &order), "no order of these operations explains the answers: contents that a completed operation had replaced were returned"); }
        }
        Err(e) => t.fail(&format!("{}\nand together:\n  {}\norder {order:?}", ops_text(&before), ops_text(&ops)), &e),
    }
    let _ = std::fs::remove_dir_all(&base);
}

fn p17(t: &mut T) {
    t.budget(9.0);
    while t.left() { one_schedule(t); }
    //threads: one writer of each database, and readers which know the versions that were current
    for round in 0..((4.0 * t.scale) as usize) {
        let base = t.dir();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
        let bad: Arc<Mutex<Option<String>>> = Arc::default();
        let reads = Arc::new(AtomicUsize::new(0));
        let seed = t.rng.next();
        let res: Result<(), String> = rt.block_on(async {
            let d = Daemon::start(&base).await?;
            let stop = Arc::new(AtomicBool::new(false));
            let mut tasks = vec![];
            for w in 0..2u64 {
                let versions: Arc<RwLock<Vec<Option<Contents>>>> = Arc::new(RwLock::new(vec![None]));
                let done = Arc::new(AtomicUsize::new(0));
                let name = format!("w{w}");
                {
                    let (d, stop, versions, done, name, bad) = (d.clone(), stop.clone(), versions.clone(), done.clone(), name.clone(), bad.clone());
                    tasks.push(tokio::spawn(async move {
                        let mut r = Rng::new(seed ^ w);
                        let mut m = Model::default();
                        let mut i = 0usize;
                        while !stop.load(Ordering::Relaxed) && i < 60_000 {
                            i += 1;
                            let v = Value::Integer((i as u64).into());
                            let db = name.clone();
                            let op = match r.below(8) {
                                0 => Op::AddDb { db, over: true },
                                1 => Op::AddDbContent { db, over: r.flip(), with: [("n".to_string(), v)].into_iter().collect() },
                                2 => Op::Clear { db },
                                3 if r.below(4) == 0 => Op::Remove { db },
                                4 => Op::RmKey { db, key: "n".into() },
                                _ => Op::Add { db, key: "n".into(), create: true, over: true, value: v },
                            };
                            let want = m.apply(&op);
                            versions.write().unwrap().push(m.0.get(&name).cloned());
                            match d.call(&op).await { Ok(a) if want.contains(&a) => {}, x => { *bad.lock().unwrap() = Some(format!("{op:?} answered {x:?} instead of {want:?}")); return; } }
                            done.store(i, Ordering::SeqCst);
                            if i % 16 == 0 { tokio::task::yield_now().await; }
                        }
                    }));
                }
                for _ in 0..2 {
                    let (d, stop, versions, done, name, bad, reads) = (d.clone(), stop.clone(), versions.clone(), done.clone(), name.clone(), bad.clone(), reads.clone());
                    tasks.push(tokio::spawn(async move {
                        let mut k = 0;
                        while !stop.load(Ordering::Relaxed) {
                            k += 1;
                            let lo = done.load(Ordering::SeqCst);
                            let a = d.call(&Op::GetDb { db: name.clone() }).await;
                            let ok = { let v = versions.read().unwrap(); v[lo..].iter().any(|c| match (&a, c) { (Ok(Answer::Db(x)), Some(c)) => x == c, (Ok(Answer::Status(410)), None) => true, _ => false }) };
                            reads.fetch_add(1, Ordering::Relaxed);
                            if !ok { *bad.lock().unwrap() = Some(format!("get_db({name:?}), asked for after the {lo}th change had completed with contents {:?}, answered {a:?}", versions.read().unwrap()[lo])); return; }
                            if k % 16 == 0 { tokio::task::yield_now().await; }
                        }
                    }));
                }
            }
            let end = Instant::now() + Duration::from_millis(if round == 0 { 4000 } else { 2000 });
            while Instant::now() < end && bad.lock().unwrap().is_none() { tokio::time::sleep(Duration::from_millis(20)).await; }
            stop.store(true, Ordering::Relaxed);
            for x in tasks { let _ = tokio::time::timeout(Duration::from_secs(20), x).await; }
            Ok(())
        });
        rt.shutdown_timeout(Duration::from_secs(5));
        t.cases += reads.load(Ordering::Relaxed) as u64;
        if let Err(e) = res { t.fail("threads", &e); }
        if let Some(e) = bad.lock().unwrap().take() { t.fail("two writers and four readers on six threads, over one history of changes to each of two databases", &e); }
        let _ = std::fs::remove_dir_all(&base);
    }
}

// ---- P18: names

fn tree(p: &Path, out: &mut BTreeMap<String, Vec<u8>>, root: &Path) {
    let Ok(l) = std::fs::read_dir(p) else { return };
    for e in l.flatten() {
        let q = e.path();
        let rel = q.strip_prefix(root).unwrap().to_string_lossy().to_string();
        if q.is_dir() { out.insert(rel + "/", vec![]); tree(&q, out, root); } else { out.insert(rel, std::fs::read(&q).unwrap_or_default()); }
    }
}

fn name_case(t: &mut T, name: &str, how: usize) {
    let root = t.dir();
    let base = root.join("base");
    std::fs::create_dir_all(base.join("sub")).unwrap();
    std::fs::create_dir_all(root.join("outside")).unwrap();
    for f in ["outside/x.sdb", "x.sdb", "canary.sdb", "base/sub/x.sdb", "base/unrelated.txt"] { std::fs::write(root.join(f), b"canary").unwrap(); }
    let v = Value::Integer(7.into());
    let c: Contents = [("k".to_string(), v.clone())].into_iter().collect();
    let op = match how { 0 => Op::AddDb { db: name.into(), over: false }, 1 => Op::AddDb { db: name.into(), over: true }, 2 => Op::AddDbContent { db: name.into(), over: false, with: c }, 3 => Op::AddDbContent { db: name.into(), over: true, with: c }, 4 => Op::Add { db: name.into(), key: "k".into(), create: true, over: false, value: v }, _ => Op::Add { db: name.into(), key: "k".into(), create: true, over: true, value: v } };
    t.note(|| format!("the name {name:?} with {op:?}"));
    let res: R = t.rt.block_on(async {
        let d = Daemon::start(&base).await?;
        let keep = Op::AddDbContent { db: "keep".into(), over: false, with: [("q".to_string(), Value::Boolean(true))].into_iter().collect() };
        d.call(&keep).await?;
        let mut m = Model::default();
        m.apply(&keep);
        d.call(&Op::Save).await?;
        let mut before = BTreeMap::new(); tree(&root, &mut before, &root);
        let a = d.call(&op).await?;
        match valid(name) {
            Some(ok) => { let want = m.apply(&op); if !want.contains(&a) { return Err(format!("{op:?} answered {a:?} instead of {:?}", want[0])); } if !ok { let all = d.all().await?; if all != m { return Err(format!("{op:?} was refused and yet the databases are {all:?}")); } } }
            None => { if a != Answer::Status(400) { m.0.entry(name.to_string()).or_default(); if !matches!(op, Op::AddDb { .. }) { m.apply(&op); } } }
        }
        if d.all().await? != m { return Err(format!("after {op:?} the databases are {:?} instead of {m:?}", d.all().await?)); }
        let accepted = m.0.contains_key(name);
        d.call(&Op::Save).await?;
        let mut after = BTreeMap::new(); tree(&root, &mut after, &root);
        let own = format!("base/{name}.sdb");
        for (f, b) in &after { if before.get(f) != Some(b) && f != "base/meta.sdb" && f != "base/keep.sdb" && !(accepted && *f == own) { return Err(format!("saving changed or made the file {f:?}")); } }
        for f in before.keys() { if !after.contains_key(f) { return Err(format!("saving removed the file {f:?}")); } }
        if accepted {
            let e = Daemon::start(&base).await?.all().await?;
            if e != m { return Err(format!("after saving and starting again the databases are {e:?} instead of {m:?}")); }
            //and removing it
            let a = d.call(&Op::Remove { db: name.into() }).await?;
            if a != Answer::Status(200) { return Err(format!("removing it answered {a:?}")); }
            let mut gone = BTreeMap::new(); tree(&root, &mut gone, &root);
            for (f, b) in &after { if gone.get(f) != Some(b) && *f != own { return Err(format!("removing the database changed or removed the file {f:?}")); } }
            if gone.contains_key(&own) { return Err(format!("removing the database left {own:?}")); }
        } else {
            let a = d.call(&Op::Remove { db: name.into() }).await?;
            if a != Answer::Status(410) { return Err(format!("removing what was refused answered {a:?}")); }
            let mut gone = BTreeMap::new(); tree(&root, &mut gone, &root);
            if gone != after { return Err("removing a database which does not exist changed files".into()); }
        }
        Ok(())
    });
    t.cases += 1;
    if let Err(e) = res { t.fail(&format!("the name {name:?} ({} bytes) with {op:?}", name.len()), &e); }
    let _ = std::fs::remove_dir_all(&root);
}

fn p18(t: &mut T, lits: &[String], ints: &[i128]) {
    let mut names: Vec<String> = ["meta", "Meta", "META", "meta ", " meta", "meta.sdb", "metameta", "met", "a", "", ".", "..", "...", "a.b", "é", "a🖖", "ａ", "a/b", "/", "sub/x", "../x", "../outside/x", "a/../b", "./a", "a/", "//", "x\0", "\0", "a\0/b", "keep", "unrelated.txt", "x.sdb", "x.sdb.tmp", "meta.sdb.tmp", "\u{7f}", "\u{80}", " ", "~", "%2f", "%2e%2e", "..%2fx", "a\nb", "-rf", "*", "a b", "con:", "|", "$HOME", "a.tmp", ".hidden", "base"].iter().map(|s| s.to_string()).collect();
    for n in [100, 200, 239, 240, 241, 247, 248, 251, 252, 255, 256, 300, 1000, 60000] { names.push("n".repeat(n)); }
    for l in lits { if !l.starts_with('/') && !(l.contains("..") && l.contains('/') && l != "../x") { names.push(l.clone()); names.push(format!("{l}.sdb")); names.push(format!("a{l}")); } }
    for i in ints { if *i > 0 && *i < 60_000 { names.push("n".repeat(*i as usize)); } if let Some(c) = u32::try_from(*i).ok().and_then(char::from_u32) { names.push(c.to_string()); names.push(format!("a{c}b")); } }
    names.retain(|n| n != "keep");
    for b in 0..=127u8 { names.push((b as char).to_string()); names.push(format!("a{}b", b as char)); }
    t.budget(14.0);
    for n in names.clone() {
        if !t.left() { break; }
        let short = n.len() == 1 || (n.len() == 3 && n.starts_with('a') && n.ends_with('b'));
        for how in 0..6 { if short && how % 2 == 1 { continue; } name_case(t, &n, how); }
    }
    t.sample("every single ASCII character, alone and between others, with each of the operations which create databases".into());
    t.budget(3.0);
    while t.left() {
        let a = t.rng.pick(&names).clone(); let b = t.rng.pick(&names).clone();
        let n: String = match t.rng.below(3) { 0 => format!("{a}{b}"), 1 => a.chars().rev().collect(), _ => { let mut x: Vec<char> = a.chars().collect(); if !x.is_empty() { let i = t.rng.below(x.len()); x[i] = (t.rng.below(127) as u8) as char; } x.into_iter().collect() } };
        if n.starts_with('/') || n.contains("../..") || n.contains("/..") || n == "keep" { continue; }
        let how = t.rng.below(6);
        name_case(t, &n, how);
    }
}

// ---- P19: saving

#[allow(improper_ctypes)]
fn arm(dir: Option<(&Path, i32, i32)>) -> i32 {
    use std::ffi::CString;
    unsafe {
        match dir {
            Some((d, n, m)) => {
                let f = libc::dlsym(libc::RTLD_DEFAULT, c"fault_arm".as_ptr());
                if f.is_null() { println!("ERROR no fault library"); std::process::exit(3); }
                let f: extern "C" fn(*const libc::c_char, i32, i32) = std::mem::transmute(f);
                let d = CString::new(d.to_str().unwrap()).unwrap();
                f(d.as_ptr(), n, m);
                0
            }
            None => { let f = libc::dlsym(libc::RTLD_DEFAULT, c"fault_disarm".as_ptr()); let f: extern "C" fn() -> i32 = std::mem::transmute(f); f() }
        }
    }
}

/// The operations before the first save, and between it and the second one.
fn two_steps(seed: u64) -> (Vec<Op>, Vec<Op>) {
    let mut r = Rng::new(seed);
    let big = |r: &mut Rng, tag: &str| -> Contents { let n = [0, 1, 5, 40][r.below(4)]; (0..n).map(|i| (format!("{tag}{i}"), Value::String(format!("{tag} value {} of {}", i, r.below(1000000))))).collect() };
    let mut a = vec![];
    for d in ["a", "b", "c"] { if d == "a" || r.flip() { let with = big(&mut r, "old"); a.push(Op::AddDbContent { db: d.into(), over: true, with }); } }
    let mut b = vec![];
    for d in ["a", "b", "c", "d"] {
        match r.below(5) { 0 => {} 1 if d != "a" && d != "d" => b.push(Op::Remove { db: d.into() }), _ => { let with = big(&mut r, "new"); b.push(Op::AddDbContent { db: d.into(), over: r.flip(), with }); } }
    }
    (a, b)
}

fn child(args: &[String]) -> ! {
    // base seed n mode again
    let base = PathBuf::from(&args[0]);
    let seed: u64 = args[1].parse().unwrap();
    let n: i32 = args[2].parse().unwrap();
    let mode: i32 = args[3].parse().unwrap();
    let again = args[4] == "1";
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let code = rt.block_on(async {
        let (a, b) = two_steps(seed);
        let Ok(d) = Daemon::start(&base).await else { return 90 };
        for op in &a { if d.call(op).await.is_err() { return 91; } }
        if d.call(&Op::Save).await.is_err() { return 92; }
        //a removal removes a file at once, and is not what is being interrupted
        for op in &b { if d.call(op).await.is_err() { return 93; } }
        arm(Some((&base, n, mode)));
        let saved = d.call(&Op::Save).await;
        let c = arm(None);
        if again { if d.call(&Op::Save).await.is_err() { return 94; } }
        if c >= 0 { return if saved.is_ok() { 10 } else { 95 }; } //the fault was never reached
        11
    });
    std::process::exit(code);
}

fn check_files(base: &Path, a: &Model, b: &Model, exact: bool) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for (name, old) in &a.0 {
        let f = base.join(format!("{name}.sdb"));
        let new = b.0.get(name);
        match std::fs::read(&f) {
            Ok(bytes) => {
                let got = Store::deser(&bytes).map(|s| contents(&s));
                match got { Ok(g) if g == *old || Some(&g) == new => {}, x => return Err(format!("{name}.sdb ({} bytes) holds {x:?}, which is neither the complete old contents {old:?} nor the new {new:?}", bytes.len())) }
            }
            Err(e) => if new.is_some() { return Err(format!("{name}.sdb, which was saved before, can't be read: {e}")); }
        }
    }
    for (name, new) in &b.0 {
        if a.0.contains_key(name) { continue; }
        if let Ok(bytes) = std::fs::read(base.join(format!("{name}.sdb"))) {
            match Store::deser(&bytes).map(|s| contents(&s)) { Ok(g) if g == *new => {}, x => return Err(format!("the new file {name}.sdb ({} bytes) holds {x:?} instead of {new:?}", bytes.len())) }
        }
    }
    if let Err(e) = Store::deser(&std::fs::read(base.join("meta.sdb")).map_err(|e| format!("meta.sdb can't be read: {e}"))?) { return Err(format!("meta.sdb is broken: {e:?}")); }
    let got = rt.block_on(async { Daemon::start(base).await?.all().await })?;
    if exact { if got != *b { return Err(format!("after starting again the databases are {got:?} instead of {b:?}")); } return Ok(()); }
    for (name, old) in &a.0 {
        let Some(new) = b.0.get(name) else { continue };
        match got.0.get(name) { Some(g) if g == old || g == new => {}, x => return Err(format!("after starting again {name:?} is {x:?} and neither {old:?} nor {new:?}")) }
    }
    for (name, g) in &got.0 {
        if let (None, Some(new)) = (a.0.get(name), b.0.get(name)) { if g != new && !g.is_empty() { return Err(format!("after starting again the new database {name:?} is {g:?}")); } }
        if !a.0.contains_key(name) && !b.0.contains_key(name) { return Err(format!("after starting again there is a database {name:?}")); }
    }
    Ok(())
}

fn p19(t: &mut T) {
    //saving and loading
    t.budget(5.0);
    let mut k = 0;
    while t.left() || k < 30 {
        k += 1;
        let base = if t.rng.below(4) == 0 { t.dir().join("not/made/yet") } else { t.dir() };
        let n = [5, 20, 60][t.rng.below(3)];
        let names = t.pools.good.clone();
        let mut ops: Vec<Op> = vec![];
        for _ in 0..n { let mut r = Rng(t.rng.next() | 1); let op = rand_op(&mut r, &t.pools, &names); if r.below(8) == 0 { ops.push(Op::Save); } ops.push(op); }
        if k == 1 { for i in 0..230 { ops.push(Op::Add { db: format!("d{i}"), key: format!("k{i}"), create: true, over: false, value: Value::Integer(i.into()) }); } for i in 0..3000 { ops.push(Op::Add { db: "big".into(), key: format!("k{i}"), create: true, over: false, value: Value::String(format!("v{i}")) }); } }
        if k > 1 && t.rng.below(6) == 0 { if t.rng.below(2) == 0 { ops.push(Op::Save); } for n in &names { ops.push(Op::Remove { db: n.clone() }); } }
        ops.push(Op::Save);
        t.note(|| format!("operations on a new daemon:\n  {}", ops_text(&ops)));
        let gone = t.rng.below(5) == 0;
        let mut m = Model::default();
        let b2 = base.clone();
        let res: R = t.rt.block_on(async {
            let d = Daemon::start(&b2).await?;
            for op in &ops[..ops.len() - 1] { m.apply(op); d.call(op).await?; }
            if gone { std::fs::remove_dir_all(&b2).map_err(|e| e.to_string())?; }
            d.call(&Op::Save).await?;
            let e = Daemon::start(&b2).await?;
            let got = e.all().await?;
            if got != m { return Err(format!("after saving and starting again the databases are {got:?} instead of {m:?}")); }
            //and once more from the daemon that loaded them
            e.call(&Op::Save).await?;
            let got = Daemon::start(&b2).await?.all().await?;
            if got != m { return Err(format!("after saving and starting twice the databases are {got:?} instead of {m:?}")); }
            Ok(())
        });
        t.cases += 1;
        if let Err(e) = res { t.fail(&format!("operations on a new daemon{}:\n  {}", if gone { " whose folder is removed before the last one" } else { "" }, ops_text(&ops)), &e); }
        let _ = std::fs::remove_dir_all(&base);
    }
    //each call which changes files in turn fails, or is the last thing the process does
    let so = t.scratch.join("shim.so");
    let c = t.scratch.join("shim.c");
    std::fs::write(&c, include_str!("/verif/search/d/shim.c")).unwrap();
    let ok = std::process::Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-w", "-o"]).arg(&so).arg(&c).arg("-ldl").status().map(|s| s.success()).unwrap_or(false);
    if !ok { println!("ERROR the fault library does not compile"); std::process::exit(3); }
    let seeds = if t.scale > 1.0 { 12 } else { 4 };
    let mut points = 0u64;
    for s in 0..seeds {
        let seed = t.rng.next() >> 1;
        let (oa, ob) = two_steps(seed);
        let mut a = Model::default(); for op in &oa { a.apply(op); }
        let mut b = a.clone(); for op in &ob { b.apply(op); }
        for (mode, what) in [(1, "the process is killed before it"), (2, "the process is killed in the middle of it"), (6, "the process is killed after it"), (4, "the machine stops before it and loses what was not synced"), (3, "it fails with EIO"), (5, "it writes only half of the bytes"), (7, "it fails with ENOSPC")] {
            for again in [false, true] {
                if again && !(mode == 3 || mode == 7) { continue; }
                let mut n = 1;
                loop {
                    let base = t.dir();
                    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["--child", base.to_str().unwrap(), &seed.to_string(), &n.to_string(), &mode.to_string(), if again { "1" } else { "0" }]).env("LD_PRELOAD", &so).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().unwrap();
                    t.cases += 1;
                    let input = || format!("these operations and a save:\n  {}\nthen these operations and another save:\n  {}\nwhere the {n}th call of the second save which changes files is reached and {what}{}", ops_text(&oa), ops_text(&ob), if again { ", and then a third save" } else { "" });
                    match out.code() {
                        Some(10) => { if n == 1 { t.fail(&input(), "the second save changed no file"); } if let Err(e) = check_files(&base, &a, &b, true) { t.fail(&input(), &e); } let _ = std::fs::remove_dir_all(&base); break; }
                        Some(11) | Some(77) => { points += 1; if let Err(e) = check_files(&base, &a, &b, again || mode == 5) { t.fail(&input(), &e); } }
                        Some(95) | Some(92) | Some(94) => t.fail(&input(), "a save without a fault failed"),
                        x => { println!("ERROR the child ended with {x:?}"); std::process::exit(3); }
                    }
                    let _ = std::fs::remove_dir_all(&base);
                    n += 1;
                    if n > 400 { break; }
                }
            }
        }
        if s == 0 { t.sample(format!("{}; save; {}; save, with a fault at each of its calls", ops_text(&oa).replace('\n', ";"), ops_text(&ob).replace('\n', ";"))); }
    }
    println!("NOTE {points} points of failure");
    //the future is dropped in the middle
    for drop_at in 0..40 {
        let base = t.dir();
        let seed = t.rng.next() >> 1;
        let (oa, ob) = two_steps(seed);
        let mut a = Model::default(); let mut b = Model::default();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let res: R = rt.block_on(async {
            let d = Daemon::start(&base).await?;
            for op in &oa { a.apply(op); d.call(op).await?; }
            d.call(&Op::Save).await?;
            b = a.clone();
            for op in &ob { b.apply(op); d.call(op).await?; }
            let mut f = d.call(&Op::Save);
            let mut polls = 0;
            std::future::poll_fn(|cx| { polls += 1; if polls > drop_at { return Poll::Ready(()); } f.as_mut().poll(cx).map(|_| ()) }).await;
            Ok(())
        });
        rt.shutdown_timeout(Duration::from_secs(5));
        t.cases += 1;
        let res = res.and_then(|_| check_files(&base, &a, &b, false));
        if let Err(e) = res { t.fail(&format!("operations, a save, operations, and a save which is dropped after {drop_at} polls:\n  {}\nthen\n  {}", ops_text(&oa), ops_text(&ob)), &e); }
        let _ = std::fs::remove_dir_all(&base);
    }
    http(t, true);
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--daemon") { crate::real_main(); return; }
    if args.get(1).map(String::as_str) == Some("--child") { child(&args[2..]); }
    let pid = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("SEARCH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let mut strs = vec![]; let mut ints = vec![];
    if let Some(s) = std::env::var("SEARCH_LITS").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
        for line in s.lines() {
            if let Some(r) = line.strip_prefix('i') { ints.extend(r.parse::<i128>().ok()); }
            if let Some(r) = line.strip_prefix('s') { strs.extend(sourisdb::serde_json::from_str::<String>(r).ok()); }
        }
    }
    let scratch = PathBuf::from(std::env::var("SEARCH_DIR").unwrap_or_else(|_| "/tmp/search_d".into())).join(format!("run{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut t = T { pid: pid.clone(), rng: Rng::new(seed), pools: pools(&strs, &ints), scale, scratch, cases: 0, deadline: Instant::now(), dirs: 0, samples: 0,
        rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() };
    let pid2 = pid.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let n = NOW.lock().unwrap();
        if n.0.elapsed() > Duration::from_secs(75) {
            println!("FAIL {pid2} / hang\ninput: {}\nresult: it did not end within 75 s", n.1.chars().take(9000).collect::<String>());
            std::process::exit(1);
        }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match pid.as_str() {
        "P16" => p16(&mut t), "P17" => p17(&mut t), "P18" => p18(&mut t, &strs, &ints), "P19" => p19(&mut t),
        _ => { println!("unknown property"); std::process::exit(3); }
    }));
    if let Err(p) = r {
        let p = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        t.fail(&format!("case {} with seed {seed}", t.cases + 1), &format!("panicked: {p}"));
    }
    let _ = std::fs::remove_dir_all(&t.scratch);
    println!("DONE {pid} cases={}", t.cases);
}
#[allow(dead_code)]
fn _unused(_: StatusCode) {}
