//! Bounded search for concrete inputs on which the real code breaks a property.
//! usage: search_db <property>   (env: VERIF_SEED, SEARCH_SECS, SEARCH_LITS, SEARCH_TRACE)
mod gen;
mod ints;
mod codecs;
mod values;
mod polar;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() >> 16) as usize % n }
    }
    pub fn flip(&mut self) -> bool { self.next() & 0x10_0000 != 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn u128(&mut self) -> u128 { ((self.next() as u128) << 64) | self.next() as u128 }
}

/// Literals which were mined from the source being checked, most interesting first.
#[derive(Default, Clone)]
pub struct Lits { pub ints: Vec<i128>, pub strs: Vec<String>, pub floats: Vec<f64> }

pub struct T {
    pub rng: Rng,
    pub lits: Lits,
    pub cases: u64,
    deadline: Instant,
    trace: Option<std::fs::File>,
    pub name: String,
    sub: &'static str,
}

pub type R = Result<(), String>;

impl T {
    pub fn sub(&mut self, s: &'static str) { self.sub = s; }
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline }
    /// restart the time budget of a phase
    pub fn budget(&mut self, secs: f64) {
        let scale: f64 = std::env::var("SEARCH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
        self.deadline = Instant::now() + Duration::from_secs_f64(secs * scale);
    }
    pub fn case(&mut self, describe: impl Fn() -> String, f: impl FnOnce() -> R) {
        self.cases += 1;
        if let Some(t) = &mut self.trace {
            use std::io::Seek;
            let s = format!("{}: {}", self.sub, describe());
            t.set_len(0).unwrap();
            t.rewind().unwrap();
            t.write_all(s.as_bytes()).unwrap();
        }
        STARTED.store(self.cases, std::sync::atomic::Ordering::Relaxed);
        let out = catch_unwind(AssertUnwindSafe(f));
        let msg = match out {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => {
                let p = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panicked: {p}")
            }
        };
        let mut d = describe();
        if d.len() > 6000 { let mut n = 6000; while !d.is_char_boundary(n) { n -= 1; } d.truncate(n); d.push_str("… (cut)"); }
        println!("FAIL {} / {} / case {}\ninput: {}\nresult: {}", self.name, self.sub, self.cases, d, msg);
        std::process::exit(1);
    }
}

static STARTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn ensure(b: bool, m: impl FnOnce() -> String) -> R { if b { Ok(()) } else { Err(m()) } }

fn run(prop: &str, t: &mut T) {
    match prop {
        "P01" => ints::p01(t),
        "P02" => ints::p02(t),
        "P03" => ints::p03(t),
        "P04" => ints::p04(t),
        "P05" => codecs::p05(t),
        "P06" => codecs::p06(t),
        "P07" => codecs::p07(t),
        "P08" => codecs::p08(t),
        "P09" => codecs::p09(t),
        "P10" => values::p10(t),
        "P11" => values::p11(t),
        "P12" => values::p12(t),
        "P13" => values::p13(t),
        "P14" => values::p14(t),
        "P15" => values::p15(t),
        "P22" => values::p22(t),
        "P21" => polar::p21(t),
        _ => { println!("unknown property"); std::process::exit(3); }
    }
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let lits = std::env::var("SEARCH_LITS").ok().and_then(|p| std::fs::read_to_string(p).ok()).map(|s| {
        let mut l = Lits::default();
        for line in s.lines() {
            match line.split_at(1.min(line.len())) {
                ("i", r) => l.ints.extend(r.trim().parse::<i128>().ok()),
                ("f", r) => l.floats.extend(r.trim().parse::<f64>().ok()),
                ("s", r) => { if let Ok(sourisdb::serde_json::Value::String(s)) = sourisdb::serde_json::from_str(r.trim()) { l.strs.push(s) } }
                _ => {}
            }
        }
        l
    }).unwrap_or_default();
    let trace = std::env::var("SEARCH_TRACE").ok().and_then(|p| std::fs::File::create(p).ok());
    //a case that never ends
    let prop2 = prop.clone();
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = STARTED.load(std::sync::atomic::Ordering::Relaxed);
            if now != last.0 { last = (now, Instant::now()); }
            else if now != 0 && last.1.elapsed() > Duration::from_secs(60) {
                println!("HANG {prop2} / case {now}");
                std::process::exit(4);
            }
        }
    });
    let p = prop.clone();
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let mut t = T { rng: Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03), lits, cases: 0, deadline: Instant::now(), trace, name: p.clone(), sub: "" };
        t.budget(10.0);
        run(&p, &mut t);
        t.cases
    }).unwrap();
    match h.join() {
        Ok(n) => println!("DONE {prop} cases={n}"),
        Err(_) => { println!("ERROR the search itself panicked"); std::process::exit(3); }
    }
}
