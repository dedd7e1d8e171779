//! vh: searches for an input on which /repo's code, called through its public API, breaks a property.
//! Every oracle here is written from the text of the property, not from the code.
//!
//!   vh search C07 --seed 1 --tier quick --shard 0/4 --state DIR   (exit 0: nothing found, 1: DIR/fail holds a failing case)
//!   vh replay C07 FILE                                            (exit 0: the case passes, 1: it fails)
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub mod util;
mod rewriting;
mod chance;
mod systems;
mod parsing;
mod turtle;
mod shapes;
mod families;
mod tool;
mod errors;
mod axioms;

pub use util::*;

pub type Res = Result<(), String>;

pub fn check(prop: &str, f: &[String]) -> Res {
    match prop {
        "C01" | "C02" | "C03" | "C17" | "C18" => rewriting::check(prop, f),
        "C04" => chance::check(f),
        "C05" | "C06" | "C19" => systems::check(prop, f),
        "C07" | "C08" | "C09" | "C14" => parsing::check(prop, f),
        "C10" | "C11" | "C16" => turtle::check(prop, f),
        "C12" | "C13" => shapes::check(prop, f),
        "C15" => families::check(f),
        "C20" => tool::check(f),
        "C21" => errors::check(f),
        _ => panic!("no property {prop}"),
    }
}

fn gen(prop: &str, g: &mut Gen) {
    match prop {
        "C01" | "C02" | "C03" | "C17" | "C18" => rewriting::gen(prop, g),
        "C04" => chance::gen(g),
        "C05" | "C06" | "C19" => systems::gen(prop, g),
        "C07" | "C08" | "C09" | "C14" => parsing::gen(prop, g),
        "C10" | "C11" | "C16" => turtle::gen(prop, g),
        "C12" | "C13" => shapes::gen(prop, g),
        "C15" => families::gen(g),
        "C20" => tool::gen(g),
        "C21" => errors::gen(g),
        _ => panic!("no property {prop}"),
    }
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<Vec<String>>> = Mutex::new(None);

fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

pub struct Gen {
    pub prop: String,
    pub rng: Rng,
    pub thorough: bool,
    pub deep: bool,
    shard: u64,
    shards: u64,
    counter: u64,
    pub ran: u64,
    seen: std::collections::HashSet<u64>,
    samples: Vec<String>,
    state: std::path::PathBuf,
    cur: std::fs::File,
}

impl Gen {
    /// One case of an enumeration: dealt out over the shards.
    pub fn each(&mut self, f: &[String]) {
        self.counter += 1;
        if self.counter % self.shards == self.shard { self.one(f); }
    }
    /// One random case: every shard has its own stream.
    pub fn one(&mut self, f: &[String]) {
        use std::os::unix::fs::FileExt;
        self.ran += 1;
        let text = encode(f);
        let mut rec = format!("{:016}\n", text.len()).into_bytes();
        rec.extend_from_slice(text.as_bytes());
        self.cur.write_all_at(&rec, 0).unwrap();
        CASE_START.store(now_ms(), Ordering::SeqCst);
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        if self.seen.len() < 3_000_000 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); text.hash(&mut h); self.seen.insert(h.finish()); }
        if [3, 401, 5003].contains(&self.ran) { self.samples.push(text.chars().take(300).collect()); }
        *CURRENT.lock().unwrap() = Some(f.to_vec());
        if let Err(e) = guarded(&self.prop, f) { report(&self.state, f, &e); }
        CASE_START.store(0, Ordering::SeqCst);
    }
    /// how many random cases to run
    pub fn count(&self, quick: u64) -> u64 {
        let quick = quick * match self.prop.as_str() { "C02" => 1, "C05" | "C06" | "C15" => 3, _ => 6 };
        let n = quick * if self.deep { if self.prop == "C06" { 40 } else { 100 } } else if self.thorough { 12 } else { 1 };
        (n / self.shards).max(1)
    }
    /// 0-based index of this shard
    pub fn is_shard(&self, n: u64) -> bool { n % self.shards == self.shard }
}

fn guarded(prop: &str, f: &[String]) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(prop, f))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned()).unwrap_or("?".into());
            Err(format!("panicked: {m}"))
        }
    }
}

fn report(state: &std::path::Path, f: &[String], e: &str) -> ! {
    let mut out = std::fs::File::create(state.join("fail.tmp")).unwrap();
    out.write_all(format!("{}\n--\n{e}\n", encode(f)).as_bytes()).unwrap();
    drop(out);
    std::fs::rename(state.join("fail.tmp"), state.join("fail")).unwrap();
    std::process::exit(1)
}

fn println_draws(n: &str) { print!("{}", chance::draws(n.parse().unwrap())); }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.into());
    std::panic::set_hook(Box::new(|_| {}));
    let prop = args[2].clone();
    let limit_ms: u64 = get("--case-limit", "20000").parse().unwrap();
    match args[1].as_str() {
        "axioms" => { let _ = std::panic::take_hook(); axioms::run() }
        "draws" => println_draws(&args[2]),
        "replay" => {
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let case = decode(text.split("\n--\n").next().unwrap());
            let (p, c) = (prop.clone(), case.clone());
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = tx.send(guarded(&p, &c)); }).unwrap();
            let r = rx.recv_timeout(std::time::Duration::from_millis(limit_ms)).unwrap_or(Err("does not terminate (time limit)".into()));
            println!("input: {}", encode(&case));
            match r { Ok(()) => { println!("passes"); } Err(e) => { println!("FAILS: {e}"); std::process::exit(1); } }
        }
        "search" => {
            let state = std::path::PathBuf::from(get("--state", "."));
            std::fs::create_dir_all(&state).unwrap();
            let shard = get("--shard", "0/1");
            let (a, b) = shard.split_once('/').unwrap();
            let (shard, shards): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
            let seed: u64 = get("--seed", "1").parse().unwrap();
            let cur = std::fs::File::create(state.join("current")).unwrap();
            let mut g = Gen { prop: prop.clone(), rng: Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(shard * 7919 + 17)), thorough: get("--tier", "quick") != "quick", deep: get("--tier", "quick") == "deep", shard, shards, counter: 0, ran: 0, seen: Default::default(), samples: vec![], state: state.clone(), cur };
            let st2 = state.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let s = CASE_START.load(Ordering::SeqCst);
                let n = CASE_NO.load(Ordering::SeqCst);
                if s != 0 && now_ms().saturating_sub(s) > limit_ms && CASE_NO.load(Ordering::SeqCst) == n {
                    let f = CURRENT.lock().unwrap().clone().unwrap();
                    report(&st2, &f, "does not terminate (time limit)");
                }
            });
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { gen(&prop, &mut g); (g.ran, g.seen.len(), g.samples) }).unwrap();
            match t.join() {
                Ok((ran, counter, samples)) => {
                    std::fs::write(state.join("samples"), samples.join("\n")).unwrap();
                    let _ = std::fs::remove_file(state.join("current"));
                    std::fs::write(state.join("done"), format!("{ran} {counter}\n")).unwrap();
                }
                Err(_) => { eprintln!("harness generator panicked"); std::process::exit(3); }
            }
        }
        _ => panic!("usage"),
    }
}
