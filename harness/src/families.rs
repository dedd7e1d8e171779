//! C15: the registry of families
use crate::*;
use rusty_systems::prelude::*;
use rusty_systems::system::family::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

static FRESH: AtomicU64 = AtomicU64::new(0);

/// a name that no other case uses, with the white space of `n` at the same ends
fn salted(n: &str, salt: u64) -> String { let t = n.trim_start(); format!("{}{salt}\u{1}{t}", &n[..n.len() - t.len()]) }

fn fam(tag: &str, own: &str) -> SystemFamily { SystemFamily::define().with_terminal("t", Some("d")).with_production(tag, None).build(own).unwrap() }
fn tag(f: &SystemFamily) -> String { f.productions().map(|p| p.name.clone()).collect::<Vec<_>>().join(",") }
fn describe(i: &mut dyn Iterator<Item = &SymbolDescription>) -> Vec<(String, Option<String>)> { let mut v: Vec<_> = i.map(|d| (d.name.clone(), d.description.clone())).collect(); v.sort(); v }

fn ops(f: &[String]) -> Res {
    // names are made fresh for every case: the registry lives as long as the process
    let salt = FRESH.fetch_add(1, Ordering::SeqCst);
    let mut model: BTreeMap<String, (Arc<SystemFamily>, String, String)> = BTreeMap::new();
    for (k, op) in f.iter().enumerate() {
        let (kind, n) = op.split_once(':').unwrap();
        let blank = n.trim().is_empty();
        let name = if blank { s(n) } else { salted(n, salt) };
        let t = format!("tag{k}");
        let have = model.get(&name).cloned();
        match kind {
            "R" => { // build and register in one go
                let r = SystemFamily::define().with_production(t.as_str(), None).register(&name);
                match (&have, r) {
                    (Some(_), Ok(_)) => return Err(format!("operation {k} ({op}): registering a registered name is not an error")),
                    (Some(_), Err(_)) => {}
                    (None, Ok(_)) if blank => return Err(format!("operation {k} ({op}): a blank name is registered")),
                    (None, Err(e)) => { ensure!(blank, "operation {k} ({op}): registering a fresh name fails: {e}"); }
                    (None, Ok(a)) => { ensure!(tag(&a) == t && a.name() == &name, "operation {k} ({op}): registered as {a:?}"); model.insert(name.clone(), (a, t, name.clone())); }
                }
            }
            "r" => { // register a family built before
                if blank { continue; }
                let r = register(fam(&t, &name));
                match (&have, r) {
                    (Some(_), Ok(_)) => return Err(format!("operation {k} ({op}): registering a registered name is not an error")),
                    (Some(_), Err(_)) => {}
                    (None, Err(e)) => return Err(format!("operation {k} ({op}): registering a fresh name fails: {e}")),
                    (None, Ok(a)) => { ensure!(tag(&a) == t, "operation {k} ({op}): registered as {a:?}"); model.insert(name.clone(), (a, t, name.clone())); }
                }
            }
            "i" | "j" => { // get or initialise; the family may carry another name
                let ran = AtomicUsize::new(0);
                let own = if kind == "i" { name.clone() } else { format!("other{k}\u{1}{salt}") };
                let own2 = if own.trim().is_empty() { s("unnamed") } else { own.clone() };
                if blank { continue; }
                let a = get_or_init_family(&name, || { ran.fetch_add(1, Ordering::SeqCst); fam(&t, &own2) });
                match &have {
                    Some((x, _, _)) => { ensure!(Arc::ptr_eq(x, &a), "operation {k} ({op}): another family than the registered one"); ensure!(ran.load(Ordering::SeqCst) == 0, "operation {k} ({op}): the initialiser ran for a registered name"); }
                    None => {
                        ensure!(ran.load(Ordering::SeqCst) == 1, "operation {k} ({op}): the initialiser ran {} times", ran.load(Ordering::SeqCst));
                        ensure!(tag(&a) == t && a.name() == &own2 && describe(&mut a.terminals()) == [(s("t"), Some(s("d")))], "operation {k} ({op}): registered {a:?}, not what the initialiser returned");
                        model.insert(name.clone(), (a, t, own2));
                    }
                }
            }
            "b" => { // building alone registers nothing
                let r = SystemFamily::define().with_production(t.as_str(), None).build(&name);
                ensure!(r.is_ok() != blank, "operation {k} ({op}): building a family named {n:?} gives {:?}", r.map(|f| f.name().clone()));
            }
            _ => {}
        }
        for (n, (a, t, own)) in &model {
            let g = get_family(n).ok_or(format!("after operation {k} ({op}) the family {n:?} is gone"))?;
            ensure!(Arc::ptr_eq(&g, a), "after operation {k} ({op}) the family {n:?} is another one");
            ensure!(tag(&g) == *t && g.name() == own, "after operation {k} ({op}) the family {n:?} has changed");
            ensure!(family_exists(n), "after operation {k} ({op}) {n:?} does not exist");
            let i = n.as_str().into_family().map_err(s)?;
            let j = n.clone().into_family().map_err(s)?;
            ensure!(Arc::ptr_eq(&i, a) && Arc::ptr_eq(&j, a), "after operation {k} ({op}) {n:?} resolves to another family");
            let y = System::of_family(n.as_str()).map_err(|e| format!("of_family {n:?}: {e}"))?;
            ensure!(rusty_systems::symbols::SymbolStore::get_symbol(&y, t).is_some(), "a system of {n:?} does not know its symbol {t}");
        }
        for n in f.iter().map(|o| o.split_once(':').unwrap().1).chain(["absent"]) {
            let name = if n.trim().is_empty() { s(n) } else { salted(n, salt) };
            if !model.contains_key(&name) {
                ensure!(get_family(&name).is_none() && !family_exists(&name), "after operation {k} ({op}) {n:?} exists, though it was never registered");
                ensure!(name.as_str().into_family().is_err() && System::of_family(name.as_str()).is_err(), "after operation {k} ({op}) {n:?} resolves, though it was never registered");
            }
        }
        for j in 0..=k { let other = format!("other{j}\u{1}{salt}"); ensure!(get_family(&other).is_none(), "after operation {k} ({op}) the initialiser's own name is registered"); }
    }
    Ok(())
}
/// nobody keeps the families that are registered: the registry does
fn kept(f: &[String]) -> Res {
    let salt = FRESH.fetch_add(1, Ordering::SeqCst);
    let mut model: BTreeMap<String, (std::sync::Weak<SystemFamily>, String)> = BTreeMap::new();
    for (k, op) in f.iter().enumerate() {
        let (kind, n) = op.split_once(':').unwrap();
        let name = salted(n, salt);
        let t = format!("tag{k}");
        let a = match kind {
            "R" => SystemFamily::define().with_production(t.as_str(), None).register(&name).ok(),
            "r" => register(fam(&t, &name)).ok(),
            "i" => Some(get_or_init_family(&name, || fam(&t, &name))),
            "s" => { let _ = System::of_family(name.as_str()); get_family(&name) }
            _ => get_family(&name),
        };
        match (model.get(&name), a) {
            (Some((w, t0)), Some(a)) => ensure!(w.upgrade().is_some_and(|x| Arc::ptr_eq(&x, &a)) && tag(&a) == *t0, "operation {k} ({op}): {n:?} is not the family registered first"),
            (Some(_), None) => ensure!("Rr".contains(kind), "operation {k} ({op}): the registered family {n:?} is gone"),
            (None, Some(a)) => { ensure!("Rri".contains(kind), "operation {k} ({op}): {n:?} was never registered"); model.insert(name.clone(), (Arc::downgrade(&a), t)); }
            (None, None) => ensure!(!"Rri".contains(kind), "operation {k} ({op}): a fresh name is not registered"),
        }
    }
    for (n, (w, t)) in &model {
        let g = get_family(n).ok_or(format!("the family {n:?} is gone, when nobody else has it"))?;
        ensure!(tag(&g) == *t && w.upgrade().is_some_and(|x| Arc::ptr_eq(&x, &g)), "the family {n:?} is another one");
    }
    Ok(())
}
fn symbols(f: &[String]) -> Res {
    let mut b = SystemFamily::define();
    let (mut t, mut p): (HashMap<String, Option<String>>, HashMap<String, Option<String>>) = Default::default();
    for x in &f[1..] {
        let d: Vec<&str> = x.splitn(3, ':').collect();
        let desc = if d[2] == "~" { None } else { Some(d[2]) };
        b = if d[0] == "t" { t.insert(s(d[1]), desc.map(s)); b.with_terminal(d[1], desc) } else { p.insert(s(d[1]), desc.map(s)); b.with_production(d[1], desc) };
    }
    let fam = b.build("a name").map_err(s)?;
    let sorted = |m: &HashMap<String, Option<String>>| { let mut v: Vec<_> = m.clone().into_iter().collect(); v.sort(); v };
    ensure!(fam.name() == "a name", "the family is named {:?}", fam.name());
    ensure!(describe(&mut fam.terminals()) == sorted(&t), "terminals are {:?}, expected {:?}", describe(&mut fam.terminals()), sorted(&t));
    ensure!(describe(&mut fam.productions()) == sorted(&p), "productions are {:?}, expected {:?}", describe(&mut fam.productions()), sorted(&p));
    let mut all = sorted(&t); all.extend(sorted(&p)); all.sort();
    ensure!(describe(&mut fam.symbols()) == all, "symbols are {:?}, expected {all:?}", describe(&mut fam.symbols()));
    Ok(())
}
fn threads(f: &[String]) -> Res {
    let n: usize = f[1].parse().unwrap();
    let rounds: usize = f[2].parse().unwrap();
    let salt = FRESH.fetch_add(1, Ordering::SeqCst);
    let bar = Arc::new(Barrier::new(n));
    let inits: Arc<Vec<AtomicUsize>> = Arc::new((0..rounds).map(|_| AtomicUsize::new(0)).collect());
    let wins: Arc<Vec<AtomicUsize>> = Arc::new((0..rounds).map(|_| AtomicUsize::new(0)).collect());
    let got: Arc<Mutex<Vec<Vec<Arc<SystemFamily>>>>> = Arc::new(Mutex::new(vec![vec![]; rounds]));
    let hs: Vec<_> = (0..n).map(|t| {
        let (bar, inits, wins, got) = (bar.clone(), inits.clone(), wins.clone(), got.clone());
        std::thread::spawn(move || -> Res {
            for k in 0..rounds {
                let name = format!("thr{k}\u{1}{salt}");
                bar.wait();
                let a = match (k % 3, t % 2) {
                    (0, _) | (2, 0) => Some(get_or_init_family(&name, || { inits[k].fetch_add(1, Ordering::SeqCst); fam(&format!("by{t}"), &name) })),
                    (1, 0) => SystemFamily::define().with_production("by", None).register(&name).ok().inspect(|_| { wins[k].fetch_add(1, Ordering::SeqCst); }),
                    _ => register(fam(&format!("by{t}"), &name)).ok().inspect(|_| { wins[k].fetch_add(1, Ordering::SeqCst); }),
                };
                if let Some(a) = a { got.lock().unwrap()[k].push(a); }
                let g = get_family(&name).ok_or(format!("thread {t}: {name:?} is missing after registering it"))?;
                got.lock().unwrap()[k].push(g);
            }
            Ok(())
        })
    }).collect();
    for h in hs { h.join().map_err(|_| s("thread panicked"))??; }
    let got = got.lock().unwrap();
    for k in 0..rounds {
        let (i, w) = (inits[k].load(Ordering::SeqCst), wins[k].load(Ordering::SeqCst));
        ensure!(i + w == 1, "round {k}: one name was registered {w} times and initialised {i} times");
        ensure!(got[k].iter().all(|a| Arc::ptr_eq(a, &got[k][0])), "round {k}: threads see different families under one name");
    }
    Ok(())
}

pub fn check(f: &[String]) -> Res { match f[0].as_str() { "ops" => ops(&f[1..]), "symbols" => symbols(f), "kept" => kept(&f[1..]), "threads" => threads(f), _ => unreachable!() } }

pub fn gen(g: &mut Gen) {
    let kinds = ["R", "r", "i", "j", "b", "g"];
    let ns = ["a", "b", " a", "a ", "A", "\ta", "a\n", "a b", "a  b", "\u{3000}a", "a\u{a0}", "é", "e\u{301}", "a/b", "a.b", "a-b", "a_b"];
    for x in ns { for y in ns { for (p, q) in [("R", "R"), ("r", "i"), ("i", "R"), ("R", "r"), ("j", "i")] { g.each(&[s("ops"), format!("{p}:{x}"), format!("{q}:{y}"), format!("i:{x}"), format!("g:{y}")]); } } }
    for a in kinds { for b in kinds { for c in kinds { for n in ["a", "b"] { g.each(&[s("ops"), format!("{a}:a"), format!("{b}:{n}"), format!("{c}:a")]); } } } }
    for a in ["R", "r", "i", "s", "g"] { for b in ["R", "r", "i", "s", "g"] { for c in ["R", "r", "i"] { for n in ["a", "b"] { g.each(&[s("kept"), format!("{a}:a"), format!("{b}:{n}"), format!("{c}:c"), s("g:a")]); } } } }
    for n in [20, 70, 300] { let mut f = vec![s("kept")]; for k in 0..n { f.push(format!("{}:n{k}", ["R", "r", "i"][k % 3])); } g.each(&f); }
    for a in kinds { for n in ["", " ", "\t\n", "\u{3000}", "x", " x ", "é"] { g.each(&[s("ops"), format!("{a}:{n}"), format!("{a}:{n}")]); } }
    for _ in 0..g.count(2500) { let r = &mut g.rng; let n = r.range(3, 12); let mut f = vec![s("ops")]; for _ in 0..n { f.push(format!("{}:{}", kinds[r.below(6)], if r.chance(1, 12) { ["", " "][r.below(2)] } else { ns[r.below(if n > 8 { 17 } else { 5 })] })); } g.one(&f); }
    for _ in 0..g.count(2500) { let r = &mut g.rng; let mut f = vec![s("symbols")]; let m = if r.chance(1, 10) { 60 } else { 9 }; for _ in 0..r.below(m) { f.push(format!("{}:{}:{}", ["t", "p"][r.below(2)], ["A", "B", "C", "D", "é", "", " A"][r.below(7)], ["~", "one", "two", ""][r.below(4)])); } g.one(&f); }
    for k in 0..g.count(40) { g.one(&[s("threads"), s(2 + k % 7), s(60)]); }
}
